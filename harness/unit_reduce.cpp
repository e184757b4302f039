// Horizontal reductions. VH_T: element type.
#include "abis.hpp"
#include <functional>
using namespace vh;
template<typename T> struct red_abis { using type = typename abis_of<T>::type; };
#ifndef VH_ABIS
#define VH_ABIS typename red_abis<VH_T>::type
#endif
template<typename T> using wide = std::conditional_t<std::is_floating_point_v<T>, T, u64>;
enum Kind { ADD, MUL, MIN, MAX, AND, OR, XOR };
template<typename V, typename T, int Op> VH_NOINLINE T k(const T *in, int pad)
{
	V x;
	put(x, in, pad);
	keep(x);
	if constexpr (Op == 0) return dpm::reduce(x);
	else if constexpr (Op == 1) return dpm::reduce(x, std::plus<>{});
	else if constexpr (Op == 2) return dpm::reduce(x, std::plus<T>{});
	else if constexpr (Op == 3) return dpm::ext::hadd(x);
	else if constexpr (Op == 4) return dpm::reduce(x, std::multiplies<>{});
	else if constexpr (Op == 5) return dpm::reduce(x, std::multiplies<T>{});
	else if constexpr (Op == 6) return dpm::ext::hmul(x);
	else if constexpr (Op == 7) return dpm::reduce_min(x);
	else if constexpr (Op == 8) return dpm::reduce_max(x);
	else if constexpr (Op == 9) return dpm::reduce(x, [](T a, T b) -> T { return a < b ? a : b; });
	else if constexpr (Op == 10) return dpm::reduce(x, [](auto a, auto b) -> T { return a < b ? b : a; });
	else if constexpr (Op == 11) return dpm::reduce(x, std::bit_and<>{});
	else if constexpr (Op == 12) return dpm::reduce(x, std::bit_or<>{});
	else if constexpr (Op == 13) return dpm::reduce(x, std::bit_xor<>{});
	else if constexpr (Op == 14) return dpm::ext::hand(x);
	else if constexpr (Op == 15) return dpm::ext::hor(x);
	else if constexpr (Op == 16) return dpm::ext::hxor(x);
	else if constexpr (Op == 17) return dpm::reduce(x, std::bit_and<T>{});
	else if constexpr (Op == 18) return dpm::reduce(x, std::bit_or<T>{});
	else return dpm::reduce(x, std::bit_xor<T>{});
}
static const char *names[] = {"reduce", "reduce_plus", "reduce_plusT", "hadd", "reduce_multiplies", "reduce_multipliesT", "hmul", "reduce_min", "reduce_max", "reduce_fn_min", "reduce_fn_max", "reduce_and", "reduce_or", "reduce_xor", "hand", "hor", "hxor", "reduce_andT", "reduce_orT", "reduce_xorT"};
static const Kind kinds[] = {ADD, ADD, ADD, ADD, MUL, MUL, MUL, MIN, MAX, MIN, MAX, AND, OR, XOR, AND, OR, XOR, AND, OR, XOR};
template<typename T> VH_NOINLINE void drive(int op, const std::string &abi, std::size_t N, T (*kern)(const T *, int))
{
	Cell c(names[op], tname<T>(), abi);
	if (!c.selected()) return;
	c.enter();
	const Kind kind = kinds[op];
	constexpr bool fp = std::is_floating_point_v<T>;
	Rng r(opt().seed ^ hash_str(tname<T>()) ^ (hash_str(abi.c_str()) << 1) ^ kind * 977);
	T in[64];
	for (long it = 0; it < opt().iters; ++it)
	{
		bool exact = true;
		const u64 how = it < static_cast<long>(N) ? 0 : 1 + r.below(6);
		if (kind == ADD || kind == MUL)
		{
			if (how == 0) // one element differs from the identity
			{
				for (std::size_t i = 0; i < N; ++i) in[i] = kind == ADD ? T(0) : T(1);
				in[it % N] = T(3 + it % 97);
			}
			else if (how == 1 && kind == ADD) // distinct powers of two: every subset of the elements has its own sum
			{
				for (std::size_t i = 0; i < N; ++i) in[i] = T(0);
				const std::size_t m = std::min<std::size_t>(N, fp ? 20 : std::numeric_limits<T>::digits - 1), o = r.below(N);
				for (std::size_t i = 0; i < m; ++i) in[(o + i) % N] = static_cast<T>(u64(1) << i);
			}
			else if constexpr (fp)
			{
				if (how == 2 || how == 3) // small integers: every order gives the same result
				{
					for (std::size_t i = 0; i < N; ++i) in[i] = kind == ADD ? static_cast<T>(static_cast<int>(r.below(2001)) - 1000) : (r.below(N) < 8 ? static_cast<T>(static_cast<int>(r.below(4)) + 1) * (r.next() & 1 ? 1 : -1) : T(1));
					if (kind == MUL && how == 3) for (std::size_t i = 0; i < N; ++i) in[i] = std::ldexp(r.next() & 1 ? T(1) : T(-1), static_cast<int>(r.below(5)) - 2);
				}
				else if (how == 4 && kind == ADD) { for (std::size_t i = 0; i < N; ++i) in[i] = static_cast<T>(r.below(100)); in[r.below(N)] = (r.next() & 1 ? 1 : -1) * std::numeric_limits<T>::infinity(); }
				else if (how == 5) { for (std::size_t i = 0; i < N; ++i) in[i] = static_cast<T>(r.below(100)); in[r.below(N)] = std::numeric_limits<T>::quiet_NaN(); }
				else { exact = false; for (std::size_t i = 0; i < N; ++i) in[i] = std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), -63 + (kind == ADD ? static_cast<int>(r.below(40)) : static_cast<int>(r.below(3)))); }
				// repeated multiplication by small integers stays exact
				if (kind == MUL && how == 2) { int left = 10; for (std::size_t i = 0; i < N; ++i) if (in[i] != 1 && in[i] != -1 && left-- <= 0) in[i] = T(1); }
			}
			else if (kind == ADD)
			{
				// every order is free of overflow (for types which promote to int any value is)
				const bool any_ok = std::is_unsigned_v<T> || sizeof(T) < 4;
				for (std::size_t i = 0; i < N; ++i) in[i] = any_ok ? any<T>(r) : static_cast<T>(any<T>(r) / static_cast<T>(64));
			}
			else if (how <= 3 && !std::is_same_v<T, std::uint16_t> && (std::is_unsigned_v<T> || sizeof(T) < 4))
				for (std::size_t i = 0; i < N; ++i) in[i] = r.below(3) ? static_cast<T>(any<T>(r) | 1) : static_cast<T>(r.below(5) + 1);
			else
			{
				for (std::size_t i = 0; i < N; ++i) in[i] = T(1);
				const int h = std::min(std::numeric_limits<T>::digits, 31) / 2;
				in[r.below(N)] = static_cast<T>(r.next() & ((u64(1) << h) - 1));
				if (std::numeric_limits<T>::digits == 63) in[r.below(N)] = static_cast<T>(-static_cast<std::int64_t>(r.next() >> 18));
				else in[r.below(N)] = static_cast<T>(r.next() & ((u64(1) << h) - 1));
			}
		}
		else for (std::size_t i = 0; i < N; ++i)
		{
			T x = how == 1 ? static_cast<T>(r.below(5)) : any<T>(r);
			if constexpr (fp)
			{
				if (isnan_(x)) x = T(1);
				if (x == 0) x = T(0); // the sign of a zero minimum is not specified by the fold
				if (how == 2) x = std::numeric_limits<T>::infinity() * (it & 1 ? 1 : -1);
				if (how == 3) x = (it & 1 ? 1 : -1) * std::numeric_limits<T>::max();
			}
			else
			{
				if (how == 2) x = it & 1 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
				if (how == 3) x = static_cast<T>(kind == AND ? ~(u64(1) << r.below(sizeof(T) * 8)) : u64(1) << r.below(sizeof(T) * 8));
			}
			in[i] = x;
		}
		const T got = kern(in, pads[it % 5]);
		++c.calls; ++c.lanes;
		c.classes.insert(how * 4096 + vclass(in[it % N]) * 8 + it % N % 8);
		c.mix(bits(got));
		auto text = [&] { std::string l; for (std::size_t i = 0; i < N; ++i) l += (i ? "," : "") + show(in[i]); return l; };
		if constexpr (fp)
		{
			if (kind == ADD || kind == MUL)
			{
				long double s = kind == ADD ? 0 : 1, mag = 0;
				bool nan = false;
				for (std::size_t i = 0; i < N; ++i) { nan |= isnan_(in[i]); if (kind == ADD) s += in[i], mag += std::fabs(static_cast<long double>(in[i])); else s *= in[i]; }
				if (kind == MUL) mag = std::fabs(s);
				nan |= s != s;
				bool ok;
				if (nan) ok = isnan_(got);
				else if (std::isinf(s)) ok = got == static_cast<T>(s);
				else if (exact) ok = static_cast<long double>(got) == s;
				else
				{
					const long double tol = (N + 1) * mag * std::numeric_limits<T>::epsilon();
					ok = mag < std::numeric_limits<T>::min() * 1e4L || mag > std::numeric_limits<T>::max() * 0.5L || std::fabs(static_cast<long double>(got) - s) <= tol;
				}
				if (!ok) c.fail("value", "got " + show(got) + " want " + show(s) + (exact ? "" : " (up to rounding)") + " of " + text());
			}
			else
			{
				T w = in[0];
				for (std::size_t i = 1; i < N; ++i) w = kind == MIN ? (in[i] < w ? in[i] : w) : (w < in[i] ? in[i] : w);
				if (!same(got, w)) c.fail("value", "got " + show(got) + " want " + show(w) + " of " + text());
			}
		}
		else
		{
			T w = in[0];
			for (std::size_t i = 1; i < N; ++i)
				switch (kind)
				{
					case ADD: w = static_cast<T>(static_cast<u64>(w) + static_cast<u64>(in[i])); break;
					case MUL: w = static_cast<T>(static_cast<u64>(w) * static_cast<u64>(in[i])); break;
					case MIN: w = in[i] < w ? in[i] : w; break;
					case MAX: w = w < in[i] ? in[i] : w; break;
					case AND: w = static_cast<T>(w & in[i]); break;
					case OR: w = static_cast<T>(w | in[i]); break;
					case XOR: w = static_cast<T>(w ^ in[i]); break;
				}
			if (got != w) c.fail("value", "got " + show(got) + " want " + show(w) + " of " + text());
		}
	}
}
template<typename T, typename Abi> void run()
{
	using V = dpm::simd<T, Abi>;
	[&]<int... O>(std::integer_sequence<int, O...>) { (drive<T>(O, abiname<Abi>::get(), V::size(), k<V, T, O>), ...); }(std::make_integer_sequence<int, std::is_floating_point_v<T> ? 11 : 20>{});
}
template<typename T, typename... A> void all(list<A...>) { (run<T, A>(), ...); }
int main(int c, char **v)
{
	parse(c, v);
	all<VH_T>(VH_ABIS{});
	finish();
}
