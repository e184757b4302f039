// Every element count: the same few operations for all vectors of VH_LO..VH_HI elements (default: up to 64 bytes and one more).
// VH_T: element type; VH_G: which group of operations; VH_U: other element type (memory, conversions).
#include "abis.hpp"
#include <functional>
#include <sys/mman.h>
#include <utility>
using namespace vh;
#ifndef VH_U
#define VH_U VH_T
#endif
#ifndef VH_AL
#define VH_AL 0, 16, 32
#endif
using T = VH_T;
using U = VH_U;
constexpr std::size_t top = 64 / sizeof(T) < 64 ? 64 / sizeof(T) + 1 : 64;
constexpr bool fp = std::is_floating_point_v<T>;
constexpr std::size_t CAP = 80;
[[maybe_unused]] static T tame(Rng &r)
{
	if constexpr (fp) return static_cast<T>(static_cast<int>(r.below(2001)) - 1000);
	else return any<T>(r);
}

// ------------------------------------------------------------------ masks
struct Mask
{
	static constexpr const char *name = "sweep_mask";
	using Fn = void (*)(const bool *, bool *, u64 *, int, int);
	template<typename Abi> VH_NOINLINE static void k(const bool *in, bool *out, u64 *red, int pad, int way)
	{
		using M = dpm::simd_mask<T, Abi>;
		M m;
		if (way == 1) m = M{in, dpm::element_aligned};
		else put(m, in, pad);
		if (way == 2) m = !m;
		keep(m);
		red[0] = dpm::all_of(m); red[1] = dpm::any_of(m); red[2] = dpm::none_of(m); red[3] = dpm::some_of(m); red[4] = dpm::reduce_count(m);
		red[5] = red[6] = 999;
		if (red[1]) { red[5] = dpm::reduce_min_index(m); red[6] = dpm::reduce_max_index(m); }
		std::memset(out, 2, CAP);
		m.copy_to(out, dpm::element_aligned);
	}
	static void drive(Cell &c, Rng &r, std::size_t N, Fn f)
	{
		bool in[CAP] = {}, out[CAP];
		u64 red[7];
		const long n = std::max<long>(opt().iters, 4 * static_cast<long>(N) + 8);
		for (long it = 0; it < n; ++it)
		{
			const long fam = it < 4 * static_cast<long>(N) ? it / static_cast<long>(N) : 4 + it % 4;
			const std::size_t p = it % N;
			for (std::size_t i = 0; i < N; ++i)
				switch (fam)
				{
					case 0: in[i] = i == p; break;
					case 1: in[i] = i != p; break;
					case 2: in[i] = i <= p; break;
					case 3: in[i] = i > p; break;
					case 4: in[i] = false; break;
					case 5: in[i] = true; break;
					default: in[i] = r.next() & 1; break;
				}
			const int way = static_cast<int>(it / 2 % 3);
			f(in, out, red, it & 1 ? 0xff : 0, way);
			u64 count = 0, lo = 999, hi = 999;
			for (std::size_t i = 0; i < N; ++i) if (in[i] != (way == 2)) { ++count; hi = i; if (lo == 999) lo = i; }
			const u64 want[] = {count == N, count != 0, count == 0, count != 0 && count != N, count, lo, hi};
			static const char *nm[] = {"all_of", "any_of", "none_of", "some_of", "count", "min_index", "max_index"};
			++c.calls; c.lanes += 7 + N;
			c.classes.insert(fam * 100 + p);
			auto text = [&] { std::string s = " of "; for (std::size_t i = 0; i < N; ++i) s += (in[i] != (way == 2)) ? '1' : '0'; return s; };
			for (int j = 0; j < 7; ++j)
			{
				c.mix(red[j]);
				if (red[j] != want[j]) c.fail(nm[j], "got " + std::to_string(red[j]) + " want " + std::to_string(want[j]) + text());
			}
			unsigned char raw[CAP];
			std::memcpy(raw, out, CAP);
			for (std::size_t i = 0; i < CAP; ++i)
			{
				const int w = i < N ? (in[i] != (way == 2)) : 2;
				if (raw[i] != w) c.fail("copy_to", "element " + std::to_string(i) + " stored " + std::to_string(raw[i]) + " want " + std::to_string(w) + text());
			}
		}
	}
};

// ------------------------------------------------------------------ reductions
struct Red
{
	static constexpr const char *name = "sweep_reduce";
	static constexpr int K = fp ? 4 : 7;
	using Fn = void (*)(const T *, T *, int);
	template<typename Abi> VH_NOINLINE static void k(const T *in, T *out, int pad)
	{
		using V = dpm::simd<T, Abi>;
		V x;
		put(x, in, pad);
		keep(x);
		out[0] = dpm::reduce(x, std::plus<>{});
		out[1] = dpm::reduce_min(x);
		out[2] = dpm::reduce_max(x);
		out[3] = dpm::reduce(x, std::multiplies<>{});
		if constexpr (!fp) { out[4] = dpm::reduce(x, std::bit_and<>{}); out[5] = dpm::reduce(x, std::bit_or<>{}); out[6] = dpm::reduce(x, std::bit_xor<>{}); }
	}
	template<typename E> static void bit(E *w, E x)
	{
		if constexpr (!fp) { w[4] = static_cast<E>(w[4] & x); w[5] = static_cast<E>(w[5] | x); w[6] = static_cast<E>(w[6] ^ x); }
	}
	static T mul(T a, T b)
	{
		if constexpr (fp) return a * b;
		else return static_cast<T>(static_cast<u64>(a) * static_cast<u64>(b));
	}
	static void drive(Cell &c, Rng &r, std::size_t N, Fn f)
	{
		T in[CAP], got[7], w[7];
		static const char *nm[] = {"plus", "min", "max", "multiplies", "and", "or", "xor"};
		const long n = std::max<long>(opt().iters, 3 * static_cast<long>(N) + 8);
		for (long it = 0; it < n; ++it)
		{
			const std::size_t p = it % N;
			const long fam = it < 3 * static_cast<long>(N) ? it / static_cast<long>(N) : 3 + it % 2;
			for (std::size_t i = 0; i < N; ++i)
			{
				if (fam == 0) in[i] = i == p ? T(3 + it % 4) : T(1);
				else if (fam == 1) in[i] = i == p ? T(0) : T(1);
				else if (fam == 2) in[i] = i == p ? T(5) : T(2 - (i & 1));
				else if constexpr (fp) in[i] = fam == 3 ? static_cast<T>(static_cast<int>(r.below(2001)) - 1000) : std::ldexp(T(r.next() & 1 ? 1 : -1), static_cast<int>(r.below(3)) - 1);
				else if (std::is_signed_v<T> && sizeof(T) >= 4) in[i] = static_cast<T>(static_cast<T>(r.below(1000)) - 500); // no overflow in the sum
				else in[i] = any<T>(r);
			}
			const bool mulok = fp ? fam != 3 : fam < 2 || ((std::is_unsigned_v<T> || sizeof(T) == 1) && sizeof(T) != 2);
			if (!mulok && fam != 2) for (std::size_t i = 0; i < N; ++i) if (in[i] == T(0)) in[i] = T(1);
			w[0] = w[1] = w[2] = w[3] = w[4] = w[5] = w[6] = in[0];
			for (std::size_t i = 1; i < N; ++i)
			{
				if constexpr (fp) w[0] += in[i]; else w[0] = static_cast<T>(static_cast<u64>(w[0]) + static_cast<u64>(in[i]));
				w[1] = in[i] < w[1] ? in[i] : w[1];
				w[2] = w[2] < in[i] ? in[i] : w[2];
				w[3] = mul(w[3], in[i]);
				bit(w, in[i]);
			}
			f(in, got, pads[it % 5]);
			++c.calls; c.lanes += K;
			c.classes.insert(fam * 100 + p);
			for (int j = 0; j < K; ++j)
			{
				if (j == 3 && !mulok) continue;
				c.mix(bits(got[j]));
				if (!same(got[j], w[j]))
				{
					if (fp && got[j] == w[j]) continue; // which zero
					std::string s;
					for (std::size_t i = 0; i < N; ++i) s += (i ? "," : "") + show(in[i]);
					c.fail(nm[j], "got " + show(got[j]) + " want " + show(w[j]) + " of " + s);
				}
			}
		}
	}
};

// ------------------------------------------------------------------ memory
struct Mem
{
	static constexpr const char *name = "sweep_mem";
	using Fn = void (*)(const U *, const bool *, U *, T *, U *, T *, U *, U *, int);
	template<typename Abi> VH_NOINLINE static void k(const U *src, const bool *sel, U *full, T *loaded, U *part, T *gathered, U *rt, U *scat, int pad)
	{
		using V = dpm::simd<T, Abi>;
		constexpr std::size_t N = V::size();
		V x;
		std::memset(static_cast<void *>(&x), pad, sizeof x);
		x.copy_from(src, dpm::element_aligned);
		keep(x);
		get(x, loaded);
		x.copy_to(full, dpm::element_aligned);
		typename V::mask_type m{sel, dpm::element_aligned};
		keep(m);
		V y = x;
		for (std::size_t i = 0; i < N; ++i) y[i] = T(7);
		keep(y);
		y.copy_from(src, m, dpm::element_aligned);
		keep(y);
		get(y, gathered);
		x.copy_to(part, m, dpm::element_aligned);
		V z{src, dpm::element_aligned};
		z.copy_to(rt, dpm::element_aligned);
		(void) scat;
	}
	static constexpr std::size_t page = 4096;
	/** A page between two inaccessible ones. */
	static U *area()
	{
		char *p = static_cast<char *>(mmap(nullptr, 3 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (p == MAP_FAILED || mprotect(p + page, page, PROT_READ | PROT_WRITE)) { std::perror("mmap"); std::exit(3); }
		return reinterpret_cast<U *>(p + page);
	}
	static U value(Rng &r)
	{
		// every value is exact in both types
		return static_cast<U>(static_cast<int>(r.below(120)) + 1);
	}
	static void drive(Cell &c, Rng &r, std::size_t N, Fn f)
	{
		const long n = std::max<long>(opt().iters, 2 * static_cast<long>(N) + 8);
		U *const psrc = area(), *const pfull = area(), *const ppart = area(), *const prt = area();
		static U full[CAP], part[CAP], rt[CAP], scat[1];
		static T loaded[CAP], gathered[CAP];
		bool sel[CAP] = {};
		for (long it = 0; it < n; ++it)
		{
			const std::size_t p = it % N;
			const long fam = it < 2 * static_cast<long>(N) ? it / static_cast<long>(N) : 2;
			// the first element right behind, or the last one right before an inaccessible page
			const std::size_t off = it & 1 ? 0 : page / sizeof(U) - N;
			U *const src = psrc + off;
			for (std::size_t i = 0; i < N; ++i) { src[i] = std::is_same_v<T, U> && fam == 2 ? static_cast<U>(any<T>(r)) : value(r); sel[i] = fam == 0 ? i == p : fam == 1 ? i != p : r.next() & 1; }
			for (U *a : {pfull, ppart, prt}) std::memset(static_cast<void *>(a), 0x5a, page);
			f(src, sel, pfull + off, loaded, ppart + off, gathered, prt + off, scat, pads[it % 5]);
			// what was stored, and what lies next to it on the accessible side
			auto fetch = [&](const U *a, U *to) { for (std::size_t i = 0; i < CAP; ++i) std::memcpy(static_cast<void *>(to + i), a + (it & 1 ? i : (page / sizeof(U) + i - N) - (i < N ? 0 : CAP)), sizeof(U)); };
			fetch(pfull, full); fetch(ppart, part); fetch(prt, rt);
			++c.calls; c.lanes += 5 * N;
			c.classes.insert(fam * 100 + p);
			U clean;
			std::memset(static_cast<void *>(&clean), 0x5a, sizeof clean);
			auto eq = [](const U &a, const U &b) { return std::memcmp(&a, &b, sizeof a) == 0 || (isnan_(a) && isnan_(b)); };
			for (std::size_t i = 0; i < CAP; ++i)
			{
				auto bad = [&](const char *w) { c.fail(w, "element " + std::to_string(i) + " of " + std::to_string(N) + (i < N && sel[i] ? " selected" : "") + ", source " + show(src[i < N ? i : 0]) + ", family " + std::to_string(fam) + " position " + std::to_string(p)); };
				if (!eq(full[i], i < N ? src[i] : clean)) bad("copy_to");
				if (!eq(rt[i], i < N ? src[i] : clean)) bad("construct");
				if (!eq(part[i], i < N && sel[i] ? src[i] : clean)) bad("masked copy_to");
				if (i < N)
				{
					c.mix(bits(loaded[i]));
					if (!same(loaded[i], static_cast<T>(src[i]))) bad("copy_from");
					if (!same(gathered[i], sel[i] ? static_cast<T>(src[i]) : T(7))) bad("masked copy_from");
				}
			}
		}
	}
};

// ------------------------------------------------------------------ shuffles with fixed index lists
struct Shuf
{
	static constexpr const char *name = "sweep_shuffle";
	static constexpr int K = 4;
	static constexpr std::size_t index(int F, std::size_t N, std::size_t i)
	{
		return F == 0 ? N - 1 - i : F == 1 ? (i + 1) % N : F == 2 ? (i + N / 2 + 1) % N : (i * 7 + i * i * 3 + N) % N;
	}
	using Fn = void (*)(const T *, T (*)[CAP], int);
	template<typename V, int F, std::size_t... I> static void shuf(const V &x, T (*out)[CAP], std::index_sequence<I...>)
	{
		auto r = dpm::ext::shuffle<index(F, sizeof...(I), I)...>(x);
		keep(r);
		get(r, out[F]);
	}
	template<typename Abi> VH_NOINLINE static void k(const T *in, T (*out)[CAP], int pad)
	{
		using V = dpm::simd<T, Abi>;
		constexpr std::size_t N = V::size();
		V x;
		put(x, in, pad);
		keep(x);
		shuf<V, 0>(x, out, std::make_index_sequence<N>{}); shuf<V, 1>(x, out, std::make_index_sequence<N>{}); shuf<V, 2>(x, out, std::make_index_sequence<N>{}); shuf<V, 3>(x, out, std::make_index_sequence<N>{});
	}
	static void drive(Cell &c, Rng &r, std::size_t N, Fn f)
	{
		static T in[CAP], out[K][CAP];
		for (long it = 0; it < opt().iters; ++it)
		{
			for (std::size_t i = 0; i < N; ++i) in[i] = it ? any<T>(r) : static_cast<T>(i + 1);
			f(in, out, pads[it % 5]);
			++c.calls; c.lanes += K * N;
			for (int F = 0; F < K; ++F)
				for (std::size_t i = 0; i < N; ++i)
				{
					c.mix(bits(out[F][i]));
					c.classes.insert(F * 100 + i);
					if (!same(out[F][i], in[index(F, N, i)])) c.fail("list" + std::to_string(F), "element " + std::to_string(i) + " of " + std::to_string(N) + ": got " + show(out[F][i]) + " want element " + std::to_string(index(F, N, i)) + " = " + show(in[index(F, N, i)]));
				}
		}
	}
};

// ------------------------------------------------------------------ element-wise operations, comparison, blend
struct Elem
{
	static constexpr const char *name = "sweep_elementwise";
	using Fn = void (*)(const T *, const T *, T (*)[CAP], bool *, int);
	static constexpr int K = 7;
	template<typename Abi> VH_NOINLINE static void k(const T *a, const T *b, T (*out)[CAP], bool *lt, int pad)
	{
		using V = dpm::simd<T, Abi>;
		V x, y;
		put(x, a, pad);
		put(y, b, pad ^ 0xff);
		keep(x); keep(y);
		V s = x + y; keep(s); get(s, out[0]);
		V d = x - y; keep(d); get(d, out[1]);
		V lo = dpm::min(x, y); keep(lo); get(lo, out[2]);
		V n = -x; keep(n); get(n, out[3]);
		auto m = x < y; keep(m); get(m, lt);
		V bl = dpm::blend(m, x, y); keep(bl); get(bl, out[4]);
		V w = dpm::blend(!m, x, y); keep(w); get(w, out[5]);
		V q = y;
		q -= x; keep(q); get(q, out[6]);
	}
	static T add(T a, T b) { if constexpr (fp) return a + b; else return static_cast<T>(static_cast<u64>(a) + static_cast<u64>(b)); }
	static T sub(T a, T b) { if constexpr (fp) return a - b; else return static_cast<T>(static_cast<u64>(a) - static_cast<u64>(b)); }
	static void drive(Cell &c, Rng &r, std::size_t N, Fn f)
	{
		static T a[CAP], b[CAP], out[K][CAP];
		static bool lt[CAP];
		static const char *nm[] = {"+", "-", "min", "unary -", "blend", "blend of the negated mask", "-="};
		for (long it = 0; it < opt().iters; ++it)
		{
			for (std::size_t i = 0; i < N; ++i)
			{
				do { a[i] = any<T>(r); } while (isnan_(a[i]));
				do { b[i] = r.below(6) ? any<T>(r) : a[i]; } while (isnan_(b[i]));
				if constexpr (!fp && std::is_signed_v<T> && sizeof(T) >= 4) { a[i] /= 4; b[i] /= 4; }
			}
			f(a, b, out, lt, pads[it % 5]);
			++c.calls; c.lanes += (K + 1) * N;
			for (std::size_t i = 0; i < N; ++i)
			{
				const bool l = a[i] < b[i];
				const T neg = fp ? T(-a[i]) : sub(T(0), a[i]);
				const T want[] = {add(a[i], b[i]), sub(a[i], b[i]), l ? a[i] : b[i], neg, l ? a[i] : b[i], l ? b[i] : a[i], sub(b[i], a[i])};
				c.classes.insert(i * 4 + l);
				if (lt[i] != l) c.fail("<", "element " + std::to_string(i) + " of " + std::to_string(N) + ": " + show(a[i]) + " < " + show(b[i]) + " gave " + std::to_string(lt[i]));
				for (int j = 0; j < K; ++j)
				{
					c.mix(bits(out[j][i]));
					if (!same(out[j][i], want[j]) && !(j == 2 && out[j][i] == want[j])) c.fail(nm[j], "element " + std::to_string(i) + " of " + std::to_string(N) + ": a=" + show(a[i]) + " b=" + show(b[i]) + " got " + show(out[j][i]) + " want " + show(want[j]));
				}
			}
		}
	}
};

// ------------------------------------------------------------------ conversions
struct Cast
{
	static constexpr const char *name = "sweep_cast";
	using Fn = void (*)(const T *, const bool *, U *, T *, bool *, T *, int);
	template<typename Abi> VH_NOINLINE static void k(const T *in, const bool *sel, U *out, T *back, bool *ms, T *halves, int pad)
	{
		using V = dpm::simd<T, Abi>;
		constexpr std::size_t N = V::size();
		using W = dpm::simd<U, dpm::simd_abi::fixed_size<N>>;
		V x;
		put(x, in, pad);
		keep(x);
		auto w = dpm::static_simd_cast<W>(x);
		keep(w);
		get(w, out);
		auto v = dpm::static_simd_cast<V>(w);
		keep(v);
		get(v, back);
		typename V::mask_type m{sel, dpm::element_aligned};
		keep(m);
		typename W::mask_type mw(m);
		keep(mw);
		get(mw, ms);
		auto fx = dpm::to_fixed_size(x);
		static_assert(std::is_same_v<typename decltype(fx)::abi_type, dpm::simd_abi::fixed_size<N>>);
		keep(fx);
		get(fx, halves);
	}
	static void drive(Cell &c, Rng &r, std::size_t N, Fn f)
	{
		static T in[CAP], back[CAP], halves[CAP];
		static U out[CAP];
		static bool sel[CAP], ms[CAP];
		for (long it = 0; it < opt().iters; ++it)
		{
			for (std::size_t i = 0; i < N; ++i)
			{
				in[i] = static_cast<T>(static_cast<int>(r.below(127)) - (std::is_signed_v<T> && std::is_signed_v<U> ? 63 : 0));
				if constexpr (!fp && !std::is_floating_point_v<U>) if (it & 1) in[i] = any<T>(r);
				sel[i] = it < static_cast<long>(N) ? i == static_cast<std::size_t>(it) : r.next() & 1;
			}
			f(in, sel, out, back, ms, halves, pads[it % 5]);
			++c.calls; c.lanes += 4 * N;
			for (std::size_t i = 0; i < N; ++i)
			{
				auto bad = [&](const char *w) { c.fail(w, "element " + std::to_string(i) + " of " + std::to_string(N) + ": " + show(in[i]) + " gave " + show(out[i]) + ", back " + show(back[i]) + ", fixed size " + show(halves[i]) + ", mask " + std::to_string(sel[i]) + " gave " + std::to_string(ms[i])); };
				c.classes.insert(i);
				c.mix(bits(out[i]));
				const U w = static_cast<U>(in[i]);
				if (!same(out[i], w)) bad("cast");
				if (!same(back[i], static_cast<T>(w))) bad("cast back");
				if (ms[i] != sel[i]) bad("mask cast");
				if (!same(halves[i], in[i])) bad("to_fixed_size");
			}
		}
	}
};

template<class G, std::size_t N, std::size_t A> VH_NOINLINE void one()
{
	if constexpr (A == 0 || N > 1)
	{
		using Abi = std::conditional_t<A == 0, fs<N>, av<N, A>>;
		Cell c(std::string(G::name) + (std::is_same_v<T, U> ? "" : std::string("_") + tname<U>()), tname<T>(), abiname<Abi>::get());
		if (!c.selected()) return;
		c.enter();
		Rng r(opt().seed ^ hash_str(G::name) ^ (hash_str(tname<T>()) << 1) ^ N * 1031 ^ A * 77);
		G::drive(c, r, N, G::template k<Abi>);
	}
}
template<class G, std::size_t... A> void all()
{
#ifndef VH_LO
#define VH_LO 1
#endif
#ifndef VH_HI
#define VH_HI top
#endif
	[]<std::size_t... N>(std::index_sequence<N...>) { (([]<std::size_t M>(std::integral_constant<std::size_t, M>) { (one<G, M, A>(), ...); }(std::integral_constant<std::size_t, VH_LO + N>{})), ...); }(std::make_index_sequence<VH_HI - VH_LO + 1>{});
}
int main(int c, char **v)
{
	parse(c, v);
	all<VH_G, VH_AL>();
	finish();
}
