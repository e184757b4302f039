// Conversions of vectors and masks. VH_T: source element type, VH_U: comma list of destination element types.
#include "conv.hpp"
#include <utility>
using namespace vh;
template<typename V, int How, typename U, typename OAbi> struct how;
template<typename T, typename Abi, int How, typename U, typename O> struct how<dpm::simd<T, Abi>, How, U, O>
{
	using V = dpm::simd<T, Abi>;
	static constexpr std::size_t N = V::size();
	static auto conv(const V &x)
	{
		using D = dpm::simd<U, O>;
		if constexpr (How == 0) return dpm::simd_cast<U>(x);
		else if constexpr (How == 1) return dpm::static_simd_cast<U>(x);
		else if constexpr (How == 2) return dpm::simd_cast<D>(x);
		else if constexpr (How == 3) return dpm::static_simd_cast<D>(x);
		else if constexpr (How == 4) { D r = x; return r; }
		else if constexpr (How == 5) return static_cast<D>(x);
		else if constexpr (How == 6) return dpm::to_fixed_size(x);
		else if constexpr (How == 7) return dpm::to_native(x);
		else if constexpr (How == 8) return dpm::to_compatible(x);
		else { D r(U(1)); r = x; return r; }
	}
	static VH_NOINLINE void k(const T *in, U *out, T *after, int pad)
	{
		V x;
		put(x, in, pad);
		keep(x);
		auto r = conv(x);
		static_assert(decltype(r)::size() == N && std::is_same_v<typename decltype(r)::value_type, U>);
		keep(r); keep(x);
		get(r, out);
		get(x, after);
	}
};
template<typename T, typename Abi, int How, typename U, typename O> struct how<dpm::simd_mask<T, Abi>, How, U, O>
{
	using M = dpm::simd_mask<T, Abi>;
	static constexpr std::size_t N = M::size();
	static auto conv(const M &x)
	{
		using D = dpm::simd_mask<U, O>;
		if constexpr (How == 4) { D r = x; return r; }
		else if constexpr (How == 5) return static_cast<D>(x);
		else if constexpr (How == 6) return dpm::to_fixed_size(x);
		else if constexpr (How == 7) return dpm::to_native(x);
		else if constexpr (How == 8) return dpm::to_compatible(x);
		else { D r(true); r = x; return r; }
	}
	static VH_NOINLINE void k(const bool *in, bool *out, bool *after, int pad)
	{
		M x;
		put(x, in, pad);
		keep(x);
		auto r = conv(x);
		static_assert(decltype(r)::size() == N);
		keep(r); keep(x);
		get(r, out);
		get(x, after);
	}
};
static const char *hows[] = {"simd_cast", "static_simd_cast", "simd_cast_to", "static_simd_cast_to", "implicit", "explicit", "to_fixed_size", "to_native", "to_compatible", "assign"};
template<typename U, typename T> VH_NOINLINE void drive(Cell &c, const std::string &dst, std::size_t N, void (*kern)(const T *, U *, T *, int))
{
	Rng r(opt().seed ^ hash_str(tname<T>()) * 3 ^ hash_str(tname<U>()) ^ N);
	T in[64], after[64];
	U out[64];
	static const std::vector<T> sp = specials<T>();
	std::size_t next = 0;
	for (long it = 0; it < opt().iters; ++it)
	{
		for (std::size_t i = 0; i < N; ++i)
		{
			if (next < sp.size() && !conv_ok<U>(sp[next])) { while (next < sp.size() && !conv_ok<U>(sp[next])) ++next; }
			in[i] = next < sp.size() ? sp[next++] : hard_convertible<U, T>(r);
		}
		kern(in, out, after, std::is_same_v<T, bool> ? (it & 1 ? 0xff : 0) : pads[it % 5]);
		++c.calls;
		c.lanes += N;
		for (std::size_t i = 0; i < N; ++i)
		{
			const volatile T v = in[i];
			const U want = static_cast<U>(v);
			c.mix(bits(out[i]));
			if (it < 64 || i == it % N) c.classes.insert(vclass(in[i]) * 8 + i % 8);
			if (!same(out[i], want)) c.fail("value", "to " + dst + ": element " + std::to_string(i) + " of " + show(in[i]) + " got " + show(out[i]) + " want " + show(want));
			if (!same(after[i], in[i])) c.fail("source", "to " + dst + ": source element " + std::to_string(i) + " changed from " + show(in[i]) + " to " + show(after[i]));
		}
	}
}
template<typename T, typename Abi, int How, typename U, typename O> void one(bool mask = false)
{
	const std::string d = std::string(tname<U>()) + (How == 0 || How == 1 || (How >= 6 && How <= 8) ? "" : "/" + abiname<O>::get());
	if (mask)
	{
		Cell c(std::string("mask_") + hows[How], tname<T>(), abiname<Abi>::get());
		if (c.selected()) { c.enter(); drive<bool, bool>(c, d, dpm::simd<T, Abi>::size(), how<dpm::simd_mask<T, Abi>, How, U, O>::k); }
	}
	else
	{
		Cell c(std::string(hows[How]) + ">" + tname<U>(), tname<T>(), abiname<Abi>::get());
		if (c.selected()) { c.enter(); drive<U, T>(c, d, dpm::simd<T, Abi>::size(), how<dpm::simd<T, Abi>, How, U, O>::k); }
	}
}
template<typename T, typename Abi, typename U, typename O> void between()
{
	one<T, Abi, 2, U, O>();
	one<T, Abi, 3, U, O>();
	if constexpr (std::is_convertible_v<dpm::simd<T, Abi>, dpm::simd<U, O>>) { one<T, Abi, 4, U, O>(); one<T, Abi, 9, U, O>(); }
	if constexpr (std::is_constructible_v<dpm::simd<U, O>, dpm::simd<T, Abi>>) one<T, Abi, 5, U, O>();
	if constexpr (std::is_convertible_v<dpm::simd_mask<T, Abi>, dpm::simd_mask<U, O>>) { one<T, Abi, 4, U, O>(true); one<T, Abi, 9, U, O>(true); }
	if constexpr (std::is_constructible_v<dpm::simd_mask<U, O>, dpm::simd_mask<T, Abi>>) one<T, Abi, 5, U, O>(true);
}
template<typename T, typename Abi, typename U> void to()
{
	constexpr std::size_t N = dpm::simd<T, Abi>::size();
	one<T, Abi, 0, U, Abi>();
	one<T, Abi, 1, U, Abi>();
	between<T, Abi, U, fs<N>>();
	between<T, Abi, U, pk<N>>();
	between<T, Abi, U, av<N, 16>>();
	between<T, Abi, U, av<N, 32>>();
	if constexpr (N == 1) between<T, Abi, U, sc>();
}
template<typename T, typename Abi> void run()
{
	constexpr std::size_t N = dpm::simd<T, Abi>::size();
	one<T, Abi, 6, T, Abi>(); one<T, Abi, 6, T, Abi>(true);
	if constexpr (N == dpm::native_simd<T>::size()) { one<T, Abi, 7, T, Abi>(); one<T, Abi, 7, T, Abi>(true); }
	if constexpr (N == dpm::simd<T>::size()) { one<T, Abi, 8, T, Abi>(); one<T, Abi, 8, T, Abi>(true); }
	[&]<typename... U>(list<U...>) { (to<T, Abi, U>(), ...); }(list<VH_U>{});
}
#ifdef VH_FEW
template<typename T> struct cast_abis { using type = list<fs<2>, fs<4>, fs<13>, av<5, 32>>; };
template<typename T> requires (sizeof(T) <= 2) struct cast_abis<T> { using type = list<fs<8>, fs<19>, fs<32>, av<6, 16>>; };
#else
template<typename T> struct cast_abis { using type = list<sc, fs<2>, fs<4>, fs<8>, fs<13>, av<6, 16>, av<5, 32>, pk<5>>; };
template<typename T> requires (sizeof(T) <= 2) struct cast_abis<T> { using type = list<sc, fs<2>, fs<8>, fs<16>, fs<19>, fs<32>, av<6, 16>, av<21, 32>, pk<5>>; };
#endif
template<typename T, typename... A> void all(list<A...>) { (run<T, A>(), ...); }
int main(int c, char **v)
{
	parse(c, v);
	all<VH_T>(typename cast_abis<VH_T>::type{});
	finish();
}
