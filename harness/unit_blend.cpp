// Blend of vectors, masks and scalars. VH_T: element type.
#include "abis.hpp"
using namespace vh;
#ifndef VH_ABIS
#define VH_ABIS typename abis_of<VH_T>::type
#endif
template<typename V, typename M, typename E> VH_NOINLINE void k(const bool *sel, const E *a, const E *b, E *out, int pad, int mpad, int way)
{
	V va, vb;
	M m;
	put(va, a, pad);
	put(vb, b, pad ^ 0xff);
	if (way == 1) m = M{sel, dpm::element_aligned};
	else put(m, sel, mpad);
	if (way == 2) m = !!m;
	keep(va); keep(vb); keep(m);
	auto r = dpm::blend(m, va, vb);
	static_assert(std::is_same_v<decltype(r), V>);
	keep(r);
	get(r, out);
}
template<typename T> T pattern(Rng &r)
{
	if constexpr (std::is_same_v<T, bool>) return r.next() & 1;
	else if constexpr (sizeof(T) > 8) return any<T>(r);
	else return (r.next() & 3) ? from_bits<T>(r.next()) : any<T>(r);
}
template<typename E> void drive(const char *name, const char *type, const std::string &abi, std::size_t N, void (*kern)(const bool *, const E *, const E *, E *, int, int, int))
{
	Cell c(name, type, abi);
	if (!c.selected()) return;
	c.enter();
	Rng r(opt().seed ^ hash_str(type) ^ (hash_str(abi.c_str()) << 1));
	bool sel[64];
	E a[64], b[64], out[64];
	const bool small = N <= 12;
	const long iters = std::max<long>(small ? 1l << N : 0, opt().iters);
	for (long it = 0; it < iters; ++it)
	{
		const u64 x = small && it < (1l << N) ? it : it % 5 == 0 ? u64(1) << r.below(N) : it % 5 == 1 ? ~(u64(1) << r.below(N)) : r.next();
		for (std::size_t i = 0; i < N; ++i) { sel[i] = x >> (i % 64) & 1; a[i] = pattern<E>(r); b[i] = (r.next() & 7) ? pattern<E>(r) : a[i]; }
		kern(sel, a, b, out, std::is_same_v<E, bool> ? (it & 1 ? 0xff : 0) : pads[it % 5], it & 2 ? 0xff : 0, static_cast<int>(it % 3));
		++c.calls;
		c.lanes += N;
		c.classes.insert(x & (N >= 64 ? ~0ull : (u64(1) << N) - 1));
		for (std::size_t i = 0; i < N; ++i)
		{
			const E w = sel[i] ? a[i] : b[i];
			c.mix(bits(out[i]));
			if (bits(out[i]) != bits(w)) c.fail("value", "element " + std::to_string(i) + " mask " + std::to_string(sel[i]) + " a=" + show(a[i]) + " b=" + show(b[i]) + " got " + show(out[i]));
		}
	}
}
template<typename T, typename Abi> void run()
{
	using V = dpm::simd<T, Abi>;
	using M = dpm::simd_mask<T, Abi>;
	drive<T>("blend", tname<T>(), abiname<Abi>::get(), V::size(), k<V, M, T>);
	drive<bool>("blend_mask", tname<T>(), abiname<Abi>::get(), V::size(), k<M, M, bool>);
}
template<typename T, typename... A> void all(list<A...>) { (run<T, A>(), ...); }
int main(int c, char **v)
{
	parse(c, v);
	all<VH_T>(VH_ABIS{});
	{
		Cell s("blend_scalar", tname<VH_T>(), "scalar");
		Rng r(opt().seed);
		for (int i = 0; i < 200; ++i)
		{
			VH_T a = any<VH_T>(r), b = any<VH_T>(r);
			++s.calls; s.lanes += 2; s.classes.insert(vclass(a));
			if (!same(dpm::blend(true, a, b), a) || !same(dpm::blend(false, a, b), b)) s.fail("value", "blend(bool, " + show(a) + ", " + show(b) + ")");
		}
	}
	finish();
}
