// Mask algebra, reductions and element access. VH_T: element type.
#include "abis.hpp"
using namespace vh;
#ifndef VH_ABIS
#define VH_ABIS typename abis_of<VH_T>::type
#endif
using Bits = std::array<bool, 64>;

/** Builds a mask element by element in an object whose padding holds all zeros / all ones. */
template<typename M> VH_NOINLINE void mput(M &m, const Bits &b, int pad)
{
	std::memset(static_cast<void *>(&m), pad, sizeof(M));
	for (std::size_t i = 0; i < M::size(); ++i) m[i] = b[i];
	keep(m);
}
/** The same by other means: from memory, or by negation of the opposite mask. */
template<typename M> VH_NOINLINE void mput_alt(M &m, const Bits &b, int way)
{
	if (way == 0) m = M{b.data(), dpm::element_aligned};
	else
	{
		Bits n;
		for (std::size_t i = 0; i < 64; ++i) n[i] = !b[i];
		M t{n.data(), dpm::element_aligned};
		keep(t);
		m = way == 1 ? !t : ~t;
	}
	keep(m);
}
template<typename M> VH_NOINLINE void mget(const M &m, Bits &b)
{
	for (std::size_t i = 0; i < M::size(); ++i) b[i] = m[i];
}
inline std::string str(const Bits &b, std::size_t n)
{
	std::string s;
	for (std::size_t i = 0; i < n; ++i) s += b[i] ? '1' : '0';
	return s;
}
inline Bits pattern(Rng &r, std::size_t n, long it, bool exhaustive)
{
	Bits b{};
	if (exhaustive) { for (std::size_t i = 0; i < n; ++i) b[i] = (it >> i) & 1; return b; }
	const std::size_t k = r.below(n), l = r.below(n);
	switch (it < 4 * static_cast<long>(n) ? it / static_cast<long>(n) : 4 + static_cast<long>(r.below(5)))
	{
		case 0: b[it % n] = true; break;
		case 1: for (std::size_t i = 0; i < n; ++i) b[i] = i != it % n; break;
		case 2: for (std::size_t i = 0; i < n; ++i) b[i] = i <= it % n; break;
		case 3: for (std::size_t i = 0; i < n; ++i) b[i] = i > it % n; break;
		case 4: b[k] = b[l] = true; break;
		case 5: for (std::size_t i = 0; i < n; ++i) b[i] = i != k && i != l; break;
		case 6: { const u64 x = r.next() & r.next() & r.next(); for (std::size_t i = 0; i < n; ++i) b[i] = x >> i & 1; break; }
		case 7: { const u64 x = r.next() | r.next() | r.next(); for (std::size_t i = 0; i < n; ++i) b[i] = x >> i & 1; break; }
		default: { const u64 x = r.next(); for (std::size_t i = 0; i < n; ++i) b[i] = x >> i & 1; }
	}
	return b;
}
inline u64 key(const Bits &b, std::size_t n) { u64 k = 0; for (std::size_t i = 0; i < n; ++i) k |= u64(b[i]) << i; return k; }

struct MaskResult { Bits n, nn, p, m, a, o, x, la, lo, eq, ne, ca, co, cx, eidx; u64 red[7]; };
template<typename M> VH_NOINLINE void ops(const M &a, const M &b, MaskResult &r)
{
	mget<M>(~a, r.n); mget<M>(!a, r.nn); mget<M>(+a, r.p); mget<M>(-a, r.m);
	mget<M>(a & b, r.a); mget<M>(a | b, r.o); mget<M>(a ^ b, r.x); mget<M>(a && b, r.la); mget<M>(a || b, r.lo); mget<M>(a == b, r.eq); mget<M>(a != b, r.ne);
	M t = a; t &= b; mget(t, r.ca);
	t = a; t |= b; mget(t, r.co);
	t = a; t ^= b; mget(t, r.cx);
}
template<typename M> VH_NOINLINE void reds(const M &a, u64 *r, bool any)
{
	r[0] = dpm::all_of(a); r[1] = dpm::any_of(a); r[2] = dpm::none_of(a); r[3] = dpm::some_of(a); r[4] = dpm::reduce_count(a);
	if (any) { r[5] = dpm::reduce_min_index(a); r[6] = dpm::reduce_max_index(a); }
}
template<typename M> VH_NOINLINE void setref(M &m, std::size_t i, bool v, int how)
{
	auto &&e = m[i];
	bool t = v;
	using std::swap;
	switch (how)
	{
		case 0: e = v; break;
		case 1: e |= v; break;
		case 2: e &= v; break;
		case 3: e ^= v; break;
		default: swap(e, t); break;
	}
	keep(m);
}
template<typename M> VH_NOINLINE void bcast(M &m, bool v) { m = M(v); keep(m); }

template<typename T, typename Abi> VH_NOINLINE void run()
{
	using M = dpm::simd_mask<T, Abi>;
	constexpr std::size_t N = M::size();
	static const char *names[] = {"mask_algebra", "mask_reduce", "mask_element", "mask_broadcast"};
	Cell c0(names[0], tname<T>(), abiname<Abi>::get()), c1(names[1], tname<T>(), abiname<Abi>::get()), c2(names[2], tname<T>(), abiname<Abi>::get()), c3(names[3], tname<T>(), abiname<Abi>::get());
	Rng r(opt().seed ^ hash_str(tname<T>()) ^ (hash_str(c0.abi.c_str()) << 1));
	const bool small = N <= 12;
	const long iters = std::max<long>(small ? 1l << N : 0, opt().iters);
	c0.enter();
	for (long it = 0; it < iters; ++it)
	{
		const Bits a = pattern(r, N, it, small && it < (1l << N)), b = pattern(r, N, r.next() % iters, false);
		alignas(64) unsigned char raw[sizeof(M) + 64];
		M ma, mb;
		if (it % 7 < 4) mput(ma, a, it & 1 ? 0xff : 0); else mput_alt(ma, a, it % 3);
		if (it % 5 < 3) mput(mb, b, it & 2 ? 0xff : 0); else mput_alt(mb, b, (it + 1) % 3);
		MaskResult q;
		ops(ma, mb, q);
		++c0.calls;
		c0.classes.insert(key(a, N) ^ key(b, N) << 1);
		for (std::size_t i = 0; i < N; ++i)
		{
			c0.lanes += 14;
			const bool x = a[i], y = b[i];
			const bool got[] = {q.n[i], q.nn[i], q.p[i], q.m[i], q.a[i], q.o[i], q.x[i], q.la[i], q.lo[i], q.eq[i], q.ne[i], q.ca[i], q.co[i], q.cx[i]};
			const bool want[] = {!x, !x, x, !x, x && y, x || y, x != y, x && y, x || y, x == y, x != y, x && y, x || y, x != y};
			static const char *nm[] = {"~", "!", "+", "-", "&", "|", "^", "&&", "||", "==", "!=", "&=", "|=", "^="};
			for (int k = 0; k < 14; ++k)
			{
				c0.mix(got[k]);
				if (got[k] != want[k]) c0.fail(nm[k], std::string("operator") + nm[k] + " element " + std::to_string(i) + " a=" + str(a, N) + " b=" + str(b, N) + " got " + show(got[k]));
			}
		}
		// reductions: of the built mask, and of the result of an operator
		for (int k = 0; k < 4; ++k)
		{
			M m = k == 0 ? ma : k == 1 ? !ma : k == 2 ? (ma ^ mb) : (ma == mb);
			Bits w{};
			for (std::size_t i = 0; i < N; ++i) w[i] = k == 0 ? a[i] : k == 1 ? !a[i] : k == 2 ? a[i] != b[i] : a[i] == b[i];
			keep(m);
			u64 cnt = 0, lo = 0, hi = 0;
			for (std::size_t i = N; i-- > 0;) if (w[i]) { ++cnt; lo = i; if (cnt == 1) hi = i; }
			u64 got[7] = {};
			reds(m, got, cnt != 0);
			const u64 want[7] = {cnt == N, cnt != 0, cnt == 0, cnt != 0 && cnt != N, cnt, lo, hi};
			static const char *nm[] = {"all_of", "any_of", "none_of", "some_of", "reduce_count", "reduce_min_index", "reduce_max_index"};
			++c1.calls;
			c1.classes.insert(key(w, N));
			for (int j = 0; j < 7; ++j)
			{
				++c1.lanes;
				c1.mix(got[j]);
				if (got[j] != want[j]) c1.fail(nm[j], std::string(nm[j]) + " of " + str(w, N) + " got " + std::to_string(got[j]) + " want " + std::to_string(want[j]) + (k ? " (operator result)" : ""));
			}
		}
		// one element
		{
			M m = ma;
			const std::size_t i = r.below(N);
			const bool v = r.next() & 1;
			const int how = static_cast<int>(it % 5);
			setref(m, i, v, how);
			Bits w = a, g{};
			w[i] = how == 0 || how == 4 ? v : how == 1 ? w[i] | v : how == 2 ? w[i] & v : w[i] ^ v;
			mget(m, g);
			++c2.calls;
			c2.classes.insert(i * 16 + how * 2 + v);
			for (std::size_t j = 0; j < N; ++j)
			{
				++c2.lanes;
				if (g[j] != w[j]) c2.fail("element", "writing " + show(v) + " to element " + std::to_string(i) + " (way " + std::to_string(how) + ") of " + str(a, N) + " gives " + str(g, N));
			}
			u64 q2[7] = {};
			reds(m, q2, false);
			u64 cnt = 0;
			for (std::size_t j = 0; j < N; ++j) cnt += w[j];
			if (q2[4] != cnt || q2[0] != (cnt == N)) c2.fail("element-reduce", "after writing element " + std::to_string(i) + " of " + str(a, N) + ": count " + std::to_string(q2[4]) + " want " + std::to_string(cnt));
		}
		if (it < 4)
		{
			M m;
			bcast(m, it & 1);
			Bits g{};
			mget(m, g);
			++c3.calls;
			c3.classes.insert(it & 1);
			for (std::size_t j = 0; j < N; ++j) { ++c3.lanes; if (g[j] != bool(it & 1)) c3.fail("broadcast", "broadcast of " + std::to_string(it & 1) + " gives " + str(g, N)); }
			if (dpm::all_of(m) != bool(it & 1) || dpm::reduce_count(m) != (it & 1 ? N : 0)) c3.fail("broadcast-reduce", "reductions of a broadcast mask");
		}
		(void) raw;
	}
}
template<typename T, typename... A> void all(list<A...>) { (run<T, A>(), ...); }
static void scalars()
{
	Cell c("bool_reductions", "bool", "scalar");
	for (bool b : {false, true})
	{
		++c.calls;
		c.classes.insert(b);
		const u64 got[] = {dpm::all_of(b), dpm::any_of(b), dpm::none_of(b), dpm::some_of(b), dpm::reduce_count(b), dpm::reduce_min_index(b), dpm::reduce_max_index(b)}, want[] = {b, b, !b, 0, b, 0, 0};
		for (int i = 0; i < 7; ++i) { ++c.lanes; if (got[i] != want[i]) c.fail("bool", "reduction " + std::to_string(i) + " of " + show(b)); }
	}
}
int main(int c, char **v)
{
	parse(c, v);
	all<VH_T>(VH_ABIS{});
	scalars();
	finish();
}
