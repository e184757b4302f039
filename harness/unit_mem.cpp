// Memory transfers: guard pages around the array, canaries in the page, every alignment tag, masks, conversions.
// VH_T: element type, VH_U: comma separated memory types.
#include "conv.hpp"
#include <csetjmp>
#include <csignal>
#include <memory>
#include <span>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define VH_ASAN 1
#else
#define VH_ASAN 0
#endif
using namespace vh;
#ifndef VH_ABIS
#define VH_ABIS typename abis_of<VH_T>::type
#endif

static unsigned char *lo, *hi;
static constexpr std::size_t PG = 4096;
static sigjmp_buf jb;
static volatile sig_atomic_t armed;
static void *volatile fault;
static void onsegv(int s, siginfo_t *i, void *)
{
	if (!armed) { signal(s, SIG_DFL); raise(s); return; }
	fault = i->si_addr;
	siglongjmp(jb, s);
}
static void arena()
{
	auto *p = static_cast<unsigned char *>(mmap(nullptr, 3 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	if (p == MAP_FAILED || mprotect(p + PG, PG, PROT_READ | PROT_WRITE)) std::abort();
	lo = p + PG; hi = lo + PG;
	struct sigaction a = {};
	a.sa_sigaction = onsegv;
	a.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSEGV, &a, nullptr);
	sigaction(SIGBUS, &a, nullptr);
}
static void poison(const void *p, std::size_t n)
{
#if VH_ASAN
	__asan_poison_memory_region(lo, PG);
	__asan_unpoison_memory_region(p, n);
#endif
}
static void unpoison()
{
#if VH_ASAN
	__asan_unpoison_memory_region(lo, PG);
#endif
}
/** Runs f with faults turned into a report. */
template<typename F> VH_NOINLINE bool guarded(F &&f)
{
	if (sigsetjmp(jb, 1)) { armed = 0; unpoison(); return false; }
	f();
	return true;
}
static std::string faultpos(const void *base)
{
	return "access at byte offset " + std::to_string(static_cast<const char *>(fault) - static_cast<const char *>(base)) + " from the array";
}
static unsigned char expect[PG];
static void canaries(Rng &r)
{
	u64 x = r.next();
	for (std::size_t i = 0; i < PG; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; std::memcpy(lo + i, &x, 8); }
}
static std::string firstdiff(const void *p)
{
	for (std::size_t i = 0; i < PG; ++i)
		if (lo[i] != expect[i]) return "byte at offset " + std::to_string(lo + i - static_cast<const unsigned char *>(p)) + " changed to " + std::to_string(lo[i]) + ", expected " + std::to_string(expect[i]);
	return "";
}

template<typename U> void wr(void *p, std::size_t i, U v) { std::memcpy(static_cast<char *>(p) + i * sizeof(U), &v, sizeof v); }

/** The kernels of one (vector or mask, memory type, flag); everything else is compiled once per pair of element types. */
template<typename E, typename U> struct Kern
{
	std::size_t n, al;
	bool mask, elem;
	std::string what, abi, type;
	void (*load)(const E *, int, const U *, int, E *);
	void (*store)(const E *, int, U *, int);
	void (*mload)(const E *, int, const bool *, int, const U *, int, E *);
	void (*mstore)(const E *, int, const bool *, int, U *);
};
template<typename V, typename U, typename F, typename E> VH_NOINLINE void k_load(const E *init, int pad, const U *p, int way, E *out)
{
	V v;
	put(v, init, pad);
	armed = 1;
	if (way == 0) { V t(p, F{}); v = t; }
	else if (way == 1) v.copy_from(p, F{});
	else v.copy_from(std::span<const U>(p, V::size()).begin(), F{});
	keep(v);
	armed = 0;
	get(v, out);
}
template<typename V, typename U, typename F, typename E> VH_NOINLINE void k_store(const E *init, int pad, U *p, int way)
{
	V v;
	put(v, init, pad);
	keep(v);
	armed = 1;
	if (way == 0) v.copy_to(p, F{});
	else v.copy_to(std::span<U>(p, V::size()).begin(), F{});
	armed = 0;
}
template<typename V, typename M, typename U, typename F, typename E> VH_NOINLINE void k_mload(const E *init, int pad, const bool *sel, int mpad, const U *p, int way, E *out)
{
	V v;
	M m;
	put(m, sel, mpad);
	put(v, init, pad);
	keep(m);
	armed = 1;
	if (way == 0) { V t(p, m, F{}); v = t; }
	else v.copy_from(p, m, F{});
	keep(v);
	armed = 0;
	// the constructor leaves what is not selected without a value
	for (std::size_t i = 0; i < V::size(); ++i) if (way != 0 || sel[i]) out[i] = v[i];
}
template<typename V, typename M, typename U, typename F, typename E> VH_NOINLINE void k_mstore(const E *init, int pad, const bool *sel, int mpad, U *p)
{
	V v;
	M m;
	put(m, sel, mpad);
	put(v, init, pad);
	keep(m);
	keep(v);
	armed = 1;
	v.copy_to(p, m, F{});
	armed = 0;
}

template<typename F> struct flagname_;
template<> struct flagname_<dpm::element_aligned_tag> { static constexpr const char *n = "elem"; };
template<> struct flagname_<dpm::vector_aligned_tag> { static constexpr const char *n = "vec"; };
template<std::size_t N> struct flagname_<dpm::overaligned_tag<N>> { static std::string get() { return "over" + std::to_string(N); } static inline const std::string s = get(); static inline const char *n = s.c_str(); };

template<typename X> struct elem { using type = typename X::value_type; static constexpr bool mask = false; };
template<typename T, typename A> struct elem<dpm::simd_mask<T, A>> { using type = bool; static constexpr bool mask = true; };

template<typename E, typename U> VH_NOINLINE void transfer(const Kern<E, U> &k, Cell &cl, Cell &cs, Cell &ml, Cell &ms)
{
	const std::size_t N = k.n, bytes = N * sizeof(U), al = k.al;
	Rng r(opt().seed ^ hash_str(k.type.c_str()) ^ (hash_str(k.abi.c_str()) << 1) ^ hash_str(tname<U>()) * 7 ^ al);
	const std::string &what = k.what;
	const long iters = opt().iters;
	for (long it = 0; it < iters; ++it)
	{
		const std::size_t room = (PG - bytes) / al + 1;
		const std::size_t pos = it % 3 == 0 ? room - 1 : it % 3 == 1 ? 0 : r.below(room);
		unsigned char *p = lo + pos * al;
		U *pu = reinterpret_cast<U *>(p);
		const u64 cls = (reinterpret_cast<std::uintptr_t>(p) & 63) | (it % 3) << 6 | hash_str(what.c_str()) << 8;
		std::array<E, 64> e{}, w{}, old{};
		std::array<U, 64> u{};
		std::array<bool, 64> sel{};
		const int pad = pads[it % 2 ? 1 : it % 5];
		const int mpad = it & 1 ? 0xff : 0;
		// load
		canaries(r);
		for (std::size_t i = 0; i < N; ++i) { u[i] = hard_convertible<E, U>(r); wr(p, i, u[i]); w[i] = static_cast<E>(u[i]); old[i] = any<E>(r); }
		std::memcpy(expect, lo, PG);
		{
			poison(p, bytes);
			bool ok = guarded([&] { k.load(old.data(), k.mask ? mpad : pad, pu, it % 3, e.data()); });
			unpoison();
			++cl.calls;
			cl.classes.insert(cls);
			cl.lanes += N;
			if (!ok) cl.fail("oob-read", what + ": " + faultpos(p));
			else
			{
				for (std::size_t i = 0; i < N; ++i) { cl.mix(bits(e[i])); if (!same(e[i], w[i])) cl.fail("value", what + ": element " + std::to_string(i) + " of memory value " + show(u[i]) + " got " + show(e[i]) + " want " + show(w[i])); }
				if (std::memcmp(expect, lo, PG)) { cl.fail("memory-changed", what + ": loading changed memory: " + firstdiff(p)); }
			}
		}
		// store
		canaries(r);
		for (std::size_t i = 0; i < N; ++i) { old[i] = hard_convertible<U, E>(r); u[i] = static_cast<U>(old[i]); }
		std::memcpy(expect, lo, PG);
		for (std::size_t i = 0; i < N; ++i) std::memcpy(expect + (p - lo + std::ptrdiff_t(i * sizeof(U))), &u[i], sizeof(U));
		{
			poison(p, bytes);
			bool ok = guarded([&] { k.store(old.data(), k.mask ? mpad : pad, pu, it & 1); });
			unpoison();
			++cs.calls;
			cs.classes.insert(cls);
			cs.lanes += N;
			if (!ok) cs.fail("oob-write", what + ": " + faultpos(p));
			else if (std::memcmp(expect, lo, PG))
			{
				// values are compared as values (NaN payloads are not)
				bool bad = false;
				for (std::size_t i = 0; i < N; ++i)
				{
					if constexpr (std::is_same_v<U, bool>) { if (p[i] != (unsigned char) u[i]) { bad = true; cs.fail("value", what + ": element " + std::to_string(i) + " value " + show(old[i]) + " stored as byte " + std::to_string(p[i])); } }
					else
					{
						U g;
						std::memcpy(&g, p + i * sizeof(U), sizeof(U));
						if (!same(g, u[i])) { bad = true; cs.fail("value", what + ": element " + std::to_string(i) + " of value " + show(old[i]) + " stored " + show(g) + " want " + show(u[i])); }
					}
				}
				std::memcpy(expect + (p - lo), p, bytes);
				if (!bad && std::memcmp(expect, lo, PG)) cs.fail("canary", what + ": " + firstdiff(p));
			}
		}
		// masked: the array may reach into the guard page where the mask is false
		const bool straddle = k.elem && (it % 3 != 2);
		std::size_t first = 0, last = N;
		if (straddle)
		{
			const std::size_t k = r.below(N + 1);
			if (it % 3 == 0) { last = k; p = hi - k * sizeof(U); } // elements [k, N) are behind the page
			else { first = k; p = lo - k * sizeof(U); }            // elements [0, k) are before the page
			pu = reinterpret_cast<U *>(p);
		}
		const u64 pat = it % 4 == 0 ? ~0ull : it % 4 == 1 ? 0 : r.next();
		u64 key = 0;
		for (std::size_t i = 0; i < N; ++i) { sel[i] = i >= first && i < last && (pat >> (i % 64) & 1); key |= u64(sel[i]) << (i % 64); }
		canaries(r);
		for (std::size_t i = 0; i < N; ++i)
		{
			old[i] = any<E>(r);
			u[i] = hard_convertible<E, U>(r);
			if (i >= first && i < last) wr(p, i, u[i]);
			w[i] = sel[i] ? static_cast<E>(u[i]) : old[i];
		}
		std::memcpy(expect, lo, PG);
		{
			const int way = (it >> 2) & 1;
			bool ok = guarded([&] { k.mload(old.data(), k.mask ? mpad : pad, sel.data(), mpad, pu, way, e.data()); });
			++ml.calls;
			ml.classes.insert(key ^ cls << 32);
			ml.lanes += N;
			if (!ok) ml.fail("oob-read", what + ": masked: " + faultpos(p));
			else
			{
				for (std::size_t i = 0; i < N; ++i)
				{
					if (way == 0 && !sel[i]) continue; // the constructor leaves the others unspecified
					if (!same(e[i], w[i])) ml.fail(sel[i] ? "value" : "unselected", what + ": element " + std::to_string(i) + (sel[i] ? " selected" : " not selected") + " got " + show(e[i]) + " want " + show(w[i]));
				}
				if (std::memcmp(expect, lo, PG)) ml.fail("memory-changed", what + ": masked loading changed memory: " + firstdiff(p));
			}
		}
		canaries(r);
		std::memcpy(expect, lo, PG);
		for (std::size_t i = 0; i < N; ++i)
		{
			old[i] = hard_convertible<U, E>(r);
			u[i] = static_cast<U>(old[i]);
			if (sel[i]) std::memcpy(expect + (p - lo + std::ptrdiff_t(i * sizeof(U))), &u[i], sizeof(U));
		}
		{
			bool ok = guarded([&] { k.mstore(old.data(), k.mask ? mpad : pad, sel.data(), mpad, pu); });
			++ms.calls;
			ms.classes.insert(key ^ cls << 32);
			ms.lanes += N;
			if (!ok) ms.fail("oob-write", what + ": masked: " + faultpos(p));
			else if (std::memcmp(expect, lo, PG))
			{
				bool bad = false;
				for (std::size_t i = 0; i < N; ++i)
				{
					if (!sel[i]) continue;
					if constexpr (!std::is_same_v<U, bool>)
					{
						U g;
						std::memcpy(&g, p + i * sizeof(U), sizeof(U));
						if (!same(g, u[i])) { bad = true; ms.fail("value", what + ": element " + std::to_string(i) + " of value " + show(old[i]) + " stored " + show(g) + " want " + show(u[i])); }
						else std::memcpy(expect + (p - lo + std::ptrdiff_t(i * sizeof(U))), p + i * sizeof(U), sizeof(U));
					}
				}
				if (!bad && std::memcmp(expect, lo, PG)) ms.fail("canary", what + ": masked: " + firstdiff(p));
			}
		}
	}
}

template<typename V, typename U> VH_NOINLINE void k_bcast(V &v, U x) { v = V(x); keep(v); }
template<typename V> VH_NOINLINE void k_set(V &v, std::size_t i, typename V::value_type x, int how)
{
	auto &&e = v[i];
	if (how == 0) e = x; else { auto t = x; using std::swap; e = e; swap(e, t); }
	keep(v);
}
template<typename V> VH_NOINLINE auto k_get(const V &v, std::size_t i) { return v[i]; }

template<typename T, typename Abi> VH_NOINLINE void construct()
{
	using V = dpm::simd<T, Abi>;
	constexpr std::size_t N = V::size();
	Cell cb("broadcast", tname<T>(), abiname<Abi>::get()), cg("generator", tname<T>(), cb.abi), ce("element", tname<T>(), cb.abi), cn("native_data", tname<T>(), cb.abi), cc("copy", tname<T>(), cb.abi);
	cb.enter();
	Rng r(opt().seed ^ hash_str(tname<T>()) ^ (hash_str(cb.abi.c_str()) << 1));
	for (long it = 0; it < opt().iters; ++it)
	{
		const T x = any<T>(r);
		std::array<T, N> e{}, w{};
		V v;
		k_bcast<V, T>(v, x);
		get(v, e.data());
		++cb.calls; cb.lanes += N; cb.classes.insert(vclass(x));
		for (std::size_t i = 0; i < N; ++i) if (!same(e[i], x)) cb.fail("value", "broadcast of " + show(x) + " gives " + show(e[i]) + " in element " + std::to_string(i));
		const int k = static_cast<int>(r.below(200)) - (std::is_unsigned_v<T> ? 0 : 100) > 127 ? 5 : static_cast<int>(r.below(100));
		k_bcast<V, int>(v, k);
		get(v, e.data());
		for (std::size_t i = 0; i < N; ++i) if (!same(e[i], static_cast<T>(k))) cb.fail("value-int", "broadcast of int " + show(k) + " gives " + show(e[i]));
		// generator: asked once for every element
		for (std::size_t i = 0; i < N; ++i) w[i] = any<T>(r);
		std::array<int, N + 64> asked{};
		bool outside = false;
		V g([&](auto i) -> T { const std::size_t j = i; if (j < N) { ++asked[j]; return w[j]; } outside = true; return T{}; });
		keep(g);
		get(g, e.data());
		++cg.calls; cg.lanes += N; cg.classes.insert(vclass(w[it % N]) * 64 + it % N);
		for (std::size_t i = 0; i < N; ++i)
		{
			if (!same(e[i], w[i])) cg.fail("value", "generated element " + std::to_string(i) + " got " + show(e[i]) + " want " + show(w[i]));
			if (asked[i] != 1) cg.fail("calls", "generator asked " + std::to_string(asked[i]) + " times for element " + std::to_string(i));
		}
		if (outside) cg.fail("outside", "generator asked for an element outside of the vector");
		// one element
		const std::size_t i = r.below(N);
		const T y = any<T>(r);
		V v2 = g;
		k_set(v2, i, y, it & 1);
		get(v2, e.data());
		++ce.calls; ce.lanes += N; ce.classes.insert(i * 1000 + vclass(y));
		for (std::size_t j = 0; j < N; ++j) if (!same(e[j], j == i ? y : w[j])) ce.fail("value", "after writing element " + std::to_string(i) + ", element " + std::to_string(j) + " is " + show(e[j]));
		const V &cv = v2;
		if (!same(static_cast<T>(k_get(cv, i)), y)) ce.fail("read", "reading element " + std::to_string(i) + " back gives " + show(static_cast<T>(k_get(cv, i))));
		// copies
		V v3(v2), v4;
		v4 = v3;
		keep(v4);
		for (std::size_t j = 0; j < N; ++j) { ++cc.lanes; if (!same<T>(v4[j], e[j])) cc.fail("value", "copied element differs"); }
		++cc.calls; cc.classes.insert(it % 64);
		// access to the underlying data
		auto nd = dpm::ext::to_native_data(v2);
		static_assert(sizeof(nd[0]) * nd.size() >= N * sizeof(T));
		std::array<T, N> raw{};
		std::memcpy(raw.data(), nd.data(), sizeof raw);
		++cn.calls; cn.lanes += N; cn.classes.insert(vclass(raw[0]));
		for (std::size_t j = 0; j < N; ++j) if (!same(raw[j], e[j])) cn.fail("value", "native data of element " + std::to_string(j) + " is " + show(raw[j]) + " want " + show(e[j]));
		if constexpr (requires { V(nd); })
		{
			const auto cd = dpm::ext::to_native_data(static_cast<const V &>(v2));
			V v5(cd);
			keep(v5);
			for (std::size_t j = 0; j < N; ++j) if (!same<T>(v5[j], e[j])) cn.fail("ctor", "vector built from native data differs in element " + std::to_string(j));
		}
	}
	// masks
	using M = dpm::simd_mask<T, Abi>;
	Cell mg("mask_generator", tname<T>(), cb.abi);
	for (long it = 0; it < opt().iters; ++it)
	{
		const u64 x = r.next();
		std::array<int, N> asked{};
		M m([&](auto i) -> bool { const std::size_t j = i; if (j < N) ++asked[j]; return x >> (j % 64) & 1; });
		keep(m);
		++mg.calls; mg.classes.insert(x); mg.lanes += N;
		for (std::size_t i = 0; i < N; ++i)
			if (m[i] != bool(x >> (i % 64) & 1) || asked[i] != 1) mg.fail("value", "generated mask element " + std::to_string(i) + " is wrong (asked " + std::to_string(asked[i]) + " times)");
	}
}
template<typename V, typename T, typename Abi, typename U, typename F> void flag(Cell &a, Cell &b, Cell &c, Cell &d)
{
	using E = typename elem<V>::type;
	using M = dpm::simd_mask<T, Abi>;
	std::size_t al = alignof(U);
	if constexpr (std::is_same_v<F, dpm::vector_aligned_tag>)
	{
		if constexpr (elem<V>::mask && !std::is_same_v<U, bool>) al = std::max(alignof(V), alignof(U));
		else al = dpm::memory_alignment_v<V, U>;
	}
	else if constexpr (!std::is_same_v<F, dpm::element_aligned_tag>) al = std::max(alignof(U), dpm::detail::overaligned_tag_value_v<F>);
	transfer<E, U>({V::size(), al, elem<V>::mask, std::is_same_v<F, dpm::element_aligned_tag>, std::string(tname<U>()) + " memory, " + flagname_<F>::n, abiname<Abi>::get(), tname<T>(),
		k_load<V, U, F, E>, k_store<V, U, F, E>, k_mload<V, M, U, F, E>, k_mstore<V, M, U, F, E>}, a, b, c, d);
}
template<typename V, typename T, typename Abi, typename U, typename... F> void flags(Cell &a, Cell &b, Cell &c, Cell &d) { (flag<V, T, Abi, U, F>(a, b, c, d), ...); }
template<typename V, typename T, typename Abi, typename... U> void memories(const char *p, list<U...>)
{
	Cell a(std::string(p) + "load", tname<T>(), abiname<Abi>::get()), b(std::string(p) + "store", tname<T>(), a.abi), c(std::string(p) + "masked_load", tname<T>(), a.abi), d(std::string(p) + "masked_store", tname<T>(), a.abi);
	a.enter();
	(flags<V, T, Abi, U, dpm::element_aligned_tag, dpm::vector_aligned_tag, dpm::overaligned_tag<64>
#ifdef VH_MORE
	, dpm::overaligned_tag<16>, dpm::overaligned_tag<32>, dpm::overaligned_tag<2>
#endif
	>(a, b, c, d), ...);
}
template<typename T, typename Abi> void run()
{
	memories<dpm::simd<T, Abi>, T, Abi>("", list<VH_U>{});
	memories<dpm::simd_mask<T, Abi>, T, Abi>("mask_", list<bool, int, unsigned char>{});
	construct<T, Abi>();
}
template<typename T, typename... A> void all(list<A...>) { (run<T, A>(), ...); }
int main(int c, char **v)
{
	parse(c, v);
	arena();
	all<VH_T>(VH_ABIS{});
	finish();
}
