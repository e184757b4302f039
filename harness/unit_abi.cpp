// Types: sizes, alignments, deduced tags, the native view of vectors and masks, copies.
#include "vh.hpp"
#include "abis.hpp"
#include <memory>
#include <vector>
#include <new>
using namespace vh;
namespace ab = dpm::simd_abi;
template<typename A> struct tag;
template<> struct tag<sc> { static constexpr std::size_t n = 1, a = 0; };
template<std::size_t N, std::size_t A> struct tag<av<N, A>> { static constexpr std::size_t n = N, a = A == SIZE_MAX ? 0 : A; };
#define WANT(C, ...) do { ++cell.lanes; if (!(C)) cell.fail(__VA_ARGS__); } while (0)
template<typename V> struct is_mask : std::false_type {};
template<typename T, typename A> struct is_mask<dpm::simd_mask<T, A>> : std::true_type {};
template<typename V, typename E, std::size_t N> void fillv(V &v, const E (&e)[N]) { v.copy_from(e, dpm::element_aligned); }
template<typename V, typename T> VH_NOINLINE V pass(V v) { keep(v); return v; }
template<typename V, typename E, std::size_t N> bool holds(const V &v, const E (&e)[N])
{
	for (std::size_t i = 0; i < N; ++i) { E x = static_cast<E>(v[i]); if (bits(x) != bits(e[i])) return false; }
	return true;
}
template<typename T> T elem(Rng &r)
{
	if constexpr (std::is_floating_point_v<T>) return static_cast<T>(static_cast<std::int64_t>(r.next()) >> r.below(60)) / 8;
	else return static_cast<T>(r.next() >> r.below(64));
}
// one type: V is a vector or a mask, E its element type
template<typename T, typename Abi, typename V, typename E> void type(Cell &cell, Rng &rng)
{
	constexpr std::size_t N = tag<Abi>::n;
	namespace x = dpm::ext;
	const char *w = is_mask<V>::value ? "mask" : "vector";
	auto D = [&](const char *s) { return std::string(w) + ": " + s; };
	WANT(V::size() == N, "size", D("number of elements"));
	WANT((dpm::simd_size_v<T, Abi> == N), "size", D("simd_size_v"));
	WANT(alignof(V) >= std::max(tag<Abi>::a, is_mask<V>::value ? std::size_t(1) : alignof(E)), "alignment", D("weaker than the tag asks for"));
	WANT(sizeof(V) % alignof(V) == 0 && sizeof(V) >= N * (is_mask<V>::value ? 1 : sizeof(E)), "storage", D("does not hold all elements"));
	WANT((dpm::memory_alignment_v<V> >= alignof(E)), "alignment", D("memory_alignment_v"));
	WANT((std::is_trivially_copyable_v<V> && std::is_default_constructible_v<V> && std::is_nothrow_copy_constructible_v<V>), "traits", D("not trivially copyable"));
	WANT((std::is_same_v<typename V::abi_type, Abi> && std::is_same_v<typename V::value_type, E>), "traits", D("member types"));
	WANT(dpm::is_simd_v<V> == !is_mask<V>::value && dpm::is_simd_mask_v<V> == is_mask<V>::value && dpm::is_abi_tag_v<Abi>, "traits", D("is_simd, is_simd_mask, is_abi_tag"));
	using NT = x::native_data_type_t<V>;
	constexpr std::size_t NS = x::native_data_size_v<V>;
	WANT(NS >= 1 && sizeof(NT) * NS >= N * (is_mask<V>::value && sizeof(NT) == 1 ? 1 : sizeof(T)) && sizeof(NT) * NS <= sizeof(V), "storage", D("native type and count"));
	E e[N], f[N];
	for (std::size_t k = 0; k < std::size_t(opt().iters); ++k)
	{
		++cell.calls;
		for (std::size_t i = 0; i < N; ++i)
		{
			if constexpr (is_mask<V>::value) { e[i] = rng.below(2); f[i] = rng.below(2); }
			else { e[i] = elem<E>(rng); f[i] = elem<E>(rng); }
			cell.classes.insert(vclass(e[i]));
		}
		// neighbours in memory do not disturb each other
		auto arr = std::make_unique<V[]>(3);
		WANT(reinterpret_cast<std::uintptr_t>(arr.get()) % alignof(V) == 0, "alignment", D("of an allocated array"));
		fillv(arr[0], e); fillv(arr[2], e); fillv(arr[1], f); keep(arr[0]); keep(arr[1]); keep(arr[2]);
		WANT(holds(arr[0], e) && holds(arr[1], f) && holds(arr[2], e), "neighbour", D("elements of an array of vectors disturb each other"));
		// copies
		V c = arr[0], d = pass<V, T>(arr[1]); keep(c); keep(d);
		WANT(holds(c, e) && holds(d, f), "copy", D("a copy differs"));
		std::swap(c, d); keep(c); keep(d);
		WANT(holds(c, f) && holds(d, e), "copy", D("after swap"));
		c = arr[0]; arr[0] = d; keep(c); WANT(holds(c, e), "copy", D("assignment"));
		// the native view
		const auto view = x::to_native_data(std::as_const(c));
		WANT(view.size() == NS, "native", D("number of native values"));
		WANT(static_cast<const void *>(view.data()) == static_cast<const void *>(&c), "native", D("does not start at the object"));
		WANT((std::is_same_v<std::remove_cvref_t<decltype(view[0])>, NT>), "native", D("type of the native values"));
		if constexpr (!is_mask<V>::value)
		{
			E raw[sizeof(NT) * NS / sizeof(E)];
			std::memcpy(raw, view.data(), sizeof(NT) * NS);
			bool ord = true; for (std::size_t i = 0; i < N; ++i) ord = ord && bits(raw[i]) == bits(e[i]);
			WANT(ord, "native", D("elements are not in order"));
			// writing through the view
			V g = arr[1];
			auto mut = x::to_native_data(g);
			std::memcpy(raw, mut.data(), sizeof(NT) * NS);
			const std::size_t at = rng.below(N);
			raw[at] = e[at];
			std::memcpy(mut.data(), raw, sizeof(NT) * NS);
			keep(g);
			E h[N]; std::memcpy(h, f, sizeof f); h[at] = e[at];
			WANT(holds(g, h), "native", D("writing one element through the native view"));
		}
		{
			// copying all native values copies the object
			V g = arr[1];
			auto mut = x::to_native_data(g);
			for (std::size_t i = 0; i < NS; ++i) mut[i] = view[i];
			keep(g);
			WANT(holds(g, e), "native", D("copy through the native view"));
			for (std::size_t i = 0; i < NS; ++i) mut[i] = x::to_native_data(arr[1])[i];
			keep(g);
			WANT(holds(g, f), "native", D("copy through the native view"));
		}
		if constexpr (!std::is_same_v<NT, E> && std::is_constructible_v<V, std::span<const NT, NS>>)
		{
			V g(std::span<const NT, NS>{view.data(), NS}); keep(g);
			WANT(holds(g, e), "native", D("construction from the native values"));
			NT na[NS]; for (std::size_t i = 0; i < NS; ++i) na[i] = view[i];
			V h(na); keep(h);
			WANT(holds(h, e), "native", D("construction from an array of native values"));
			V s(view[0]); keep(s);
			bool ok = true;
			for (std::size_t i = 0; i < NS; ++i) { if constexpr (sizeof(NT) != 16 || !std::is_same_v<T, long double>) ok = ok && !std::memcmp(&x::to_native_data(s)[i], &view[0], sizeof(NT)); }
			WANT(ok, "native", D("construction from one native value"));
		}
		if constexpr (!is_mask<V>::value)
		{
			std::vector<V> vec(2, arr[1]); vec.push_back(c); vec.push_back(arr[1]); vec.insert(vec.begin(), c);
			WANT(holds(vec[0], e) && holds(vec[1], f) && holds(vec[3], e) && holds(vec[4], f), "copy", D("in a container"));
		}
		{
			alignas(V) unsigned char buf[sizeof(V)];
			std::memcpy(buf, &c, sizeof c);
			V g; std::memcpy(static_cast<void *>(&g), buf, sizeof g); keep(g);
			WANT(holds(g, e), "copy", D("byte copy"));
		}
	}
}
template<typename T, typename Abi> void shape(Rng &rng)
{
	using V = dpm::simd<T, Abi>; using M = dpm::simd_mask<T, Abi>;
	Cell cell{"types,storage,native view", tname<T>(), abiname<Abi>::get()};
	if (!cell.selected()) return;
	cell.enter();
	constexpr std::size_t N = tag<Abi>::n;
	WANT((std::is_same_v<typename V::mask_type, M>), "traits", "mask_type");
	type<T, Abi, V, T>(cell, rng);
	type<T, Abi, M, bool>(cell, rng);
	// rebound and resized types keep what they should
	using R = dpm::rebind_simd_t<float, V>; using I = dpm::rebind_simd_t<std::int8_t, V>; using Z = dpm::resize_simd_t<7, V>; using RM = dpm::rebind_simd_t<double, M>; using ZM = dpm::resize_simd_t<5, M>; using B = dpm::rebind_simd_t<T, R>;
	WANT((R::size() == N && std::is_same_v<typename R::value_type, float>), "rebind", "rebind_simd to float");
	WANT((I::size() == N && std::is_same_v<typename I::value_type, std::int8_t>), "rebind", "rebind_simd to int8_t");
	WANT((B::size() == N && std::is_same_v<typename B::value_type, T>), "rebind", "rebind_simd and back");
	WANT((Z::size() == 7 && std::is_same_v<typename Z::value_type, T>), "rebind", "resize_simd");
	WANT((RM::size() == N && ZM::size() == 5 && dpm::is_simd_mask_v<RM> && dpm::is_simd_mask_v<ZM>), "rebind", "of a mask");
	using DT = ab::deduce_t<T, N>; using DH = ab::deduce_t<T, N, Abi>;
	WANT((dpm::simd_size_v<T, DT> == N && dpm::simd_size_v<T, DH> == N && dpm::simd<T, DT>::size() == N), "deduce", "deduce");
	WANT((std::is_same_v<DH, Abi> || N == 1), "deduce", "an acceptable hint is not taken");
	// common tags
	namespace xa = dpm::simd_abi::ext;
	WANT((std::is_same_v<xa::common_t<Abi, Abi>, Abi>), "common", "of equal tags");
	WANT((std::is_same_v<xa::common_t<Abi>, Abi>), "common", "of one tag");
	if constexpr (!std::is_same_v<Abi, sc>)
	{
		WANT((std::is_same_v<xa::common_t<Abi, sc>, Abi> && std::is_same_v<xa::common_t<sc, Abi>, Abi>), "common", "with the scalar tag");
		WANT((dpm::simd<T, xa::common_t<Abi, fs<N + 3>>>::size() == N + 3), "common", "of two sizes");
		WANT((std::is_same_v<xa::common_t<fs<N>, Abi>, Abi> && std::is_same_v<xa::common_t<Abi, fs<N>, sc>, Abi>), "common", "of two alignments");
	}
	if constexpr (std::is_floating_point_v<T>)
		for (const char *s : {"", "1", "0x7f", "12345", "x"})
		{
			V v = dpm::ext::nan<T, Abi>(s); keep(v);
			for (std::size_t i = 0; i < N; ++i) WANT(isnan_(static_cast<T>(std::as_const(v)[i])), "nan", "nan(\"" + std::string(s) + "\") element " + std::to_string(i));
		}
}
template<typename T, typename... A> void each(list<A...>, Rng &r) { (shape<T, A>(r), ...); }
template<typename T> void element(Rng &r)
{
	each<T>(typename abis_of<T>::type{}, r);
	each<T>(list<av<3, 64>, av<9, 64>, av<2, 128>, pk<1>, pk<9>>{}, r);
	Cell cell{"native, compatible, fixed", tname<T>(), "-"};
	if (!cell.selected()) return;
	cell.enter();
	++cell.calls;
	WANT(dpm::native_simd<T>::size() >= 1 && dpm::simd<T>::size() >= 1, "size", "native_simd");
	WANT((std::is_same_v<typename dpm::native_simd<T>::abi_type, ab::native<T>>), "traits", "native_simd");
	WANT(ab::max_fixed_size<T> >= 32, "size", "max_fixed_size");
	WANT((dpm::fixed_size_simd<T, 11>::size() == 11 && dpm::fixed_size_simd_mask<T, 11>::size() == 11 && dpm::native_simd_mask<T>::size() == dpm::native_simd<T>::size()), "size", "fixed_size_simd");
	WANT((dpm::simd<T, ab::compatible<T>>::size() >= 1), "size", "compatible");
	WANT((!dpm::is_simd_v<T> && !dpm::is_simd_mask_v<T> && !dpm::is_abi_tag_v<T> && !dpm::is_simd_v<std::vector<T>>), "traits", "of other types");
#ifdef DPM_HAS_SSE2
	if constexpr (!std::is_same_v<T, long double>)
	{
		using S = dpm::simd<T, dpm::simd_abi::ext::sse<T>>;
		WANT(S::size() * sizeof(T) == 16 && sizeof(S) == 16 && sizeof(dpm::ext::native_data_type_t<S>) == 16 && dpm::ext::native_data_size_v<S> == 1, "size", "sse");
#ifdef DPM_HAS_AVX
		using X = dpm::simd<T, dpm::simd_abi::ext::avx<T>>;
		WANT(X::size() * sizeof(T) == 32 && sizeof(X) == 32 && sizeof(dpm::ext::native_data_type_t<X>) == 32 && dpm::ext::native_data_size_v<X> == 1, "size", "avx");
#endif
	}
#endif
}
int main(int c, char **v)
{
	parse(c, v);
	Rng r(opt().seed * 1000003 + sizeof(VH_T));
	element<VH_T>(r);
	finish();
}
