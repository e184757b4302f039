// Constant evaluation of masks, memory transfers, blends, shuffles, reductions and conversions: one function is evaluated by the compiler
// on constant operands and executed on the same operands; both must agree with plain scalar loops.
#include "vh.hpp"
#include "abis.hpp"
using namespace vh;
#ifndef VH_K
#define VH_K 4
#endif
#ifndef VH_U
#define VH_U float
#endif
template<typename T, std::size_t N> struct In { T a[N], b[N], m[N]; bool x[N], y[N]; };
template<typename T, typename U, std::size_t N> struct Out
{
	T blend[N], shufr[N], shufd[2 * N], mload[N], mstore[N], packed[N], fixed[N], sum, mul, mn, mx, bor, bxor;
	U conv[N], scast[N];
	bool mand[N], mor[N], mxor[N], mnot[N], meq[N], mne[N], mblend[N], mshuf[N], mm[N], mconv[N], mland[N], mlor[N];
	bool all, any, none, some;
	std::size_t count, first, last;
	T elem[N];
	bool operator==(const Out &) const = default;
};
template<std::size_t N> constexpr bool anyof(const bool (&x)[N]) { for (bool b : x) if (b) return true; return false; }
template<std::size_t... I, typename V> constexpr auto rev(const V &v, std::index_sequence<I...>) { return dpm::ext::shuffle<(sizeof...(I) - 1 - I)...>(v); }
template<std::size_t... I, typename V> constexpr auto dbl(const V &v, std::index_sequence<I...>) { return dpm::ext::shuffle<(I / 2)...>(v); }
template<typename V, typename T, std::size_t N> constexpr void put(const V &v, T (&o)[N]) { v.copy_to(o, dpm::element_aligned); }
template<typename T, typename U, typename Abi, std::size_t N> constexpr Out<T, U, N> library(const In<T, N> &in)
{
	using V = dpm::simd<T, Abi>; using M = typename V::mask_type;
	Out<T, U, N> o{};
	V a(in.a, dpm::element_aligned), b(in.b, dpm::element_aligned);
	M x(in.x, dpm::element_aligned), y(in.y, dpm::element_aligned);
	put(dpm::blend(x, a, b), o.blend);
	put(rev(a, std::make_index_sequence<N>{}), o.shufr);
	put(dbl(a, std::make_index_sequence<2 * N>{}), o.shufd);
	{ V l(b); l.copy_from(in.m, x, dpm::element_aligned); put(l, o.mload); }
	{ for (std::size_t i = 0; i < N; ++i) o.mstore[i] = in.m[i]; a.copy_to(o.mstore, x, dpm::element_aligned); }
	{ auto p = static_cast<dpm::simd<T, pk<N>>>(a); V r = static_cast<V>(p); put(r, o.packed); }
	put(dpm::to_fixed_size(a), o.fixed);
	{
		auto r = dpm::static_simd_cast<U>(a);
		for (std::size_t i = 0; i < N; ++i) o.conv[i] = std::as_const(r)[i];
		auto s = static_cast<dpm::simd<U, fs<N>>>(static_cast<dpm::simd<U, pk<N>>>(static_cast<dpm::simd<T, pk<N>>>(a)));
		for (std::size_t i = 0; i < N; ++i) o.scast[i] = std::as_const(s)[i];
	}
	if constexpr (std::is_integral_v<T>)
	{
		o.sum = dpm::reduce(a); o.mul = dpm::reduce(b, std::multiplies<>{}); o.bor = dpm::reduce(a, std::bit_or<>{}); o.bxor = dpm::reduce(a, std::bit_xor<>{});
	}
	else
	{
		o.sum = dpm::reduce(a); o.mul = dpm::reduce(b, std::multiplies<>{});
	}
	o.mn = dpm::reduce_min(a); o.mx = dpm::reduce_max(a);
	put(x & y, o.mand); put(x | y, o.mor); put(x ^ y, o.mxor); put(!x, o.mnot); put(x == y, o.meq); put(x != y, o.mne); put(x && y, o.mland); put(x || y, o.mlor);
	put(dpm::blend(x, y, !y), o.mblend);
	put(rev(x, std::make_index_sequence<N>{}), o.mshuf);
	{ M l(y); l.copy_from(in.x, x, dpm::element_aligned); put(l, o.mm); }
	{ auto c = static_cast<dpm::simd_mask<U, fs<N>>>(static_cast<dpm::simd_mask<U, pk<N>>>(static_cast<dpm::simd_mask<T, pk<N>>>(x))); put(c, o.mconv); }
	o.all = dpm::all_of(x); o.any = dpm::any_of(x); o.none = dpm::none_of(x); o.some = dpm::some_of(x); o.count = dpm::reduce_count(x);
	if (anyof(in.x)) { o.first = dpm::reduce_min_index(x); o.last = dpm::reduce_max_index(x); }
	{ V g([&](std::size_t i) { return static_cast<T>(in.b[N - 1 - i]); }); for (std::size_t i = 0; i < N; ++i) o.elem[i] = std::as_const(g)[i]; }
	return o;
}
template<typename T, typename U, std::size_t N> Out<T, U, N> scalar(const In<T, N> &in)
{
	Out<T, U, N> o{};
	o.sum = 0; o.mul = 1; o.mn = o.mx = in.a[0];
	u64 s = 0, p = 1; T bo = 0, bx = 0; double fsum = 0, fmul = 1;
	for (std::size_t i = 0; i < N; ++i)
	{
		const bool x = in.x[i], y = in.y[i];
		o.blend[i] = x ? in.a[i] : in.b[i];
		o.shufr[i] = in.a[N - 1 - i]; o.shufd[2 * i] = o.shufd[2 * i + 1] = in.a[i];
		o.mload[i] = x ? in.m[i] : in.b[i]; o.mstore[i] = x ? in.a[i] : in.m[i];
		o.packed[i] = o.fixed[i] = in.a[i]; o.conv[i] = o.scast[i] = static_cast<U>(in.a[i]);
		o.mn = std::min(o.mn, in.a[i]); o.mx = std::max(o.mx, in.a[i]);
		if constexpr (std::is_integral_v<T>) { s += static_cast<u64>(in.a[i]); p *= static_cast<u64>(in.b[i]); bo = static_cast<T>(bo | in.a[i]); bx = static_cast<T>(bx ^ in.a[i]); }
		else { fsum += in.a[i]; fmul *= in.b[i]; }
		o.mand[i] = o.mland[i] = x && y; o.mor[i] = o.mlor[i] = x || y; o.mxor[i] = x != y; o.mnot[i] = !x; o.meq[i] = x == y; o.mne[i] = x != y;
		o.mblend[i] = x ? y : !y; o.mshuf[i] = in.x[N - 1 - i]; o.mm[i] = x ? in.x[i] : y; o.mconv[i] = x;
		o.count += x; if (x) o.last = i;
		o.elem[i] = in.b[N - 1 - i];
	}
	if constexpr (std::is_integral_v<T>) { o.sum = static_cast<T>(s); o.mul = static_cast<T>(p); o.bor = bo; o.bxor = bx; }
	else { o.sum = static_cast<T>(fsum); o.mul = static_cast<T>(fmul); }
	o.all = o.count == N; o.any = o.count != 0; o.none = !o.any; o.some = o.any && !o.all;
	if (o.any) while (!in.x[o.first]) ++o.first;
	return o;
}
// small values: sums and products are exact, every conversion is defined
template<typename T, std::size_t N> constexpr In<T, N> gen(unsigned k)
{
	Rng r(k * 7919 + N * 31 + sizeof(T));
	In<T, N> in{};
	for (std::size_t i = 0; i < N; ++i)
	{
		in.a[i] = static_cast<T>(static_cast<T>(r.below(13)) - (std::is_signed_v<T> ? T(4) : T(0)));
		in.b[i] = static_cast<T>(r.below(3) ? 1 : 2); in.m[i] = static_cast<T>(r.below(100));
		in.x[i] = k == 0 ? false : k == 1 ? true : r.below(2); in.y[i] = r.below(2);
		if (i > 10) in.b[i] = 1;
	}
	return in;
}
template<typename T, typename U, typename Abi, unsigned K> void one(Cell &cell)
{
	constexpr std::size_t N = dpm::simd<T, Abi>::size();
	static constexpr auto in = gen<T, N>(K);
	static constexpr auto compiled = library<T, U, Abi, N>(in);
	In<T, N> again = in;
	keep(again);
	const auto want = scalar<T, U, N>(in);
	const Out<T, U, N> ran = [](auto &i) VH_NOINLINE { return library<T, U, Abi, N>(i); }(again);
	cell.calls += 2;
	cell.lanes += 2 * sizeof(want) / sizeof(T);
	for (std::size_t i = 0; i < N; ++i) cell.classes.insert(vclass(in.a[i]) * 4 + in.x[i] * 2 + in.y[i]);
	auto cmp = [&](const char *who, const Out<T, U, N> &o)
	{
#define C(F) if (std::memcmp(&o.F, &want.F, sizeof o.F)) cell.fail(who, std::string(#F) + " with operands number " + std::to_string(K) + " of " + std::to_string(N) + " elements");
		C(blend) C(shufr) C(shufd) C(mload) C(mstore) C(packed) C(fixed) C(sum) C(mul) C(mn) C(mx) C(bor) C(bxor) C(conv) C(scast) C(mand) C(mor) C(mxor) C(mnot) C(meq) C(mne) C(mblend) C(mshuf) C(mm) C(mconv) C(mland) C(mlor)
		C(all) C(any) C(none) C(some) C(count) C(first) C(last) C(elem)
#undef C
	};
	cmp("constant", compiled);
	cmp("run time", ran);
}
template<typename T, typename U, typename Abi> void shape()
{
	Cell cell{"mask,memory,blend,shuffle,reduce,convert", tname<T>(), abiname<Abi>::get()};
	if (!cell.selected()) return;
	cell.enter();
	[&]<unsigned... K>(std::integer_sequence<unsigned, K...>) { (one<T, U, Abi, K>(cell), ...); }(std::make_integer_sequence<unsigned, VH_K>{});
}
template<typename T, typename U, typename... A> void each(list<A...>) { (shape<T, U, A>(), ...); }
int main(int c, char **v)
{
	parse(c, v);
	each<VH_T, VH_U>(list<sc, fs<1>, fs<3>, av<4, 16>, fs<9>, av<6, 32>, pk<5>>{});
	finish();
}
