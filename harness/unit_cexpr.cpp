// Constant evaluation: every operation is evaluated by the compiler on constant operands and executed on the same operands; both must
// agree, and agree with the reference.
#include "ops_acc.hpp"
#include "abis.hpp"
using namespace vh;
#ifndef VH_K
#define VH_K 6
#endif
// operands: VH_DOM 0 any but NaN and infinity, 1 not zero, 2 positive, 3 of magnitude at most one, 4 any
#ifndef VH_DOM
#define VH_DOM 0
#endif
template<typename T> constexpr T cgen(Rng &r)
{
	using L = std::numeric_limits<T>;
	const u64 k = r.below(12);
	if constexpr (std::is_floating_point_v<T>)
	{
		constexpr T sp[] = {T(0), T(-0.0), T(1), T(-1), T(0.5), T(-0.5), T(1.5), T(2.5), T(-2.5), T(3.75), T(100.25), T(-7.125), L::epsilon(), T(1e-5), T(1e6), T(8388609), T(-0.75)};
		if (VH_DOM == 4 && k > 8) return k == 9 ? L::infinity() : k == 10 ? -L::infinity() : L::quiet_NaN();
		T x = k < 6 ? sp[r.below(sizeof sp / sizeof *sp)] : (static_cast<T>(static_cast<std::int64_t>(r.next()) >> (10 + r.below(50))) + T(0.5)) / static_cast<T>(u64(1) << r.below(40));
		if (VH_DOM > 0 && VH_DOM < 3 && x == 0) x = T(3.25);
		if (VH_DOM == 2 && x < 0) x = -x;
		if (VH_DOM == 3) while (x > 1 || x < -1) x /= T(1024);
		return x;
	}
	else
	{
		if (k < 2) return L::max();
		if (k < 3) return L::min();
		if (k < 5) return static_cast<T>(r.below(7));
		return static_cast<T>(static_cast<std::int64_t>(r.next()) >> r.below(64));
	}
}
namespace cx
{
	VH_OP(frexp, 1, T, ([&] { dpm::simd<int, typename V::abi_type> e(0); return dpm::frexp(a, &e); }()), ([&] { int e; return std::frexp(a, &e); }()))
	VH_OP(frexp_exp, 1, int, ([&] { dpm::simd<int, typename V::abi_type> e(0); (void) dpm::frexp(a, &e); return e; }()), ([&] { int e; (void) std::frexp(a, &e); return e; }()))
	VH_OP(modf, 1, T, ([&] { V i(T(0)); return dpm::modf(a, &i); }()), ([&] { T i; return std::modf(a, &i); }()))
	VH_OP(modf_int, 1, T, ([&] { V i(T(0)); (void) dpm::modf(a, &i); return i; }()), ([&] { T i; (void) std::modf(a, &i); return i; }()))
	VH_OP(ldexp, 1, T, dpm::ldexp(a, 5), std::ldexp(a, 5))
	VH_OP(ldexpv, 1, T, dpm::ldexp(a, dpm::simd<int, typename V::abi_type>([](std::size_t i) { return static_cast<int>(3) - 0 * static_cast<int>(i); })), std::ldexp(a, 3))
	VH_OP(scalbn, 1, T, dpm::scalbn(a, -3), std::scalbn(a, -3))
	VH_OP(scalbln, 1, T, dpm::scalbln(a, -3l), std::scalbln(a, -3l))
	VH_OP(ilogb, 1, int, dpm::ilogb(a), std::ilogb(a))
	VH_OP(logb, 1, T, dpm::logb(a), std::logb(a))
	VH_OP(nextafter, 2, T, dpm::nextafter(a, b), std::nextafter(a, b))
	template<typename T> bool near(T a, T b) { return same(a, b) || std::fabs(a - b) <= std::fabs(b) * 3 * std::numeric_limits<T>::epsilon() + 2 * std::numeric_limits<T>::denorm_min(); }
	VH_OP(sincos_s, 1, T, ([&] { return dpm::ext::sincos(a).first; }()), std::sin(a), OKFN(return vh::trig::sin::ok<RR, T>(got, want, a, b, c);))
	using man = list<ldexp, ldexpv, scalbn, scalbln, ilogb, logb, nextafter>;
	using rnd = list<vh::rnd::ceil, vh::rnd::floor, vh::rnd::trunc, vh::rnd::round>;
	using rndc = list<vh::rnd::lround, vh::rnd::llround, iconv::itrunc8, iconv::itrunc32, iconv::itrunc64, iconv::iround16, iconv::iround32, iconv::iround64, iconv::ltrunc, iconv::lltrunc>;
	using fma = list<mbase::fmadd, mbase::fmsub, mbase::fnmadd, mbase::fnmsub, mbase::fma, mbase::rcp>;
	using sq = list<mbase::sqrt, mbase::rsqrt>;
	VH_OP(sincos_sin, 1, T, ([&] { V s(T(0)), k(T(0)); dpm::ext::sincos(a, s, k); return s; }()), std::sin(a), OKFN(return vh::trig::sin::ok<RR, T>(got, want, a, b, c);))
	VH_OP(sincos_cos, 1, T, ([&] { V s(T(0)), k(T(0)); dpm::ext::sincos(a, s, k); return k; }()), std::cos(a), OKFN(return vh::trig::cos::ok<RR, T>(got, want, a, b, c);))
	VH_OP(hypot, 2, T, dpm::hypot(a, b), std::hypot(a, b), OKFN(return near(got, want);))
	VH_OP(atan2, 2, T, dpm::atan2(a, b), std::atan2(a, b), OKFN(return near(got, want);))
	VH_OP(pow, 1, T, dpm::pow(a, V(T(3))), std::pow(a, T(3)), OKFN(return near(got, want);))
	using two = list<hypot, atan2, pow, mbase::fmod, mbase::remainder>;
	using trig = list<vh::trig::sin, vh::trig::cos, vh::trig::tan, sincos_sin, sincos_cos, vh::trig::atan>;
	using itrig = list<vh::trig::asin, vh::trig::acos>;
}
template<typename Op, typename T, std::size_t N> struct Inputs { T v[3][VH_K][N]; };
template<typename Op, typename T, std::size_t N> constexpr Inputs<Op, T, N> inputs()
{
	Inputs<Op, T, N> in{};
	Rng rng(N * 77 + sizeof(T) + static_cast<unsigned char>(Op::name[0]) * 131 + static_cast<unsigned char>(Op::name[1]));
	for (std::size_t k = 0; k < VH_K; ++k)
		for (std::size_t i = 0; i < N; ++i)
		{
			T a = cgen<T>(rng), b = cgen<T>(rng), c = cgen<T>(rng);
			if (Op::arity > 1 && rng.below(8) == 0) b = a;
			Op::template fix<T>(a, b, c, rng);
			if (Op::bscalar && i)
			{
				b = in.v[1][k][0]; c = in.v[2][k][0];
				T b2 = b, c2 = c;
				Op::template fix<T>(a, b2, c2, rng);
				if (b2 != b || c2 != c) a = in.v[0][k][0];
			}
			in.v[0][k][i] = a; in.v[1][k][i] = b; in.v[2][k][i] = c;
		}
	return in;
}
template<typename R, std::size_t N> struct Results { R v[VH_K][N]; };
template<typename Op, typename T, typename Abi> constexpr auto evaluate()
{
	using V = dpm::simd<T, Abi>;
	constexpr std::size_t N = V::size();
	constexpr auto in = inputs<Op, T, N>();
	Results<typename Op::template R<T>, N> res{};
	for (std::size_t k = 0; k < VH_K; ++k)
	{
		V a{in.v[0][k], dpm::element_aligned}, b{in.v[1][k], dpm::element_aligned}, c{in.v[2][k], dpm::element_aligned};
		if constexpr (Op::bscalar)
		{
			T sb = in.v[1][k][0], sc = in.v[2][k][0];
			auto r = Op::call(a, sb, sc);
			for (std::size_t i = 0; i < N; ++i) res.v[k][i] = std::as_const(r)[i];
		}
		else
		{
			auto r = Op::call(a, b, c);
			for (std::size_t i = 0; i < N; ++i) res.v[k][i] = std::as_const(r)[i];
		}
	}
	return res;
}
template<typename Op, typename T, typename Abi> VH_NOINLINE void one()
{
	using V = dpm::simd<T, Abi>;
	using R = typename Op::template R<T>;
	constexpr std::size_t N = V::size();
	Cell cell{Op::name, tname<T>(), abiname<Abi>::get()};
	if (!cell.selected()) return;
	cell.enter();
	static constexpr auto in = inputs<Op, T, N>();
	static constexpr auto res = evaluate<Op, T, Abi>();
	for (std::size_t k = 0; k < VH_K; ++k)
	{
		R out[N];
		kernel<Op, T, Abi>(in.v[0][k], in.v[1][k], in.v[2][k], out, 0);
		++cell.calls;
		for (std::size_t i = 0; i < N; ++i)
		{
			const T a = in.v[0][k][i], b = in.v[1][k][Op::bscalar ? 0 : i], c = in.v[2][k][Op::bscalar ? 0 : i];
			const R want = Op::template ref<T>(a, b, c), got = res.v[k][i];
			++cell.lanes;
			cell.classes.insert(vclass(a) + 1000ull * vclass(b));
			cell.mix(bits(got));
			const std::string w = "element " + std::to_string(i) + "/" + std::to_string(N) + " a=" + show(a) + " b=" + show(b) + " c=" + show(c) + " the compiler gets " + show(got) + ", the program " + show(out[i]) + ", expected " + show(want);
			if (!Op::template ok<R, T>(got, want, a, b, c)) cell.fail("constant", w);
			else if (!Op::template ok<R, T>(out[i], want, a, b, c)) cell.fail("run time", w);
		}
	}
}
template<class T, class... O, class... A> void each(list<O...>, list<A...>) { ([&]<class X>(X *) { (one<O, T, X>(), ...); }(static_cast<A *>(nullptr)), ...); }
#ifndef VH_SHAPES
#define VH_SHAPES sc, fs<3>, av<4, 16>, fs<9>
#endif
template<class T, class... L> void lists() { (each<T>(L{}, list<VH_SHAPES>{}), ...); }
int main(int c, char **v)
{
	parse(c, v);
	lists<VH_T, VH_L>();
	finish();
}
