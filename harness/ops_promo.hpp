// Overloads which promote their arguments: VH_P is the element type of the second (and third) operand.
#pragma once
#include "ops_acc.hpp"
#ifndef VH_P
#define VH_P float
#endif
namespace vh
{
	namespace promo
	{
		using U = VH_P;
		template<typename T> using P1 = std::conditional_t<std::is_same_v<T, long double>, long double, double>;
		template<typename T> using P2 = std::conditional_t<std::is_same_v<T, long double> || std::is_same_v<U, long double>, long double, double>;
		/** The promoted result type is part of the guarantee. */
		template<typename P, typename V> V is(V v)
		{
			static_assert(std::is_same_v<typename V::value_type, P>);
			return v;
		}
		template<typename V> VH_NOINLINE dpm::simd<U, typename V::abi_type> as(const V &b)
		{
			dpm::simd<U, typename V::abi_type> e;
			for (std::size_t i = 0; i < V::size(); ++i) e[i] = static_cast<U>(static_cast<typename V::value_type>(b[i]));
			keep(e);
			return e;
		}
		template<typename T> constexpr bool narrow = std::is_integral_v<U> && std::is_floating_point_v<T>;
#define FIX_U FIX(if constexpr (narrow<T>) { if (!(std::fabs(b) < 100)) b = T(rng.below(64)) - T(std::is_signed_v<U> ? 30 : 0); if (!(std::fabs(c) < 100)) c = T(rng.below(64)); if constexpr (!std::is_signed_v<U>) { b = std::fabs(b); c = std::fabs(c); } })
#define NEAR OKFN(return within(got, want, RR(2), RR(0));)
#define PROM1(NAME, ...) VH_OP(NAME, 1, P1<T>, is<P1<T>>(dpm::NAME(a)), std::NAME(static_cast<P1<T>>(a)), __VA_ARGS__)
		PROM1(sqrt) PROM1(cbrt, NEAR) PROM1(exp, NEAR) PROM1(exp2, NEAR) PROM1(expm1, NEAR)
		PROM1(log, OKFN(return within(got, want, RR(4), want == 0 ? RR(0) : 6 * eps_of<RR>);)) PROM1(log2, OKFN(return within(got, want, RR(4), want == 0 ? RR(0) : 6 * eps_of<RR>);)) PROM1(log10, OKFN(return within(got, want, RR(4), want == 0 ? RR(0) : 6 * eps_of<RR>);)) PROM1(log1p, OKFN(return within(got, want, RR(4), want == 0 ? RR(0) : 6 * eps_of<RR>);))
		PROM1(sin, OKFN(return within(got, want, RR(4), reduction_err(RR(a)));)) PROM1(cos, OKFN(return within(got, want, RR(4), reduction_err(RR(a)));)) PROM1(tan, OKFN(return within(got, want, RR(24), (1 + want * want) * (reduction_err(RR(a)) + 8 * eps_of<RR>) * (1 + std::fabs(want)));) FIX(if constexpr (std::is_integral_v<T>) { if (a > T(100)) a = T(a % T(100)); if constexpr (std::is_signed_v<T>) if (a < T(-100)) a = T(a % T(100)); }))
		PROM1(asin, OKFN(return within(got, want, RR(5), RR(0));)) PROM1(acos, OKFN(return within(got, want, RR(5), RR(0));)) PROM1(atan, OKFN(return within(got, want, RR(5), RR(0));))
		PROM1(sinh, NEAR) PROM1(cosh, NEAR) PROM1(tanh, NEAR) PROM1(asinh, NEAR) PROM1(acosh, NEAR) PROM1(atanh, NEAR)
		PROM1(erf, NEAR) PROM1(erfc, NEAR) PROM1(tgamma, NEAR) PROM1(lgamma, NEAR) PROM1(logb)
		VH_OP(ilogb, 1, int, dpm::ilogb(a), std::ilogb(static_cast<P1<T>>(a)))
		VH_OP(fpclassify, 1, int, dpm::fpclassify(a), std::fpclassify(static_cast<P1<T>>(a)))
		VH_OP(isfinite, 1, bool, dpm::isfinite(a), true)
		VH_OP(isinf, 1, bool, dpm::isinf(a), false)
		VH_OP(isnan, 1, bool, dpm::isnan(a), false)
		VH_OP(isnormal, 1, bool, dpm::isnormal(a), a != 0)
		VH_OP(signbit, 1, bool, dpm::signbit(a), a < 0)
		VH_OP(rcp, 1, P1<T>, is<P1<T>>(dpm::ext::rcp(a)), P1<T>(1) / static_cast<P1<T>>(a))
		VH_OP(rsqrt, 1, P1<T>, is<P1<T>>(dpm::ext::rsqrt(a)), P1<T>(1) / std::sqrt(static_cast<P1<T>>(a)), OKFN(return within(got, want, RR(4), RR(0));))
		VH_OP(frexp, 1, P1<T>, ([&] { dpm::simd<int, typename V::abi_type> e; return is<P1<T>>(dpm::frexp(a, &e)); }()), ([&] { int e; return std::frexp(static_cast<P1<T>>(a), &e); }()))
		VH_OP(frexp_exp, 1, int, ([&] { dpm::simd<int, typename V::abi_type> e; (void) dpm::ext::frexp(a, e); keep(e); return e; }()), ([&] { int e; (void) std::frexp(static_cast<P1<T>>(a), &e); return e; }()))
		VH_OP(ldexp, 1, P1<T>, ([&] { dpm::simd<int, typename V::abi_type> e; for (std::size_t i = 0; i < V::size(); ++i) e[i] = static_cast<int>(i) * 37 - 50; (void) is<P1<T>>(dpm::ldexp(a, e)); return is<P1<T>>(dpm::ldexp(a, -3)) + is<P1<T>>(dpm::scalbn(a, 5)) + is<P1<T>>(dpm::scalbln(a, 7l)); }()), (std::ldexp(P1<T>(a), -3) + std::ldexp(P1<T>(a), 5)) + std::ldexp(P1<T>(a), 7), OKFN(return got == want;))
		using one = list<sqrt, cbrt, exp, exp2, expm1, log, log2, log10, log1p, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, erf, erfc, tgamma, lgamma, logb, ilogb, fpclassify, isfinite, isinf, isnan, isnormal, signbit, rcp, rsqrt, frexp, frexp_exp, ldexp>;
#define PP static_cast<P2<T>>
#define UB static_cast<P2<T>>(static_cast<U>(b))
#define UC static_cast<P2<T>>(static_cast<U>(c))
#define PROM2(NAME, ...) VH_OP(NAME, 2, P2<T>, is<P2<T>>(dpm::NAME(a, as(b))), std::NAME(PP(a), UB), FIX_U __VA_ARGS__) \
	VH_OPS(NAME##_s, 2, P2<T>, is<P2<T>>(dpm::NAME(a, static_cast<U>(b))), std::NAME(PP(a), UB), FIX_U __VA_ARGS__)
#define OKZ OKFN(return same(got, want) || (got == 0 && want == 0);)
		PROM2(fmod) PROM2(remainder) PROM2(fmax, OKZ) PROM2(fmin, OKZ) PROM2(fdim) PROM2(pow, NEAR) PROM2(copysign, OKFN(return same(got, want) || isnan_(want);))
		VH_OP(hypot, 2, P2<T>, is<P2<T>>(dpm::hypot(a, as(b))), std::hypot(PP(a), UB), FIX_U NEAR)
		VH_OP(atan2, 2, P2<T>, is<P2<T>>(dpm::atan2(a, as(b))), std::atan2(PP(a), UB), FIX_U NEAR)
		VH_OP(nextafter, 2, P2<T>, is<P2<T>>(dpm::nextafter(a, as(b))), std::nextafter(PP(a), UB), FIX_U)
		VH_OP(remquo, 2, P2<T>, ([&] { dpm::simd<int, typename V::abi_type> q; return is<P2<T>>(dpm::remquo(a, as(b), &q)); }()), ([&] { int q; return std::remquo(PP(a), UB, &q); }()), FIX_U)
		VH_OP(remquo_ref, 2, P2<T>, ([&] { dpm::simd<int, typename V::abi_type> q; return is<P2<T>>(dpm::ext::remquo(a, as(b), q)); }()), ([&] { int q; return std::remquo(PP(a), UB, &q); }()), FIX_U)
		VH_OP(isgreater, 2, bool, dpm::isgreater(a, as(b)), std::isgreater(PP(a), UB), FIX_U)
		VH_OP(isgreaterequal, 2, bool, dpm::isgreaterequal(a, as(b)), std::isgreaterequal(PP(a), UB), FIX_U)
		VH_OP(isless, 2, bool, dpm::isless(a, as(b)), std::isless(PP(a), UB), FIX_U)
		VH_OP(islessequal, 2, bool, dpm::islessequal(a, as(b)), std::islessequal(PP(a), UB), FIX_U)
		VH_OP(islessgreater, 2, bool, dpm::islessgreater(a, as(b)), std::islessgreater(PP(a), UB), FIX_U)
		VH_OP(isunordered, 2, bool, dpm::isunordered(a, as(b)), std::isunordered(PP(a), UB), FIX_U)
#define OK_FM(S) OKFN(if (same(got, want)) return true; const RR p = RR(a) * UBV; volatile RR pv = p; volatile RR s = S; RR sv = s; return same(got, sv) || (got == 0 && sv == 0);)
#define UBV RR(static_cast<U>(b))
#define UCV RR(static_cast<U>(c))
		VH_OP(fma, 3, P2<T>, is<P2<T>>(dpm::fma(a, as(b), as(c))), std::fma(PP(a), UB, UC), FIX_U OK_FM(pv + UCV))
		VH_OP(fmadd, 3, P2<T>, is<P2<T>>(dpm::ext::fmadd(a, as(b), as(c))), std::fma(PP(a), UB, UC), FIX_U OK_FM(pv + UCV))
		VH_OP(fmsub, 3, P2<T>, is<P2<T>>(dpm::ext::fmsub(a, as(b), as(c))), std::fma(PP(a), UB, -UC), FIX_U OK_FM(pv - UCV))
		VH_OP(fnmadd, 3, P2<T>, is<P2<T>>(dpm::ext::fnmadd(a, as(b), as(c))), std::fma(-PP(a), UB, UC), FIX_U OK_FM(UCV - pv))
		VH_OP(fnmsub, 3, P2<T>, is<P2<T>>(dpm::ext::fnmsub(a, as(b), as(c))), std::fma(-PP(a), UB, -UC), FIX_U OK_FM(-pv - UCV))
#define OK_LERPP OKFN(if (same(got, want)) return true; if (isnan_(want)) return isnan_(got) || isnan_(static_cast<RR>(a)) == false; \
			const RR big = 1e100; const RR x = static_cast<RR>(a), y = UBV, t = UCV; if (!(std::fabs(x) < big) || !(std::fabs(y) < big) || !(std::fabs(t) < big)) return true; \
			return std::fabs(got - want) <= (std::fabs(x) + std::fabs(y)) * (1 + std::fabs(t)) * 4 * eps_of<RR> + std::numeric_limits<RR>::denorm_min() * 4;)
		VH_OP(lerp, 3, P2<T>, is<P2<T>>(dpm::lerp(a, as(b), as(c))), std::lerp(PP(a), UB, UC), FIX_U OK_LERPP)
		using two = list<fmod, fmod_s, remainder, remainder_s, fmax, fmax_s, fmin, fmin_s, fdim, fdim_s, pow, pow_s, copysign, copysign_s, hypot, atan2, nextafter, remquo, remquo_ref, isgreater, isgreaterequal, isless, islessequal, islessgreater, isunordered,
		                 fma, fmadd, fmsub, fnmadd, fnmsub, lerp>;
	}
}
