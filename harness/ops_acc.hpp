// Elementary functions: references are the correctly rounded or nearly so results of glibc; the tolerances are the accuracy
// which the library was measured to have, doubled (see DESIGN.md).
#pragma once
#include "ops.hpp"

namespace vh
{
#if defined(__FMA__)
	constexpr bool have_fma = true;
#else
	constexpr bool have_fma = false;
#endif
	template<typename T> T ulp_of(T x)
	{
		x = std::fabs(x);
		if (!(x >= std::numeric_limits<T>::min())) return std::numeric_limits<T>::denorm_min();
		if (x > std::numeric_limits<T>::max()) return x;
		int e;
		std::frexp(x, &e);
		const T u = std::ldexp(T(1), e - std::numeric_limits<T>::digits);
		return u > 0 ? u : std::numeric_limits<T>::denorm_min();
	}
	/** NaN for NaN, the same infinity; otherwise not further than tol apart. A zero reached within a zero tolerance keeps its sign. */
	template<typename T> bool within(T got, T want, T ulps, T abs)
	{
		if (isnan_(want) || isnan_(got)) return isnan_(want) && isnan_(got);
		if (isinf_(want) || isinf_(got))
		{
			if (got == want) return true;
			// the border of the overflow
			return ulps > 0 && std::signbit(got) == std::signbit(want) && std::fabs(isinf_(want) ? got : want) >= std::numeric_limits<T>::max() * (1 - ulps * std::numeric_limits<T>::epsilon());
		}
		if (want == 0 && abs == 0) return got == 0 && std::signbit(got) == std::signbit(want);
		return std::fabs(got - want) <= ulps * ulp_of(want) + abs;
	}
	template<typename T> constexpr T eps_of = std::numeric_limits<T>::epsilon();
	/** The argument is beyond the range in which the vector algorithm is used. */
	template<typename T> bool huge_arg(T a) { return std::fabs(a) > (sizeof(T) == 4 ? T(0x1p21) : T(0x1p50)); }
	/** Absolute error of the reduction of an argument to one octant. */
	template<typename T> T reduction_err(T a)
	{
		if (!(std::fabs(a) > T(0.785))) return 0;
		if (huge_arg(a)) return 0;
		return 2 * eps_of<T> + ulp_of(a) * (have_fma ? T(0x1p-16) : T(1));
	}
	template<typename T> T trig_gen(Rng &r)
	{
		const u64 k = r.below(8);
		if (k < 3) return any<T>(r);
		if (k < 5) // neighbours of the multiples of Pi / 4
		{
			const std::int64_t m = static_cast<std::int64_t>(r.next()) >> (30 + r.below(33));
			T x = static_cast<T>(m * 0.78539816339744830961566L);
			for (u64 i = r.below(4); i-- > 0;) x = std::nextafter(x, (r.next() & 1) ? T(1e30) : T(-1e30));
			return x;
		}
		if (k == 5) return static_cast<T>(static_cast<std::int64_t>(r.next()) * 0x1p-63) * T(1000);
		if (k == 6) return static_cast<T>(static_cast<std::int64_t>(r.next()) * 0x1p-63) * T(8);
		return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), -63 - 4 + static_cast<int>(r.below(60)));
	}
	template<typename T> T unit_gen(Rng &r)
	{
		const u64 k = r.below(8);
		if (k < 3) return any<T>(r);
		const T s = (r.next() & 1) ? T(1) : T(-1);
		if (k < 5) return s * (1 - std::ldexp(static_cast<T>(r.next() >> 1), -63 - static_cast<int>(r.below(std::numeric_limits<T>::digits))));
		if (k < 6) return s * (T(0.5) + s * std::ldexp(static_cast<T>(r.next() >> 1), -63 - static_cast<int>(r.below(std::numeric_limits<T>::digits))));
		return s * std::ldexp(static_cast<T>(r.next() >> 1), -63 - static_cast<int>(r.below(4)));
	}
	template<typename T> T log_gen(Rng &r)
	{
		const u64 k = r.below(8);
		if (k < 3) return any<T>(r);
		if (k < 5) return 1 + std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), -64 - static_cast<int>(r.below(std::numeric_limits<T>::digits))); // around one
		if (k < 6) return std::ldexp(static_cast<T>(r.next() >> 1), -63 + static_cast<int>(r.below(8)) - 4);
		if (k < 7) return std::ldexp(T(1), static_cast<int>(r.below(std::numeric_limits<T>::max_exponent * 2)) - std::numeric_limits<T>::max_exponent); // powers of two
		return std::ldexp(static_cast<T>(r.next() >> 1), -63 + static_cast<int>(r.below(std::numeric_limits<T>::max_exponent * 2)) - std::numeric_limits<T>::max_exponent);
	}
	template<typename T> T log1p_gen(Rng &r)
	{
		const u64 k = r.below(8);
		if (k < 2) return log_gen<T>(r);
		if (k < 4) return log_gen<T>(r) - 1;
		const T s = (r.next() & 1) ? T(1) : T(-1);
		return s * std::ldexp(static_cast<T>(r.next() >> 1), -63 - static_cast<int>(r.below(k < 6 ? 16 : 60)));
	}
	template<typename T> T exp_gen(Rng &r)
	{
		const u64 k = r.below(8);
		if (k < 3) return any<T>(r);
		return static_cast<T>(static_cast<std::int64_t>(r.next()) * 0x1p-63) * (k < 5 ? T(4) : sizeof(T) == 4 ? T(110) : T(760));
	}
#define GEN(G) template<typename T> static T gen(Rng &r) { return G<T>(r); }
	namespace trig
	{
#define OK_SC OKFN(return within(got, want, T(huge_arg(a) ? 2 : 4), reduction_err(a));) GEN(trig_gen)
#define OK_TAN OKFN(const T near0 = sizeof(T) == 8 && std::fabs(a) < T(0.0982) ? T(24) : T(6); if (std::fabs(want) > 1 && std::fabs(got) > 1 && !huge_arg(a)) return std::fabs(1 / got - 1 / want) <= 2 * reduction_err(a) + 8 * eps_of<T> * std::fabs(1 / want); return within(got, want, huge_arg(a) ? T(2) : near0, (1 + want * want) * reduction_err(a));) GEN(trig_gen)
#define OK_ARC OKFN(return within(got, want, T(5), T(0));)
		VH_OP(sin, 1, T, dpm::sin(a), std::sin(a), OK_SC)
		VH_OP(cos, 1, T, dpm::cos(a), std::cos(a), OK_SC)
		VH_OP(tan, 1, T, dpm::tan(a), std::tan(a), OK_TAN)
		VH_OP(sincos_sin, 1, T, ([&] { V s, k; std::memset(static_cast<void *>(&s), 0x77, sizeof s); std::memset(static_cast<void *>(&k), 0x77, sizeof k); keep(s); keep(k); dpm::ext::sincos(a, s, k); keep(k); return s; }()), std::sin(a), OK_SC)
		VH_OP(sincos_cos, 1, T, ([&] { V s, k; std::memset(static_cast<void *>(&s), 0x77, sizeof s); std::memset(static_cast<void *>(&k), 0x77, sizeof k); keep(s); keep(k); dpm::ext::sincos(a, s, k); keep(s); return k; }()), std::cos(a), OK_SC)
		VH_OP(asin, 1, T, dpm::asin(a), std::asin(a), OK_ARC GEN(unit_gen))
		VH_OP(acos, 1, T, dpm::acos(a), std::acos(a), OK_ARC GEN(unit_gen))
		VH_OP(atan, 1, T, dpm::atan(a), std::atan(a), OK_ARC)
		using all = list<sin, cos, tan, sincos_sin, sincos_cos, asin, acos, atan>;
	}
	namespace logs
	{
#define OK_LOG OKFN(return within(got, want, T(4), want == 0 ? T(0) : 6 * eps_of<T>);) GEN(log_gen)
		VH_OP(log, 1, T, dpm::log(a), std::log(a), OK_LOG)
		VH_OP(log2, 1, T, dpm::log2(a), std::log2(a), OK_LOG)
		VH_OP(log10, 1, T, dpm::log10(a), std::log10(a), OK_LOG)
		VH_OP(log1p, 1, T, dpm::log1p(a), std::log1p(a), OKFN(return within(got, want, T(4), want == 0 || std::fabs(a) < T(0x1p-11) ? T(0) : 6 * eps_of<T>);) GEN(log1p_gen))
		using all = list<log, log2, log10, log1p>;
	}
	namespace pows
	{
		VH_OP(hypot, 2, T, dpm::hypot(a, b), std::hypot(a, b), OKFN(return within(got, want, T(2), T(0));)
		      FIX(if (rng.below(2) && !isnan_(a) && !isinf_(a) && a != 0) { int e; std::frexp(a, &e); const auto m = std::ldexp(static_cast<T>(rng.next() | 1), -64); b = std::ldexp(m, e + static_cast<int>(rng.below(160)) - 80); }))
		using hyp = list<hypot>;
		VH_OP(pow, 2, T, dpm::pow(a, b), std::pow(a, b), OKFN(return within(got, want, T(2), T(0));) FIX(const u64 k = rng.below(4); if (k == 0) b = static_cast<T>(static_cast<int>(rng.below(40)) - 20); else if (k == 1) { a = log_gen<T>(rng); b = exp_gen<T>(rng); }))
		VH_OPS(pow_s, 2, T, dpm::pow(a, b), std::pow(a, b), OKFN(return within(got, want, T(2), T(0));))
		VH_OP(atan2, 2, T, dpm::atan2(a, b), std::atan2(a, b), OKFN(return within(got, want, T(2), T(0));))
		using p2 = list<pow, pow_s, atan2>;
	}
	namespace elem
	{
#define ELEM(NAME, ...) VH_OP(NAME, 1, T, dpm::NAME(a), std::NAME(a), OKFN(return within(got, want, T(2), T(0));) __VA_ARGS__)
		ELEM(cbrt) ELEM(exp, GEN(exp_gen)) ELEM(exp2, GEN(exp_gen)) ELEM(expm1, GEN(exp_gen))
		ELEM(sinh, GEN(exp_gen)) ELEM(cosh, GEN(exp_gen)) ELEM(tanh, GEN(exp_gen)) ELEM(asinh) ELEM(acosh) ELEM(atanh, GEN(unit_gen))
		ELEM(erf, GEN(exp_gen)) ELEM(erfc, GEN(exp_gen)) ELEM(tgamma, GEN(exp_gen)) ELEM(lgamma, GEN(exp_gen))
		using all = list<cbrt, exp, exp2, expm1, sinh, cosh, tanh, asinh, acosh, atanh, erf, erfc, tgamma, lgamma>;
	}
}
