// Operation tables: each entry pairs an expression of the library with its scalar reference.
#pragma once
#include "vh.hpp"
#ifndef __clang__
#pragma GCC diagnostic ignored "-Wunused-parameter"
#endif

#define VH_OP(NAME, ARITY, RTYPE, CALL, REF, ...)                                                            \
	struct NAME : OpBase                                                                                     \
	{                                                                                                        \
		static constexpr const char *name = #NAME;                                                           \
		static constexpr int arity = ARITY;                                                                  \
		template<typename T> using R = RTYPE;                                                                \
		template<typename V, typename B, typename C> static constexpr auto call([[maybe_unused]] V &a, [[maybe_unused]] B &b, [[maybe_unused]] C &c) { using T = typename V::value_type; using M [[maybe_unused]] = typename V::mask_type; (void) sizeof(T); return CALL; } \
		template<typename T> static RTYPE ref([[maybe_unused]] T a, [[maybe_unused]] T b, [[maybe_unused]] T c) { return static_cast<RTYPE>(REF); } \
		__VA_ARGS__                                                                                          \
	};
// the same, second and third operands are scalars of the element type
#define VH_OPS(NAME, ARITY, RTYPE, CALL, REF, ...) VH_OP(NAME, ARITY, RTYPE, CALL, REF, static constexpr bool bscalar = true; __VA_ARGS__)

namespace vh
{
	/* --- domain repairs ------------------------------------------------------------------------- */
	template<typename T> constexpr bool add_ovf(T a, T b) { T r{}; return __builtin_add_overflow(a, b, &r); }
	template<typename T> constexpr bool sub_ovf(T a, T b) { T r{}; return __builtin_sub_overflow(a, b, &r); }
	template<typename T> constexpr bool mul_ovf(T a, T b) { T r{}; return __builtin_mul_overflow(a, b, &r); }
	template<typename T> constexpr bool wide_signed = std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int);
	// unsigned short * unsigned short promotes to int and may overflow
	template<typename T> T wrap_mul(T a, T b)
	{
		if constexpr (std::is_integral_v<T>) return static_cast<T>(static_cast<u64>(a) * static_cast<u64>(b));
		else return a * b;
	}
#define FIX(...) template<typename T> static constexpr void fix(T &a, T &b, T &c, Rng &rng) { (void) a; (void) b; (void) c; (void) rng; __VA_ARGS__ }
#define OKFN(...) template<typename RR, typename T> static bool ok(const RR &got, const RR &want, T a, T b, T c) { (void) a; (void) b; (void) c; __VA_ARGS__ }
#define FIX_ADD FIX(if constexpr (wide_signed<T>) if (add_ovf(a, b)) b = 0;)
#define FIX_SUB FIX(if constexpr (wide_signed<T>) if (sub_ovf(a, b)) b = 0;)
#define FIX_MUL FIX(if constexpr (wide_signed<T>) { if (mul_ovf(a, b)) b = 1; } else if constexpr (std::is_same_v<T, std::uint16_t>) { if (u64(a) * u64(b) > INT_MAX) b &= 0x7fff; })
#define FIX_DIV FIX(if constexpr (std::is_integral_v<T>) { if (b == 0) b = 3; if constexpr (std::is_signed_v<T>) if (b == T(-1)) b = 2; })
#define FIX_NEG FIX(if constexpr (wide_signed<T>) if (a == std::numeric_limits<T>::min()) a = 5;)
#define FIX_SHV FIX(b = static_cast<T>(static_cast<u64>(b) % (sizeof(T) * 8));)
#define FIX_ONEUP FIX(if constexpr (wide_signed<T>) if (a == std::numeric_limits<T>::max()) a = 5;)
#define FIX_ONEDN FIX(if constexpr (wide_signed<T>) if (a == std::numeric_limits<T>::min()) a = 5;)
	namespace arith
	{
		VH_OP(add, 2, T, a + b, a + b, FIX_ADD)
		VH_OP(sub, 2, T, a - b, a - b, FIX_SUB)
		VH_OP(mul, 2, T, a * b, wrap_mul(a, b), FIX_MUL)
		VH_OP(div, 2, T, a / b, a / b, FIX_DIV)
		VH_OPS(add_s, 2, T, a + b, a + b, FIX_ADD)
		VH_OPS(sub_s, 2, T, a - b, a - b, FIX_SUB)
		VH_OPS(mul_s, 2, T, a * b, wrap_mul(a, b), FIX_MUL)
		VH_OPS(div_s, 2, T, a / b, a / b, FIX_DIV)
		VH_OP(add_assign, 2, T, (a += b), a + b, FIX_ADD)
		VH_OP(sub_assign, 2, T, (a -= b), a - b, FIX_SUB)
		VH_OP(mul_assign, 2, T, (a *= b), wrap_mul(a, b), FIX_MUL)
		VH_OP(div_assign, 2, T, (a /= b), a / b, FIX_DIV)
		VH_OPS(add_assign_s, 2, T, (a += b), a + b, FIX_ADD)
		VH_OPS(sub_assign_s, 2, T, (a -= b), a - b, FIX_SUB)
		VH_OPS(mul_assign_s, 2, T, (a *= b), wrap_mul(a, b), FIX_MUL)
		VH_OPS(div_assign_s, 2, T, (a /= b), a / b, FIX_DIV)
		VH_OP(plus, 1, T, +a, a)
		VH_OP(neg, 1, T, -a, -a, FIX_NEG)
		VH_OP(preinc, 1, T, ++a, a + 1, FIX_ONEUP)
		VH_OP(predec, 1, T, --a, a - 1, FIX_ONEDN)
		VH_OP(postinc_old, 1, T, a++, a, FIX_ONEUP)
		VH_OP(postdec_old, 1, T, a--, a, FIX_ONEDN)
		VH_OP(postinc_new, 1, T, ((void) (a++), a), a + 1, FIX_ONEUP)
		VH_OP(postdec_new, 1, T, ((void) (a--), a), a - 1, FIX_ONEDN)
// without NaN operands; either zero when the operands are zeros
#define MM FIX(if constexpr (std::is_floating_point_v<T>) { if (isnan_(a)) a = T(1.5); if (isnan_(b)) b = T(-2.5); }) OKFN(return got == want;)
		VH_OP(min, 2, T, dpm::min(a, b), std::min(a, b), MM)
		VH_OP(max, 2, T, dpm::max(a, b), std::max(a, b), MM)
		VH_OPS(min_s, 2, T, dpm::min(a, b), std::min(a, b), MM)
		VH_OPS(max_s, 2, T, dpm::max(a, b), std::max(a, b), MM)
		VH_OP(minmax_lo, 2, T, dpm::minmax(a, b).first, std::min(a, b), MM)
		VH_OP(minmax_hi, 2, T, dpm::minmax(a, b).second, std::max(a, b), MM)
		VH_OPS(minmax_lo_s, 2, T, dpm::minmax(a, b).first, std::min(a, b), MM)
		VH_OPS(minmax_hi_s, 2, T, dpm::minmax(a, b).second, std::max(a, b), MM)
#define FIX_CLAMP FIX(if (isnan_(a)) a = T(1); if (isnan_(b)) b = T(-2); if (isnan_(c)) c = T(7); if (!(b <= c)) std::swap(b, c);) OKFN(return got == want;)
		VH_OP(clamp, 3, T, dpm::clamp(a, b, c), std::clamp(a, b, c), FIX_CLAMP)
		VH_OPS(clamp_s, 3, T, dpm::clamp(a, b, c), std::clamp(a, b, c), FIX_CLAMP)
		using common = list<add, sub, mul, div, add_s, sub_s, mul_s, div_s, add_assign, sub_assign, mul_assign, div_assign, add_assign_s, sub_assign_s, mul_assign_s, div_assign_s, plus, neg, preinc, predec, postinc_old, postdec_old, postinc_new, postdec_new,
		                    min, max, min_s, max_s, minmax_lo, minmax_hi, minmax_lo_s, minmax_hi_s, clamp, clamp_s>;
		/* the operators of integers / of floating-point types, without min/max */
		using iarith = list<add, sub, mul, div, add_s, sub_s, mul_s, div_s, add_assign, sub_assign, mul_assign, div_assign, add_assign_s, sub_assign_s, mul_assign_s, div_assign_s, plus, neg, preinc, predec, postinc_old, postdec_old, postinc_new, postdec_new>;
		using mm = list<min, max, min_s, max_s, minmax_lo, minmax_hi, minmax_lo_s, minmax_hi_s, clamp, clamp_s>;
		using fparith = iarith;
		/* integers only */
		VH_OP(mod, 2, T, a % b, a % b, FIX_DIV)
		VH_OPS(mod_s, 2, T, a % b, a % b, FIX_DIV)
		VH_OP(mod_assign, 2, T, (a %= b), a % b, FIX_DIV)
		VH_OPS(mod_assign_s, 2, T, (a %= b), a % b, FIX_DIV)
		VH_OP(bnot, 1, T, ~a, ~a)
		VH_OP(band, 2, T, a & b, a & b)
		VH_OP(bor, 2, T, a | b, a | b)
		VH_OP(bxor, 2, T, a ^ b, a ^ b)
		VH_OPS(band_s, 2, T, a & b, a & b)
		VH_OPS(bor_s, 2, T, a | b, a | b)
		VH_OPS(bxor_s, 2, T, a ^ b, a ^ b)
		VH_OP(band_assign, 2, T, (a &= b), a & b)
		VH_OP(bor_assign, 2, T, (a |= b), a | b)
		VH_OP(bxor_assign, 2, T, (a ^= b), a ^ b)
		VH_OPS(band_assign_s, 2, T, (a &= b), a & b)
		VH_OPS(bor_assign_s, 2, T, (a |= b), a | b)
		VH_OPS(bxor_assign_s, 2, T, (a ^= b), a ^ b)
		VH_OP(shl, 2, T, a << b, a << b, FIX_SHV)
		VH_OP(shr, 2, T, a >> b, a >> b, FIX_SHV)
		VH_OP(shl_assign, 2, T, (a <<= b), a << b, FIX_SHV)
		VH_OP(shr_assign, 2, T, (a >>= b), a >> b, FIX_SHV)
		VH_OPS(shl_n, 2, T, a << static_cast<int>(b), a << b, FIX_SHV)
		VH_OPS(shr_n, 2, T, a >> static_cast<int>(b), a >> b, FIX_SHV)
		VH_OPS(shl_assign_n, 2, T, (a <<= static_cast<int>(b)), a << b, FIX_SHV)
		VH_OPS(shr_assign_n, 2, T, (a >>= static_cast<int>(b)), a >> b, FIX_SHV)
		VH_OP(lnot, 1, bool, !a, !a)
		using integral = list<mod, mod_s, mod_assign, mod_assign_s, bnot, band, bor, bxor, band_s, bor_s, bxor_s, band_assign, bor_assign, bxor_assign, band_assign_s, bor_assign_s, bxor_assign_s, shl, shr, shl_assign, shr_assign, shl_n, shr_n, shl_assign_n, shr_assign_n, lnot>;
#define SHIFT_OPS(N)                                                                                   \
		VH_OP(lsl_##N, 1, T, dpm::ext::lsl<N>(a), static_cast<u64>(a) << N)                             \
		VH_OP(lsr_##N, 1, T, dpm::ext::lsr<N>(a), static_cast<std::make_unsigned_t<T>>(a) >> N)         \
		VH_OP(asl_##N, 1, T, dpm::ext::asl<N>(a), static_cast<u64>(a) << N)                             \
		VH_OP(asr_##N, 1, T, dpm::ext::asr<N>(a), a >> N)
		SHIFT_OPS(0) SHIFT_OPS(1) SHIFT_OPS(3) SHIFT_OPS(6) SHIFT_OPS(7) SHIFT_OPS(8) SHIFT_OPS(11) SHIFT_OPS(14) SHIFT_OPS(15) SHIFT_OPS(16) SHIFT_OPS(21) SHIFT_OPS(30) SHIFT_OPS(31) SHIFT_OPS(32) SHIFT_OPS(33) SHIFT_OPS(47) SHIFT_OPS(62) SHIFT_OPS(63)
#define SH4(N) lsl_##N, lsr_##N
#define SA4(N) asl_##N, asr_##N
		using lshifts8 = list<SH4(0), SH4(1), SH4(3), SH4(6)>;
		using ashifts8 = list<SA4(0), SA4(1), SA4(3), SA4(6)>;
		using lshifts16 = list<SH4(7), SH4(8), SH4(11), SH4(14)>;
		using ashifts16 = list<SA4(7), SA4(8), SA4(11), SA4(14)>;
		using lshifts32 = list<SH4(15), SH4(16), SH4(21), SH4(30)>;
		using ashifts32 = list<SA4(15), SA4(16), SA4(21), SA4(30)>;
		using lshifts64 = list<SH4(31), SH4(32), SH4(33), SH4(47), SH4(62)>;
		using ashifts64 = list<SA4(31), SA4(32), SA4(33), SA4(47), SA4(62)>;
	}
	namespace cmp
	{
		VH_OP(eq, 2, bool, a == b, a == b)
		VH_OP(ne, 2, bool, a != b, a != b)
		VH_OP(lt, 2, bool, a < b, a < b)
		VH_OP(le, 2, bool, a <= b, a <= b)
		VH_OP(gt, 2, bool, a > b, a > b)
		VH_OP(ge, 2, bool, a >= b, a >= b)
		using common = list<eq, ne, lt, le, gt, ge>;
		VH_OP(isfinite, 1, bool, dpm::isfinite(a), std::isfinite(a))
		VH_OP(isinf, 1, bool, dpm::isinf(a), std::isinf(a))
		VH_OP(isnan, 1, bool, dpm::isnan(a), std::isnan(a), static constexpr int quiet = FE_INVALID;)
		VH_OP(isnormal, 1, bool, dpm::isnormal(a), std::isnormal(a))
		VH_OP(signbit, 1, bool, dpm::signbit(a), std::signbit(a))
		VH_OP(fpclassify, 1, int, dpm::fpclassify(a), std::fpclassify(a))
		VH_OP(isgreater, 2, bool, dpm::isgreater(a, b), std::isgreater(a, b), static constexpr int quiet = FE_INVALID;)
		VH_OP(isgreaterequal, 2, bool, dpm::isgreaterequal(a, b), std::isgreaterequal(a, b), static constexpr int quiet = FE_INVALID;)
		VH_OP(isless, 2, bool, dpm::isless(a, b), std::isless(a, b), static constexpr int quiet = FE_INVALID;)
		VH_OP(islessequal, 2, bool, dpm::islessequal(a, b), std::islessequal(a, b), static constexpr int quiet = FE_INVALID;)
		VH_OP(islessgreater, 2, bool, dpm::islessgreater(a, b), std::islessgreater(a, b), static constexpr int quiet = FE_INVALID;)
		VH_OP(isunordered, 2, bool, dpm::isunordered(a, b), std::isunordered(a, b), static constexpr int quiet = FE_INVALID;)
		using fp = list<isfinite, isinf, isnan, isnormal, signbit, fpclassify, isgreater, isgreaterequal, isless, islessequal, islessgreater, isunordered>;
	}
	namespace mbase
	{
		// fmax/fmin of zeros of different sign may return either
#define OK_ZERO OKFN(if constexpr (std::is_floating_point_v<T>) { if (a == 0 && b == 0) return got == 0; } return same(got, want);)
		VH_OP(abs, 1, T, dpm::abs(a), a < 0 ? -a : a, FIX_NEG OKFN(if constexpr (std::is_floating_point_v<T>) return same(got, std::fabs(a)); else return same(got, want);))
		VH_OP(fabs, 1, T, dpm::fabs(a), std::fabs(a))
		VH_OP(fmax, 2, T, dpm::fmax(a, b), std::fmax(a, b), OK_ZERO)
		VH_OP(fmin, 2, T, dpm::fmin(a, b), std::fmin(a, b), OK_ZERO)
		VH_OPS(fmax_s, 2, T, dpm::fmax(a, b), std::fmax(a, b), OK_ZERO)
		VH_OPS(fmin_s, 2, T, dpm::fmin(a, b), std::fmin(a, b), OK_ZERO)
		VH_OP(fdim, 2, T, dpm::fdim(a, b), std::fdim(a, b))
		VH_OPS(fdim_s, 2, T, dpm::fdim(a, b), std::fdim(a, b))
		VH_OP(fmod, 2, T, dpm::fmod(a, b), std::fmod(a, b))
		VH_OPS(fmod_s, 2, T, dpm::fmod(a, b), std::fmod(a, b))
		VH_OP(remainder, 2, T, dpm::remainder(a, b), std::remainder(a, b))
		VH_OPS(remainder_s, 2, T, dpm::remainder(a, b), std::remainder(a, b))
		// "Equivalent to a * b + c": both the fused and the twice rounded result are accepted
#define OK_FMA(S1, S2) OKFN(if (same(got, want)) return true; volatile T p = a * b; T q = S1 p; volatile T s = q S2 c; (void) q; T sv = s; return same(got, sv);)
		VH_OP(fmadd, 3, T, dpm::ext::fmadd(a, b, c), std::fma(a, b, c), OK_FMA(+, +))
		VH_OP(fmsub, 3, T, dpm::ext::fmsub(a, b, c), std::fma(a, b, -c), OK_FMA(+, -))
		VH_OP(fnmadd, 3, T, dpm::ext::fnmadd(a, b, c), std::fma(-a, b, c), OK_FMA(-, +))
		VH_OP(fnmsub, 3, T, dpm::ext::fnmsub(a, b, c), std::fma(-a, b, -c), OK_FMA(-, -))
		VH_OP(fma, 3, T, dpm::fma(a, b, c), std::fma(a, b, c), OK_FMA(+, +))
		VH_OP(sqrt, 1, T, dpm::sqrt(a), std::sqrt(a))
// estimates: 2^-11 relative for float (subnormals may be flushed to zero), a rounding per step for double
#define OK_RCP(LIM) OKFN(if (same(got, want)) return true; if constexpr (std::is_same_v<T, float>) { \
			if (std::fabs(a) < std::numeric_limits<T>::min()) return a < 0 ? got < -1e18f : got > 1e18f; \
			if (want == 0 || std::fabs(want) < std::numeric_limits<T>::min()) return std::signbit(got) == std::signbit(want) && std::fabs(got) <= std::numeric_limits<T>::min() * 1.01f; \
			return std::fabs(double(got) - double(want)) <= std::fabs(double(want)) * 0x1p-11; } \
			return std::fabs(got - want) <= std::fabs(want) * (LIM) * std::numeric_limits<T>::epsilon();)
		VH_OP(rcp, 1, T, dpm::ext::rcp(a), T(1) / a, OK_RCP(0))
		VH_OP(rsqrt, 1, T, dpm::ext::rsqrt(a), T(1) / std::sqrt(a), OK_RCP(2))
		VH_OP(copysign, 2, T, dpm::copysign(a, b), std::copysign(a, b), OKFN(return bits(got) == bits(want) || isnan_(a);))
		VH_OPS(copysign_s, 2, T, dpm::copysign(a, b), std::copysign(a, b), OKFN(return bits(got) == bits(want) || isnan_(a);))
// a + c * (b - a) in any order of rounding; huge and infinite operands are left to the NaN rule
#define OK_LERP OKFN(if (same(got, want)) return true; if (isnan_(a) || isnan_(b) || isnan_(c)) return isnan_(got); \
			const T big = std::sqrt(std::numeric_limits<T>::max()) / 4; \
			if (!(std::fabs(a) < big) || !(std::fabs(b) < big) || !(std::fabs(c) < big)) return true; \
			const T mag = (std::fabs(a) + std::fabs(b)) * (1 + std::fabs(c)); \
			return std::fabs(got - want) <= mag * 4 * std::numeric_limits<T>::epsilon() + std::numeric_limits<T>::denorm_min() * 4;)
		VH_OP(lerp, 3, T, dpm::lerp(a, b, c), std::lerp(a, b, c), OK_LERP)
		VH_OP(lerp_zero, 2, T, dpm::lerp(a, b, V{T(0)}), a, FIX(if (!(std::fabs(a) < std::numeric_limits<T>::max() / 4)) a = T(1.5); if (!(std::fabs(b) < std::numeric_limits<T>::max() / 4)) b = T(2.5);) OKFN(return got == want;))
		VH_OP(remquo_rem, 2, T, ([&] { dpm::simd<int, typename V::abi_type> q; return dpm::remquo(a, b, &q); }()), ([&] { int q; return std::remquo(a, b, &q); }()))
		// the sign and the three last bits of the quotient
		VH_OP(remquo_quo, 2, int, ([&] { dpm::simd<int, typename V::abi_type> q; (void) dpm::remquo(a, b, &q); return q; }()), ([&] { int q; (void) std::remquo(a, b, &q); return q; }()),
		      FIX(if (isnan_(a) || isinf_(a)) a = T(100.25); if (isnan_(b) || b == 0) b = T(3);) OKFN(return (got & 7) == (want & 7) || (-got & 7) == (-want & 7) && ((got < 0) == (want < 0));))
		/* correctly rounded */
		using exact = list<sqrt, fmadd, fmsub, fnmadd, fnmsub, fma, rcp, rsqrt>;
		/* minima, absolute values, remainders, interpolation */
		using mmfp = list<fabs, fmax, fmin, fmax_s, fmin_s, fdim, fdim_s, lerp, lerp_zero>;
		using rem = list<fmod, fmod_s, remainder, remainder_s>;
		using remq = list<remquo_rem, remquo_quo>;
		using sign = list<copysign, copysign_s>;
		using absl = list<abs>;
	}
	namespace rnd
	{
#define MODES static constexpr bool modes = true;
		VH_OP(ceil, 1, T, dpm::ceil(a), std::ceil(a), MODES)
		VH_OP(floor, 1, T, dpm::floor(a), std::floor(a), MODES)
		VH_OP(trunc, 1, T, dpm::trunc(a), std::trunc(a), MODES)
		VH_OP(round, 1, T, dpm::round(a), std::round(a), MODES)
		VH_OP(rint, 1, T, dpm::rint(a), std::rint(a), MODES)
		VH_OP(nearbyint, 1, T, dpm::nearbyint(a), std::nearbyint(a), MODES)
#define FIX_LONG FIX(if (!(std::fabs(a) < T(9.2e18))) a = T(3.5);)
		VH_OP(lround, 1, long, dpm::lround(a), std::lround(a), MODES FIX_LONG)
		VH_OP(llround, 1, long long, dpm::llround(a), std::llround(a), MODES FIX_LONG)
		VH_OP(lrint, 1, long, dpm::lrint(a), std::lrint(a), MODES FIX_LONG)
		VH_OP(llrint, 1, long long, dpm::llrint(a), std::llrint(a), MODES FIX_LONG)
		using fp = list<ceil, floor, trunc, round, rint, nearbyint>;
		using conv = list<lround, llround, lrint, llrint>;
	}
}
namespace vh
{
	namespace iconv
	{
#define FIX_I(I) MODES FIX(if (!(std::fabs(static_cast<long double>(a)) < static_cast<long double>(std::numeric_limits<I>::max()) - 1)) a = T(-3.5);)
		VH_OP(itrunc8, 1, std::int8_t, dpm::ext::itrunc<std::int8_t>(a), a, FIX_I(std::int8_t))
		VH_OP(itrunc32, 1, std::int32_t, dpm::ext::itrunc<std::int32_t>(a), a, FIX_I(std::int32_t))
		VH_OP(itrunc64, 1, std::int64_t, dpm::ext::itrunc<std::int64_t>(a), a, FIX_I(std::int64_t))
		VH_OP(iround16, 1, std::int16_t, dpm::ext::iround<std::int16_t>(a), std::llround(a), FIX_I(std::int16_t))
		VH_OP(iround32, 1, std::int32_t, dpm::ext::iround<std::int32_t>(a), std::llround(a), FIX_I(std::int32_t))
		VH_OP(iround64, 1, std::int64_t, dpm::ext::iround<std::int64_t>(a), std::llround(a), FIX_I(std::int64_t))
		VH_OP(irint16, 1, std::int16_t, dpm::ext::irint<std::int16_t>(a), std::llrint(a), FIX_I(std::int16_t))
		VH_OP(irint32, 1, std::int32_t, dpm::ext::irint<std::int32_t>(a), std::llrint(a), FIX_I(std::int32_t))
		VH_OP(irint64, 1, std::int64_t, dpm::ext::irint<std::int64_t>(a), std::llrint(a), FIX_I(std::int64_t))
		VH_OP(ltrunc, 1, long, dpm::ext::ltrunc(a), a, FIX_I(std::int64_t))
		VH_OP(lltrunc, 1, long long, dpm::ext::lltrunc(a), a, FIX_I(std::int64_t))
		using fp = list<itrunc8, itrunc32, itrunc64, iround16, iround32, iround64, irint16, irint32, irint64, ltrunc, lltrunc>;
	}
}

namespace vh
{
	namespace fmanip
	{
		/** An integral exponent of any magnitude. */
		template<typename T> T expo(Rng &r)
		{
			static const double e[] = {0, 1, -1, 2, -2, 10, -10, 22, 23, 24, -23, -24, 52, 53, -53, 126, 127, 128, 149, -125, -126, -127, -128, -148, -149, -150, -151, 252, 254, 255, 256, 276, 277, -252, -276, -277, -278, -300, 1000, 1022, 1023, 1024, -1021, -1022, -1023, -1024,
			                           -1073, -1074, -1075, -1076, 2045, 2046, 2047, 2048, 2097, 2098, 2099, -2096, -2097, -2098, -2099, -2100, 4096, -4096, 32767, -32768, 49999, 50000, 50001, -50000, -50001, 65536, 1e6, -1e6, 8388608, -8388608, 1073741824, -1073741824, 2147483520, -2147483520, 2147483647, -2147483648.0};
			const u64 k = r.below(4);
			double x;
			if (k == 0) x = e[r.below(sizeof e / sizeof *e)];
			else if (k == 1) x = static_cast<double>(r.below(600)) - 300;
			else if (k == 2) x = static_cast<double>(r.below(4400)) - 2200;
			else x = static_cast<double>(static_cast<std::int64_t>(r.next()) >> (33 + r.below(30)));
			T t = static_cast<T>(x);
			if (!(t > T(-2147483648.0))) t = sizeof(T) == 4 ? T(-2147483520.0) : T(-2147483648.0);
			if (!(t < T(2147483647.0))) t = sizeof(T) == 4 ? T(2147483520.0) : T(2147483647.0);
			return t;
		}
		template<typename I, typename V> VH_NOINLINE dpm::simd<I, typename V::abi_type> ints(const V &b)
		{
			dpm::simd<I, typename V::abi_type> e;
			std::memset(static_cast<void *>(&e), 0xff, sizeof e);
			for (std::size_t i = 0; i < V::size(); ++i) e[i] = static_cast<I>(static_cast<typename V::value_type>(b[i]));
			keep(e);
			return e;
		}
#define FIX_EXP FIX(b = expo<T>(rng);)
// results near the smallest values: so that the rounding of subnormal results is exercised
#define FIX_EXPS FIX(b = expo<T>(rng); if (rng.below(2) && !isnan_(a) && !isinf_(a) && a != 0) { int e; std::frexp(a, &e); b = static_cast<T>(std::numeric_limits<T>::min_exponent - e - static_cast<int>(rng.below(std::numeric_limits<T>::digits + 4)) + 2); })
		VH_OP(ldexp, 2, T, dpm::ldexp(a, ints<int>(b)), std::ldexp(a, static_cast<int>(b)), FIX_EXPS)
		VH_OPS(ldexp_s, 2, T, dpm::ldexp(a, static_cast<int>(b)), std::ldexp(a, static_cast<int>(b)), FIX_EXP)
		VH_OP(scalbn, 2, T, dpm::scalbn(a, ints<int>(b)), std::scalbn(a, static_cast<int>(b)), FIX_EXPS)
		VH_OPS(scalbn_s, 2, T, dpm::scalbn(a, static_cast<int>(b)), std::scalbn(a, static_cast<int>(b)), FIX_EXP)
		VH_OP(scalbln, 2, T, dpm::scalbln(a, ints<long>(b)), std::scalbln(a, static_cast<long>(b)), FIX_EXPS)
		VH_OPS(scalbln_s, 2, T, dpm::scalbln(a, static_cast<long>(b)), std::scalbln(a, static_cast<long>(b)), FIX_EXP)
		VH_OP(frexp_frac, 1, T, ([&] { dpm::simd<int, typename V::abi_type> e; return dpm::frexp(a, &e); }()), ([&] { int e; return std::frexp(a, &e); }()))
		VH_OP(frexp_exp, 1, int, ([&] { dpm::simd<int, typename V::abi_type> e; std::memset(static_cast<void *>(&e), 0x77, sizeof e); keep(e); (void) dpm::frexp(a, &e); keep(e); return e; }()), ([&] { int e; (void) std::frexp(a, &e); return e; }()), OKFN(return isnan_(a) || isinf_(a) || got == want;))
		VH_OP(frexp_ref, 1, T, ([&] { dpm::simd<int, typename V::abi_type> e; return dpm::ext::frexp(a, e); }()), ([&] { int e; return std::frexp(a, &e); }()))
		VH_OP(modf_frac, 1, T, ([&] { V i; return dpm::modf(a, &i); }()), ([&] { T i; return std::modf(a, &i); }()))
		VH_OP(modf_int, 1, T, ([&] { V i; std::memset(static_cast<void *>(&i), 0x77, sizeof i); keep(i); (void) dpm::modf(a, &i); keep(i); return i; }()), ([&] { T i; (void) std::modf(a, &i); return i; }()))
		VH_OP(modf_ref, 1, T, ([&] { V i; (void) dpm::ext::modf(a, i); return i; }()), ([&] { T i; (void) std::modf(a, &i); return i; }()))
		VH_OP(ilogb, 1, int, dpm::ilogb(a), std::ilogb(a))
		VH_OP(logb, 1, T, dpm::logb(a), std::logb(a))
		VH_OP(nextafter, 2, T, dpm::nextafter(a, b), std::nextafter(a, b), FIX(if (rng.below(3) == 0 && !isnan_(a) && !isinf_(a)) b = std::nextafter(a, rng.below(2) ? T(1e30) : T(-1e30)); if (rng.below(8) == 0) { a = rng.below(2) ? T(0) : -T(0); }))
		VH_OP(nexttoward, 2, T, dpm::nexttoward(a, ([&] { dpm::simd<long double, typename V::abi_type> l; for (std::size_t i = 0; i < V::size(); ++i) l[i] = static_cast<long double>(static_cast<T>(b[i])) * (1 - 0x1p-60L); return l; }())), std::nexttoward(a, static_cast<long double>(b) * (1 - 0x1p-60L)))
		using sign = mbase::sign;
		using scal = list<ldexp, ldexp_s, scalbn, scalbn_s, scalbln, scalbln_s>;
		using parts = list<frexp_frac, frexp_exp, frexp_ref, modf_frac, modf_int, modf_ref>;
		using logbs = list<ilogb, logb, nextafter, nexttoward>;
	}
}
