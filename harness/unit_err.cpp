// Builds without error handling: VH_ERR 0 (neither option), 1 (NaN propagation only). Elements whose arguments and exact result are
// finite must be as accurate as ever, whatever their neighbours are; with NaN propagation a NaN argument gives NaN.
#include "ops_acc.hpp"
#include "abis.hpp"
using namespace vh;
#ifndef VH_ERR
#define VH_ERR 0
#endif
#if VH_ERR == 0 && (defined(DPM_PROPAGATE_NAN) || defined(DPM_HANDLE_ERRORS))
#error "the configuration under test propagates NaN"
#endif
template<typename T> bool fin(T x) { return !isnan_(x) && !isinf_(x); }
template<class O> struct Err : O
{
	template<typename R, typename T> static bool ok(const R &got, const R &want, T a, T b, T c)
	{
		const bool nan = isnan_(a) || (O::arity > 1 && isnan_(b)) || (O::arity > 2 && isnan_(c));
		if constexpr (std::is_floating_point_v<R>)
			if (VH_ERR == 1 && nan && isnan_(want)) return isnan_(got);
		const bool valid = fin(a) && (O::arity < 2 || fin(b)) && (O::arity < 3 || fin(c)) && fin(want);
		// scaling below the smallest normal number is a range error
		if constexpr (std::is_same_v<typename O::template R<T>, T> && O::arity == 2)
			if (O::name[0] != 'h' && O::name[0] != 'n' && !isnan_(want) && std::fabs(want) < std::numeric_limits<T>::min() && a != 0) return true;
		if (!valid || (std::is_integral_v<R> && a == 0)) return true;
		return O::template ok<R, T>(got, want, a, b, c);
	}
};
template<class T, class... O> void wrap(list<O...>) { over_ops<T, typename abis_of<T>::type>(list<Err<O>...>{}); }
template<class T, class... L> void lists() { (wrap<T>(L{}), ...); }
int main(int c, char **v)
{
	parse(c, v);
	lists<VH_T, VH_L>();
	finish();
}
