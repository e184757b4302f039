// Lane-wise unit: VH_T element type, VH_L comma separated operation lists.
#include "ops_acc.hpp"
#include "abis.hpp"
using namespace vh;
#ifndef VH_ABIS
#define VH_ABIS typename abis_of<VH_T>::type
#endif
template<class T, class... L> void lists() { (over_ops<T, VH_ABIS>(L{}), ...); }
int main(int c, char **v)
{
	parse(c, v);
	lists<VH_T, VH_L>();
	finish();
}
