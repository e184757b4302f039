// Promoting overloads: VH_T and VH_P element types of the operands, VH_L comma separated operation lists.
#include "ops_promo.hpp"
#include "abis.hpp"
using namespace vh;
template<class... L> void lists()
{
	static const std::string tag = std::string("+") + tname<VH_P>();
	using T = VH_T;
	(over_ops<T, list<sc, fs<2>, fs<5>, fs<8>, fs<13>, pk<3>, av<6, 16>>>(L{}), ...);
}
int main(int c, char **v)
{
	parse(c, v);
	lists<VH_L>();
	finish();
}
