#include "ops.hpp"
#include "abis.hpp"
using namespace vh;
template<class A> constexpr bool is_gen = std::is_same_v<A,sc> || std::is_same_v<A,fs<1>> || A::alignment==SIZE_MAX;
#ifndef VH_GEN
#define VH_GEN 0
#endif
template<class... O, class... A, class T> void all(list<O...>, list<A...>, T*) {
  auto one=[]<class X>(X*){ if constexpr(VH_GEN==2 || (is_gen<X>) == VH_GEN) (run_lanewise<O, T, X>(), ...); };
  (one((A*)0), ...);
}
int main(int c,char**v){ parse(c,v);
 VH_T*p=0; using AB=typename abis_of<VH_T>::type;
 all(VH_OPL{}, AB{}, p);
 finish(); }
