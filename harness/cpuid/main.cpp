#include <dpm/detail/x86/cpuid.hpp>
#include <cstdio>
using C = dpm::ext::cpuid;
#define F(N) std::printf("F " #N " %d\n", int(C::has_##N()));
int main()
{
	std::printf("F intel %d\nF amd %d\n", C::is_intel(), C::is_amd());
	F(msr) F(cx8) F(sep) F(cmov) F(clfsh) F(xsave) F(f16c) F(cmpxchg16b) F(sse) F(sse2) F(sse3) F(ssse3) F(sse4_1) F(sse4_2) F(avx) F(avx2) F(fma) F(avx512f) F(avx512cd) F(avx512bw) F(avx512dq) F(avx512vl)
}
