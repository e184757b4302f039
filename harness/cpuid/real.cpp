// The processor this runs on: the compiler's own run-time detection is the reference.
#include <dpm/detail/x86/cpuid.hpp>
#include <cstdio>
using C = dpm::ext::cpuid;
static int bad;
static void is(const char *n, bool got, bool want) { std::printf("R %s %d %d\n", n, got, want); bad += got != want; }
#define S(N, G) is(#N, C::has_##N(), __builtin_cpu_supports(G));
int main()
{
	__builtin_cpu_init();
	S(sse, "sse") S(sse2, "sse2") S(sse3, "sse3") S(ssse3, "ssse3") S(sse4_1, "sse4.1") S(sse4_2, "sse4.2") S(avx, "avx") S(avx2, "avx2") S(fma, "fma") S(avx512f, "avx512f") S(avx512cd, "avx512cd") S(avx512bw, "avx512bw") S(avx512dq, "avx512dq") S(avx512vl, "avx512vl") S(cmov, "cmov")
	return 0;
}
