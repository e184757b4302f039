// Included before everything else: hides the architecture from the library (not from the system headers), which then uses the
// implementation for architectures without SIMD support.
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bit>
#include <cfenv>
#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <concepts>
#include <csetjmp>
#include <csignal>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <numbers>
#include <numeric>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <version>
#include <sys/mman.h>
#include <unistd.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __i386__
#undef __i386
#undef i386
