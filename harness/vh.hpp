// Runtime-monitoring core: hostile input generation, lane-wise reference oracles, event log.
// Every executable built from this header performs calls of the real dpm code on generated inputs and
// compares every observed lane with an independent scalar reference. It prints JSON lines:
//   {"t":"v",...}  a violation (first ones per key, later ones only counted)
//   {"t":"s",...}  statistics of one (op,type,abi) cell: lanes observed, distinct input classes, digest
//   {"t":"end"}    the run went to completion (a missing line is a harness failure or a crash)
#pragma once
#include <dpm/simd.hpp>
#include <algorithm>
#include <array>
#include <bit>
#include <cfenv>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

#ifndef VH_ISA
#define VH_ISA "?"
#endif
#define VH_NOINLINE __attribute__((noinline, noclone))

namespace vh
{
	using u64 = std::uint64_t;
	using u32 = std::uint32_t;

	struct Rng
	{
		u64 s;
		constexpr explicit Rng(u64 seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
		constexpr u64 next()
		{
			s += 0x9e3779b97f4a7c15ull;
			u64 z = s;
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
			z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
			return z ^ (z >> 31);
		}
		constexpr u64 below(u64 n) { return n ? next() % n : 0; }
	};
	inline u64 hash_str(const char *s)
	{
		u64 h = 1469598103934665603ull;
		for (; *s; ++s) h = (h ^ (unsigned char) *s) * 1099511628211ull;
		return h;
	}

	template<typename T> constexpr const char *tname()
	{
		if constexpr (std::is_same_v<T, float>) return "float";
		else if constexpr (std::is_same_v<T, double>) return "double";
		else if constexpr (std::is_same_v<T, long double>) return "ldouble";
		else if constexpr (std::is_same_v<T, bool>) return "bool";
		else if constexpr (std::is_same_v<T, char>) return "char";
		else if constexpr (std::is_same_v<T, long long>) return "llong";
		else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
		else if constexpr (std::is_same_v<T, std::int8_t>) return "i8";
		else if constexpr (std::is_same_v<T, std::uint8_t>) return "u8";
		else if constexpr (std::is_same_v<T, std::int16_t>) return "i16";
		else if constexpr (std::is_same_v<T, std::uint16_t>) return "u16";
		else if constexpr (std::is_same_v<T, std::int32_t>) return "i32";
		else if constexpr (std::is_same_v<T, std::uint32_t>) return "u32";
		else if constexpr (std::is_same_v<T, std::int64_t>) return "i64";
		else if constexpr (std::is_same_v<T, std::uint64_t>) return "u64";
		else return "other";
	}
	template<typename Abi> struct abiname;
	template<> struct abiname<dpm::simd_abi::scalar> { static std::string get() { return "scalar"; } };
	template<std::size_t N, std::size_t A> struct abiname<dpm::simd_abi::ext::aligned_vector<N, A>>
	{
		static std::string get()
		{
			if (A == SIZE_MAX) return "packed" + std::to_string(N);
			if (A == 0) return "fixed" + std::to_string(N);
			return "avec" + std::to_string(N) + "_" + std::to_string(A);
		}
	};

	template<std::size_t N> using uint_of = std::conditional_t<N == 1, std::uint8_t, std::conditional_t<N == 2, std::uint16_t, std::conditional_t<N == 4, std::uint32_t, std::uint64_t>>>;

	template<typename T> constexpr u64 bits(const T &x)
	{
		if constexpr (std::is_same_v<T, bool>) return x ? 1 : 0;
		else if constexpr (sizeof(T) <= 8) return std::bit_cast<uint_of<sizeof(T)>>(x);
		else { u64 a = 0; std::uint16_t b = 0; std::memcpy(&a, &x, 8); std::memcpy(&b, reinterpret_cast<const char *>(&x) + 8, 2); return a ^ (u64(b) << 48) * 31; }
	}
	template<typename T> constexpr T from_bits(u64 v)
	{
		if constexpr (sizeof(T) <= 8) return std::bit_cast<T>(static_cast<uint_of<sizeof(T)>>(v));
		else return static_cast<T>(std::bit_cast<double>(v)); /* long double: element type of promoted results only */
	}
	template<typename T> constexpr bool isnan_(T x)
	{
		if constexpr (std::is_same_v<T, float>) return (bits(x) & 0x7fffffffu) > 0x7f800000u;
		else if constexpr (std::is_same_v<T, double>) return (bits(x) & 0x7fffffffffffffffull) > 0x7ff0000000000000ull;
		else if constexpr (std::is_floating_point_v<T>) return x != x;
		else return false;
	}
	template<typename T> constexpr bool isinf_(T x)
	{
		if constexpr (std::is_same_v<T, float>) return (bits(x) & 0x7fffffffu) == 0x7f800000u;
		else if constexpr (std::is_same_v<T, double>) return (bits(x) & 0x7fffffffffffffffull) == 0x7ff0000000000000ull;
		else if constexpr (std::is_floating_point_v<T>) return x > std::numeric_limits<T>::max() || x < std::numeric_limits<T>::lowest();
		else return false;
	}
	/** Coarse class of a value: the unit in which coverage of the input space is reported. */
	template<typename T> int vclass(T x)
	{
		if constexpr (std::is_same_v<T, bool>) return x;
		else if constexpr (std::is_floating_point_v<T>)
		{
			const int neg = std::signbit(x) ? 100 : 0;
			if (isnan_(x)) return neg + 1;
			if (isinf_(x)) return neg + 2;
			if (x == 0) return neg + 3;
			const T ax = x < 0 ? -x : x;
			if (ax < std::numeric_limits<T>::min()) return neg + 4;
			int e = 0;
			std::frexp(ax, &e);
			const bool integral = e > std::numeric_limits<T>::digits || ax == std::floor(ax);
			int b = e < -40 ? 0 : e < -10 ? 1 : e < 0 ? 2 : e <= 1 ? 3 : e < 8 ? 4 : e < 24 ? 5 : e < 32 ? 6 : e < 54 ? 7 : e < 64 ? 8 : 9;
			return neg + 10 + b * 2 + integral;
		}
		else
		{
			if (x == std::numeric_limits<T>::max()) return 1;
			if (x == std::numeric_limits<T>::min()) return 2;
			if (x == 0) return 3;
			if constexpr (std::is_signed_v<T>) if (x < 0) return 50 + std::bit_width(static_cast<u64>(-(static_cast<std::int64_t>(x) + 1)));
			return 100 + std::bit_width(static_cast<u64>(x));
		}
	}

	template<typename T> std::vector<T> specials()
	{
		using L = std::numeric_limits<T>;
		std::vector<T> v;
		if constexpr (std::is_same_v<T, bool>) v = {false, true};
		else if constexpr (std::is_floating_point_v<T>)
		{
			std::vector<T> p = {T(0), L::denorm_min(), L::denorm_min() * 3, L::min() / 2, L::min() - L::denorm_min(), L::min(), L::min() * T(1.5), L::min() * 2, L::epsilon() / 4, L::epsilon(),
			                    T(0.25), T(0.49999997), T(0.49999999999999994L), T(0.5), T(0.50000006), T(0.75), T(0.99999994), T(1) - L::epsilon() / 2, T(1), T(1) + L::epsilon(), T(1.25), T(1.5), T(1.75), T(2), T(2.5), T(3), T(3.5), T(4.5), T(7),
			                    T(10), T(100.5), T(127), T(128), T(255), T(256), T(32767), T(32768.5), T(65535), T(65536), T(1e5), T(1e6), T(4194303.5), T(4194304.5), T(8388607.5L), T(8388608), T(8388609), T(16777215), T(16777216), T(16777217),
			                    T(2147483520), T(2147483647.0), T(2147483648.0), T(4294967040.0), T(4294967296.0), T(1099511627776.0), T(2251799813685247.5), T(2251799813685248.5), T(4503599627370495.5), T(4503599627370496.0), T(4503599627370497.0), T(9007199254740991.0), T(9007199254740992.0), T(4611686018427387904.0), T(9223371487098961920.0), T(9223372036854774784.0), T(9223372036854775808.0), T(18446744073709551616.0),
			                    L::max() / 2, L::max(), L::infinity(), T(0.70710678118654752440L), T(1.41421356237309504880L), T(0.78539816339744830962L), T(1.57079632679489661923L), T(3.14159265358979323846L), T(6.28318530717958647693L), T(2.71828182845904523536L), T(0.41421356237309504880L), T(2.41421356237309504880L), T(0.66), T(1e-8), T(1e-20), T(1e20), T(1e30)};
			for (T x : p) { v.push_back(x); v.push_back(-x); }
			v.push_back(L::quiet_NaN());
			v.push_back(-L::quiet_NaN());
		}
		else
		{
			for (int b = 0; b < L::digits; ++b)
			{
				v.push_back(static_cast<T>(T(1) << b));
				v.push_back(static_cast<T>((T(1) << b) - 1));
				if constexpr (std::is_signed_v<T>) { v.push_back(static_cast<T>(-(T(1) << b))); v.push_back(static_cast<T>(-((T(1) << b) - 1) - 1)); }
			}
			for (T x : {L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), T(0), T(1), T(2), T(3), T(7), T(10), T(100), T(0x55), T(0x2a)}) v.push_back(x);
			if constexpr (std::is_signed_v<T>) for (T x : {T(-1), T(-2), T(-3), T(-7), T(-100)}) v.push_back(x);
			for (u64 x : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x0f0f0f0f0f0f0f0full, 0x80000000ull, 0x7fffffffull, 0xffffffffull, 0x100000000ull, 0xffffffff00000000ull, 0x8000000080000000ull, 0x7fffffff80000000ull}) v.push_back(static_cast<T>(x));
		}
		return v;
	}
	/** Hostile value generator. */
	template<typename T> T any(Rng &r)
	{
		static const std::vector<T> sp = specials<T>();
		const u64 k = r.below(16);
		if constexpr (std::is_same_v<T, bool>) return r.next() & 1;
		else if constexpr (std::is_floating_point_v<T>)
		{
			if (k < 5) return sp[r.below(sp.size())];
			if (k < 7) // random bit pattern (no signalling NaN)
			{
				if constexpr (sizeof(T) <= 8)
				{
					T x = from_bits<T>(r.next());
					return isnan_(x) ? std::numeric_limits<T>::quiet_NaN() : x;
				}
				else
					return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), static_cast<int>(r.below(2000)) - 1000);
			}
			if (k < 9) // neighbours of specials
			{
				T x = sp[r.below(sp.size())];
				if (isnan_(x) || isinf_(x)) return x;
				for (u64 i = r.below(3); i-- > 0;) x = std::nextafter(x, (r.next() & 1) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
				return x;
			}
			if (k < 11) // log-uniform around one
				return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), -63 + static_cast<int>(r.below(24)) - 12);
			if (k < 13) // log-uniform, wide
				return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), -63 + static_cast<int>(r.below(160)) - 80);
			if (k < 15) // integers and halves
				return static_cast<T>(static_cast<std::int64_t>(r.next()) >> (8 + r.below(56))) / static_cast<T>(u64(1) << r.below(3));
			return std::ldexp(static_cast<T>(static_cast<std::int64_t>(r.next())), -63 - std::numeric_limits<T>::max_exponent + static_cast<int>(r.below(40))); // near / below the subnormal border
		}
		else
		{
			if (k < 6) return sp[r.below(sp.size())];
			if (k < 10) return static_cast<T>(r.next());
			if (k < 13) return static_cast<T>(static_cast<std::int64_t>(r.next()) >> r.below(64));
			if (k < 15) return static_cast<T>(r.next() >> r.below(64));
			return static_cast<T>(static_cast<T>(r.below(7)) - static_cast<T>(3));
		}
	}

	struct Options
	{
		u64 seed = 1;
		long iters = 200;
		long maxrep = 3;
		std::string only;      // restrict to an op (replay)
		std::string only_abi;
		u64 sweep = 0;         // points of the bit-pattern sweep of one-argument operations
	};
	inline Options &opt() { static Options o; return o; }
	inline void parse(int argc, char **argv)
	{
		for (int i = 1; i + 1 < argc; i += 2)
		{
			std::string k = argv[i];
			if (k == "--seed") opt().seed = std::strtoull(argv[i + 1], nullptr, 10);
			else if (k == "--iters") opt().iters = std::atol(argv[i + 1]);
			else if (k == "--maxrep") opt().maxrep = std::atol(argv[i + 1]);
			else if (k == "--op") opt().only = argv[i + 1];
			else if (k == "--sweep") opt().sweep = std::strtoull(argv[i + 1], nullptr, 10);
			else if (k == "--abi") opt().only_abi = argv[i + 1];
		}
	}

	/** One (op, type, abi) cell of the workload: collects what was observed there. */
	struct Cell
	{
		std::string op, type, abi;
		u64 lanes = 0, calls = 0, viol = 0, digest = 1469598103934665603ull;
		std::set<u64> classes;
		std::map<std::string, u64> seen;
		static inline const char *current_op = "";

		Cell(std::string o, std::string t, std::string a) : op(std::move(o)), type(std::move(t)), abi(std::move(a)) {}
		void enter() const { std::printf("{\"t\":\"in\",\"op\":\"%s\",\"type\":\"%s\",\"abi\":\"%s\"}\n", op.c_str(), type.c_str(), abi.c_str()); std::fflush(stdout); }
		bool selected() const { return (opt().only.empty() || opt().only == op) && (opt().only_abi.empty() || opt().only_abi == abi); }
		void mix(u64 v) { digest = (digest ^ v) * 1099511628211ull; }
		void fail(const std::string &cls, const std::string &detail)
		{
			++viol;
			if (seen[cls]++ < static_cast<u64>(opt().maxrep))
				std::printf("{\"t\":\"v\",\"op\":\"%s\",\"type\":\"%s\",\"abi\":\"%s\",\"isa\":\"%s\",\"cls\":\"%s\",\"detail\":\"%s\"}\n", op.c_str(), type.c_str(), abi.c_str(), VH_ISA, cls.c_str(), detail.c_str());
		}
		~Cell()
		{
			if (!calls) return;
			std::printf("{\"t\":\"s\",\"op\":\"%s\",\"type\":\"%s\",\"abi\":\"%s\",\"isa\":\"%s\",\"calls\":%llu,\"lanes\":%llu,\"classes\":%zu,\"viol\":%llu,\"digest\":\"%016llx\"}\n",
			            op.c_str(), type.c_str(), abi.c_str(), VH_ISA, (unsigned long long) calls, (unsigned long long) lanes, classes.size(), (unsigned long long) viol, (unsigned long long) digest);
		}
	};

	template<typename T> std::string show(const T &x)
	{
		char b[96];
		if constexpr (std::is_same_v<T, bool>) std::snprintf(b, sizeof b, "%d", int(x));
		else if constexpr (std::is_same_v<T, long double>) std::snprintf(b, sizeof b, "%La", x);
		else if constexpr (std::is_floating_point_v<T>) std::snprintf(b, sizeof b, "%.17g(0x%llx)", double(x), (unsigned long long) bits(x));
		else if constexpr (std::is_signed_v<T>) std::snprintf(b, sizeof b, "%lld", (long long) x);
		else std::snprintf(b, sizeof b, "%llu", (unsigned long long) x);
		return b;
	}

	/** Bit-exact, except that every NaN equals every NaN. */
	template<typename T> bool same(const T &a, const T &b)
	{
		if constexpr (std::is_floating_point_v<T>)
		{
			if (isnan_(a) || isnan_(b)) return isnan_(a) && isnan_(b);
			if (sizeof(T) > 8) return a == b && std::signbit(a) == std::signbit(b);
		}
		return bits(a) == bits(b);
	}
	template<typename T> const char *fpclass_name(T x)
	{
		if constexpr (std::is_same_v<T, bool>) return x ? "true" : "false";
		else if constexpr (std::is_floating_point_v<T>)
		{
			if (isnan_(x)) return "nan";
			if (isinf_(x)) return std::signbit(x) ? "-inf" : "inf";
			if (x == 0) return std::signbit(x) ? "-0" : "+0";
			const T ax = x < 0 ? -x : x;
			if (ax < std::numeric_limits<T>::min()) return "sub";
			return "fin";
		}
		else return "int";
	}
	struct Exact
	{
		template<typename T> static bool ok(const T &got, const T &want) { return same(got, want); }
	};

	template<typename... Ts> struct list {};
	template<typename F, typename... Ts> void for_each(list<Ts...>, F &&f) { (f.template operator()<Ts>(), ...); }

	template<typename T> inline void keep(T &x) { asm volatile("" : "+m"(x) : : "memory"); }

	// ---------------------------------------------------------------- lane-wise ops
	// An op provides: name; arity (1..3); In<T,k>: k-th argument type is T unless specialised; fix(): repairs inputs out of the
	// domain; call(V...): dpm expression; ref(T...): the scalar reference.
	/** Fills a vector element by element; what the object holds besides its elements (padding) is set to a byte pattern first. */
	template<typename V, typename T> VH_NOINLINE void put(V &v, const T *in, int pad)
	{
		std::memset(static_cast<void *>(&v), pad, sizeof(V));
		for (std::size_t i = 0; i < V::size(); ++i) v[i] = in[i];
	}
	template<typename V, typename R> VH_NOINLINE void get(const V &v, R *out)
	{
		for (std::size_t i = 0; i < V::size(); ++i) out[i] = v[i];
	}
	template<typename Op, typename T, typename Abi>
	VH_NOINLINE void kernel(const T *in0, const T *in1, const T *in2, typename Op::template R<T> *out, int pad)
	{
		using V = dpm::simd<T, Abi>;
		constexpr std::size_t N = V::size();
		V a, b, c;
		put(a, in0, pad);
		if constexpr (Op::arity > 1 && !Op::bscalar) put(b, in1, pad);
		if constexpr (Op::arity > 2 && !Op::bscalar) put(c, in2, pad);
		keep(a);
		if constexpr (Op::arity > 1 && !Op::bscalar) keep(b);
		if constexpr (Op::arity > 2 && !Op::bscalar) keep(c);
		if constexpr (Op::bscalar)
		{
			T sb = in1[0], sc = in2[0];
			auto r = Op::call(a, sb, sc);
			static_assert(decltype(r)::size() == N);
			keep(r);
			get(r, out);
		}
		else
		{
			auto r = Op::call(a, b, c);
			static_assert(decltype(r)::size() == N);
			keep(r);
			get(r, out);
		}
	}
	template<typename T, typename R>
	struct Spec
	{
		const char *name;
		int arity;
		bool bscalar, exact_flags;
		std::size_t n;
		std::string abi;
		void (*kern)(const T *, const T *, const T *, R *, int);
		R (*ref)(T, T, T);
		void (*fix)(T &, T &, T &, Rng &);
		bool (*ok)(const R &, const R &, T, T, T);
		T (*gen)(Rng &);
		/* flags which a call must not raise; 0: flags are not observed */
		int quiet;
		/* every call runs under one of the four rounding modes */
		bool modes;
	};
	inline const int rmodes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	/** Rounding mode, exception masks, flush-to-zero and denormals-are-zero of SSE; rounding and precision of x87. */
	inline unsigned control_bits()
	{
		unsigned c;
		unsigned short w;
		asm volatile("stmxcsr %0" : "=m"(c));
		asm volatile("fnstcw %0" : "=m"(w));
		return (c & ~0x3fu) | unsigned(w & 0xf3f) << 16;
	}
	inline const int pads[] = {0x00, 0xff, 0x7f, 0x80, 0x5a};
	inline std::string flagname(int f)
	{
		std::string s;
		if (f & FE_INVALID) s += "INVALID ";
		if (f & FE_DIVBYZERO) s += "DIVBYZERO ";
		if (f & FE_OVERFLOW) s += "OVERFLOW ";
		if (f & FE_UNDERFLOW) s += "UNDERFLOW ";
		if (f & FE_INEXACT) s += "INEXACT ";
		return s;
	}
	constexpr std::size_t max_lanes = 64;
	/** Drives one cell: generated calls, then (for one-argument operations on small types) a sweep over the bit patterns. */
	template<typename T, typename R>
	VH_NOINLINE void run_spec(const Spec<T, R> &sp, const char *variant = "")
	{
		Cell cell{std::string(sp.name) + variant, tname<T>(), sp.abi};
		if (!cell.selected()) return;
		cell.enter();
		const std::size_t N = sp.n;
		Rng rng(opt().seed ^ hash_str(sp.name) ^ (hash_str(tname<T>()) << 1) ^ (hash_str(cell.abi.c_str()) << 2));
		static T in[3][max_lanes];
		static R out[max_lanes + 2];
		u64 sweep_points = 0, sweep_pos = 0, sweep_stride = 1;
		if (opt().sweep && sp.arity == 1 && sizeof(T) <= 8)
		{
			if (sizeof(T) < 4) sweep_points = u64(1) << (8 * sizeof(T)); // exhaustive
			else
			{
				sweep_points = opt().sweep;
				const unsigned __int128 total = static_cast<unsigned __int128>(1) << (8 * sizeof(T));
				sweep_stride = sizeof(T) == 4 && sweep_points >= (u64(1) << 32) ? 1 : static_cast<u64>(total / sweep_points) | 1;
				sweep_pos = rng.next() % sweep_stride;
			}
		}
		// Amount of calls: enough that every lane position sees enough values
		const long gen_iters = std::max<long>(8, opt().iters * 8 / static_cast<long>(N + 4));
		const long iters = gen_iters + static_cast<long>((sweep_points + N - 1) / N);
		for (long it = 0; it < iters; ++it)
		{
			for (std::size_t i = 0; i < N; ++i)
			{
				if (it >= gen_iters)
				{
					in[0][i] = from_bits<T>(sweep_pos);
					sweep_pos += sweep_stride;
					if (isnan_(in[0][i])) in[0][i] = std::signbit(static_cast<double>(in[0][i])) ? -std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::quiet_NaN();
					in[1][i] = in[2][i] = T(1);
				}
				else
				{
					for (auto &x : in) x[i] = sp.gen(rng);
					if (sp.arity > 1 && rng.below(8) == 0) in[1][i] = in[0][i]; // force equal operands now and then
				}
				if (sp.bscalar && i != 0) { in[1][i] = in[1][0]; in[2][i] = in[2][0]; }
				sp.fix(in[0][i], in[1][i], in[2][i], rng);
			}
			if (sp.bscalar)
				for (std::size_t i = 0; i < N; ++i)
				{
					T b = in[1][0], c = in[2][0];
					sp.fix(in[0][i], b, c, rng);
					if (!(same(b, in[1][0]) && same(c, in[2][0]))) in[0][i] = in[0][0];
				}
			std::memset(static_cast<void *>(out), 0x5a, sizeof out);
			T keep_in[3][max_lanes];
			std::memcpy(static_cast<void *>(keep_in), in, sizeof keep_in);
			const int mode = sp.modes ? rmodes[(it + it / 20) & 3] : FE_TONEAREST;
			if (sp.modes) std::fesetround(mode);
			if (sp.quiet) std::feclearexcept(FE_ALL_EXCEPT);
			const unsigned csr = control_bits();
			sp.kern(in[0], in[1], in[2], out, pads[it % 5]);
			if (sp.quiet)
				if (const int f = std::fetestexcept(sp.quiet))
				{
					std::string d = "raised " + flagname(f) + "for";
					for (std::size_t i = 0; i < std::min<std::size_t>(N, 4); ++i) d += " (" + show(in[0][i]) + (sp.arity > 1 ? "," + show(in[1][i]) : "") + ")";
					cell.fail("flags", d);
				}
			if (csr != control_bits())
			{
				cell.fail("environment", "the floating-point control state changed from " + std::to_string(csr) + " to " + std::to_string(control_bits()));
				std::fesetround(mode);
			}
			++cell.calls;
			for (std::size_t i = 0; i < N; ++i)
			{
				const T b = sp.bscalar ? in[1][0] : in[1][i], c = sp.bscalar ? in[2][0] : in[2][i];
				const R want = sp.ref(in[0][i], b, c);
				if (sp.modes && i + 1 == N) std::fesetround(FE_TONEAREST);
				++cell.lanes;
				if (it < gen_iters || (it & 255) == 0) cell.classes.insert(vclass(in[0][i]) + (sp.arity > 1 ? 1000ull * vclass(b) : 0));
				cell.mix(bits(out[i]));
				if (!sp.ok(out[i], want, in[0][i], b, c))
				{
					std::string cls = fpclass_name(in[0][i]);
					if (sp.arity > 1) cls += std::string(",") + fpclass_name(b);
					if (sp.arity > 2) cls += std::string(",") + fpclass_name(c);
					std::string d = "lane " + std::to_string(i) + "/" + std::to_string(N) + " a=" + show(in[0][i]);
					if (sp.arity > 1) d += " b=" + show(b);
					if (sp.arity > 2) d += " c=" + show(c);
					if (sp.modes) d += std::string(" rounding ") + (mode == FE_UPWARD ? "up" : mode == FE_DOWNWARD ? "down" : mode == FE_TOWARDZERO ? "zero" : "nearest");
					d += " got " + show(out[i]) + " want " + show(want) + " call " + std::to_string(it);
					cell.fail(cls, d);
				}
			}
		}
	}
	template<typename Op, typename T, typename Abi>
	Spec<T, typename Op::template R<T>> spec_of()
	{
		using R = typename Op::template R<T>;
		return {Op::name, Op::arity, Op::bscalar, false, dpm::simd<T, Abi>::size(), abiname<Abi>::get(), &kernel<Op, T, Abi>, &Op::template ref<T>, &Op::template fix<T>,
		        [](const R &g, const R &w, T a, T b, T c) { return Op::template ok<R, T>(g, w, a, b, c); }, &Op::template gen<T>, Op::quiet, Op::modes};
	}
	template<typename Op, typename T, typename Abi> void run_lanewise() { run_spec<T, typename Op::template R<T>>(spec_of<Op, T, Abi>()); }
	struct OpBase
	{
		static constexpr bool bscalar = false;
		static constexpr int quiet = 0;
		static constexpr bool modes = false;
		template<typename T> static constexpr void fix(T &, T &, T &, Rng &) {}
		template<typename R, typename T> static bool ok(const R &got, const R &want, T, T, T) { return same(got, want); }
		template<typename T> static T gen(Rng &r) { return any<T>(r); }
	};
	template<class O, class T, class... A> void over_abis(list<A...>) { (run_lanewise<O, T, A>(), ...); }
	template<class T, class Abis, class... O> void over_ops(list<O...>) { (over_abis<O, T>(Abis{}), ...); }
	inline void finish() { std::printf("{\"t\":\"end\"}\n"); std::fflush(stdout); }
}
