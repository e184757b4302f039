// Shuffles with generated index lists. VH_T: element type, VH_SEED: seed of the lists, VH_K: how many random lists of each size.
#include "abis.hpp"
#include <utility>
using namespace vh;
#ifndef VH_SEED
#define VH_SEED 1
#endif
#ifndef VH_K
#define VH_K 2
#endif
constexpr u64 hash3(u64 a, u64 b, u64 c)
{
	u64 z = a * 0x9e3779b97f4a7c15ull + b * 0xbf58476d1ce4e5b9ull + c * 0x94d049bb133111ebull + 0x1234567;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
/** Index i of list F (a family, or a random list) of M indices into N elements. */
constexpr std::size_t index(int F, std::size_t N, std::size_t M, std::size_t i)
{
	switch (F)
	{
		case 0: return i % N;                              // identity, repeated
		case 1: return N - 1 - i % N;                      // reversal
		case 2: return N - 1;                              // broadcast of the last element
		case 3: return (i + 1) % N;                        // rotation
		case 4: return (2 * i + (2 * i >= N)) % N;         // even, then odd elements
		case 5: return (i / 2) % N;                        // pairs
		case 6: return i < N ? i ^ (N > 1 && (i ^ 1) < N ? 1 : 0) : 0; // neighbours swapped
		case 7: return (i + N / 2) % N;                    // halves swapped
		case 8: return M < N ? N - M + i : i % N;          // the tail of the source
		case 9: return 0;
		default: break;
	}
	const u64 h = hash3(VH_SEED, F * 1000 + N, M * 100 + i), g = hash3(VH_SEED, F * 77 + M, N);
	if (F % 3 == 0) // contiguous runs beginning anywhere
	{
		const std::size_t run = 1 + g % 5;
		return (hash3(VH_SEED, F, i / run) + i % run) % N;
	}
	if (F % 3 == 1) // all within one quarter and one other element
		return i == g % M ? h % N : (g % N) / 4 * 4 + h % 4 < N ? (g % N) / 4 * 4 + h % 4 : h % N;
	return h % N;
}
template<typename V, int F, std::size_t M> struct shuf
{
	static constexpr std::size_t N = V::size();
	template<typename E> static VH_NOINLINE void k(const E *in, E *out, E *after, int pad)
	{
		V x;
		put(x, in, pad);
		keep(x);
		[&]<std::size_t... I>(std::index_sequence<I...>)
		{
			auto r = dpm::ext::shuffle<index(F, N, M, I)...>(x);
			static_assert(decltype(r)::size() == M);
			keep(r);
			get(r, out);
		}(std::make_index_sequence<M>{});
		keep(x);
		get(x, after);
	}
};
template<typename E> VH_NOINLINE void drive(Cell &c, int F, std::size_t N, std::size_t M, void (*kern)(const E *, E *, E *, int))
{
	Rng r(opt().seed ^ hash3(F, N, M));
	E in[64], out[128], after[64];
	for (long it = 0; it < opt().iters; ++it)
	{
		for (std::size_t i = 0; i < N; ++i)
		{
			if constexpr (std::is_same_v<E, bool>) in[i] = r.next() & 1;
			else if constexpr (sizeof(E) > 8) in[i] = any<E>(r);
			else in[i] = it == 0 ? static_cast<E>(i + 1) : from_bits<E>(r.next());
		}
		kern(in, out, after, std::is_same_v<E, bool> ? (it & 1 ? 0xff : 0) : pads[it % 5]);
		++c.calls;
		c.lanes += M;
		for (std::size_t i = 0; i < M; ++i)
		{
			const std::size_t j = index(F, N, M, i);
			c.mix(bits(out[i]));
			if (bits(out[i]) != bits(in[j]))
			{
				std::string l;
				for (std::size_t k = 0; k < M; ++k) l += (k ? "," : "") + std::to_string(index(F, N, M, k));
				c.fail("value", "shuffle<" + l + ">: element " + std::to_string(i) + " got " + show(out[i]) + " want source element " + std::to_string(j) + " = " + show(in[j]));
			}
		}
		for (std::size_t i = 0; i < N; ++i) if (bits(after[i]) != bits(in[i])) c.fail("source", "source element " + std::to_string(i) + " changed");
	}
	u64 h = 0;
	for (std::size_t i = 0; i < M; ++i) h = hash3(h, index(F, N, M, i), M);
	c.classes.insert(h);
}
template<typename V, typename E, std::size_t M> void sized(Cell &c)
{
	[&]<int... F>(std::integer_sequence<int, F...>) { (drive<E>(c, F, V::size(), M, shuf<V, F, M>::template k<E>), ...); }(std::make_integer_sequence<int, 10 + VH_K>{});
}
template<typename T, typename Abi> void run()
{
	using V = dpm::simd<T, Abi>;
	constexpr std::size_t N = V::size(), NE = 16 / sizeof(T) ? 16 / sizeof(T) : 1;
	{
		Cell c("shuffle", tname<T>(), abiname<Abi>::get());
		c.enter();
		[&]<std::size_t... M>(std::index_sequence<M...>) { (sized<V, T, M>(c), ...); }(std::index_sequence<1, 2, 3, NE, N, N + 1, (N > 1 ? N - 1 : 1), (N * 2 <= 32 ? N * 2 : N), (NE + 1)>{});
	}
	Cell c("shuffle_mask", tname<T>(), abiname<Abi>::get());
	c.enter();
	[&]<std::size_t... M>(std::index_sequence<M...>) { (sized<dpm::simd_mask<T, Abi>, bool, M>(c), ...); }(std::index_sequence<2, N, N + 1>{});
}
template<typename T> struct shuf_abis { using type = list<sc, fs<2>, fs<3>, fs<4>, fs<7>, fs<8>, fs<13>, av<6, 16>, av<5, 32>, pk<5>>; };
template<typename T> requires (sizeof(T) == 2) struct shuf_abis<T> { using type = list<sc, fs<4>, fs<8>, fs<11>, fs<16>, av<6, 16>, av<21, 32>, pk<5>>; };
template<typename T> requires (sizeof(T) == 1) struct shuf_abis<T> { using type = list<sc, fs<5>, fs<16>, fs<20>, fs<32>, av<11, 16>, av<39, 32>, pk<5>>; };
template<typename T, typename... A> void all(list<A...>) { (run<T, A>(), ...); }
int main(int c, char **v)
{
	parse(c, v);
	all<VH_T>(typename shuf_abis<VH_T>::type{});
	finish();
}
