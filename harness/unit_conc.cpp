// Concurrency monitor: threads which start together make the same calls on shared constant operands, in different orders, the very first
// calls included; every result must be the one a single thread gets. The build with -fsanitize=thread watches the accesses.
#include "ops_acc.hpp"
#include "abis.hpp"
#include <atomic>
#include <thread>
using namespace vh;
constexpr int THREADS = 8;
template<typename Op, typename T, typename Abi> VH_NOINLINE void one()
{
	using R = typename Op::template R<T>;
	Cell cell{Op::name, tname<T>(), abiname<Abi>::get()};
	if (!cell.selected()) return;
	cell.enter();
	constexpr std::size_t N = dpm::simd<T, Abi>::size();
	const std::size_t K = std::max<long>(4, opt().iters / long(N));
	Rng rng(opt().seed ^ hash_str(Op::name) * 3);
	std::vector<T> in[3];
	for (auto &v : in) v.resize(K * N);
	for (std::size_t i = 0; i < K * N; ++i)
	{
		for (auto &v : in) v[i] = Op::template gen<T>(rng);
		Op::template fix<T>(in[0][i], in[1][i], in[2][i], rng);
	}
	std::vector<R> res[THREADS + 1];
	for (auto &r : res) r.assign(K * N + 2, R{});
	if constexpr (std::is_same_v<R, bool>) {}
	std::atomic<int> ready{0};
	std::atomic<u64> overlap{0}, running{0};
	auto work = [&](int t)
	{
		std::vector<std::size_t> order(K);
		for (std::size_t i = 0; i < K; ++i) order[i] = (i * (t & 1 ? K - 1 : 1) + t / 2 * 7) % K;
		static_assert(!std::is_same_v<R, bool>);
		R buf[N];
		if (t < THREADS) { ++ready; while (ready.load() < THREADS) std::this_thread::yield(); }
		u64 ov = 0;
		for (std::size_t k : order)
		{
			const u64 others = running.fetch_add(1);
			ov += others > 0;
			kernel<Op, T, Abi>(&in[0][k * N], &in[1][k * N], &in[2][k * N], buf, 0x5a);
			running.fetch_sub(1);
			for (std::size_t i = 0; i < N; ++i) res[t][k * N + i] = buf[i];
		}
		overlap += ov;
	};
	std::vector<std::thread> th;
	for (int t = 0; t < THREADS; ++t) th.emplace_back(work, t);
	for (auto &t : th) t.join();
	work(THREADS);
	cell.calls = K * (THREADS + 1);
	cell.classes.insert(overlap.load());
	for (int t = 0; t < THREADS; ++t)
		for (std::size_t i = 0; i < K * N; ++i)
		{
			++cell.lanes;
			if (!same(res[t][i], res[THREADS][i])) cell.fail("thread", "element " + std::to_string(i % N) + " a=" + show(in[0][i]) + " b=" + show(in[1][i]) + " gives " + show(res[t][i]) + " in a thread and " + show(res[THREADS][i]) + " alone");
		}
	for (std::size_t i = 0; i < K * N; ++i) { cell.mix(bits(res[THREADS][i])); cell.classes.insert(vclass(in[0][i]) + 1000000); }
	std::printf("{\"t\":\"x\",\"op\":\"%s\",\"overlapping\":%llu,\"calls\":%zu}\n", Op::name, (unsigned long long) overlap.load(), K * THREADS);
}
template<class T, class... O, class... A> void each(list<O...>, list<A...>) { ([&]<class X>(X *) { (one<O, T, X>(), ...); }(static_cast<A *>(nullptr)), ...); }
#ifndef VH_SHAPES
#define VH_SHAPES sc, fs<4>, fs<7>
#endif
template<class T, class... L> void lists() { (each<T>(L{}, list<VH_SHAPES>{}), ...); }
int main(int c, char **v)
{
	parse(c, v);
	lists<VH_T, VH_L>();
	finish();
}
