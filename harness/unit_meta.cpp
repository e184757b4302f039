// Metamorphic monitor: what an element of the result is depends on the same elements of the operands only - not on its position, on its
// neighbours, on the padding or on an earlier call; operands and exception flags already raised stay as they are.
#include "ops_acc.hpp"
#include "abis.hpp"
using namespace vh;
template<typename Op, typename T, typename Abi>
VH_NOINLINE bool run3(const T *in0, const T *in1, const T *in2, typename Op::template R<T> *out, int pad)
{
	using V = dpm::simd<T, Abi>;
	V a, b, c;
	put(a, in0, pad); put(b, in1, pad); put(c, in2, pad);
	V ka, kb, kc;
	std::memcpy(static_cast<void *>(&ka), &a, sizeof(V)); std::memcpy(static_cast<void *>(&kb), &b, sizeof(V)); std::memcpy(static_cast<void *>(&kc), &c, sizeof(V));
	keep(a); keep(b); keep(c);
	bool same_in;
	if constexpr (Op::bscalar)
	{
		T sb = in1[0], sc = in2[0];
		auto r = Op::call(a, sb, sc);
		keep(r); keep(a);
		get(r, out);
		same_in = bits(sb) == bits(in1[0]) || isnan_(sb);
	}
	else
	{
		auto r = Op::call(a, b, c);
		keep(r); keep(a); keep(b); keep(c);
		get(r, out);
		same_in = !std::memcmp(&b, &kb, sizeof(V)) && !std::memcmp(&c, &kc, sizeof(V));
	}
	return same_in && !std::memcmp(&a, &ka, sizeof(V));
}
template<typename T, typename R> struct M
{
	const char *name; int arity; bool bscalar; std::size_t n; std::string abi;
	bool (*run)(const T *, const T *, const T *, R *, int);
	void (*fix)(T &, T &, T &, Rng &);
	T (*gen)(Rng &);
};
template<typename T, typename R> VH_NOINLINE void drive(const M<T, R> &m)
{
	Cell cell{m.name, tname<T>(), m.abi};
	if (!cell.selected()) return;
	cell.enter();
	const std::size_t N = m.n;
	Rng rng(opt().seed ^ hash_str(m.name) * 7 ^ hash_str(cell.abi.c_str()));
	static T in[3][64], jn[3][64];
	static R out[66], out2[66];
	const long iters = std::max<long>(8, opt().iters * 8 / long(N + 4));
	for (long it = 0; it < iters; ++it)
	{
		auto draw = [&](T (*v)[64], std::size_t i)
		{
			for (int k = 0; k < 3; ++k) v[k][i] = m.gen(rng);
			m.fix(v[0][i], v[1][i], v[2][i], rng);
			if (m.bscalar && i) { v[1][i] = v[1][0]; v[2][i] = v[2][0]; T b = v[1][0], c = v[2][0]; m.fix(v[0][i], b, c, rng); if (!(same(b, v[1][0]) && same(c, v[2][0]))) v[0][i] = v[0][0]; }
		};
		const bool flags = it & 1;
		for (std::size_t i = 0; i < N; ++i) draw(in, i);
		if (flags) { std::feclearexcept(FE_ALL_EXCEPT); std::feraiseexcept(FE_ALL_EXCEPT); }
		const unsigned csr = control_bits();
		if (!m.run(in[0], in[1], in[2], out, pads[it % 5])) cell.fail("operands", "an operand was changed");
		if (csr != control_bits()) cell.fail("environment", "the floating-point control state changed");
		if (flags && std::fetestexcept(FE_ALL_EXCEPT) != FE_ALL_EXCEPT) cell.fail("flags", "cleared " + flagname(FE_ALL_EXCEPT & ~std::fetestexcept(FE_ALL_EXCEPT)));
		++cell.calls;
		auto cmp = [&](std::size_t i, std::size_t j, const char *what)
		{
			++cell.lanes;
			cell.mix(bits(out2[j]));
			if (!same(out[i], out2[j]))
				cell.fail(what, "element " + std::to_string(i) + "/" + std::to_string(N) + " a=" + show(in[0][i]) + (m.arity > 1 ? " b=" + show(in[1][i]) : "") + " gives " + show(out[i]) + ", as element " + std::to_string(j) + " of the other call " + show(out2[j]));
		};
		if (it < 4096) for (std::size_t i = 0; i < N; ++i) cell.classes.insert(vclass(in[0][i]) * 64ull + i);
		// the same call again, other padding
		m.run(in[0], in[1], in[2], out2, pads[(it + 3) % 5]);
		for (std::size_t i = 0; i < N; ++i) cmp(i, i, "repetition");
		// another position
		const std::size_t rot = N > 1 ? 1 + rng.below(N - 1) : 0;
		for (std::size_t i = 0; i < N; ++i)
			for (int k = 0; k < 3; ++k) jn[k][(i + rot) % N] = in[k][m.bscalar && k ? 0 : i];
		m.run(jn[0], jn[1], jn[2], out2, pads[(it + 1) % 5]);
		for (std::size_t i = 0; i < N; ++i) cmp(i, (i + rot) % N, "position");
		// other neighbours
		const std::size_t kept = rng.below(N);
		for (std::size_t i = 0; i < N; ++i)
		{
			draw(jn, i);
			if (m.bscalar) { jn[1][i] = in[1][0]; jn[2][i] = in[2][0]; T b = jn[1][i], c = jn[2][i]; m.fix(jn[0][i], b, c, rng); if (!(same(b, in[1][0]) && same(c, in[2][0]))) jn[0][i] = in[0][0]; }
		}
		for (int k = 0; k < 3; ++k) jn[k][kept] = in[k][kept];
		m.run(jn[0], jn[1], jn[2], out2, pads[(it + 2) % 5]);
		cmp(kept, kept, "neighbours");
	}
}
template<typename Op, typename T, typename Abi> void one()
{
	drive<T, typename Op::template R<T>>({Op::name, Op::arity, Op::bscalar, dpm::simd<T, Abi>::size(), abiname<Abi>::get(), &run3<Op, T, Abi>, &Op::template fix<T>, &Op::template gen<T>});
}
template<class T, class... O, class... A> void each(list<O...>, list<A...>) { ([&]<class X>(X *) { (one<O, T, X>(), ...); }(static_cast<A *>(nullptr)), ...); }
template<class T, class... L> void lists() { (each<T>(L{}, list<fs<2>, fs<3>, fs<4>, fs<5>, fs<8>, fs<11>, fs<16>, av<7, 32>, av<6, 16>, pk<5>>{}), ...); }
int main(int c, char **v)
{
	parse(c, v);
	lists<VH_T, VH_L>();
	finish();
}
