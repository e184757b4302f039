// ABI sets: which vector shapes are driven for each element type.
#pragma once
#include "vh.hpp"
namespace vh
{
	template<std::size_t N> using fs = dpm::simd_abi::fixed_size<N>;
	template<std::size_t N> using pk = dpm::simd_abi::ext::packed_buffer<N>;
	template<std::size_t N, std::size_t A> using av = dpm::simd_abi::ext::aligned_vector<N, A>;
	using sc = dpm::simd_abi::scalar;
	template<typename... A, typename... B> constexpr auto cat(list<A...>, list<B...>) { return list<A..., B...>{}; }
	// Sizes below / at / above the native lane count, and sizes which are not a multiple of it.
	template<typename T> struct abis_of;
	template<> struct abis_of<float> { using type = list<sc, fs<1>, fs<2>, fs<3>, fs<4>, fs<7>, fs<8>, fs<13>, fs<32>, av<6, 16>, av<5, 32>, pk<5>>; };
	template<> struct abis_of<double> { using type = list<sc, fs<1>, fs<2>, fs<3>, fs<4>, fs<7>, fs<8>, fs<13>, fs<32>, av<3, 16>, av<6, 32>, pk<5>>; };
	template<> struct abis_of<long double> { using type = list<sc, fs<1>, fs<3>, pk<4>>; };
	template<typename T> requires (sizeof(T) == 1) struct abis_of<T> { using type = list<sc, fs<2>, fs<5>, fs<16>, fs<20>, fs<32>, fs<39>, fs<64>, av<11, 16>, av<23, 32>, pk<5>>; };
	template<typename T> requires (sizeof(T) == 2) struct abis_of<T> { using type = list<sc, fs<2>, fs<5>, fs<8>, fs<11>, fs<16>, fs<21>, fs<32>, av<6, 16>, av<13, 32>, pk<5>>; };
	template<typename T> requires (sizeof(T) == 4 && std::is_integral_v<T>) struct abis_of<T> { using type = list<sc, fs<2>, fs<3>, fs<4>, fs<7>, fs<8>, fs<13>, fs<32>, av<6, 16>, av<5, 32>, pk<5>>; };
	template<typename T> requires (sizeof(T) == 8 && std::is_integral_v<T>) struct abis_of<T> { using type = list<sc, fs<2>, fs<3>, fs<4>, fs<7>, fs<8>, fs<13>, fs<32>, av<3, 16>, av<6, 32>, pk<5>>; };
	/** Every element count from LO to HI. */
	template<std::size_t A, std::size_t LO, class S> struct every_;
	template<std::size_t A, std::size_t LO, std::size_t... I> struct every_<A, LO, std::index_sequence<I...>> { using type = list<av<LO + I, A>...>; };
	template<std::size_t A, std::size_t LO, std::size_t HI> using every = typename every_<A, LO, std::make_index_sequence<HI - LO + 1>>::type;
}
