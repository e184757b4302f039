// Values for which a scalar conversion is defined, and generators for them.
#pragma once
#include "abis.hpp"
namespace vh
{
	template<typename To, typename From> bool conv_ok(From x)
	{
		if constexpr (std::is_same_v<To, bool> || !std::is_floating_point_v<From>) return true;
		else if constexpr (std::is_floating_point_v<To>)
			return isnan_(x) || isinf_(x) || sizeof(To) >= sizeof(From) || std::fabs(static_cast<long double>(x)) <= static_cast<long double>(std::numeric_limits<To>::max());
		else
		{
			if (isnan_(x) || isinf_(x)) return false;
			const long double t = std::trunc(static_cast<long double>(x));
			return t >= static_cast<long double>(std::numeric_limits<To>::min()) && t <= static_cast<long double>(std::numeric_limits<To>::max());
		}
	}
	/** A value of type From which converts to To. */
	template<typename To, typename From> From convertible(Rng &r)
	{
		if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To> && !std::is_same_v<To, bool>)
		{
			const u64 k = r.below(8);
			for (int i = 0; i < 8; ++i)
			{
				From x;
				if (k < 3) x = any<From>(r);
				else if (k < 6) x = static_cast<From>(any<To>(r)) + static_cast<From>(static_cast<int>(r.below(9)) - 4) / 8; // near a destination value, with a fraction
				else x = static_cast<From>(std::ldexp(static_cast<double>(static_cast<std::int64_t>(r.next())), -63 + static_cast<int>(r.below(std::numeric_limits<To>::digits + 2))));
				if (conv_ok<To>(x)) return x;
			}
			return static_cast<From>(r.below(100)) / 4;
		}
		else
		{
			for (int i = 0; i < 8; ++i) { From x = any<From>(r); if (conv_ok<To>(x)) return x; }
			return From(1);
		}
	}
	/** Integers whose conversion to floating point is decided by sticky bits and ties. */
	template<typename To, typename From> From hard_convertible(Rng &r)
	{
		if constexpr (std::is_integral_v<From> && !std::is_same_v<From, bool> && std::is_floating_point_v<To>)
			if ((r.next() & 1) && std::numeric_limits<From>::digits > std::numeric_limits<To>::digits)
			{
				const int p = std::numeric_limits<To>::digits, w = p + 1 + static_cast<int>(r.below(std::numeric_limits<From>::digits - p));
				u64 m = (r.next() >> 1 | u64(1) << 62) >> (63 - p);      // p leading bits
				u64 x = (m << (w - p)) | (u64(1) << (w - p - 1));        // a tie
				if (w - p - 1 > 0) x += static_cast<u64>(static_cast<std::int64_t>(r.below(3)) - 1); // just beside it
				return static_cast<From>(std::is_signed_v<From> && (r.next() & 1) ? -x : x);
			}
		return convertible<To, From>(r);
	}
}
