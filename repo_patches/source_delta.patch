From 5089813dee8affad8036698708a15b015e46a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 01/89] fix: x86 mask copies must go through elements, not
 native vectors

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 65fc5c9..0a4f24e 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -137,14 +137,14 @@ namespace dpm
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				_data[i] = static_cast<value_type>(mem[i]);
+				operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		/** Copies the underlying elements from \a mem if the corresponding element of mask \a m evaluates to `true`. */
@@ -152,14 +152,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From ae6927689ccb83a334febc49955419ce304bfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 02/89] fix: x86 masked vector copies must go through elements,
 not native vectors

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0a4f24e..0d4e442 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -675,14 +675,14 @@ namespace dpm
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) _data[i] = static_cast<value_type>(mem[i]);
+				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_to(I mem, const mask_type &m, Flags) const noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<value_type, std::iter_value_t<I>>
 		{
 			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(_data[i]);
+				if (m[i]) mem[i] = static_cast<std::iter_value_t<I>>(operator[](i));
 		}
 
 		[[nodiscard]] constexpr reference operator[](std::size_t i) & noexcept
-- 
2.43.0


From b384184938acea88c3731fa1b75a8cf6645949ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 03/89] fix: aligned vector copies must not access memory past
 the last element

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 0d4e442..760c526 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -650,7 +650,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto src = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
 			for (; i < size(); ++i) operator[](i) = static_cast<T>(mem[i]);
@@ -664,7 +664,7 @@ namespace dpm
 				if (!std::is_constant_evaluated())
 				{
 					const auto dst = std::to_address(mem);
-					for (std::size_t j = 0; j < data_size; i += native_extent, ++j)
+					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<U, T>(dst + i, _data[j]);
 				}
 			for (; i < size(); ++i) mem[i] = static_cast<U>(operator[](i));
-- 
2.43.0


From 746198cd3934c765a33a7ba98f8e21cdacea2475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 04/89] fix: aligned copies from mutable memory must compile

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 760c526..2442f3e 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -649,7 +649,7 @@ namespace dpm
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
 				if (!std::is_constant_evaluated())
 				{
-					const auto src = std::to_address(mem);
+					const U *src = std::to_address(mem);
 					for (std::size_t j = 0; i + native_extent <= size(); i += native_extent, ++j)
 						detail::native_vec_cast<T, U>(_data[j], src + i);
 				}
-- 
2.43.0


From f5f0af35e63ad6775a6402075dbc31b08bbfd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 05/89] fix: right shift of an integer vector by a vector must
 not shift left

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 2442f3e..401cefa 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1122,7 +1122,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
+			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 		}
 	}
 
-- 
2.43.0


From 578f74763c3cd8261ad12c06f8b745b8ac1e4fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 06/89] fix: right shift of a signed integer vector must
 replicate the sign bit

---
 dpm/detail/x86/type.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 401cefa..74f72fb 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1107,11 +1107,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 8))
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
@@ -1152,11 +1152,11 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 8))
 #endif
 		{
 			detail::x86_simd<T, N, A> result = {};
-- 
2.43.0


From 7d53150c4bce7bc56eaef55cdfeab66b5ac9e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 07/89] fix: constant shifts must convert to vectors of the
 right width

---
 dpm/detail/x86/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 74f72fb..b23c226 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1302,8 +1302,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsl<N>(packed));
 			}
 			else
 			{
@@ -1318,8 +1318,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(lsr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(lsr<N>(packed));
 			}
 			else
 			{
@@ -1335,8 +1335,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asl<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asl<N>(packed));
 			}
 			else
 			{
@@ -1351,8 +1351,8 @@ namespace dpm
 		{
 			if (std::is_constant_evaluated())
 			{
-				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(asr<N>(packed));
+				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<M>>>(x);
+				return static_cast<detail::x86_simd<T, M, A>>(asr<N>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 3c8abda7b32b0e61cd4910cd855423522798abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 08/89] fix: 64-bit arithmetic right shift must carry bits
 between 32-bit halves

---
 dpm/detail/x86/bitwise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index f74bc62..0cc2aa5 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -226,7 +226,7 @@ namespace dpm::detail
 		{
 			xh = _mm_srai_epi32(xh, N);
 			xh = _mm_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm_srli_epi32(xl, N);
+			xl = _mm_srli_epi64(xl, N);
 			xl = _mm_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm_unpacklo_epi32(xl, xh);
@@ -249,7 +249,7 @@ namespace dpm::detail
 		{
 			xh = _mm256_srai_epi32(xh, N);
 			xh = _mm256_shuffle_epi32(xh, _MM_SHUFFLE(3, 2, 3, 1));
-			xl = _mm256_srli_epi32(xl, N);
+			xl = _mm256_srli_epi64(xl, N);
 			xl = _mm256_shuffle_epi32(xl, _MM_SHUFFLE(3, 2, 2, 0));
 		}
 		return _mm256_unpacklo_epi32(xl, xh);
-- 
2.43.0


From 2869a1e2c8d34be81d6489b2863a4cd173371648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 09/89] fix: logical and of masks must not use an uninitialized
 mask

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index b23c226..14ce2a1 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -344,8 +344,8 @@ namespace dpm
 			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
 			detail::vectorize([z = zero](auto &res, auto a, auto b)
 			{
-				res = detail::bit_andnot(detail::cmp_eq<T>(a, z), res);
-				res = detail::bit_andnot(detail::cmp_eq<T>(b, z), res);
+				res = detail::bit_not(detail::mask_eq<T>(a, z));
+				res = detail::bit_andnot(detail::mask_eq<T>(b, z), res);
 			}, result, a, b);
 			return result;
 		}
-- 
2.43.0


From ff7db45ca1e006d66bfcd04ac96d8336be03802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 10/89] fix: none_of of non-native masks must not select the
 x86 overload

---
 dpm/detail/x86/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 14ce2a1..beb0943 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -429,7 +429,7 @@ namespace dpm
 		}
 	}
 	/** Returns `true` if at none of the elements of the \a mask is `true`. Otherwise returns `false`. */
-	template<typename T, std::size_t N, std::size_t A>
+	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE bool none_of(const detail::x86_mask<T, N, A> &mask) noexcept
 	{
 		if (std::is_constant_evaluated())
-- 
2.43.0


From 2565b403c14168d4a6f9aac266df01fbfc519f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 11/89] fix: construction from several native vectors must
 compile

---
 dpm/detail/x86/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index beb0943..c1fc1a6 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -99,9 +99,9 @@ namespace dpm
 		/** Initializes the SIMD mask with a native mask vector. */
 		constexpr simd_mask(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD mask with an array of native mask vectors. */
-		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd_mask(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD mask with a span of native mask vectors. */
-		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd_mask(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -596,9 +596,9 @@ namespace dpm
 		/** Initializes the SIMD vector with a native vector. */
 		constexpr simd(native_type native) noexcept { std::ranges::fill(_data, native); }
 		/** Initializes the SIMD vector with an array of native vectors. */
-		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data); }
+		constexpr simd(const native_type (&native)[data_size]) noexcept { std::copy_n(native, data_size, _data.begin()); }
 		/** Initializes the SIMD vector with a span of native mask vectors. */
-		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data); }
+		constexpr simd(std::span<const native_type, data_size> native) noexcept { std::copy_n(native.begin(), data_size, _data.begin()); }
 
 		/** Initializes the underlying elements from \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From d55aac7aaa1f671e9ef9cd814624fe5fb11d8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 12/89] fix: constant-evaluated element access must stay within
 the native vector

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index c1fc1a6..be5bdc1 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -169,7 +169,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_alias, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
@@ -692,7 +692,7 @@ namespace dpm
 		[[nodiscard]] constexpr value_type operator[](std::size_t i) const & noexcept
 		{
 			if (std::is_constant_evaluated())
-				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i];
+				return detail::native_bit_cast<std::array<value_type, native_extent>>(_data[i / native_extent])[i % native_extent];
 			else
 				return reinterpret_cast<const value_alias *>(_data.data())[i];
 		}
-- 
2.43.0


From 5926a10e0d8951195d9dafd79cd0c373c1a61533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 13/89] fix: constant-evaluated reduce_min and reduce_max must
 convert to vectors

---
 dpm/detail/x86/type.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index be5bdc1..06f7820 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1470,7 +1470,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1479,7 +1479,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1489,7 +1489,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1498,7 +1498,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1508,7 +1508,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1517,7 +1517,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1526,7 +1526,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1535,7 +1535,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
@@ -1546,7 +1546,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_min(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_min(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_min(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_min<T, N>(ext::to_native_data(x).data());
 	}
@@ -1555,7 +1555,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE T reduce_max(const detail::x86_simd<T, N, A> &x) noexcept
 	{
 		if (std::is_constant_evaluated())
-			return reduce_max(static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x));
+			return reduce_max(static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x));
 		else
 			return detail::reduce_max<T, N>(ext::to_native_data(x).data());
 	}
-- 
2.43.0


From d288bea66b2e7ca339781721cb68f56866bb0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 14/89] fix: integer reductions with other operations must
 return a value

---
 dpm/detail/x86/type.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 06f7820..19a14db 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1420,11 +1420,11 @@ namespace dpm
 			if constexpr (std::floating_point<T>)
 				return detail::reduce_mul<T, size>(x_data);
 #ifdef DPM_HAS_SSE4_1
-			if (detail::integral_of_size<T, 4>)
+			if constexpr (detail::integral_of_size<T, 4>)
 				return detail::reduce_mul<T, size>(x_data);
 #endif
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-			if (detail::integral_of_size<T, 8>)
+			if constexpr (detail::integral_of_size<T, 8>)
 				return detail::reduce_mul<T, size>(x_data);
 #endif
 		}
@@ -1437,8 +1437,7 @@ namespace dpm
 			if constexpr (detail::template_instance<Op, std::bit_or>)
 				return detail::reduce_or<T, size>(x_data);
 		}
-		else
-			return detail::reduce_impl<size>(x, op);
+		return detail::reduce_impl<size>(x, op);
 	}
 #ifdef DPM_HAS_SSSE3
 	/** @copydoc reduce */
-- 
2.43.0


From e676c53e15f6b1248fe4297e4f9e80e273c0a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 15/89] fix: 256-bit integer min and max must be available
 without AVX2

---
 dpm/detail/x86/minmax.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/minmax.hpp b/dpm/detail/x86/minmax.hpp
index 2faa4ad..a8d5638 100644
--- a/dpm/detail/x86/minmax.hpp
+++ b/dpm/detail/x86/minmax.hpp
@@ -84,6 +84,11 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return _mm256_min_epu32(a, b); }
 	template<unsigned_integral_of_size<4> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return _mm256_max_epu32(a, b); }
+#elif defined(DPM_HAS_AVX)
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i min(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return min<T>(a, b); }, a, b); }
+	template<std::integral T>
+	[[nodiscard]] DPM_FORCEINLINE __m256i max(__m256i a, __m256i b) noexcept { return mux_128x2<__m256i>([](auto a, auto b) { return max<T>(a, b); }, a, b); }
 #endif
 
 #if defined(DPM_HAS_AVX512F) && defined(DPM_HAS_AVX512LV)
-- 
2.43.0


From fc4f15bc83e20c5dba41a868d40c123d925e5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 16/89] fix: generic abs must return a vector

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index a730493..28dd61d 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -31,8 +31,8 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::abs(x[i]);
-		return result;
+			result[i] = static_cast<T>(std::abs(x[i]));
+		return {result.data(), vector_aligned};
 	}
 	/** @copydoc abs */
 	template<std::floating_point T, typename Abi>
-- 
2.43.0


From 18fe7e49f990fe4bc521721060e70b6bc61a325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 17/89] fix: integer abs must use the sign bit

---
 dpm/detail/x86/mbase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 460cffb..0b18cce 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -127,7 +127,7 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_shiftr<T, std::numeric_limits<T>::digits - 1>(x);
+			const auto t = bit_ashiftr<T, std::numeric_limits<T>::digits>(x);
 			return sub<T>(bit_xor(x, t), t);
 		}
 
-- 
2.43.0


From 1627006ad92df523bc57b4e205b8238a52a84732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 18/89] fix: fmin with a scalar must compile

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 28dd61d..945d8ac 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -200,7 +200,7 @@ namespace dpm
 	{
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
-			result[i] = std::fmin(a[i], b[i]);
+			result[i] = std::fmin(a[i], b);
 		return {result.data(), vector_aligned};
 	}
 	/** Returns the positive difference between elements of vector \a a and scalar \a b. Equivalent to `max(simd<T, Abi>{0}, a - b)`. */
-- 
2.43.0


From ebb263a08fce2dddc210595e23b00aa43e90c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 19/89] fix: native fmax and fmin must compile

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 0b18cce..adc2340 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 02365659026a17601aa41a94724e75aa2c59fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 20/89] fix: native lerp must compile

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index adc2340..639fed5 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -411,7 +411,7 @@ namespace dpm
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
 			const auto packed_f = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(f);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, packed_f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, packed_f));
 		}
 		else
 		{
@@ -428,7 +428,7 @@ namespace dpm
 		{
 			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
 			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(fmax(packed_a, packed_b, f));
+			return static_cast<detail::x86_simd<T, N, A>>(lerp(packed_a, packed_b, f));
 		}
 		else
 		{
-- 
2.43.0


From b4c1c9beb249c4f83b0cb7c09b16a2cd056ba79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 21/89] fix: isnormal must be false for NaN

---
 dpm/detail/x86/class.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index d68d270..36d9978 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -27,7 +27,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm_cmpnle_ps(inf, x), _mm_cmpnlt_ps(x, norm_min));
+			return bit_and(_mm_cmplt_ps(x, inf), _mm_cmpge_ps(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 isinf(__m128 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm_cmpnle_pd(inf, x), _mm_cmpnlt_pd(x, norm_min));
+			return bit_and(_mm_cmplt_pd(x, inf), _mm_cmpge_pd(x, norm_min));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d isinf(__m128d x) noexcept { return isinf_abs(abs<double>(x)); }
@@ -73,7 +73,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_ps(std::bit_cast<float>(0x00800000));
 			const auto inf = _mm256_set1_ps(std::numeric_limits<float>::infinity());
-			return bit_and(_mm256_cmp_ps(inf, x, _CMP_NLE_UQ), _mm256_cmp_ps(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_ps(x, inf, _CMP_LT_OQ), _mm256_cmp_ps(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 isinf(__m256 x) noexcept { return isinf_abs(abs<float>(x)); }
@@ -92,7 +92,7 @@ namespace dpm
 		{
 			const auto norm_min = _mm256_set1_pd(std::bit_cast<double>(0x10'0000'0000'0000));
 			const auto inf = _mm256_set1_pd(std::numeric_limits<double>::infinity());
-			return bit_and(_mm256_cmp_pd(inf, x, _CMP_NLE_UQ), _mm256_cmp_pd(x, norm_min, _CMP_NLT_UQ));
+			return bit_and(_mm256_cmp_pd(x, inf, _CMP_LT_OQ), _mm256_cmp_pd(x, norm_min, _CMP_GE_OQ));
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256d isinf(__m256d x) noexcept { return isinf_abs(abs<double>(x)); }
-- 
2.43.0


From cbda30a05669f56da8e77e4ca2183b9d1bf2f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 22/89] fix: islessgreater must be false for equal elements

---
 dpm/detail/x86/class.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 36d9978..44a6e25 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -263,7 +263,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_le<T>(b, a), detail::cmp_ge<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From 593b433736f5e4e5ac118760967c4ea4a031fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 23/89] fix: fdim of equal infinities must be zero

---
 dpm/detail/x86/mbase.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 639fed5..5db2383 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -343,7 +343,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a, b);
+			detail::vectorize([]<typename V>(V &res, V a, V b) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a, b);
 			return result;
 		}
 	}
@@ -397,7 +397,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::max<T>(detail::setzero<V>(), detail::sub<T>(a, b)); }, result, a);
+			detail::vectorize([b = b_vec]<typename V>(V &res, V a) { res = detail::bit_andnot(detail::cmp_le<T>(a, b), detail::sub<T>(a, b)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From 64698fe00285800706a90327206112e392a499e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 24/89] fix: fmax and fmin must select ordered values over NaN

---
 dpm/detail/x86/mbase.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 5db2383..50a5fed 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -308,7 +308,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::max<T>(b, a), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -326,7 +326,7 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::blendv<T>(detail::min<T>(b, a), b, detail::isunord(a, a)); }, result, a, b);
 			return result;
 		}
 	}
@@ -362,7 +362,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(a, b), b, detail::isunord(a, a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::max<T>(b, a), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
@@ -380,7 +380,7 @@ namespace dpm
 		{
 			detail::x86_simd<T, N, A> result = {};
 			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(a, b), b, detail::isunord(a, a)); }, result, a);
+			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::blendv<T>(detail::min<T>(b, a), b, detail::isunord(a, a)); }, result, a);
 			return result;
 		}
 	}
-- 
2.43.0


From ab10c6ecd006a3e900abcfbf6446ccafb66ef403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 25/89] fix: SSE2 truncation of doubles below one must be zero

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 3497659..09e7643 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -147,7 +147,7 @@ namespace dpm::detail
 		auto small_e = _mm_cmpgt_epi32(_mm_set1_epi64x(12), e);
 #ifndef DPM_HAS_SSE3
 		const auto ie = std::bit_cast<__m128>(small_e);
-		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(3, 3, 1, 1)));
+		small_e = std::bit_cast<__m128i>(_mm_shuffle_ps(ie, ie, _MM_SHUFFLE(2, 2, 0, 0)));
 #else
 		small_e = std::bit_cast<__m128i>(_mm_moveldup_ps(std::bit_cast<__m128>(small_e)));
 #endif
-- 
2.43.0


From b87052c99ef9574d64f8243a9630b09e6d1cc609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 26/89] fix: SSE2 ceil, floor and trunc must handle large,
 non-finite and negative zero values

---
 dpm/detail/x86/round.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 445c84a..882c408 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -17,15 +17,15 @@ namespace dpm
 	namespace detail
 	{
 #ifndef DPM_HAS_SSE4_1
-		[[nodiscard]] DPM_FORCEINLINE auto mask_domain([[maybe_unused]] auto x, auto result) noexcept
+		/* Values outside of the conversion range (including infinity & NaN) are already integral, and sign of zero must be preserved. */
+		[[nodiscard]] DPM_FORCEINLINE __m128 round_domain(__m128 x) noexcept { return _mm_cmplt_ps(abs<float>(x), _mm_set1_ps(8388608.0f)); }
+		[[nodiscard]] DPM_FORCEINLINE __m128 mask_domain(__m128 x, __m128 result) noexcept
 		{
-#ifdef DPMDPM_HANDLE_ERRORS
-			const auto fin_mask = isfinite(x);
-			return bit_or(bit_andnot(fin_mask, x), bit_and(fin_mask, result));
-#else
-			return result;
-#endif
+			const auto mask = round_domain(x);
+			return bit_or(bit_andnot(mask, x), bit_or(bit_and(mask, result), bit_and(x, _mm_set1_ps(-0.0f))));
 		}
+		[[nodiscard]] DPM_FORCEINLINE __m128 trunc_sse2(__m128 x) noexcept { return _mm_cvtepi32_ps(_mm_cvttps_epi32(bit_and(x, round_domain(x)))); }
+		[[nodiscard]] DPM_FORCEINLINE __m128d mask_sign(__m128d x, __m128d result) noexcept { return bit_or(result, bit_and(x, _mm_set1_pd(-0.0))); }
 #endif
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 ceil(__m128 x) noexcept
@@ -35,7 +35,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
+			const auto tx = trunc_sse2(x);
 			return mask_domain(x, _mm_add_ps(tx, bit_and(_mm_cmplt_ps(tx, x), _mm_set1_ps(1.0f))));
 #endif
 		}
@@ -46,7 +46,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
+			const auto tx = trunc_sse2(x);
 			return mask_domain(x, _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))));
 #endif
 		}
@@ -57,7 +57,7 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_trunc_ps(x);
 #else
-			return mask_domain(x, _mm_cvtepi32_ps(_mm_cvttps_epi32(x)));
+			return mask_domain(x, trunc_sse2(x));
 #endif
 		}
 
@@ -68,8 +68,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_ceil_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return mask_sign(x, _mm_add_pd(tx, bit_and(_mm_cmplt_pd(tx, x), _mm_set1_pd(1.0))));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d floor(__m128d x) noexcept
@@ -79,8 +79,8 @@ namespace dpm
 #elif defined(DPM_USE_SVML)
 			return _mm_svml_floor_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			return mask_domain(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0f))));
+			const auto tx = trunc_sse2(x);
+			return mask_sign(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0))));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
-- 
2.43.0


From 16aeb44af052ff11707934b5fed2cc7b5499c492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 27/89] fix: SSE2 rint must preserve large values and respect
 directed rounding modes

---
 dpm/detail/x86/round.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 882c408..7e17b41 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -180,11 +180,11 @@ namespace dpm
 			*dst = _mm_round_ps(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_ps(x, _mm_set1_ps(-0.0));
-			const auto x_offset = _mm_set1_ps(8388608.0);
+			const auto x_offset = _mm_or_ps(_mm_set1_ps(8388608.0), sign_x);
 			const auto abs_x = _mm_xor_ps(x, sign_x);
 
-			const auto tmp_mask = _mm_cmpge_ps(abs_x, x_offset);
-			const auto tmp = _mm_or_ps(_mm_sub_ps(_mm_add_ps(abs_x, x_offset), x_offset), sign_x);
+			const auto tmp_mask = _mm_cmpge_ps(abs_x, _mm_set1_ps(8388608.0));
+			const auto tmp = _mm_or_ps(abs<float>(_mm_sub_ps(_mm_add_ps(x, x_offset), x_offset)), sign_x);
 			*dst = _mm_or_ps(_mm_andnot_ps(tmp_mask, tmp), _mm_and_ps(tmp_mask, x));
 #endif
 		}
@@ -260,12 +260,12 @@ namespace dpm
 			*dst = _mm_round_pd(x, _MM_FROUND_RAISE_EXC | _MM_FROUND_CUR_DIRECTION);
 #else
 			const auto sign_x = _mm_and_pd(x, _mm_set1_pd(-0.0));
-			const auto x_offset = _mm_set1_pd(4503599627370496.0);
+			const auto x_offset = _mm_or_pd(_mm_set1_pd(4503599627370496.0), sign_x);
 			const auto abs_x = _mm_xor_pd(x, sign_x);
 
-			const auto tmp_mask = _mm_cmpge_pd(abs_x, x_offset);
-			const auto tmp = _mm_or_pd(_mm_sub_pd(_mm_add_pd(abs_x, x_offset), x_offset), sign_x);
-			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, tmp));
+			const auto tmp_mask = _mm_cmpge_pd(abs_x, _mm_set1_pd(4503599627370496.0));
+			const auto tmp = _mm_or_pd(abs<double>(_mm_sub_pd(_mm_add_pd(x, x_offset), x_offset)), sign_x);
+			*dst = _mm_or_pd(_mm_andnot_pd(tmp_mask, tmp), _mm_and_pd(tmp_mask, x));
 #endif
 		}
 
-- 
2.43.0


From df68dd2ebeee60cfca30455a22c77bbc7c0e73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 28/89] fix: round must handle every float and not depend on
 the rounding mode

---
 dpm/detail/x86/round.hpp | 42 ++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 7e17b41..c317eed 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -144,17 +144,14 @@ namespace dpm
 		template<std::same_as<float> T>
 		inline void round(__m128 x, __m128 *dst) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128>(_mm_set1_epi32(0x3effffff)));
-			*dst = _mm_round_ps(_mm_add_ps(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_ps(x);
 #else
-			const auto tx = _mm_cvtepi32_ps(_mm_cvttps_epi32(x));
-			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
-			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_ps(tx, _mm_cvtepi32_ps(_mm_cvttps_epi32(rem))));
+			/* Difference is exact, the result does not depend on the rounding mode. */
+			const auto sign = bit_and(x, _mm_set1_ps(-0.0f));
+			const auto tx = trunc(x);
+			const auto half = _mm_cmpge_ps(abs<float>(_mm_sub_ps(x, tx)), _mm_set1_ps(0.5f));
+			*dst = bit_or(_mm_add_ps(tx, bit_and(half, bit_or(sign, _mm_set1_ps(1.0f)))), sign);
 #endif
 		}
 
@@ -235,17 +232,14 @@ namespace dpm
 		template<std::same_as<double> T>
 		inline void round(__m128d x, __m128d *dst) noexcept
 		{
-#if defined(DPM_HAS_SSE4_1)
-			const auto sign = bit_and(x, _mm_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m128d>(_mm_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm_round_pd(_mm_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
-#elif defined(DPM_USE_SVML)
+#if !defined(DPM_HAS_SSE4_1) && defined(DPM_USE_SVML)
 			*dst = _mm_svml_round_pd(x);
 #else
-			const auto tx = _mm_cvtepi32_pd(_mm_cvttpd_epi32(x));
-			const auto near2 = _mm_set1_pd(std::bit_cast<double>(0x3fffffff'ffffffff));
-			const auto rem = _mm_mul_pd(_mm_sub_pd(x, tx), near2);
-			*dst = mask_domain(x, _mm_add_pd(tx, _mm_cvtepi32_pd(_mm_cvttpd_epi32(rem))));
+			/* Difference is exact, the result does not depend on the rounding mode. */
+			const auto sign = bit_and(x, _mm_set1_pd(-0.0));
+			const auto tx = trunc(x);
+			const auto half = _mm_cmpge_pd(abs<double>(_mm_sub_pd(x, tx)), _mm_set1_pd(0.5));
+			*dst = bit_or(_mm_add_pd(tx, bit_and(half, bit_or(sign, _mm_set1_pd(1.0)))), sign);
 #endif
 		}
 
@@ -346,8 +340,9 @@ namespace dpm
 		DPM_FORCEINLINE void round(__m256 x, __m256 *dst) noexcept
 		{
 			const auto sign = bit_and(x, _mm256_set1_ps(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256>(_mm256_set1_epi32(0x3effffff)));
-			*dst = _mm256_round_ps(bit_and(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			const auto tx = trunc(x);
+			const auto half = _mm256_cmp_ps(abs<float>(_mm256_sub_ps(x, tx)), _mm256_set1_ps(0.5f), _CMP_GE_OQ);
+			*dst = bit_or(_mm256_add_ps(tx, bit_and(half, bit_or(sign, _mm256_set1_ps(1.0f)))), sign);
 		}
 
 		template<integral_of_size<4> T>
@@ -408,9 +403,10 @@ namespace dpm
 		template<std::same_as<double> T>
 		DPM_FORCEINLINE void round(__m256d x, __m256d *dst) noexcept
 		{
-			const auto sign = bit_and(x, _mm256_set1_pd(-0.0f));
-			const auto off = bit_or(sign, std::bit_cast<__m256d>(_mm256_set1_epi64x(0x3fdfffff'ffffffff)));
-			*dst = _mm256_round_pd(_mm256_add_pd(x, off), _MM_FROUND_TO_ZERO | _MM_FROUND_NO_EXC);
+			const auto sign = bit_and(x, _mm256_set1_pd(-0.0));
+			const auto tx = trunc(x);
+			const auto half = _mm256_cmp_pd(abs<double>(_mm256_sub_pd(x, tx)), _mm256_set1_pd(0.5), _CMP_GE_OQ);
+			*dst = bit_or(_mm256_add_pd(tx, bit_and(half, bit_or(sign, _mm256_set1_pd(1.0)))), sign);
 		}
 
 		template<integral_of_size<4> T>
-- 
2.43.0


From 07d135409b4ad9e8679efa41656ac9c50f3a6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 29/89] fix: lround, llround, lrint and llrint must convert
 every element to 64 bits

---
 dpm/detail/x86/round.hpp | 40 ++++------------------------------------
 1 file changed, 4 insertions(+), 36 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index c317eed..3bec4c2 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -426,8 +426,6 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void round(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { round<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lround(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llround(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
 
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256 *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
@@ -436,8 +434,6 @@ namespace dpm
 		template<typename T, typename V>
 		DPM_FORCEINLINE void rint(V x, __m256i *dst) noexcept requires(sizeof(V) == 16) { rint<T>(x, reinterpret_cast<__m128 *>(dst)); }
 
-		DPM_FORCEINLINE void lrint(auto x, auto *dst) noexcept { rint<long>(x, dst); }
-		DPM_FORCEINLINE void llrint(auto x, auto *dst) noexcept { rint<long long>(x, dst); }
 	}
 
 	/** Rounds elements of vector \a x to nearest integer not less than the element's value. */
@@ -532,15 +528,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lround(x_data[i / from_extent], result_data.data() + i / to_extent);
+			for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = std::lround(static_cast<T>(x[i]));
 			return result;
 		}
 	}
@@ -555,15 +544,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llround(x_data[i / from_extent], result_data.data() + i / to_extent);
+			for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = std::llround(static_cast<T>(x[i]));
 			return result;
 		}
 	}
@@ -595,15 +577,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long, N, A>>) / sizeof(long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::lrint(x_data[i / from_extent], result_data.data() + i / to_extent);
+			for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = std::lrint(static_cast<T>(x[i]));
 			return result;
 		}
 	}
@@ -618,15 +593,8 @@ namespace dpm
 		}
 		else
 		{
-			constexpr auto to_extent = sizeof(ext::native_data_type_t<detail::x86_simd < long long, N, A>>) / sizeof(long long);
-			constexpr auto from_extent = sizeof(ext::native_data_type_t<detail::x86_simd < T, N, A>>) / sizeof(T);
-
 			detail::x86_simd<long long, N, A> result = {};
-			auto result_data = ext::to_native_data(result);
-			const auto x_data = ext::to_native_data(x);
-
-			for (std::size_t i = 0, j = 0; i < detail::x86_simd<T, N, A>::size(); i += from_extent, j += to_extent)
-				detail::llrint(x_data[i / from_extent], result_data.data() + i / to_extent);
+			for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = std::llrint(static_cast<T>(x[i]));
 			return result;
 		}
 	}
-- 
2.43.0


From c6d4c8fe660e13ff73c16591a63d29527007c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 30/89] fix: generic rint must keep the element type and lrint
 must compile

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 945d8ac..c444b93 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -904,7 +904,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr simd<T, Abi> rint(const simd<T, Abi> &x) noexcept
 	{
-		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::rint(x[i]);
 		return {result.data(), vector_aligned};
@@ -913,7 +913,7 @@ namespace dpm
 	template<std::floating_point T, typename Abi>
 	[[nodiscard]] constexpr rebind_simd_t<long, simd<T, Abi>> lrint(const simd<T, Abi> &x) noexcept
 	{
-		rebind_simd_t<long, simd<T, Abi>> result = {};
+		alignas(simd<long, Abi>) std::array<long, simd_size_v<long, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::lrint(x[i]);
 		return {result.data(), vector_aligned};
-- 
2.43.0


From f833666cc7a13d759ccd5339a8fa6e5b4f9725b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 31/89] fix: integer rounding casts must convert element by
 element

---
 dpm/detail/x86/round.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index 3bec4c2..c306cc0 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -613,7 +613,7 @@ namespace dpm
 			else
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { res = detail::itrunc<I>(x); }, result, x);
+				for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = static_cast<I>(static_cast<T>(x[i]));
 				return result;
 			}
 		}
@@ -629,7 +629,7 @@ namespace dpm
 			else
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::round<I>(x, &res); }, result, x);
+				for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = static_cast<I>(std::llround(static_cast<T>(x[i])));
 				return result;
 			}
 		}
@@ -645,7 +645,7 @@ namespace dpm
 			else
 			{
 				detail::x86_simd <I, N, A> result = {};
-				detail::vectorize([](auto &res, auto x) { detail::rint<I>(x, &res); }, result, x);
+				for (std::size_t i = 0; i < detail::x86_simd<T, N, A>::size(); ++i) result[i] = static_cast<I>(std::llrint(static_cast<T>(x[i])));
 				return result;
 			}
 		}
-- 
2.43.0


From 84713c0eb581ce7757aa6725d7cf09b842e58364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 32/89] fix: bitwise not of a generic mask must invert its
 elements

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 17f8359..c8f6ccc 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -302,7 +302,7 @@ namespace dpm
 	{
 		std::array<bool, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd_mask<T, Abi>::size(); ++i)
-			result[i] = ~x[i];
+			result[i] = !x[i];
 		return {result.data(), element_aligned};
 	}
 	/** Preforms a bitwise AND on the elements of the masks \a a and \a b. */
-- 
2.43.0


From 5af7c5f963fbebd30a0565394fc4b5f417001ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 33/89] fix: generic increment and decrement must compile

---
 dpm/detail/generic/type.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index c8f6ccc..b338f62 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -711,7 +711,7 @@ namespace dpm
 	[[nodiscard]] constexpr simd<T, Abi> operator++(simd<T, Abi> &x, int) noexcept requires(requires(T v){ v++; })
 	{
 		auto tmp = x;
-		operator++(x);
+		x = x + simd<T, Abi>{T{1}};
 		return tmp;
 	}
 	/** Decrements elements of vector \a x, and returns the copy of the original vector. */
@@ -719,15 +719,15 @@ namespace dpm
 	[[nodiscard]] constexpr simd<T, Abi> operator--(simd<T, Abi> &x, int) noexcept requires(requires(T v){ v--; })
 	{
 		auto tmp = x;
-		operator--(x);
+		x = x - simd<T, Abi>{T{1}};
 		return tmp;
 	}
 	/** Increments elements of vector \a x, and returns reference to it. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator++(simd<T, Abi> &x) noexcept requires(requires(T v){ ++v; }) { return x = x + simd<T, Abi>{T{1}}; }
 	/** Decrements elements of vector \a x. */
 	template<typename T, typename Abi>
-	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - 1; }
+	[[nodiscard]] constexpr simd<T, Abi> &operator--(simd<T, Abi> &x) noexcept requires(requires(T v){ --v; }) { return x = x - simd<T, Abi>{T{1}}; }
 
 	/** Adds elements of vector \a b to elements of vector \a a. */
 	template<typename T, typename Abi>
-- 
2.43.0


From e83d26dd2fb716e579264089b35ac7b3034fbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 34/89] fix: compound vector shifts must not be swapped

---
 dpm/detail/generic/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index b338f62..c1cba05 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -956,10 +956,10 @@ namespace dpm
 	}
 	/** Shifts elements of vector \a a left by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a >> b; }
+	constexpr simd<T, Abi> &operator<<=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l <<= r; }) { return a = a << b; }
 	/** Shifts elements of vector \a a right by the amount specified by elements of vector \a b, and returns reference to \a a. */
 	template<typename T, typename Abi>
-	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a << b; }
+	constexpr simd<T, Abi> &operator>>=(simd<T, Abi> &a, const simd<T, Abi> &b) noexcept requires(requires(T l, T r){ l >>= r; }) { return a = a >> b; }
 
 	/** Shifts elements of vector \a a left by \a n. */
 	template<typename T, typename Abi, std::integral I>
-- 
2.43.0


From 7ef26feab58a240a233fcb037304e4b60a0c22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 35/89] fix: generic reduce must use every element

---
 dpm/detail/generic/type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index c1cba05..5edfff0 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -604,7 +604,7 @@ namespace dpm
 
 				/* Separate `value` into halves and reduce them separately. */
 				for (std::size_t i = 0; i < a.size(); ++i)
-					a[i] = data[0];
+					a[i] = data[i];
 				for (std::size_t i = 0, j = a.size(); i < b.size(); ++i, ++j)
 					b[i] = data[j];
 
-- 
2.43.0


From 93d02871cbfdc8fe0fc6d0df375958c2554284ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 36/89] fix: generic logical right shift must shift in zeros
 and compile

---
 dpm/detail/generic/type.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 5edfff0..6f51652 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -623,22 +623,8 @@ namespace dpm
 			return reduce_impl(buff, binary_op);
 		}
 
-		template<std::size_t N, std::unsigned_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return (x >> N) & (T{1} << (std::numeric_limits<T>::digits - 1));
-			else
-				return x >> N;
-		}
-		template<std::size_t N, std::signed_integral T>
-		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept
-		{
-			if constexpr (T{-1} >> N == T{-1})
-				return lsr_impl<N>(static_cast<std::make_unsigned_t<T>>(x));
-			else
-				return x >> N;
-		}
+		template<std::size_t N, std::integral T>
+		constexpr DPM_FORCEINLINE T lsr_impl(T x) noexcept { return static_cast<T>(static_cast<std::make_unsigned_t<T>>(x) >> N); }
 		template<std::size_t N, typename T>
 		constexpr DPM_FORCEINLINE T asr_impl(T x) noexcept
 		{
-- 
2.43.0


From 59c5ef4dd6ce20ed366f3e5a8995ec26be8a6f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 37/89] fix: generic minmax must not read dead temporaries

---
 dpm/detail/generic/type.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 6f51652..33f97ab 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1186,7 +1186,8 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b[i]);
+			const T x = a[i], y = b[i];
+			const auto [min, max] = std::minmax(x, y);
 			result[0][i] = min;
 			result[1][i] = max;
 		}
@@ -1199,7 +1200,8 @@ namespace dpm
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
-			const auto [min, max] = std::minmax(a[i], b);
+			const T x = a[i];
+			const auto [min, max] = std::minmax(x, b);
 			result[0][i] = min;
 			result[1][i] = max;
 		}
-- 
2.43.0


From f98dce916be05ae2538d4f31fe23b5033aa60ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 38/89] fix: quiet comparisons must not raise invalid for NaN

---
 dpm/detail/x86/class.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dpm/detail/x86/class.hpp b/dpm/detail/x86/class.hpp
index 44a6e25..debc1ca 100644
--- a/dpm/detail/x86/class.hpp
+++ b/dpm/detail/x86/class.hpp
@@ -99,6 +99,14 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256d isfinite(__m256d x) noexcept { return isfinite_abs(abs<double>(x)); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d isnormal(__m256d x) noexcept { return isnormal_abs(abs<double>(x)); }
 #endif
+
+		/* Ordered comparisons of SSE signal on NaN, do not let them see unordered elements. */
+		template<typename F, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V cmp_quiet(F cmp, V a, V b) noexcept
+		{
+			const auto unord = isunord(a, b);
+			return bit_andnot(unord, cmp(bit_andnot(unord, a), bit_andnot(unord, b)));
+		}
 	}
 
 	/** Determines if elements of \a x are NaN. */
@@ -195,7 +203,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_lt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet([](auto x, auto y) { return detail::cmp_lt<T>(x, y); }, b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -212,7 +220,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_le<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet([](auto x, auto y) { return detail::cmp_le<T>(x, y); }, b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -229,7 +237,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_gt<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet([](auto x, auto y) { return detail::cmp_gt<T>(x, y); }, b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -246,7 +254,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_ge<T>(b, a); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet([](auto x, auto y) { return detail::cmp_ge<T>(x, y); }, b, a); }, result, a, b);
 			return result;
 		}
 	}
@@ -263,7 +271,7 @@ namespace dpm
 		else
 		{
 			detail::x86_mask <T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_or(detail::cmp_lt<T>(b, a), detail::cmp_gt<T>(b, a)); }, result, a, b);
+			detail::vectorize([](auto &res, auto a, auto b) { res = detail::cmp_quiet([](auto x, auto y) { return detail::cmp_ne<T>(x, y); }, b, a); }, result, a, b);
 			return result;
 		}
 	}
-- 
2.43.0


From c1c032d78e067ff2bdf90be55383a200dc2f82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 39/89] fix: integer abs must compile for every element size

---
 dpm/detail/x86/mbase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 50a5fed..fbcd8cc 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -127,7 +127,7 @@ namespace dpm
 		template<std::integral T, typename V>
 		[[nodiscard]] DPM_FORCEINLINE V abs(V x) noexcept
 		{
-			const auto t = bit_ashiftr<T, std::numeric_limits<T>::digits>(x);
+			const auto t = cmp_gt<T>(setzero<V>(), x);
 			return sub<T>(bit_xor(x, t), t);
 		}
 
-- 
2.43.0


From ac5738bf3e09ecec34d6802e23160d4ec109267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 40/89] fix: SSE2 floor must not depend on the rounding mode

---
 dpm/detail/x86/round.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index c306cc0..a19f26a 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -47,7 +47,7 @@ namespace dpm
 			return _mm_svml_floor_ps(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return mask_domain(x, _mm_sub_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(1.0f))));
+			return mask_domain(x, _mm_add_ps(tx, bit_and(_mm_cmpgt_ps(tx, x), _mm_set1_ps(-1.0f))));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128 trunc(__m128 x) noexcept
@@ -80,7 +80,7 @@ namespace dpm
 			return _mm_svml_floor_pd(x);
 #else
 			const auto tx = trunc_sse2(x);
-			return mask_sign(x, _mm_sub_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(1.0))));
+			return mask_sign(x, _mm_add_pd(tx, bit_and(_mm_cmpgt_pd(tx, x), _mm_set1_pd(-1.0))));
 #endif
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d trunc(__m128d x) noexcept
-- 
2.43.0


From 43dff89447bb34da30c0481db52a663063874979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 41/89] fix: index of the last true mask element

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 19a14db..6a8e405 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -536,7 +536,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			for (std::size_t i = N; --i != 0;)
+			for (std::size_t i = N; i-- != 0;)
 				if (mask[i]) return i;
 			return N;
 		}
@@ -549,7 +549,7 @@ namespace dpm
 			{
 				constexpr auto native_extent = sizeof(mask_data[i]) / sizeof(T);
 				const auto bits = detail::movemask_l<T>(detail::cmp_ne<T>(mask_data[i], zero), mask_t::size() - i * native_extent);
-				if (bits) return (j * native_extent - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
+				if (bits) return (std::min(j * native_extent, mask_t::size()) - 1) - std::countl_zero(bits) / detail::movemask_bits_v<T>;
 			}
 			DPM_UNREACHABLE();
 		}
-- 
2.43.0


From 461ec2a56435587f9884a00f59161118b059cb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 42/89] fix: 256-bit 8 and 16-bit maskblend without AVX2 must
 replace the upper half

---
 dpm/detail/x86/transform.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 4dff8f4..86b7e2a 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -593,14 +593,16 @@ namespace dpm::detail
 	template<integral_of_size<1> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 16);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 16 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 16) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
 	template<integral_of_size<2> T>
 	[[nodiscard]] DPM_FORCEINLINE __m256i maskblend(__m256i a, __m256i b, std::size_t n) noexcept
 	{
-		const auto h = maskblend<T>(_mm256_extractf128_si256(a, 1), _mm256_extractf128_si256(b, 1), n - 8);
+		const auto bh = _mm256_extractf128_si256(b, 1);
+		const auto h = n > 8 ? maskblend<T>(_mm256_extractf128_si256(a, 1), bh, n - 8) : bh;
 		const auto l = maskblend<T>(_mm256_extractf128_si256(a, 0), _mm256_extractf128_si256(b, 0), n);
 		return _mm256_set_m128i(h, l);
 	}
-- 
2.43.0


From 88099e87245313be4713eb8ff7d46fb509cce0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 43/89] fix: AVX2 byte mask bits must not be sign-extended

---
 dpm/detail/x86/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 24fb686..5cf95d3 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -248,7 +248,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE std::size_t movemask(V x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		return static_cast<std::size_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
+		return static_cast<std::uint32_t>(_mm256_movemask_epi8(std::bit_cast<__m256i>(x)));
 #else
 		const auto ml = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 0));
 		const auto mh = movemask<T>(_mm256_extractf128_si256(std::bit_cast<__m256i>(x), 1));
-- 
2.43.0


From 1ec88d16d9e1f1d5574d34fdf7667715c6d8a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 44/89] fix: aligned copies must truncate floating-point values
 to integers

---
 dpm/detail/x86/utility.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 5cf95d3..4b5c284 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -313,7 +313,14 @@ namespace dpm::detail
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && !(std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = cvt<To, From>(src); }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::floating_point<To> && std::integral<From>) { dst = cvt<To, From>(src); }
+	/* Fractions must be truncated like a scalar cast does, for every value representable by `To`. */
+	template<typename To, typename From, typename VTo, typename VFrom>
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::integral<To> && std::floating_point<From>)
+	{
+		for (std::size_t i = 0; i < sizeof(VFrom) / sizeof(From); ++i)
+			reinterpret_cast<alias_t<To> *>(&dst)[i] = static_cast<To>(reinterpret_cast<const alias_t<From> *>(&src)[i]);
+	}
 	template<typename To, typename From, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(To *dst, const VFrom &src) noexcept { native_vec_cast<To, From>(*reinterpret_cast<select_vector_t<To, sizeof(VFrom)> *>(dst), src); }
 	template<typename To, typename From, typename VTo>
-- 
2.43.0


From 7f31cee352098732dd0a5eff6a88ff6398018ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 45/89] fix: unsigned 32-bit integers must be rounded to float
 only once

---
 dpm/detail/x86/cvt.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 09e7643..c097165 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -37,9 +37,10 @@ namespace dpm::detail
 
 	[[nodiscard]] DPM_FORCEINLINE __m128 cvt_u32_f32(__m128i x) noexcept
 	{
-		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(1)));
-		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 1));
-		return _mm_add_ps(_mm_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		/* Both halves are exact, so that the result is rounded only once. */
+		const auto a = _mm_cvtepi32_ps(_mm_and_si128(x, _mm_set1_epi32(0xffff)));
+		const auto b = _mm_cvtepi32_ps(_mm_srli_epi32(x, 16));
+		return _mm_add_ps(_mm_mul_ps(b, _mm_set1_ps(0x1'0000)), a); /* (x >> 16) * 2^16 + x & 0xffff */
 	}
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvt_f32_u32(__m128 x) noexcept
 	{
@@ -235,9 +236,10 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m256 cvt_u32_f32(__m256i x) noexcept
 	{
 #ifdef DPM_HAS_AVX2
-		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(1)));
-		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 1));
-		return _mm256_add_ps(_mm256_add_ps(b, b), a); /* (x >> 1) * 2 + x & 1 */
+		/* Both halves are exact, so that the result is rounded only once. */
+		const auto a = _mm256_cvtepi32_ps(_mm256_and_si256(x, _mm256_set1_epi32(0xffff)));
+		const auto b = _mm256_cvtepi32_ps(_mm256_srli_epi32(x, 16));
+		return _mm256_add_ps(_mm256_mul_ps(b, _mm256_set1_ps(0x1'0000)), a); /* (x >> 16) * 2^16 + x & 0xffff */
 #else
 		const auto l = cvt_u32_f32(_mm256_extractf128_si256(x, 0));
 		const auto h = cvt_u32_f32(_mm256_extractf128_si256(x, 1));
-- 
2.43.0


From 89fdcbd1a3497122cdef75a36e633cc5656b5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 46/89] fix: SSE4.1 int64 to double must keep the high halves

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index c097165..8fdbb03 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -88,7 +88,7 @@ namespace dpm::detail
 #else
 		const auto tmp = _mm_undefined_si128();
 		const auto zero = _mm_xor_si128(tmp, tmp);
-		const auto a = _mm_blend_epi16(zero, _mm_srai_epi32(x, 16), 0x33);
+		const auto a = _mm_blend_epi16(_mm_srai_epi32(x, 16), zero, 0x33);
 		const auto b = _mm_blend_epi16(x, exp52, 0x88);
 #endif
 		return _mm_add_pd(_mm_sub_pd(std::bit_cast<__m128d>(_mm_add_epi64(a, exp67m3)), adjust), std::bit_cast<__m128d>(b));
-- 
2.43.0


From 417e3dc10c55714d7e4a8e9a91f9137ddc528349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 47/89] fix: aligned copies to bool must store true as one

---
 dpm/detail/x86/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 4b5c284..81f9a33 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -311,12 +311,12 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE V set(T0 v0, Ts... vs) noexcept { return set<V>({v0, static_cast<T0>(vs)...}); }
 
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && sizeof(To) == sizeof(From))) { dst = src; }
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::same_as<To, From> || (std::integral<To> && std::integral<From> && !std::same_as<To, bool> && sizeof(To) == sizeof(From))) { dst = src; }
 	template<typename To, typename From, typename VTo, typename VFrom>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::floating_point<To> && std::integral<From>) { dst = cvt<To, From>(src); }
-	/* Fractions must be truncated like a scalar cast does, for every value representable by `To`. */
+	/* Fractions must be truncated and `bool` normalized like a scalar cast does, for every value representable by `To`. */
 	template<typename To, typename From, typename VTo, typename VFrom>
-	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(std::integral<To> && std::floating_point<From>)
+	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const VFrom &src) noexcept requires(!std::same_as<To, From> && std::integral<To> && (std::floating_point<From> || std::same_as<To, bool>))
 	{
 		for (std::size_t i = 0; i < sizeof(VFrom) / sizeof(From); ++i)
 			reinterpret_cast<alias_t<To> *>(&dst)[i] = static_cast<To>(reinterpret_cast<const alias_t<From> *>(&src)[i]);
-- 
2.43.0


From 728175e5aaf5c38f0119c502a4abc468b7bfa726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 48/89] fix: native shuffle must compile when it changes the
 number of elements

---
 dpm/detail/x86/type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6a8e405..9a3519c 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -217,7 +217,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd_mask<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_mask<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_mask<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
@@ -728,7 +728,7 @@ namespace dpm
 			if (std::is_constant_evaluated())
 			{
 				const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
-				return static_cast<detail::x86_simd<T, N, A>>(shuffle<Is...>(packed));
+				return static_cast<detail::x86_simd<T, M, A>>(shuffle<Is...>(packed));
 			}
 			else
 			{
-- 
2.43.0


From 6c5aab2274e984b6748284f78108f3f69658b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 49/89] fix: padding of a native shuffle must not read past the
 source vector

---
 dpm/detail/x86/transform.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 86b7e2a..1fea878 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -646,7 +646,12 @@ namespace dpm::detail
 			shuffle<T, J>(extract_sequence_t<next_pos, sizeof...(Is) - native_extent, Is...>{}, dst + 1, src);
 		}
 		else
-			shuffle<T, J>(pad_sequence_t<native_extent, 1, Is...>{}, dst, src);
+		{
+			/* Padding indices must not leave the native vector of the last index, as the source may have no vector after it. */
+			constexpr auto last = (Is, ...);
+			constexpr std::size_t inc = last % native_extent + (native_extent - sizeof...(Is)) < native_extent ? 1 : 0;
+			shuffle<T, J>(pad_sequence_t<native_extent, inc, Is...>{}, dst, src);
+		}
 	}
 
 	template<typename T, std::size_t N, typename V, typename Op>
-- 
2.43.0


From 79b97038d78eb12919f5fb7989e7af4029329242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 50/89] fix: horizontal reductions of 64-bit integers must
 compile

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 1fea878..b9b047a 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -207,7 +207,7 @@ namespace dpm::detail
 			return std::bit_cast<V>(_mm_or_pd(_mm_andnot_pd(vm, va), _mm_and_pd(vm, vb)));
 #endif
 		}
-		return va;
+		return a;
 	}
 
 	template<integral_of_size<1> T>
-- 
2.43.0


From 6ec1c63f09ca028b81e7779f943f85fa0bd1a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 51/89] fix: AVX2 horizontal reductions of 8 and 16-bit
 integers must compile

---
 dpm/detail/x86/transform.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index b9b047a..5f292d6 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -571,6 +571,11 @@ namespace dpm::detail
 		return _mm256_blendv_epi8(a, b, m);
 	}
 
+	template<std::integral T, typename Op>
+	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept requires(sizeof(T) <= 2)
+	{
+		return reduce<T>(op(_mm256_castsi256_si128(v), _mm256_extracti128_si256(v, 1)), op);
+	}
 	template<integral_of_size<4> T, typename Op>
 	[[nodiscard]] DPM_FORCEINLINE T reduce(__m256i v, Op op) noexcept
 	{
-- 
2.43.0


From 2f22339d42482a1b8461820ddf68e1c4f0f5d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 52/89] fix: reduce_min and reduce_max of infinities must not
 return finite values

---
 dpm/detail/x86/type.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 9a3519c..94f168f 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -1367,14 +1367,19 @@ namespace dpm
 #pragma region "simd reductions"
 	namespace detail
 	{
+		template<typename T>
+		[[nodiscard]] constexpr T min_identity() noexcept { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
+		template<typename T>
+		[[nodiscard]] constexpr T max_identity() noexcept { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest(); }
+
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_add(const V *data) noexcept { return reduce<T, N>(data, setzero<V>(), [](auto a, auto b) { return add<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
 		[[nodiscard]] DPM_FORCEINLINE T reduce_mul(const V *data) noexcept { return reduce<T, N>(data, fill<V>(T{1}), [](auto a, auto b) { return mul<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::max()), [](auto a, auto b) { return min<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_min(const V *data) noexcept { return reduce<T, N>(data, fill<V>(min_identity<T>()), [](auto a, auto b) { return min<T>(a, b); }); }
 		template<typename T, std::size_t N, typename V>
-		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(std::numeric_limits<T>::lowest()), [](auto a, auto b) { return max<T>(a, b); }); }
+		[[nodiscard]] DPM_FORCEINLINE T reduce_max(const V *data) noexcept { return reduce<T, N>(data, fill<V>(max_identity<T>()), [](auto a, auto b) { return max<T>(a, b); }); }
 
 #ifdef DPM_HAS_SSE2
 		template<typename T, std::size_t N, typename V>
-- 
2.43.0


From ce717c37fa3142becf4f17be48d04a9bcd31f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 53/89] fix: second results of frexp, modf and sincos must not
 be lost

The second vector was handed over in a register the compiler does not know
about, while the functions are declared pure: a call whose first result was
unused or repeated was discarded, and the second result read from whatever
the register held.
---
 dpm/detail/x86/math_fwd.hpp | 49 ++-----------------------------------
 1 file changed, 2 insertions(+), 47 deletions(-)

diff --git a/dpm/detail/x86/math_fwd.hpp b/dpm/detail/x86/math_fwd.hpp
index 43b75da..8304cd2 100644
--- a/dpm/detail/x86/math_fwd.hpp
+++ b/dpm/detail/x86/math_fwd.hpp
@@ -9,52 +9,8 @@
 
 namespace dpm::detail
 {
-	/* On GNU-compatible systems return 2 registers at once. */
-#ifdef __GNUC__
-	template<typename T0, typename T1>
-	using vec2_return_t = T0;
-
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 16)
-	{
-		/* Avoid discarding y */
-#ifdef DPM_HAS_AVX
-		__asm__ ("vmovaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#else
-		__asm__ ("movaps %[y], %%xmm1" : : [y] "x"(y) : "xmm1");
-#endif
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 16)
-	{
-		x = f(x);
-		/* Read second variable from xmm1 */
-#ifdef DPM_HAS_AVX
-		__asm__ volatile ("vmovaps %%xmm1, %[out]" : [out] "=xm"(out));
-#else
-		__asm__ volatile ("movaps %%xmm1, %[out]" : [out] "=xm"(out));
-#endif
-		return x;
-	}
-#ifdef DPM_HAS_AVX
-	template<typename T0, typename T1>
-	[[nodiscard]] vec2_return_t<T0, T1> DPM_FORCEINLINE vec2_return(T0 x, T1 y) noexcept requires(sizeof(T1) == 32)
-	{
-		/* Avoid discarding y */
-		__asm__ ("vmovaps %[y], %%ymm1" : : [y] "x"(y) : "ymm1");
-		return x;
-	}
-	template<typename T0, typename T1>
-	[[nodiscard]] T0 DPM_FORCEINLINE vec2_call(auto f, T0 x, T1 &out) noexcept requires(sizeof(T1) == 32)
-	{
-		x = f(x);
-		/* Read second variable from ymm1 */
-		__asm__ volatile ("vmovaps %%ymm1, %[out]" : [out] "=xm"(out));
-		return x;
-	}
-#endif
-#else
+	/* Both vectors must be part of the function's result, otherwise calls whose first vector is not used (or which repeat
+	 * an earlier call) are free to be discarded, as math functions are pure. */
 	template<typename T0, typename T1>
 	using vec2_return_t = std::pair<T0, T1>;
 
@@ -67,5 +23,4 @@ namespace dpm::detail
 		out = res.second;
 		return res.first;
 	}
-#endif
 }
\ No newline at end of file
-- 
2.43.0


From 085f900b27d51b1b692290ee8f087955ed974713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 54/89] fix: frexp of subnormal elements must report their
 exponent

---
 dpm/detail/x86/frexp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/frexp.cpp b/dpm/detail/x86/frexp.cpp
index 6b9be4c..26daf16 100644
--- a/dpm/detail/x86/frexp.cpp
+++ b/dpm/detail/x86/frexp.cpp
@@ -20,7 +20,7 @@ namespace dpm::detail
 		const auto is_zero = cmp_eq<T>(x, setzero<V>());
 
 		/* off = is_subn ? mant_bits + 2 : 0 */
-		const auto off = bit_and(is_subn, fill<Vi>(std::numeric_limits<I>::digits));
+		const auto off = bit_and(is_subn, fill<Vi>(mant_bits<I> + 2));
 		auto norm_x = mul<T>(bit_and(std::bit_cast<V>(is_subn), x), fill<V>(exp_mult<T>));
 		norm_x = blendv<T>(x, norm_x, std::bit_cast<V>(is_subn));
 		auto norm_exp = bit_and(std::bit_cast<Vi>(norm_x), fill<Vi>(exp_ones));
-- 
2.43.0


From 164f8f8f315ae9146141898e685dd7bd8ff86049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 55/89] fix: modf of elements below one must have a zero
 integral part

---
 dpm/detail/x86/modf.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/modf.cpp b/dpm/detail/x86/modf.cpp
index 383d15b..bdf07a8 100644
--- a/dpm/detail/x86/modf.cpp
+++ b/dpm/detail/x86/modf.cpp
@@ -39,10 +39,9 @@ namespace dpm::detail
 		const auto x1 = bit_and(x, fill<V>(sign_bit<T>));   /* x1 = x & -0.0 */
 		const auto x2 = bit_andnot(mask, x);                /* x2 = x & ~mask */
 
-		/* i = e < 0 ? x : x & -0.0 */
-		auto i = blendv<T>(x, fract_ip, fract_mask);
-		/* i = ix & mask ? x2 : i */
-		i = blendv<T>(x2, i, mask_zero);
+		/* i = e < 0 ? x & -0.0 : (e >= mant_bits ? x : x2) */
+		auto i = blendv<T>(x2, fract_ip, fract_mask);
+		i = blendv<T>(i, x, int_mask);
 
 		/* x = mask_zero ? x1 : (x - x2) */
 		auto y = blendv<T>(sub<T>(x, x2), x1, mask_zero);
-- 
2.43.0


From 82591b9c6eba2fbb15f9f01e20d4ea1e8b77d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:56 +0000
Subject: [PATCH 56/89] fix: ilogb of infinite doubles must be the maximum int

---
 dpm/detail/x86/logb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/logb.cpp b/dpm/detail/x86/logb.cpp
index efca565..a25acfd 100644
--- a/dpm/detail/x86/logb.cpp
+++ b/dpm/detail/x86/logb.cpp
@@ -44,7 +44,7 @@ namespace dpm::detail
 		auto y = eval_ilogb<T, I>(abs_x);
 #ifdef DPM_HANDLE_ERRORS
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGB0)), std::bit_cast<decltype(y)>(cmp_eq<T>(abs_x, setzero<V>())));
-		y = blendv<I>(y, fill<decltype(y)>(std::numeric_limits<I>::max()), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
+		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(std::numeric_limits<int>::max())), std::bit_cast<decltype(y)>(isinf_abs(abs_x)));
 #endif
 #ifdef DPM_PROPAGATE_NAN
 		y = blendv<I>(y, fill<decltype(y)>(static_cast<I>(FP_ILOGBNAN)), std::bit_cast<decltype(y)>(isunord(x, x)));
-- 
2.43.0


From 9436c0c0fe641ff3db17a0d2a6ffa39b90f14600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 57/89] fix: AVX ldexp and scalbn of doubles must use the
 exponent of the same element

---
 dpm/detail/x86/fmanip.hpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 072768d..9732c7a 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -128,26 +128,12 @@ namespace dpm
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn32(__m256 x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m128i *exp, std::size_t i) noexcept
 		{
-			const auto exph = exp[i + 1];
-			const auto expl = exp[i];
-			const auto xh = _mm256_castpd256_pd128(_mm256_permute2f128_pd(x, x, 1));
-			const auto xl = _mm256_castpd256_pd128(x);
-			const auto h = scalbn(xh, _mm_unpackhi_epi32(exph, _mm_srai_epi32(exph, 31)));
-			const auto l = scalbn(xl, _mm_unpackhi_epi32(expl, _mm_srai_epi32(expl, 31)));
-			return _mm256_set_m128d(h, l);
+			const auto exp32 = exp[i], sign = _mm_srai_epi32(exp32, 31);
+			return scalbn(x, _mm256_set_m128i(_mm_unpackhi_epi32(exp32, sign), _mm_unpacklo_epi32(exp32, sign)));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn32(__m256d x, const __m256i *exp, std::size_t i) noexcept
 		{
-#ifdef DPM_HAS_AVX2
-			auto exp64 = exp[i / 2];
-			if (const auto sign = _mm256_srai_epi32(exp64, 31); i % 2)
-				exp64 = _mm256_unpackhi_epi32(exp64, sign);
-			else
-				exp64 = _mm256_unpacklo_epi32(exp64, sign);
-			return scalbn(x, exp64);
-#else
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
-#endif
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
-- 
2.43.0


From 188be2ff89a8d5a1754ff3aee219b236edae87fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 58/89] fix: scalbln of floats must use the exponent of the
 same element

---
 dpm/detail/x86/fmanip.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 9732c7a..5040601 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -62,13 +62,14 @@ namespace dpm
 			return scalbn(x, exp64);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i) noexcept
+		/* Result has as many lanes as two vectors of exponents, the last one of which may be missing. */
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i, std::size_t n) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + 1]);
+			const auto exph = std::bit_cast<__m128>(exp[i * 2 + (i * 2 + 1 < n)]);
 			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
+		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, exp[i]); }
 
 		[[nodiscard]] vec2_return_t<__m128, __m128> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x4(__m128 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m128d, __m128d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x2(__m128d x) noexcept;
@@ -136,14 +137,14 @@ namespace dpm
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i) noexcept{return scalbn(x, cvt_i64_i32(exp[i]));}
-		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i) noexcept
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, cvt_i64_i32(exp[i]));}
+		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i, std::size_t n) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i]);
-			const auto expl = cvt_i64_i32(exp[i]);
+			const auto exph = cvt_i64_i32(exp[i * 2 + (i * 2 + 1 < n)]);
+			const auto expl = cvt_i64_i32(exp[i * 2]);
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
-		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i) noexcept { return scalbn(x, exp[i]); }
+		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, exp[i]); }
 
 		[[nodiscard]] vec2_return_t<__m256, __m256> DPM_API_PUBLIC DPM_MATHFUNC modf_f32x8(__m256 x) noexcept;
 		[[nodiscard]] vec2_return_t<__m256d, __m256d> DPM_API_PUBLIC DPM_MATHFUNC modf_f64x4(__m256d x) noexcept;
@@ -247,7 +248,7 @@ namespace dpm
 			for (std::size_t i = 0; i < ext::native_data_size_v < detail::x86_simd < T, N, A >>; ++i)
 			{
 				if constexpr (sizeof(long) == sizeof(std::int64_t))
-					result_data[i] = detail::scalbn64(x_data[i], exp_data.data(), i);
+					result_data[i] = detail::scalbn64(x_data[i], exp_data.data(), i, exp_data.size());
 				else
 					result_data[i] = detail::scalbn32(x_data[i], exp_data.data(), i);
 			}
-- 
2.43.0


From 7e473c453f0869d602b779a13069e66a3852bfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 59/89] fix: exponents of large magnitude must not overflow in
 ldexp, scalbn and scalbln

---
 dpm/detail/x86/fmanip.hpp | 21 +++++++++++++++------
 dpm/detail/x86/scalbn.cpp |  3 +++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 5040601..2f9d106 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -62,11 +62,20 @@ namespace dpm
 			return scalbn(x, exp64);
 		}
 
+		/* Exponents outside of the range always overflow or underflow. */
+		template<typename I, typename V>
+		[[nodiscard]] DPM_FORCEINLINE V clamp_scalbn(V n) noexcept
+		{
+			const auto max = fill<V>(max_scalbn<I>), min = fill<V>(-max_scalbn<I>);
+			n = blendv<I>(n, max, cmp_gt<I>(n, max));
+			return blendv<I>(n, min, cmp_gt<I>(min, n));
+		}
+
 		/* Result has as many lanes as two vectors of exponents, the last one of which may be missing. */
 		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m128i *exp, std::size_t i, std::size_t n) noexcept
 		{
-			const auto exph = std::bit_cast<__m128>(exp[i * 2 + (i * 2 + 1 < n)]);
-			const auto expl = std::bit_cast<__m128>(exp[i * 2]);
+			const auto exph = std::bit_cast<__m128>(clamp_scalbn<std::int64_t>(exp[i * 2 + (i * 2 + 1 < n)]));
+			const auto expl = std::bit_cast<__m128>(clamp_scalbn<std::int64_t>(exp[i * 2]));
 			return scalbn(x, std::bit_cast<__m128i>(_mm_shuffle_ps(expl, exph, _MM_SHUFFLE(2, 0, 2, 0))));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m128d scalbn64(__m128d x, const __m128i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, exp[i]); }
@@ -137,11 +146,11 @@ namespace dpm
 			return scalbn32(x, reinterpret_cast<const __m128i *>(exp), i);
 		}
 
-		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, cvt_i64_i32(exp[i]));}
+		[[nodiscard]] DPM_FORCEINLINE __m128 scalbn64(__m128 x, const __m256i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i])));}
 		[[nodiscard]] DPM_FORCEINLINE __m256 scalbn64(__m256 x, const __m256i *exp, std::size_t i, std::size_t n) noexcept
 		{
-			const auto exph = cvt_i64_i32(exp[i * 2 + (i * 2 + 1 < n)]);
-			const auto expl = cvt_i64_i32(exp[i * 2]);
+			const auto exph = cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i * 2 + (i * 2 + 1 < n)]));
+			const auto expl = cvt_i64_i32(clamp_scalbn<std::int64_t>(exp[i * 2]));
 			return scalbn(x, _mm256_set_m128i(exph, expl));
 		}
 		[[nodiscard]] DPM_FORCEINLINE __m256d scalbn64(__m256d x, const __m256i *exp, std::size_t i, std::size_t) noexcept { return scalbn(x, exp[i]); }
@@ -355,7 +364,7 @@ namespace dpm
 			using exp_vector = detail::select_vector_t<exp_t, sizeof(ext::native_data_type_t < detail::x86_simd < T, N, A >>)>;
 
 			detail::x86_simd <T, N, A> result = {};
-			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(exp))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
+			detail::vectorize([exp = detail::fill<exp_vector>(static_cast<exp_t>(std::clamp(exp, -detail::max_scalbn<long>, detail::max_scalbn<long>)))](auto &res, auto x) { res = detail::scalbn(x, exp); }, result, x);
 			return result;
 		}
 	}
diff --git a/dpm/detail/x86/scalbn.cpp b/dpm/detail/x86/scalbn.cpp
index eaec43e..e5f65f8 100644
--- a/dpm/detail/x86/scalbn.cpp
+++ b/dpm/detail/x86/scalbn.cpp
@@ -13,6 +13,9 @@ namespace dpm::detail
 	template<typename T, typename V, typename Vi, typename I = int_of_size_t<sizeof(T)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_scalbn(V x, Vi n) noexcept
 	{
+		/* Prevent overflow of the exponent. */
+		n = clamp_scalbn<I>(n);
+
 		const auto ix = std::bit_cast<Vi>(x);
 		const auto x_exp = bit_and(bit_shiftr<I, mant_bits<I>>(ix), fill<Vi>(exp_mask<I>));
 		auto fwd_mask = std::bit_cast<Vi>(cmp_eq<T>(x, setzero<V>()));
-- 
2.43.0


From 4e57eec2cffa62896bbc91b9146c07ae16349cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 60/89] fix: constant-evaluated copysign must use the sign
 vector

---
 dpm/detail/x86/fmanip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 2f9d106..8849444 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -395,7 +395,7 @@ namespace dpm
 	{
 		if (std::is_constant_evaluated())
 		{
-			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
+			const auto packed_sign = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(sign);
 			const auto packed_x = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(x);
 			return static_cast<detail::x86_simd<T, N, A>>(copysign(packed_x, packed_sign));
 		}
-- 
2.43.0


From 062deb4d254e8d10a19da803b159bfc368b79f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 61/89] fix: coefficients of tan near zero must be in the order
 polevl takes them

The polynomial was evaluated with its coefficients reversed, so that tan(x) of
|x| < Pi / 32 approached x * 0.022 instead of x.
---
 dpm/detail/fconst.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/fconst.hpp b/dpm/detail/fconst.hpp
index 4987658..b23cd25 100644
--- a/dpm/detail/fconst.hpp
+++ b/dpm/detail/fconst.hpp
@@ -93,7 +93,7 @@ namespace dpm::detail
 	};
 
 	template<std::floating_point T>
-	static constexpr T tancof[] = {T{1.0}, T{3.3333333332780246e-1}, T{1.3333333883976731e-1}, T{5.3966541627173827e-2}, T{2.2079624737833755e-2}};
+	static constexpr T tancof[] = {T{2.2079624737833755e-2}, T{5.3966541627173827e-2}, T{1.3333333883976731e-1}, T{3.3333333332780246e-1}, T{1.0}};
 
 	template<std::floating_point T>
 	static constexpr T asin_r[] = {T{2.967721961301243206100e-3}, T{-5.634242780008963776856e-1}, T{6.968710824104713396794e0}, T{-2.556901049652824852289e1}, T{2.853665548261061424989e1}};
-- 
2.43.0


From 5b6387330cd5f42c24194fe1c851a6443df53e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 62/89] fix: log2 of doubles must use the offset its table was
 made for

---
 dpm/detail/x86/log2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log2.cpp b/dpm/detail/x86/log2.cpp
index dc71893..a7619a4 100644
--- a/dpm/detail/x86/log2.cpp
+++ b/dpm/detail/x86/log2.cpp
@@ -48,12 +48,12 @@ namespace dpm::detail
 		auto ix = log_normalize<T>(x);
 
 		/* Load invc & logc constants from the lookup table. */
-		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'9009'0000'0000));
+		const auto tmp = sub<I>(ix, fill<Vi>(0x3fe6'0000'0000'0000));
 		auto i = bit_shiftr<I, 52 - log2tab_bits_f64>(tmp);
 		i = bit_and(i, fill<Vi>((1 << log2tab_bits_f64) - 1));
 		const auto [invc, logc] = log_get_table<V>(i, log2tab_v<T>, DPM_SOURCE_LOC_CURRENT);
 
-		/* x = 2^k z; where z is in range [0x3fe6'9009'0000'0000, 2 * 0x3fe6'9009'0000'0000] and exact.  */
+		/* x = 2^k z; where z is in range [0x3fe6'0000'0000'0000, 2 * 0x3fe6'0000'0000'0000] and exact.  */
 		const auto k = bit_ashiftr<I, 52>(tmp);
 		const auto z = std::bit_cast<V>(sub<I>(ix, bit_and(tmp, fill<Vi>(0xfffull << 52))));
 
-- 
2.43.0


From 3dfcf85be543576992c7db97a294a55e3f9be1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 63/89] fix: log and log2 must normalize subnormal elements

---
 dpm/detail/x86/exp.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index d456c65..f312c32 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -90,12 +90,11 @@ namespace dpm
 		template<std::same_as<float> T, typename V, typename Vi = select_vector_t<std::int32_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7f00'0000;
 			constexpr std::int32_t sub_off = 0x80'0000;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal or not finite. */
-			const auto is_subnorm = cmp_gt<std::int32_t>(sub<std::int32_t>(ix, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			/* x is subnormal or negative. */
+			const auto is_subnorm = cmp_gt<std::int32_t>(fill<Vi>(sub_off), ix);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^23 */
 			{
 				/* Normalize x. */
@@ -108,13 +107,12 @@ namespace dpm
 		template<std::same_as<double> T, typename V, typename Vi = select_vector_t<std::int64_t, sizeof(V)>>
 		[[nodiscard]] DPM_FORCEINLINE Vi log_normalize(V x) noexcept
 		{
-			constexpr std::int32_t sub_max = 0x7fe0;
-			constexpr std::int32_t sub_off = 0x10;
+			constexpr std::int64_t sub_off = 0x10;
 			auto ix = std::bit_cast<Vi>(x);
 
-			/* x is subnormal, negative or not finite. */
+			/* x is subnormal. */
 			const auto top16 = bit_shiftr<std::int64_t, 48>(ix);
-			const auto is_subnorm = cmp_gt_l32<std::int64_t>(sub<std::int64_t>(top16, fill<Vi>(sub_off)), fill<Vi>(sub_max - 1));
+			const auto is_subnorm = cmp_gt_l32<std::int64_t>(fill<Vi>(sub_off), top16);
 			if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^52 */
 			{
 				/* Normalize x. */
-- 
2.43.0


From 370ab4895eb5c1ff4c93751a1a479093c6ca6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 64/89] fix: log10 must normalize subnormal elements only

---
 dpm/detail/x86/log10.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/log10.cpp b/dpm/detail/x86/log10.cpp
index 077a319..2a822c8 100644
--- a/dpm/detail/x86/log10.cpp
+++ b/dpm/detail/x86/log10.cpp
@@ -19,7 +19,7 @@ namespace dpm::detail
 		{
 			/* Normalize x. */
 			const auto ix_norm = std::bit_cast<Vi>(mul<T>(x, fill<V>(0x1p25f)));
-			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(25ull)));
+			k = sub<I>(k, bit_and(is_subnorm, fill<Vi>(I{25})));
 			ix = blendv<I>(ix, ix_norm, is_subnorm);
 		}
 
@@ -49,7 +49,7 @@ namespace dpm::detail
 		auto k = setzero<Vi>();
 
 		const auto top16 = bit_shiftr<I, 48>(ix);
-		const auto is_subnorm = cmp_gt<I>(fill<Vi>(0x10ull << 48), top16);
+		const auto is_subnorm = cmp_gt<I>(fill<Vi>(I{0x10}), top16);
 		if (test_mask(is_subnorm)) [[unlikely]] /* Avoid overflow in x * 2^54 */
 		{
 			/* Normalize x. */
-- 
2.43.0


From 6325dcc472d3d42f225a73b97fcacc33bf5f24ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 65/89] fix: logarithms of zero must be negative infinity

---
 dpm/detail/x86/exp.hpp   | 4 ++--
 dpm/detail/x86/log1p.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index f312c32..21378c9 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -77,9 +77,9 @@ namespace dpm
 			y = blendv<T>(x, y, isfinite_abs(x));
 #endif
 #ifdef DPM_HANDLE_ERRORS
-			/* log(0) == inf + FE_DIVBYZERO */
+			/* log(0) == -inf + FE_DIVBYZERO */
 			const auto zero_mask = cmp_eq<T>(x, setzero<V>());
-			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+			if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 			/* log(-x) == NaN + FE_INVALID */
 			const auto minus_mask = cmp_lt<T>(x, setzero<V>());
 			if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 790cf19..aa58153 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -34,9 +34,9 @@ namespace dpm::detail
 		/* log1p(subnormal x) == x */
 		const auto exp = bit_shiftr<I, mant_bits<I>>(std::bit_cast<Vi>(x));
 		y = blendv<T>(y, x, std::bit_cast<V>(cmp_eq<I>(exp, setzero<Vi>())));
-		/* log1p(-1) == inf + FE_DIVBYZERO */
+		/* log1p(-1) == -inf + FE_DIVBYZERO */
 		const auto zero_mask = cmp_eq<T>(x, fill<V>(-one<T>));
-		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T>(y, x, zero_mask);
+		if (test_mask(zero_mask)) [[unlikely]] y = except_divzero<T, -1>(y, x, zero_mask);
 		/* log1p(x < -1) == NaN + FE_INVALID */
 		const auto minus_mask = cmp_lt<T>(x, fill<V>(-one<T>));
 		if (test_mask(minus_mask)) [[unlikely]] y = except_invalid<T>(y, x, std::bit_cast<V>(minus_mask));
-- 
2.43.0


From ff30ca3b3128a406d1107b74c210b7e1b77bf7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 66/89] fix: log1p must keep the precision of small elements

---
 dpm/detail/x86/log1p.cpp | 41 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index aa58153..7953105 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -12,13 +12,12 @@ namespace dpm::detail
 	 * As such, log(1 + x) ~= log(u) + c / u. When c == 0, log(1 + x) is exact.
 	 *
 	 * It is important to avoid underflow in c / u. As such,
-	 * when u is in range [sqrt(2) / 2, sqrt(2)), c == 0.
-	 * Otherwise, let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3fd;
-	 * if k < 52, c == 1 - (u - x) for k >= 0 and x - (u - 1) for k < 0.
-	 * Otherwise (for k >= 52), c == 0.
+	 * let k = (as_int(u) + 0x95f62 << 32) >> 52 - 0x3ff;
+	 * if k < 54, c == 1 - (u - x) for k >= 2 and x - (u - 1) for k < 2.
+	 * Otherwise (for k >= 54), c == 0.
 	 *
-	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d,
-	 * and k threshold is 23 instead of 52 (threshold is mantissa bits).
+	 * For single-precision (32-bit) floats, k = (as_int(u) + 0x4afb0d) >> 23 - 0x7f,
+	 * and k threshold is 25 instead of 54.
 	 *
 	 * Use eval_log to calculate log(u), as there is no need for
 	 * normalization since denormal x results in underflow condition. */
@@ -47,23 +46,20 @@ namespace dpm::detail
 	template<std::same_as<float> T, typename V, typename I = std::int32_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0f));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbe95f61a), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7d */
+		/* k = (as_int(u) + 0x4afb0d) >> 23 - 0x7f */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x4afb0d));
-		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7d));
+		k = sub<I>(bit_shiftr<I, 23>(k), fill<Vi>(0x7f));
 
-		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
-		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
+		/* c = k < 2 ? x - (u - 1) : 1 - (u - x) */
+		const auto c_mask = cmp_gt<I>(fill<Vi>(I{2}), k);
 		const auto c0 = sub<T>(fill<V>(1.0f), sub<T>(u, x));
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0f)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 23 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(22)), range_mask);
+		/* c = k >= 25 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(24));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
@@ -76,23 +72,20 @@ namespace dpm::detail
 	template<std::same_as<double> T, typename V, typename I = std::int64_t, typename Vi = select_vector_t<I, sizeof(V)>>
 	[[nodiscard]] DPM_FORCEINLINE V impl_log1p(V x) noexcept
 	{
-		const auto ix = std::bit_cast<Vi>(x);
 		const auto u = add<T>(x, fill<V>(1.0));
 
-		/* sqrt(2) / 2 <= u < sqrt(2) */
-		const auto range_mask = cmp_gt<I>(fill<Vi>(0xbfd2bec4ull), ix);
-		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3fd */
+		/* k = (as_int(u) + 0x4afb0d) >> 52 - 0x3ff */
 		auto k = add<I>(std::bit_cast<Vi>(u), fill<Vi>(0x95f62ull << 32));
-		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3fdull));
+		k = sub<I>(bit_shiftr<I, 52>(k), fill<Vi>(0x3ffull));
 
-		/* c = k < 0 ? x - (u - 1) : 1 - (u - x) */
-		const auto c_mask = cmp_gt<I>(setzero<Vi>(), k);
+		/* c = k < 2 ? x - (u - 1) : 1 - (u - x) */
+		const auto c_mask = cmp_gt<I>(fill<Vi>(I{2}), k);
 		const auto c0 = sub<T>(fill<V>(1.0), sub<T>(u, x));
 		const auto c1 = sub<T>(x, sub<T>(u, fill<V>(1.0)));
 		auto c = blendv<T>(c0, c1, std::bit_cast<V>(c_mask));
 
-		/* c = (k >= 52 || range_mask) ? 0 : c */
-		const auto exact_mask = bit_or(cmp_gt<I>(k, fill<Vi>(51ull)), range_mask);
+		/* c = k >= 54 ? 0 : c */
+		const auto exact_mask = cmp_gt<I>(k, fill<Vi>(53ull));
 		c = bit_andnot(std::bit_cast<V>(exact_mask), c);
 
 		/* log1p(x) ~= log(u) + c / u */
-- 
2.43.0


From 8d0138c5293ca199531a140b41d6416d5c2c785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 67/89] fix: log1p of negative zero must be negative zero

---
 dpm/detail/x86/log1p.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/log1p.cpp b/dpm/detail/x86/log1p.cpp
index 7953105..b39184b 100644
--- a/dpm/detail/x86/log1p.cpp
+++ b/dpm/detail/x86/log1p.cpp
@@ -64,8 +64,8 @@ namespace dpm::detail
 
 		/* log1p(x) ~= log(u) + c / u */
 		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
@@ -90,8 +90,8 @@ namespace dpm::detail
 
 		/* log1p(x) ~= log(u) + c / u */
 		auto y = add<T>(eval_log<T>(std::bit_cast<Vi>(u)), div<T>(c, u));
-		/* log(0) == 0 */
-		y = bit_andnot(cmp_eq<T>(x, setzero<V>()), y);
+		/* log1p(+-0) == +-0 */
+		y = blendv<T>(y, x, cmp_eq<T>(x, setzero<V>()));
 		/* Handle negative x <= -1, NaN & inf. */
 		return log1p_excepts<T>(y, x);
 	}
-- 
2.43.0


From e9a0980c45674297918d1a7baa1a6b4b1cbdbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 68/89] fix: sin, cos and tan must not overflow the conversion
 of |x| * 4 / Pi

---
 dpm/detail/x86/sincos.cpp | 3 ++-
 dpm/detail/x86/tan.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/x86/sincos.cpp b/dpm/detail/x86/sincos.cpp
index 861eff7..686ea8b 100644
--- a/dpm/detail/x86/sincos.cpp
+++ b/dpm/detail/x86/sincos.cpp
@@ -25,7 +25,8 @@ namespace dpm::detail
 #endif
 
 		/* Check for over & underflow conditions. */
-		const auto oflow_mask = cvt_has_overflow<I>(abs_x);
+		/* |x| * 4 / Pi (which is less than |x| * 2) must be convertible to an integer. */
+		const auto oflow_mask = cvt_has_overflow<I>(add<T>(abs_x, abs_x));
 		/* Handle exceptional cases later. */
 		auto y = eval_sincos<T, Op>(sign_x, bit_andnot(oflow_mask, abs_x));
 
diff --git a/dpm/detail/x86/tan.cpp b/dpm/detail/x86/tan.cpp
index b2c05c8..a20d7ba 100644
--- a/dpm/detail/x86/tan.cpp
+++ b/dpm/detail/x86/tan.cpp
@@ -45,7 +45,8 @@ namespace dpm::detail
 		auto y = blendv<T>(p1, p2, p_mask);
 
 		/* Handle exceptional cases. */
-		if (const auto m = movemask<I>(cvt_has_overflow<I>(abs_x)); m) [[unlikely]]
+		/* |x| * 4 / Pi (which is less than |x| * 2) must be convertible to an integer. */
+		if (const auto m = movemask<I>(cvt_has_overflow<I>(add<T>(abs_x, abs_x))); m) [[unlikely]]
 		{
 			constexpr auto special = [](T &y, T x) { y = std::tan(x); };
 			mask_invoke<T, V, T &, T>(special, m, y, x);
-- 
2.43.0


From 45a37eb024f62b24aae558260a8a0a1e32882b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 69/89] fix: hypot of subnormal doubles must not be the sum of
 the arguments

---
 dpm/detail/x86/hypot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/hypot.cpp b/dpm/detail/x86/hypot.cpp
index bfd5933..9073b93 100644
--- a/dpm/detail/x86/hypot.cpp
+++ b/dpm/detail/x86/hypot.cpp
@@ -101,7 +101,7 @@ namespace dpm::detail
 		/* hypot(a, b) ~= a + b * b / a / 2 for small a & b */
 		constexpr std::int64_t hypot_small = (65ull << 20) - 1;
 		auto ab_small = std::bit_cast<V>(cmp_gt_l32<std::int64_t>(sub<std::int64_t>(ia, ib), fill<Vi>(hypot_small)));
-		ab_small = bit_or(std::bit_cast<V>(cmp_eq<std::int64_t>(ia, setzero<Vi>())), ab_small);
+		ab_small = bit_or(cmp_eq<T>(b, setzero<V>()), ab_small);
 
 		/* Evaluate result without overflow. Bitwise-and with ~ab_small to ensure no fp exceptions are triggered.  */
 		const auto [hx, lx] = split(bit_andnot(ab_small, mul<T>(a, ab_mult)));
-- 
2.43.0


From cc24310df3d221daf083b69874a859e536d5668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 70/89] fix: generic sincos must pass elements to the builtin

---
 dpm/detail/generic/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index c444b93..480685c 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -662,7 +662,7 @@ namespace dpm
 					if constexpr (std::same_as<T, float>)
 					{
 #if __has_builtin(__builtin_sincosf)
-						__builtin_sincosf(x, &sin, &cos);
+						__builtin_sincosf(x[i], &sin, &cos);
 #else
 						::sincosf(x[i], &sin, &cos);
 #endif
@@ -670,7 +670,7 @@ namespace dpm
 					else if constexpr (std::same_as<T, long double>)
 					{
 #if __has_builtin(__builtin_sincosl)
-						__builtin_sincosl(x, &sin, &cos);
+						__builtin_sincosl(x[i], &sin, &cos);
 #else
 						::sincosl(x[i], &sin, &cos);
 #endif
@@ -678,7 +678,7 @@ namespace dpm
 					else
 					{
 #if __has_builtin(__builtin_sincos)
-						__builtin_sincos(x, &sin, &cos);
+						__builtin_sincos(x[i], &sin, &cos);
 #else
 						::sincos(x[i], &sin, &cos);
 #endif
-- 
2.43.0


From 616b021f93e9a115ed3fdd5f2f455f071e07ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 71/89] fix: ext::remquo must not be ambiguous

---
 dpm/detail/generic/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 480685c..57f5080 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -276,8 +276,8 @@ namespace dpm
 		/** Calculates IEEE remainder of elements in \a a divided by elements in vector \a b, and stores the sign and
 		 * at least 3 last bits of the division result in elements of \a quo. Equivalent to the regular `remquo`, except
 		 * that the quotent out parameter is taken by reference. */
-		template<typename T, typename Abi>
-		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, rebind_simd_t<int, simd<T, Abi>> &quo) noexcept { return dpm::remquo(a, b, &quo); }
+		template<typename T, typename Abi, typename QAbi>
+		[[nodiscard]] constexpr DPM_FORCEINLINE simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> &quo) noexcept { return dpm::remquo(a, b, &quo); }
 		/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 		template<typename T, typename Abi>
 		[[nodiscard]] constexpr simd<T, Abi> fmadd(const simd<T, Abi> &a, const simd<T, Abi> &b, const simd<T, Abi> &c) noexcept { return a * b + c; }
-- 
2.43.0


From bef6f0be86b2a1c8a21e3e16fd28daffca90e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 72/89] fix: remquo must align its buffer of quotients for the
 vector of quotients

---
 dpm/detail/generic/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 57f5080..3817147 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -61,7 +61,7 @@ namespace dpm
 	template<typename T, typename Abi, typename QAbi>
 	[[nodiscard]] constexpr simd<T, Abi> remquo(const simd<T, Abi> &a, const simd<T, Abi> &b, simd<int, QAbi> *out_quo) noexcept
 	{
-		alignas(simd<int, Abi>) std::array<int, simd_size_v<int, Abi>> quo = {};
+		alignas(simd<int, QAbi>) std::array<int, simd_size_v<T, Abi>> quo = {};
 		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 			result[i] = std::remquo(a[i], b[i], quo.data() + i);
-- 
2.43.0


From ec0e98d9428fd97efcaf051707dfe4962942ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 73/89] fix: promoting overloads must accept integer scalars

---
 dpm/detail/generic/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/math.hpp b/dpm/detail/generic/math.hpp
index 3817147..260fb69 100644
--- a/dpm/detail/generic/math.hpp
+++ b/dpm/detail/generic/math.hpp
@@ -228,7 +228,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmod(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmod(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmod(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc remainder
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -236,7 +236,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto remainder(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return remainder(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return remainder(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fmax
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -244,7 +244,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmax(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmax(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmax(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fmin
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -252,7 +252,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fmin(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fmin(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fmin(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc fdim
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -260,7 +260,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto fdim(const simd<T0, Abi> &a, T1 b) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return fdim(promoted_t{a}, detail::promote_t<T0, T1>{b});
+		return fdim(promoted_t{a}, static_cast<detail::promote_t<T0, T1>>(b));
 	}
 	/** @copydoc lerp
 	 * @note Arguments and return type are promoted to `double`, or `long double` if one of the arguments is `long double`. */
@@ -268,7 +268,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto lerp(const simd<T0, Abi> &a, const simd<T1, Abi> &b, T2 f) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1, T2>, simd<T0, Abi>>;
-		return lerp(promoted_t{a}, promoted_t{b}, detail::promote_t<T0, T1, T2>{f});
+		return lerp(promoted_t{a}, promoted_t{b}, static_cast<detail::promote_t<T0, T1, T2>>(f));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -427,7 +427,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto pow(const simd<T0, Abi> &x, T1 p) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return pow(promoted_t{x}, detail::promote_t<T0, T1>{p});
+		return pow(promoted_t{x}, static_cast<detail::promote_t<T0, T1>>(p));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
@@ -1185,7 +1185,7 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE auto copysign(const simd<T0, Abi> &x, T1 sign) noexcept
 	{
 		using promoted_t = rebind_simd_t<detail::promote_t<T0, T1>, simd<T0, Abi>>;
-		return copysign(promoted_t{x}, detail::promote_t<T0, T1>{sign});
+		return copysign(promoted_t{x}, static_cast<detail::promote_t<T0, T1>>(sign));
 	}
 
 	DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From 3acc45ee81320b006a287e0e5d02b4082476cd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 74/89] fix: generic minmax must align both of its buffers

---
 dpm/detail/generic/type.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 33f97ab..0aa9978 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -1183,29 +1183,29 @@ namespace dpm
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, const simd<T, Abi> &b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
 			const T x = a[i], y = b[i];
 			const auto [min, max] = std::minmax(x, y);
-			result[0][i] = min;
-			result[1][i] = max;
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 	/** Returns a pair of SIMD vectors of minimum and maximum elements of \a a and scalar \a b. */
 	template<typename T, typename Abi>
 	[[nodiscard]] constexpr std::pair<simd<T, Abi>, simd<T, Abi>> minmax(const simd<T, Abi> &a, T b) noexcept
 	{
-		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result[2] = {};
+		alignas(simd<T, Abi>) std::array<T, simd_size_v<T, Abi>> result_min = {}, result_max = {};
 		for (std::size_t i = 0; i < simd<T, Abi>::size(); ++i)
 		{
 			const T x = a[i];
 			const auto [min, max] = std::minmax(x, b);
-			result[0][i] = min;
-			result[1][i] = max;
+			result_min[i] = min;
+			result_max[i] = max;
 		}
-		return {simd<T, Abi>{result[0].data(), vector_aligned}, simd<T, Abi>{result[1].data(), vector_aligned}};
+		return {simd<T, Abi>{result_min.data(), vector_aligned}, simd<T, Abi>{result_max.data(), vector_aligned}};
 	}
 
 	/** Clamps elements of \a x between corresponding elements of \a min and \a max. */
-- 
2.43.0


From f2eb9e3c81f95469d24510b61b515d61edaf1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 75/89] fix: headers must compile when the extension namespace
 is not inline

---
 dpm/detail/generic/abi.hpp |  2 +-
 dpm/detail/x86/type.hpp    | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index f2985b4..0232323 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -101,7 +101,7 @@ namespace dpm
 			struct common_impl : common_impl<tag_sequence<>, Ts...> {};
 
 			template<std::size_t... Ns, std::size_t... As>
-			struct common_impl<tag_sequence<aligned_vector<Ns, As>...>> { using type = aligned_vector<std::max({Ns...}), std::max({As...})>; };
+			struct common_impl<tag_sequence<ext::aligned_vector<Ns, As>...>> { using type = ext::aligned_vector<std::max({Ns...}), std::max({As...})>; };
 
 			template<typename... Ts, typename U, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, U, Us...> : common_impl<tag_sequence<U, Ts...>, Us...> {};
diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 94f168f..5a0e948 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -245,13 +245,13 @@ namespace dpm
 		else
 		{
 			detail::x86_mask<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto m_data = to_native_data(m);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
+			auto result_data = ext::to_native_data(result);
+			const auto m_data = ext::to_native_data(m);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_mask<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
@@ -756,13 +756,13 @@ namespace dpm
 		else
 		{
 			detail::x86_simd<T, N, A> result = {};
-			auto result_data = to_native_data(result);
-			const auto a_data = to_native_data(a);
-			const auto b_data = to_native_data(b);
-			const auto m_data = to_native_data(m);
+			auto result_data = ext::to_native_data(result);
+			const auto a_data = ext::to_native_data(a);
+			const auto b_data = ext::to_native_data(b);
+			const auto m_data = ext::to_native_data(m);
 
-			const auto zero = detail::setzero<native_data_type_t<detail::x86_mask<T, N, A>>>();
-			for (std::size_t i = 0; i < native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
+			const auto zero = detail::setzero<ext::native_data_type_t<detail::x86_mask<T, N, A>>>();
+			for (std::size_t i = 0; i < ext::native_data_size_v<detail::x86_simd<T, N, A>>; ++i)
 			{
 				/* Since mask can be modified via to_native_data, need to make sure the entire mask is filled. */
 				const auto inv_mask = detail::mask_eq<T>(m_data[i], zero);
-- 
2.43.0


From 8f6aace9a0af8ed0e2bcdbfa1c0aa36b13b1aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 76/89] fix: cpuid leaf 7 must be queried with subleaf zero

---
 dpm/detail/x86/cpuid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 8b1a053..6f8f480 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -52,7 +52,7 @@ namespace dpm
 		{
 			__asm("xchgq  %%rbx,%q1\n\tcpuid\n\txchgq  %%rbx,%q1"
 					: "=a"(regs[0]), "=r" (regs[1]), "=c"(regs[2]), "=d"(regs[3])
-					: "0"(leaf));
+					: "0"(leaf), "2"(0));
 		}
 		static std::uint32_t DPM_FORCEINLINE platrofm_xcr0() noexcept
 		{
-- 
2.43.0


From e6c0caaebbf901ddad10643ed7341071760e9ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 77/89] fix: AVX extensions must not be reported when the
 system does not enable them

---
 dpm/detail/x86/cpuid.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpm/detail/x86/cpuid.cpp b/dpm/detail/x86/cpuid.cpp
index 6f8f480..3291535 100644
--- a/dpm/detail/x86/cpuid.cpp
+++ b/dpm/detail/x86/cpuid.cpp
@@ -122,6 +122,7 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, avx_bit, avx_mask);
 				detail::mask_bit(m_flags_l7_ebx, avx2_bit, avx_mask);
 				detail::mask_bit(m_flags_l1_ecx, fma_bit, avx_mask);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, avx_mask);
 
 #ifdef __APPLE__
 				const bool avx512_mask = get_sysctl("hw.optional.avx512f"sv);
@@ -218,6 +219,17 @@ namespace dpm
 				detail::mask_bit(m_flags_l1_ecx, ssse3_bit, ssse3_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_1_bit, sse4_1_mask);
 				detail::mask_bit(m_flags_l1_ecx, sse4_2_bit, sse4_2_mask);
+
+				/* State of the AVX registers is never preserved without XSAVE. */
+				detail::mask_bit(m_flags_l1_ecx, avx_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx2_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, fma_bit, false);
+				detail::mask_bit(m_flags_l1_ecx, f16c_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512f_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512cd_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512bw_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512dq_bit, false);
+				detail::mask_bit(m_flags_l7_ebx, avx512vl_bit, false);
 			}
 		}
 
-- 
2.43.0


From 01f150c55e93b6cf7d1c0dc7af068223016bfb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 78/89] fix: horizontal reductions of 64-bit integers must use
 an intrinsic every compiler has

---
 dpm/detail/x86/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/transform.hpp b/dpm/detail/x86/transform.hpp
index 5f292d6..f1bc82c 100644
--- a/dpm/detail/x86/transform.hpp
+++ b/dpm/detail/x86/transform.hpp
@@ -366,7 +366,7 @@ namespace dpm::detail
 	{
 		const auto vf = std::bit_cast<__m128d>(v);
 		const auto a = _mm_shuffle_pd(vf, vf, _MM_SHUFFLE2(1, 1));
-		return _mm_cvtsi128_si64x(op(v, std::bit_cast<__m128i>(a)));
+		return _mm_cvtsi128_si64(op(v, std::bit_cast<__m128i>(a)));
 	}
 #endif
 
-- 
2.43.0


From 8ca5c8d90cc64d238377ffcf0722c9867a5b7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 79/89] fix: emulated vector shifts must not shift by more than
 the size of an element

---
 dpm/detail/x86/bitwise.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dpm/detail/x86/bitwise.hpp b/dpm/detail/x86/bitwise.hpp
index 0cc2aa5..69f9aa7 100644
--- a/dpm/detail/x86/bitwise.hpp
+++ b/dpm/detail/x86/bitwise.hpp
@@ -49,10 +49,10 @@ namespace dpm::detail
 	{
 		auto b_data = reinterpret_cast<const alias_t<std::uint32_t> *>(&b);
 		auto a_data = reinterpret_cast<alias_t<std::uint32_t> *>(&a);
-		a_data[0] <<= b_data[0];
-		a_data[1] <<= b_data[1];
-		a_data[2] <<= b_data[2];
-		a_data[3] <<= b_data[3];
+		a_data[0] = b_data[0] < 32 ? a_data[0] << b_data[0] : 0;
+		a_data[1] = b_data[1] < 32 ? a_data[1] << b_data[1] : 0;
+		a_data[2] = b_data[2] < 32 ? a_data[2] << b_data[2] : 0;
+		a_data[3] = b_data[3] < 32 ? a_data[3] << b_data[3] : 0;
 		return a;
 	}
 	template<integral_of_size<4> T>
@@ -60,10 +60,10 @@ namespace dpm::detail
 	{
 		auto b_data = reinterpret_cast<const alias_t<std::uint32_t> *>(&b);
 		auto a_data = reinterpret_cast<alias_t<std::uint32_t> *>(&a);
-		a_data[0] >>= b_data[0];
-		a_data[1] >>= b_data[1];
-		a_data[2] >>= b_data[2];
-		a_data[3] >>= b_data[3];
+		a_data[0] = b_data[0] < 32 ? a_data[0] >> b_data[0] : 0;
+		a_data[1] = b_data[1] < 32 ? a_data[1] >> b_data[1] : 0;
+		a_data[2] = b_data[2] < 32 ? a_data[2] >> b_data[2] : 0;
+		a_data[3] = b_data[3] < 32 ? a_data[3] >> b_data[3] : 0;
 		return a;
 	}
 	template<integral_of_size<8> T>
-- 
2.43.0


From 0e2f976c16b6048c5b8c6f4050539ca44768feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 80/89] fix: native vectors must be constructible from memory
 in constant expressions

---
 dpm/detail/x86/type.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 5a0e948..6d6c06d 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -136,8 +136,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd_mask([&](std::size_t i) { return static_cast<value_type>(mem[i]); });
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -151,8 +154,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd_mask([&](std::size_t i) { return m[i] ? static_cast<value_type>(mem[i]) : std::as_const(*this)[i]; });
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
@@ -645,6 +651,12 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags, typename U = std::iter_value_t<I>>
 		constexpr void copy_from(I mem, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<U, T>
 		{
+			if (std::is_constant_evaluated())
+			{
+				*this = simd([&](std::size_t j) { return static_cast<T>(mem[j]); });
+				return;
+			}
+
 			std::size_t i = 0;
 			if constexpr (detail::aligned_tag<Flags, alignof(native_type)> && sizeof(U) == sizeof(value_type))
 				if (!std::is_constant_evaluated())
@@ -674,8 +686,11 @@ namespace dpm
 		template<std::contiguous_iterator I, typename Flags>
 		constexpr void copy_from(I mem, const mask_type &m, Flags) noexcept requires is_simd_flag_type_v<Flags> && std::is_convertible_v<std::iter_value_t<I>, value_type>
 		{
-			for (std::size_t i = 0; i < size(); ++i)
-				if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
+			if (std::is_constant_evaluated())
+				*this = simd([&](std::size_t i) { return m[i] ? static_cast<value_type>(mem[i]) : std::as_const(*this)[i]; });
+			else
+				for (std::size_t i = 0; i < size(); ++i)
+					if (m[i]) operator[](i) = static_cast<value_type>(mem[i]);
 		}
 		/** Copies the underlying elements to \a mem if the corresponding element of mask \a m evaluates to `true`. */
 		template<std::contiguous_iterator I, typename Flags>
-- 
2.43.0


From 39bac669a47eda82d043a7a0fcd7d07a0caab89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 81/89] fix: integer multiplication and shifts must be usable
 in constant expressions

---
 dpm/detail/x86/type.hpp | 168 ++++++++++++++++++++--------------------
 1 file changed, 84 insertions(+), 84 deletions(-)

diff --git a/dpm/detail/x86/type.hpp b/dpm/detail/x86/type.hpp
index 6d6c06d..954bf5a 100644
--- a/dpm/detail/x86/type.hpp
+++ b/dpm/detail/x86/type.hpp
@@ -940,45 +940,45 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		constexpr bool has_native = sizeof(T) == 2 || sizeof(T) == 4;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		constexpr bool has_native = sizeof(T) == 2;
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
-		}
+		if constexpr (has_native)
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::mul<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a * packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator*(const detail::x86_simd<T, N, A> &a, T b) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4)
+		constexpr bool has_native = sizeof(T) == 2 || sizeof(T) == 4;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2)
+		constexpr bool has_native = sizeof(T) == 2;
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
-			detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed * b);
-		}
+		if constexpr (has_native)
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto b_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(b);
+				detail::vectorize([b = b_vec](auto &res, auto a) { res = detail::mul<T>(a, b); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed * b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
@@ -1100,90 +1100,90 @@ namespace dpm
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 4 || sizeof(T) == 8;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 8;
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
-		}
+		if constexpr (has_native)
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftl<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a << packed_b);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool has_native = std::is_unsigned_v<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool has_native = std::is_unsigned_v<T> && (sizeof(T) == 4 || sizeof(T) == 8);
 #else
-		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 8))
+		constexpr bool has_native = std::is_unsigned_v<T> && (sizeof(T) == 8);
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
-			return result;
-		}
-		else
-		{
-			const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
-			return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
-		}
+		if constexpr (has_native)
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				detail::vectorize([](auto &res, auto a, auto b) { res = detail::bit_shiftr<T>(a, b); }, result, a, b);
+				return result;
+			}
+
+		const auto packed_a = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		const auto packed_b = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(b);
+		return static_cast<detail::x86_simd<T, N, A>>(packed_a >> packed_b);
 	}
 
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator<<(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8;
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 4 || sizeof(T) == 8;
 #else
-		if constexpr(!std::is_constant_evaluated() && sizeof(T) == 8)
+		constexpr bool has_native = sizeof(T) == 8;
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed << n);
-		}
+		if constexpr (has_native)
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftl<T>(a, n); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed << n);
 	}
 	template<std::integral T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> operator>>(const detail::x86_simd<T, N, A> &a, T n) noexcept
 	{
 #if defined(DPM_HAS_AVX512BW) && defined(DPM_HAS_AVX512LV)
-		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool has_native = std::is_unsigned_v<T> && (sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
 #elif defined(DPM_HAS_SSE4_1)
-		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 4 || sizeof(T) == 8))
+		constexpr bool has_native = std::is_unsigned_v<T> && (sizeof(T) == 4 || sizeof(T) == 8);
 #else
-		if constexpr(std::is_unsigned_v<T> && (!std::is_constant_evaluated() && sizeof(T) == 8))
+		constexpr bool has_native = std::is_unsigned_v<T> && (sizeof(T) == 8);
 #endif
-		{
-			detail::x86_simd<T, N, A> result = {};
-			const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
-			detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
-			return result;
-		}
-		else
-		{
-			const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
-			return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
-		}
+		if constexpr (has_native)
+			if (!std::is_constant_evaluated())
+			{
+				detail::x86_simd<T, N, A> result = {};
+				const auto n_vec = detail::fill<ext::native_data_type_t<detail::x86_simd<T, N, A>>>(n);
+				detail::vectorize([n = n_vec](auto &res, auto a) { res = detail::bit_shiftr<T>(a, n); }, result, a);
+				return result;
+			}
+
+		const auto packed = static_cast<simd<T, simd_abi::ext::packed_buffer<N>>>(a);
+		return static_cast<detail::x86_simd<T, N, A>>(packed >> n);
 	}
 
 	template<typename T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
-- 
2.43.0


From 7979a43bad097e46f5f8f9a848ef9aaee3837514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:47 +0000
Subject: [PATCH 82/89] fix: emulated shuffles must be usable in constant
 expressions

---
 dpm/detail/generic/type.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dpm/detail/generic/type.hpp b/dpm/detail/generic/type.hpp
index 0aa9978..0c89e22 100644
--- a/dpm/detail/generic/type.hpp
+++ b/dpm/detail/generic/type.hpp
@@ -278,6 +278,12 @@ namespace dpm
 				return result_t{x[I]};
 			else
 			{
+				if (std::is_constant_evaluated())
+				{
+					constexpr std::array<std::size_t, sizeof...(Is) + 1> indices = {I, Is...};
+					return result_t{[&](std::size_t i) { return x[indices[i]]; }};
+				}
+
 				result_t result = {};
 				detail::shuffle_impl<0, I, Is...>(x, result);
 				return result;
@@ -661,6 +667,12 @@ namespace dpm
 				return result_t{x[I]};
 			else
 			{
+				if (std::is_constant_evaluated())
+				{
+					constexpr std::array<std::size_t, sizeof...(Is) + 1> indices = {I, Is...};
+					return result_t{[&](std::size_t i) { return x[indices[i]]; }};
+				}
+
 				result_t result = {};
 				detail::shuffle_impl<0, I, Is...>(x, result);
 				return result;
-- 
2.43.0


From f9b5e9159bc7bba19d58f1d64358b09fa7a466bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 83/89] fix: common ABI tag of scalar tags must exist

---
 dpm/detail/generic/abi.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index 0232323..d3046aa 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -108,8 +108,8 @@ namespace dpm
 			template<typename... Ts, typename... Us>
 			struct common_impl<tag_sequence<Ts...>, scalar, Us...> : common_impl<tag_sequence<Ts...>, Us...> {};
 
-			template<std::same_as<scalar>... Ts>
-			struct common_impl<tag_sequence<>, Ts...> { using type = scalar; };
+			template<>
+			struct common_impl<tag_sequence<>> { using type = scalar; };
 		}
 
 		DPM_DECLARE_EXT_NAMESPACE
-- 
2.43.0


From b1f124bea75281c411e47505a9afa93bbb349e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:50 +0000
Subject: [PATCH 84/89] fix: element types which are not vectorized must have a
 native and a compatible tag

---
 dpm/detail/generic/abi.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dpm/detail/generic/abi.hpp b/dpm/detail/generic/abi.hpp
index d3046aa..d127501 100644
--- a/dpm/detail/generic/abi.hpp
+++ b/dpm/detail/generic/abi.hpp
@@ -18,6 +18,15 @@ namespace dpm
 			constexpr static std::size_t size = 1;
 		};
 
+		namespace detail
+		{
+			/* Element types which are not vectorized use a scalar. */
+			template<typename>
+			struct select_compatible { using type = scalar; };
+			template<typename>
+			struct select_native { using type = scalar; };
+		}
+
 		/** @brief ABI tag used to select an implementation-defined SIMD vector type guaranteeing ABI compatibility between
 		 * translation units built for the current target architecture. */
 		template<typename T>
-- 
2.43.0


From 1f3f5e6d4a267d05dfb6a46a650c1fa9e57d5a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:19 +0000
Subject: [PATCH 85/89] fix: library sources must build for architectures
 without SIMD support

---
 dpm/detail/x86/exp.hpp     | 4 ++++
 dpm/detail/x86/fmanip.hpp  | 6 +++++-
 dpm/detail/x86/mbase.hpp   | 6 +++++-
 dpm/detail/x86/pow.hpp     | 6 +++++-
 dpm/detail/x86/utility.hpp | 6 +++++-
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/dpm/detail/x86/exp.hpp b/dpm/detail/x86/exp.hpp
index 21378c9..5bb04f5 100644
--- a/dpm/detail/x86/exp.hpp
+++ b/dpm/detail/x86/exp.hpp
@@ -6,6 +6,8 @@
 
 #include "mbase.hpp"
 
+#if defined(DPM_ARCH_X86) && defined(DPM_HAS_SSE)
+
 #ifndef DPM_USE_SVML
 
 #include "transform.hpp"
@@ -317,3 +319,5 @@ namespace dpm
 	}
 #endif
 }
+
+#endif
diff --git a/dpm/detail/x86/fmanip.hpp b/dpm/detail/x86/fmanip.hpp
index 8849444..6a27f3b 100644
--- a/dpm/detail/x86/fmanip.hpp
+++ b/dpm/detail/x86/fmanip.hpp
@@ -7,6 +7,8 @@
 #include "../fconst.hpp"
 #include "mbase.hpp"
 
+#if defined(DPM_ARCH_X86) && defined(DPM_HAS_SSE)
+
 namespace dpm
 {
 	namespace detail
@@ -423,4 +425,6 @@ namespace dpm
 			return result;
 		}
 	}
-}
\ No newline at end of file
+}
+
+#endif
diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index fbcd8cc..9ebdd6d 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -7,6 +7,8 @@
 #include "math_fwd.hpp"
 #include "type.hpp"
 
+#if defined(DPM_ARCH_X86) && defined(DPM_HAS_SSE)
+
 namespace dpm
 {
 	namespace detail
@@ -518,4 +520,6 @@ namespace dpm
 	/** Returns a result of fused multiply-add operation on elements of \a a, \a b, and \a c. Equivalent to `a * b + c`. */
 	template<std::floating_point T, std::size_t N, std::size_t A> requires detail::x86_overload_any<T, N, A>
 	[[nodiscard]] constexpr DPM_FORCEINLINE detail::x86_simd<T, N, A> fma(const detail::x86_simd<T, N, A> &a, const detail::x86_simd<T, N, A> &b, const detail::x86_simd<T, N, A> &c) noexcept { return ext::fmadd(a, b, c); }
-}
\ No newline at end of file
+}
+
+#endif
diff --git a/dpm/detail/x86/pow.hpp b/dpm/detail/x86/pow.hpp
index 33f906c..71b448a 100644
--- a/dpm/detail/x86/pow.hpp
+++ b/dpm/detail/x86/pow.hpp
@@ -6,6 +6,8 @@
 
 #include "mbase.hpp"
 
+#if defined(DPM_ARCH_X86) && defined(DPM_HAS_SSE)
+
 namespace dpm
 {
 	namespace detail
@@ -177,4 +179,6 @@ namespace dpm
 			}
 		}
 	}
-}
\ No newline at end of file
+}
+
+#endif
diff --git a/dpm/detail/x86/utility.hpp b/dpm/detail/x86/utility.hpp
index 81f9a33..665ae5a 100644
--- a/dpm/detail/x86/utility.hpp
+++ b/dpm/detail/x86/utility.hpp
@@ -7,6 +7,8 @@
 #include "type_fwd.hpp"
 #include "cvt.hpp"
 
+#if defined(DPM_ARCH_X86) && defined(DPM_HAS_SSE)
+
 namespace dpm::detail
 {
 	/* In certain cases, CLang has been generating cvtsi2ss + broadcast instructions for setzero. Use manual xor([xy]mm, [xy]mm) to avoid that. */
@@ -326,4 +328,6 @@ namespace dpm::detail
 	template<typename To, typename From, typename VTo>
 	DPM_FORCEINLINE void native_vec_cast(VTo &dst, const From *src) noexcept { native_vec_cast<To, From>(dst, *reinterpret_cast<const select_vector_t<From, sizeof(VTo)> *>(src)); }
 
-}
\ No newline at end of file
+}
+
+#endif
-- 
2.43.0


From 1d53512eb66179652b56c23e94636b1681787ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 86/89] fix: headers must compile with AVX512DQ and AVX512VL

---
 dpm/detail/x86/round.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dpm/detail/x86/round.hpp b/dpm/detail/x86/round.hpp
index a19f26a..058984c 100644
--- a/dpm/detail/x86/round.hpp
+++ b/dpm/detail/x86/round.hpp
@@ -131,8 +131,8 @@ namespace dpm
 
 			const auto near2 = _mm_set1_ps(std::bit_cast<float>(0x3fffffff));
 			const auto rem = _mm_mul_ps(_mm_sub_ps(x, tx), near2);
-			dst[1] = _mm_add_epi64(th, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
-			dst[0] = _mm_add_epi64(tl, _mm_cvttps_epi64(rem));
+			dst[1] = _mm_add_epi64(ih, _mm_cvttps_epi64(_mm_movehl_ps(rem, rem)));
+			dst[0] = _mm_add_epi64(il, _mm_cvttps_epi64(rem));
 #else
 			__m128i tmp;
 			round<std::int32_t>(x, &tmp);
@@ -288,7 +288,7 @@ namespace dpm
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			dst[1] = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			dst[0] = _mm256_cvttps_epi64(x);
+			dst[0] = _mm256_cvttps_epi64(_mm256_castps256_ps128(x));
 #else
 			const auto tmp = cvtt<std::int32_t, float>(x);
 			const auto sign = _mm256_srai_epi32(tmp, 31);
@@ -317,15 +317,15 @@ namespace dpm
 		{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
 			const auto ih = _mm256_cvttps_epi64(_mm256_extractf128_ps(x, 1));
-			const auto il = _mm256_cvttps_epi64(x);
+			const auto il = _mm256_cvttps_epi64(_mm256_castps256_ps128(x));
 			const auto th = _mm256_cvtepi64_ps(ih);
 			const auto tl = _mm256_cvtepi64_ps(il);
-			const auto tx = _mm256_permute2f128_ps(tl, th, 0x20);
+			const auto tx = _mm256_set_m128(th, tl);
 
 			const auto near2 = _mm256_set1_ps(std::bit_cast<float>(0x3fffffff));
 			const auto rem = _mm256_mul_ps(_mm256_sub_ps(x, tx), near2);
-			dst[1] = _mm256_add_epi64(th, _mm256_cvttps_epi64(_mm256_permute2f128_ps(rem, rem, 0x11)));
-			dst[0] = _mm256_add_epi64(tl, _mm256_cvttps_epi64(rem));
+			dst[1] = _mm256_add_epi64(ih, _mm256_cvttps_epi64(_mm256_extractf128_ps(rem, 1)));
+			dst[0] = _mm256_add_epi64(il, _mm256_cvttps_epi64(_mm256_castps256_ps128(rem)));
 #else
 			__m256i tmp;
 			round<std::int32_t>(x, &tmp);
-- 
2.43.0


From d952222c2bab63ca6caca24fe656d9fd9e6f74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:59 +0000
Subject: [PATCH 87/89] fix: 64-bit integer comparison requires SSE4.2

---
 dpm/detail/x86/cmp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dpm/detail/x86/cmp.hpp b/dpm/detail/x86/cmp.hpp
index 017dbe1..6ccc5aa 100644
--- a/dpm/detail/x86/cmp.hpp
+++ b/dpm/detail/x86/cmp.hpp
@@ -90,7 +90,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt(__m128i a, __m128i b) noexcept
 	{
-#ifdef DPM_HAS_SSE4_1
+#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 #else
 		const auto tmp = _mm_or_si128(_mm_and_si128(_mm_cmpeq_epi32(a, b), _mm_sub_epi64(b, a)), _mm_cmpgt_epi32(a, b));
@@ -102,7 +102,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_l32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
@@ -113,7 +113,7 @@ namespace dpm::detail
 	template<signed_integral_of_size<8> T>
 	[[nodiscard]] DPM_FORCEINLINE __m128i cmp_gt_h32(__m128i a, __m128i b) noexcept
 	{
-	#ifdef DPM_HAS_SSE4_1
+	#ifdef DPM_HAS_SSE4_2
 		return _mm_cmpgt_epi64(a, b);
 	#else
 		const auto cmp32 = _mm_cmpgt_epi32(a, b);
-- 
2.43.0


From 319851374ec68000e30ce463576be5a9fd74581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:35 +0000
Subject: [PATCH 88/89] fix: AVX512DQ conversion of double to 64-bit integers
 must truncate

---
 dpm/detail/x86/cvt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpm/detail/x86/cvt.hpp b/dpm/detail/x86/cvt.hpp
index 8fdbb03..67ac9f3 100644
--- a/dpm/detail/x86/cvt.hpp
+++ b/dpm/detail/x86/cvt.hpp
@@ -178,7 +178,7 @@ namespace dpm::detail
 	[[nodiscard]] DPM_FORCEINLINE __m128i cvtt(__m128d x) noexcept
 	{
 #if defined(DPM_HAS_AVX512DQ) && defined(DPM_HAS_AVX512VL)
-		return _mm_cvtpd_epi64(x);
+		return _mm_cvttpd_epi64(x);
 #else
 		/* Truncate, then convert. */
 		return cvt_f64_i64_sse(trunc_sse2(x));
-- 
2.43.0


From d5e8800c93120924d7e8f1cef32442729021f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:01 +0000
Subject: [PATCH 89/89] fix: emulated fnmsub must give zeros the sign of -(a *
 b) - c

---
 dpm/detail/x86/mbase.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/dpm/detail/x86/mbase.hpp b/dpm/detail/x86/mbase.hpp
index 9ebdd6d..fe70703 100644
--- a/dpm/detail/x86/mbase.hpp
+++ b/dpm/detail/x86/mbase.hpp
@@ -27,8 +27,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128 fnmsub_sse(__m128 a, __m128 b, __m128 c) noexcept
 		{
-			const auto zero = setzero<__m128>();
-			return _mm_sub_ps(zero, fmadd_sse(a, b, c));
+			return _mm_sub_ps(_mm_xor_ps(_mm_mul_ps(a, b), _mm_set1_ps(-0.0f)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128 fmadd(__m128 a, __m128 b, __m128 c) noexcept
@@ -84,9 +83,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m128d fnmsub_sse(__m128d a, __m128d b, __m128d c) noexcept
 		{
-			const auto tmp = _mm_undefined_pd();
-			const auto zero = _mm_xor_pd(tmp, tmp);
-			return _mm_sub_pd(zero, fmadd_sse(a, b, c));
+			return _mm_sub_pd(_mm_xor_pd(_mm_mul_pd(a, b), _mm_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m128d fmadd(__m128d a, __m128d b, __m128d c) noexcept
@@ -162,9 +159,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256 fnmsub_avx(__m256 a, __m256 b, __m256 c) noexcept
 		{
-			const auto tmp = _mm256_undefined_ps();
-			const auto zero = _mm256_xor_ps(tmp, tmp);
-			return _mm256_sub_ps(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_ps(_mm256_xor_ps(_mm256_mul_ps(a, b), _mm256_set1_ps(-0.0f)), c);
 		}
 
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fmadd_avx(__m256d a, __m256d b, __m256d c) noexcept
@@ -181,9 +176,7 @@ namespace dpm
 		}
 		[[maybe_unused]] [[nodiscard]] DPM_FORCEINLINE __m256d fnmsub_avx(__m256d a, __m256d b, __m256d c) noexcept
 		{
-			const auto tmp = _mm256_undefined_pd();
-			const auto zero = _mm256_xor_pd(tmp, tmp);
-			return _mm256_sub_pd(zero, fmadd_avx(a, b, c));
+			return _mm256_sub_pd(_mm256_xor_pd(_mm256_mul_pd(a, b), _mm256_set1_pd(-0.0)), c);
 		}
 
 		[[nodiscard]] DPM_FORCEINLINE __m256 fmadd(__m256 a, __m256 b, __m256 c) noexcept
-- 
2.43.0

