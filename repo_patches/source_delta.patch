From bfd63c38ca45104fdd24dbb243a1e9f8d05742ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 1/8] fix: order() and sse_enabled() dereferenced a null
 pointer for ratio 1

---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..2a84d60 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,7 +255,7 @@ public:
   uint
   order() const
   {
-    return impl_x2->order(); // FIXME
+    return impl_x2 ? impl_x2->order() : 0; // FIXME
   }
   /**
    * Return the delay introduced by the resampler. This delay is guaranteed to
@@ -312,7 +312,7 @@ public:
   bool
   sse_enabled() const
   {
-    return impl_x2->sse_enabled();
+    return impl_x2 ? impl_x2->sse_enabled() : false;
   }
 protected:
   /* Creates implementation from filter coefficients and Filter implementation class
-- 
2.43.0


From 8bd69f8b567ae948fe7e4a34eeeec7fe9f101bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 2/8] fix: zero-length blocks aborted (or read and wrote one
 sample) for factor 2 IIR filters

---
 include/pandaresampler/pandaresampler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..b2a9eda 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1086,7 +1086,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir requires at least one sample */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1123,7 +1124,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir requires at least one sample */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
@@ -1163,7 +1165,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir requires at least one sample */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1200,7 +1203,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir requires at least one sample */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
-- 
2.43.0


From 76490a0a4321fffca6274f984538b2b524e5d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 3/8] fix: SSE IIR downsampler read two floats beyond the end
 of the input block

---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..0b8c781 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
-- 
2.43.0


From 03cff44b2c5159aa63a1392263a993bad19d5922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 4/8] fix: AlignedArray used a null pointer if the memory
 allocation failed

---
 include/pandaresampler.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 2a84d60..c7d6cf9 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -4,6 +4,7 @@
 
 #include <vector>
 #include <memory>
+#include <new>
 #include <cstdio>
 #include <cstdlib>
 
@@ -55,7 +56,15 @@ class AlignedArray {
      */
     const size_t cache_line_size = 64;
 
-    unaligned_mem = (unsigned char *) malloc (n_elements * sizeof (T) + 2 * (cache_line_size - 1));
+    const size_t extra_bytes = 2 * (cache_line_size - 1);
+
+    if (n_elements > (size_t (-1) - extra_bytes) / sizeof (T))
+      throw std::bad_alloc();
+
+    unaligned_mem = (unsigned char *) malloc (n_elements * sizeof (T) + extra_bytes);
+    if (!unaligned_mem)
+      throw std::bad_alloc();
+
     unsigned char *aligned_mem = unaligned_mem;
     if ((ptrdiff_t) aligned_mem % cache_line_size)
       aligned_mem += cache_line_size - (ptrdiff_t) aligned_mem % cache_line_size;
-- 
2.43.0


From 34f435934ff2435841ba2dbee725ef8580bc6ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 5/8] fix: AlignedArray leaked memory and elements if an
 element constructor threw

---
 include/pandaresampler.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7d6cf9..35221c4 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -76,8 +76,20 @@ public:
     n_elements (n_elements)
   {
     allocate_aligned_data();
-    for (size_t i = 0; i < n_elements; i++)
-      new (data + i) T();
+
+    size_t i = 0;
+    try
+      {
+        for (; i < n_elements; i++)
+          new (data + i) T();
+      }
+    catch (...)
+      {
+        while (i)
+          data[--i].~T();
+        free (unaligned_mem);
+        throw;
+      }
   }
   AlignedArray (const std::vector<T>& elements) :
     AlignedArray (elements.size())
-- 
2.43.0


From bbfb6415d2ccc3ff279c400c5b3412381c427a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 6/8] fix: copying an AlignedArray freed its memory twice

---
 include/pandaresampler.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 35221c4..61a93c4 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -96,6 +96,8 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  AlignedArray (const AlignedArray&) = delete;
+  AlignedArray& operator= (const AlignedArray&) = delete;
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From 85c3ff876fd5f79b9da6c934d6b6fe4b5df2ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 7/8] fix: SSE IIR filters with odd number of coefficients
 never forgot rounding errors

---
 .../pandaresampler/hiir/Downsampler2xSse.h    |  3 ++
 .../pandaresampler/hiir/Downsampler2xSse.hpp  | 35 ++++++++++++++++---
 include/pandaresampler/hiir/Upsampler2xSse.h  |  3 ++
 .../pandaresampler/hiir/Upsampler2xSse.hpp    | 33 ++++++++++++++---
 4 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.h b/include/pandaresampler/hiir/Downsampler2xSse.h
index 7935fe5..35b4642 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.h
+++ b/include/pandaresampler/hiir/Downsampler2xSse.h
@@ -102,6 +102,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE void
+	               bypass_last_stage (__m128 &x) const;
+
 
 
 /*\\\ FORBIDDEN MEMBER FUNCTIONS \\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\*/
diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index 0b8c781..7fc95ca 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -53,11 +53,6 @@ Downsampler2xSse <NC>::Downsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
-
 	clear_buffers ();
 }
 
@@ -111,6 +106,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	bypass_last_stage (x);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -147,6 +143,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	{
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		bypass_last_stage (x);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -182,6 +179,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 
 	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	bypass_last_stage (x);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -230,6 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	{
 		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		bypass_last_stage (x);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -268,6 +267,32 @@ void	Downsampler2xSse <NC>::clear_buffers ()
 
 
 
+/*
+==============================================================================
+Name: bypass_last_stage
+Description:
+	With an odd number of coefficients, there is none left for lane 0 in the
+	last stage: replaces the output of that lane by its input.
+	(An all-pass section with a coefficient of 1 would be transparent too, but
+	its pole on the unit circle keeps any rounding error forever.)
+Input/output parameters:
+	- x: output of the last stage
+Throws: Nothing
+==============================================================================
+*/
+
+template <int NC>
+void	Downsampler2xSse <NC>::bypass_last_stage (__m128 &x) const
+{
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// The memory of a stage holds the input of the next one
+		x = _mm_move_ss (x, _mm_load_ps (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.h b/include/pandaresampler/hiir/Upsampler2xSse.h
index 8b026f1..53bbc65 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.h
+++ b/include/pandaresampler/hiir/Upsampler2xSse.h
@@ -100,6 +100,9 @@ private:
 
 	Filter         _filter;		// Should be the first member (thus easier to align)
 
+	hiir_FORCEINLINE void
+	               bypass_last_stage (__m128 &x) const;
+
 
 
 /*\\\ FORBIDDEN MEMBER FUNCTIONS \\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\\*/
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..1816080 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -56,11 +56,6 @@ Upsampler2xSse <NC>::Upsampler2xSse ()
 	{
 		_mm_store_ps (_filter [i]._coef, _mm_setzero_ps ());
 	}
-	if (NBR_COEFS < _nbr_stages * 2)
-	{
-		_filter [_nbr_stages]._coef [0] = 1;
-	}
-
 	clear_buffers ();
 }
 
@@ -114,6 +109,7 @@ void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float inpu
 {
 	auto           x = _mm_set1_ps (input);
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	bypass_last_stage (x);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -151,6 +147,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	bypass_last_stage (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
@@ -188,6 +185,32 @@ void	Upsampler2xSse <NC>::clear_buffers ()
 
 
 
+/*
+==============================================================================
+Name: bypass_last_stage
+Description:
+	With an odd number of coefficients, there is none left for lane 0 in the
+	last stage: replaces the output of that lane by its input.
+	(An all-pass section with a coefficient of 1 would be transparent too, but
+	its pole on the unit circle keeps any rounding error forever.)
+Input/output parameters:
+	- x: output of the last stage
+Throws: Nothing
+==============================================================================
+*/
+
+template <int NC>
+void	Upsampler2xSse <NC>::bypass_last_stage (__m128 &x) const
+{
+	if (NBR_COEFS < _nbr_stages * 2)
+	{
+		// The memory of a stage holds the input of the next one
+		x = _mm_move_ss (x, _mm_load_ps (_filter [_nbr_stages - 1]._mem));
+	}
+}
+
+
+
 }  // namespace hiir
 
 }  // namespace PandaResampler
-- 
2.43.0


From 0c6d1617be90d7edab21da24f6ec02365266b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:54 +0000
Subject: [PATCH 8/8] fix: index upsampled output with size_t in the FIR
 upsampler

For blocks of 2^31 or more input samples, 2 * i exceeded the range of uint and
the second half of the output was written over the start of the buffer; the
loop condition i + 6 < n could also wrap.
---
 include/pandaresampler/pandaresampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index b2a9eda..11708f7 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -388,7 +388,7 @@ protected:
                          uint         n_input_samples,
 			 float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* 2 * i can exceed the range of uint */
     if (USE_SSE)
       {
         /* (i + 6) -> need to take into account that the filter needs to access
@@ -412,7 +412,7 @@ protected:
                            uint         n_input_samples,
 			   float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* 2 * i can exceed the range of uint */
     if (USE_SSE)
       {
 	while ((reinterpret_cast<ptrdiff_t> (&input[i]) & 15) && i < n_input_samples)
-- 
2.43.0

