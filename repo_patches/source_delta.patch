From 4a6144fcfead9a2f4bbe2b3b163431353be7addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:45 +0000
Subject: [PATCH 01/79] fix: keep one FFTW plan per kind of transform in an FFT
 engine

An engine cached the plan of the first transform it ran and executed every
other kind of transform with it (wrong results, writes outside the buffers).
---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 114 ++++++++++--------
 1 file changed, 66 insertions(+), 48 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index f015ea7..6524081 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -61,64 +61,66 @@ namespace edsp { inline namespace spectral {
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
         ~fftw_impl() {
-            if (!meta::is_null(plan_)) {
-                fftwf_destroy_plan(plan_);
+            for (auto plan : {forward_, backward_, real_forward_, real_backward_, hartley_, cosine_, inverse_cosine_}) {
+                if (!meta::is_null(plan)) {
+                    fftwf_destroy_plan(plan);
+                }
             }
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
-                plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
+            if (meta::is_null(forward_))
+                forward_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
-            fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_dft(forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
+            if (meta::is_null(backward_)) {
+                backward_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_dft(backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
+            if (meta::is_null(real_forward_)) {
+                real_forward_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftwf_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_dft_r2c(real_forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
+            if (meta::is_null(real_backward_)) {
+                real_backward_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftwf_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_dft_c2r(real_backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
+            if (meta::is_null(hartley_)) {
+                hartley_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_r2r(hartley_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
+            if (meta::is_null(cosine_)) {
+                cosine_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_r2r(cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
+            if (meta::is_null(inverse_cosine_)) {
+                inverse_cosine_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftwf_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftwf_execute_r2r(inverse_cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft_scale(value_type* dst) const {
@@ -143,7 +145,14 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
-        ::fftwf_plan plan_{nullptr};
+        // one plan per kind of transform: a plan can only execute the transform it was created for
+        ::fftwf_plan forward_{nullptr};
+        ::fftwf_plan backward_{nullptr};
+        ::fftwf_plan real_forward_{nullptr};
+        ::fftwf_plan real_backward_{nullptr};
+        ::fftwf_plan hartley_{nullptr};
+        ::fftwf_plan cosine_{nullptr};
+        ::fftwf_plan inverse_cosine_{nullptr};
         size_type nfft_;
     };
 
@@ -156,61 +165,63 @@ namespace edsp { inline namespace spectral {
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
         ~fftw_impl() {
-            if (!meta::is_null(plan_)) {
-                fftw_destroy_plan(plan_);
+            for (auto plan : {forward_, backward_, real_forward_, real_backward_, hartley_, cosine_, inverse_cosine_}) {
+                if (!meta::is_null(plan)) {
+                    fftw_destroy_plan(plan);
+                }
             }
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
-                plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
+            if (meta::is_null(forward_))
+                forward_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
-            fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_dft(forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
-                plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
+            if (meta::is_null(backward_))
+                backward_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
-            fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_dft(backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
-                plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
+            if (meta::is_null(real_forward_))
+                real_forward_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
-            fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_dft_r2c(real_forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_))
-                plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
+            if (meta::is_null(real_backward_))
+                real_backward_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
-            fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_dft_c2r(real_backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
+            if (meta::is_null(hartley_)) {
+                hartley_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_r2r(hartley_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
+            if (meta::is_null(cosine_)) {
+                cosine_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_r2r(cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
+            if (meta::is_null(inverse_cosine_)) {
+                inverse_cosine_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
-            fftw_execute_r2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
+            fftw_execute_r2r(inverse_cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft_scale(value_type* dst) const {
@@ -235,7 +246,14 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
-        ::fftw_plan plan_{nullptr};
+        // one plan per kind of transform: a plan can only execute the transform it was created for
+        ::fftw_plan forward_{nullptr};
+        ::fftw_plan backward_{nullptr};
+        ::fftw_plan real_forward_{nullptr};
+        ::fftw_plan real_backward_{nullptr};
+        ::fftw_plan hartley_{nullptr};
+        ::fftw_plan cosine_{nullptr};
+        ::fftw_plan inverse_cosine_{nullptr};
         size_type nfft_;
     };
 }} // namespace edsp::spectral
-- 
2.43.0


From d94bca44b00c7d8de7e883d4ebeaa672d5de9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:45 +0000
Subject: [PATCH 02/79] fix: plan transforms for buffers of any alignment

The cached plan is executed with other buffers than it was planned for; FFTW
requires the same alignment for those unless FFTW_UNALIGNED is given (crash).
---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 6524081..8402f4a 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -71,14 +71,14 @@ namespace edsp { inline namespace spectral {
         inline void dft(const complex_type* src, complex_type* dst) {
             if (meta::is_null(forward_))
                 forward_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             fftwf_execute_dft(forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
             if (meta::is_null(backward_)) {
                 backward_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftwf_execute_dft(backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -86,7 +86,7 @@ namespace edsp { inline namespace spectral {
         inline void dft(const value_type* src, complex_type* dst) {
             if (meta::is_null(real_forward_)) {
                 real_forward_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftwf_execute_dft_r2c(real_forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -94,7 +94,7 @@ namespace edsp { inline namespace spectral {
         inline void idft(const complex_type* src, value_type* dst) {
             if (meta::is_null(real_backward_)) {
                 real_backward_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftwf_execute_dft_c2r(real_backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -102,7 +102,7 @@ namespace edsp { inline namespace spectral {
         inline void dht(const value_type* src, value_type* dst) {
             if (meta::is_null(hartley_)) {
                 hartley_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftwf_execute_r2r(hartley_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -110,7 +110,7 @@ namespace edsp { inline namespace spectral {
         inline void dct(const value_type* src, value_type* dst) {
             if (meta::is_null(cosine_)) {
                 cosine_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftwf_execute_r2r(cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -118,7 +118,7 @@ namespace edsp { inline namespace spectral {
         inline void idct(const value_type* src, value_type* dst) {
             if (meta::is_null(inverse_cosine_)) {
                 inverse_cosine_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
-                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftwf_execute_r2r(inverse_cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -175,35 +175,35 @@ namespace edsp { inline namespace spectral {
         inline void dft(const complex_type* src, complex_type* dst) {
             if (meta::is_null(forward_))
                 forward_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             fftw_execute_dft(forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
             if (meta::is_null(backward_))
                 backward_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             fftw_execute_dft(backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
             if (meta::is_null(real_forward_))
                 real_forward_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                             FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                             FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             fftw_execute_dft_r2c(real_forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
             if (meta::is_null(real_backward_))
                 real_backward_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
-                                             FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                             FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             fftw_execute_dft_c2r(real_backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
             if (meta::is_null(hartley_)) {
                 hartley_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftw_execute_r2r(hartley_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -211,7 +211,7 @@ namespace edsp { inline namespace spectral {
         inline void dct(const value_type* src, value_type* dst) {
             if (meta::is_null(cosine_)) {
                 cosine_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftw_execute_r2r(cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
@@ -219,7 +219,7 @@ namespace edsp { inline namespace spectral {
         inline void idct(const value_type* src, value_type* dst) {
             if (meta::is_null(inverse_cosine_)) {
                 inverse_cosine_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
-                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+                                         FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
             fftw_execute_r2r(inverse_cosine_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
-- 
2.43.0


From f846333e448d7b9221c9b2018d662731457e8916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 03/79] fix: serialise the creation and destruction of FFTW
 plans

The FFTW planner is not reentrant: transforms of independent data running in
different threads corrupted its state and crashed.
---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 8402f4a..1c1138c 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -32,6 +32,7 @@
 #include <complex>
 #include <fftw3.h>
 #include <algorithm>
+#include <mutex>
 
 namespace edsp { inline namespace spectral {
     namespace internal {
@@ -47,6 +48,11 @@ namespace edsp { inline namespace spectral {
         inline fftw_complex* fftw_cast(const std::complex<double>* p) {
             return const_cast<fftw_complex*>(reinterpret_cast<const fftw_complex*>(p));
         }
+        // The FFTW planner (creation and destruction of plans) is not reentrant, only the execution of a plan is.
+        inline std::mutex& fftw_planner_mutex() {
+            static std::mutex mutex;
+            return mutex;
+        }
     } // namespace internal
 
     template <typename T>
@@ -61,6 +67,7 @@ namespace edsp { inline namespace spectral {
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
         ~fftw_impl() {
+            std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
             for (auto plan : {forward_, backward_, real_forward_, real_backward_, hartley_, cosine_, inverse_cosine_}) {
                 if (!meta::is_null(plan)) {
                     fftwf_destroy_plan(plan);
@@ -69,14 +76,17 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(forward_))
+            if (meta::is_null(forward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 forward_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
+            }
             fftwf_execute_dft(forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
             if (meta::is_null(backward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 backward_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -85,6 +95,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dft(const value_type* src, complex_type* dst) {
             if (meta::is_null(real_forward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 real_forward_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -93,6 +104,7 @@ namespace edsp { inline namespace spectral {
 
         inline void idft(const complex_type* src, value_type* dst) {
             if (meta::is_null(real_backward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 real_backward_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -101,6 +113,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dht(const value_type* src, value_type* dst) {
             if (meta::is_null(hartley_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 hartley_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -109,6 +122,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dct(const value_type* src, value_type* dst) {
             if (meta::is_null(cosine_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 cosine_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -117,6 +131,7 @@ namespace edsp { inline namespace spectral {
 
         inline void idct(const value_type* src, value_type* dst) {
             if (meta::is_null(inverse_cosine_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 inverse_cosine_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -165,6 +180,7 @@ namespace edsp { inline namespace spectral {
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
         ~fftw_impl() {
+            std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
             for (auto plan : {forward_, backward_, real_forward_, real_backward_, hartley_, cosine_, inverse_cosine_}) {
                 if (!meta::is_null(plan)) {
                     fftw_destroy_plan(plan);
@@ -173,35 +189,44 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(forward_))
+            if (meta::is_null(forward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 forward_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
+            }
             fftw_execute_dft(forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(backward_))
+            if (meta::is_null(backward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 backward_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
+            }
             fftw_execute_dft(backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(real_forward_))
+            if (meta::is_null(real_forward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 real_forward_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
+            }
             fftw_execute_dft_r2c(real_forward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(real_backward_))
+            if (meta::is_null(real_backward_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 real_backward_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
+            }
             fftw_execute_dft_c2r(real_backward_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
             if (meta::is_null(hartley_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 hartley_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -210,6 +235,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dct(const value_type* src, value_type* dst) {
             if (meta::is_null(cosine_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 cosine_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
@@ -218,6 +244,7 @@ namespace edsp { inline namespace spectral {
 
         inline void idct(const value_type* src, value_type* dst) {
             if (meta::is_null(inverse_cosine_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
                 inverse_cosine_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT | FFTW_UNALIGNED);
             }
-- 
2.43.0


From 132dd3d4cf69b3d723c9445553a3c7145b7d213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 04/79] fix: do not allow an FFT engine to be copied

The copy shared the FFTW plans of the original and destroyed them again.
---
 include/edsp/spectral/internal/libfftw_impl.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 1c1138c..9b6d141 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -66,6 +66,10 @@ namespace edsp { inline namespace spectral {
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
+        // the plans are owned: a copy would destroy them twice
+        fftw_impl(const fftw_impl&) = delete;
+        fftw_impl& operator=(const fftw_impl&) = delete;
+
         ~fftw_impl() {
             std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
             for (auto plan : {forward_, backward_, real_forward_, real_backward_, hartley_, cosine_, inverse_cosine_}) {
@@ -179,6 +183,10 @@ namespace edsp { inline namespace spectral {
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
+        // the plans are owned: a copy would destroy them twice
+        fftw_impl(const fftw_impl&) = delete;
+        fftw_impl& operator=(const fftw_impl&) = delete;
+
         ~fftw_impl() {
             std::lock_guard<std::mutex> lock(internal::fftw_planner_mutex());
             for (auto plan : {forward_, backward_, real_forward_, real_backward_, hartley_, cosine_, inverse_cosine_}) {
-- 
2.43.0


From eac97e93529e22eb9dbdbaba4a0315a4d57db588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:44 +0000
Subject: [PATCH 05/79] fix: scale of the biased and unbiased correlation
 estimates

The biased estimate was divided by twice the number of samples, and the
unbiased one was not scaled at all.
---
 include/edsp/spectral/correlation.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index b67dfeb..4a49c96 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -75,9 +75,14 @@ namespace edsp { inline namespace spectral {
             [](const std::complex<value_type>& val) -> std::complex<value_type> { return val * std::conj(val); });
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        auto terms = size; // number of terms averaged in each lag
+        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first, [&](value_type val) {
+            const auto factor = (scale == CorrelationScale::None) ? nfft : nfft * terms;
+            if (scale == CorrelationScale::Unbiased) {
+                --terms;
+            }
+            return val / static_cast<value_type>(factor);
+        });
     }
 
     /**
@@ -126,9 +131,14 @@ namespace edsp { inline namespace spectral {
                            -> std::complex<value_type> { return left * std::conj(right); });
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        auto terms = size; // number of terms averaged in each lag
+        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first, [&](value_type val) {
+            const auto factor = (scale == CorrelationScale::None) ? nfft : nfft * terms;
+            if (scale == CorrelationScale::Unbiased) {
+                --terms;
+            }
+            return val / static_cast<value_type>(factor);
+        });
     }
 
 }}     // namespace edsp::spectral
-- 
2.43.0


From 5c4fb32524fdaf62d586e88a678044591bb9c59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 06/79] fix: denominator of the triangular window for lengths
 4k+3

std::remainder(size, 2) is -1 for those lengths, which turned the window into
a Bartlett window.
---
 include/edsp/windowing/triangular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 415b0af..73d0f79 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type     = meta::value_type_t<OutputIt>;
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
-        const value_type rem = size + std::remainder(size, 2);
+        const value_type rem = size + size % 2;
         value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - std::abs(initial / rem);
-- 
2.43.0


From 2a29c760f4ac2650da4bed1ae8511b54463e0e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 07/79] fix: centre of the Welch window

The documented centre is (N-1)/2; with N/2 the window was not symmetric for
even lengths.
---
 include/edsp/windowing/welch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index bbc3461..c7d5e14 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
-        const value_type L = size / 2;
+        const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
         }
-- 
2.43.0


From c0c3a764a08121faf350871b633e43949cf4ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 08/79] fix: is_prime rejected every prime greater than three

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f54e39c..1c09944 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -143,7 +143,7 @@ namespace edsp { inline namespace math {
                 return 0;
             r += 6;
         }
-        return false;
+        return true;
     }
 
     /**
-- 
2.43.0


From ca447677db80e9d78a1d1a48276e5af735dcd1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 09/79] fix: is_odd for negative numbers

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 1c09944..4f14f8a 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -47,7 +47,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_odd(T x) {
-        return (x % 2) == 1;
+        return (x % 2) != 0;
     }
 
     /**
-- 
2.43.0


From 4b16a3c84dca4697bde951f31183cf68d1c0c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 10/79] fix: is_power_two truncated its argument to 32 bits

---
 include/edsp/math/numeric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 4f14f8a..c9eaafc 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -67,8 +67,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_power_two(T x) {
-        const auto tmp = static_cast<std::int32_t>(x);
-        return tmp != 0 && !(tmp & (tmp - 1));
+        const auto tmp = static_cast<std::uint64_t>(x);
+        return !is_negative(x) && tmp != 0 && !(tmp & (tmp - 1));
     }
 
     /**
-- 
2.43.0


From 08187f0f011eb66e51245e002e62f227bb4a5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 11/79] fix: next_power_two truncated its argument to 32 bits
 and overflowed

---
 include/edsp/math/numeric.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index c9eaafc..866b3d6 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -168,13 +168,14 @@ namespace edsp { inline namespace math {
         } else if (is_power_two(x)) {
             return x;
         } else {
-            auto _x = static_cast<int32_t>(x);
+            auto _x = static_cast<std::uint64_t>(x);
             --_x;
             _x |= _x >> 1;
             _x |= _x >> 2;
             _x |= _x >> 4;
             _x |= _x >> 8;
             _x |= _x >> 16;
+            _x |= _x >> 32;
             return static_cast<T>(_x + 1);
         }
     }
-- 
2.43.0


From 6170d855df136edf3b6e1a0376b6502311ba96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 12/79] fix: the Manhattan distance was signed

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 866b3d6..211a3d9 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -289,7 +289,7 @@ namespace edsp { inline namespace math {
         struct distance<distances::manhattan> {
             template <typename T>
             constexpr T operator()(T x, T y) noexcept {
-                return x - y;
+                return std::abs(x - y);
             }
         };
 
-- 
2.43.0


From 81dbf09d65b5deba6b3f0edd1d00c3222e7cebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:17 +0000
Subject: [PATCH 13/79] fix: the median of any range was zero

---
 include/edsp/statistics/median.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..c48d6ae 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,9 +23,10 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
 #include <algorithm>
-#include <numeric>
+#include <cstddef>
+#include <iterator>
+#include <vector>
 
 namespace edsp { namespace statistics {
 
@@ -42,10 +43,18 @@ namespace edsp { namespace statistics {
      */
     template <typename ForwardIt>
     constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+        std::vector<meta::value_type_t<ForwardIt>> sorted(first, last);
+        const auto size   = static_cast<std::ptrdiff_t>(sorted.size());
+        const auto middle = std::begin(sorted) + size / 2;
+        if (size == 0) {
+            return 0;
+        }
+
+        std::nth_element(std::begin(sorted), middle, std::end(sorted));
+        if (size % 2 != 0) {
+            return *middle;
+        }
+        return (*std::max_element(std::begin(sorted), middle) + *middle) / 2;
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0


From 68f4e15daf16c38e15358784fbb210236a8f5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:17 +0000
Subject: [PATCH 14/79] fix: a moving filter kept its sum, and read an empty
 window, after a reset or a resize

---
 include/edsp/filter/moving_average_filter.hpp | 5 +++--
 include/edsp/filter/moving_median_filter.hpp  | 5 +++--
 include/edsp/filter/moving_rms_filter.hpp     | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..4f6964a 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +116,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = 0;
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..b5e358b 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = 0;
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..b06252f 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -106,7 +106,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -117,7 +117,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = 0;
     }
 
     template <typename T, typename Allocator>
-- 
2.43.0


From bff874c8d266471cafe357314636d10866aed2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 15/79] fix: the moving RMS was NaN when rounding left its sum
 below zero

---
 include/edsp/filter/moving_rms_filter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index b06252f..b00a120 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_MOVING_RMS_FILTER_HPP
 
 #include <edsp/types/ring_buffer.hpp>
+#include <algorithm>
 #include <cmath>
 
 namespace edsp { namespace filter {
@@ -127,6 +128,7 @@ namespace edsp { namespace filter {
         accumulated_ -= window_.front();
         accumulated_ += sqr;
         window_.push_back(sqr);
+        accumulated_ = std::max(accumulated_, static_cast<T>(0)); // the rounding errors may leave it below zero
         return std::sqrt(accumulated_ / static_cast<T>(window_.size()));
     }
 
-- 
2.43.0


From 55f240fa067a4d913168cba55b9187b6acfd1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 16/79] fix: a first-order section had the reciprocal of the
 requested zero

---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..28bcdca 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -232,8 +232,8 @@ namespace edsp { namespace filter {
     template <typename T>
     constexpr biquad<T>::biquad(const std::complex<T>& pole, const std::complex<T>& zero) :
         b2_(0),
-        b1_(1),
-        b0_(-zero.real()),
+        b1_(-zero.real()),
+        b0_(1),
         a2_(0),
         a1_(-pole.real()),
         a0_(1) {
-- 
2.43.0


From 076fd8fe012212c1421d5f4e8df8c4c475017378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 17/79] fix: a biquad ignored the coefficient given to set_a0

---
 include/edsp/filter/biquad.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 28bcdca..f4d6ff6 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -275,7 +275,9 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr bool biquad<T>::stability() const noexcept {
-        return std::abs(a2_) < 1 && (std::abs(a1_) < (1 + a2_));
+        const auto a1 = a1_ / a0_;
+        const auto a2 = a2_ / a0_;
+        return std::abs(a2) < 1 && (std::abs(a1) < (1 + a2));
     }
 
     template <typename T>
@@ -324,7 +326,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr typename biquad<T>::value_type biquad<T>::tick(const value_type value) noexcept {
-        const auto out = b0_ * value + w0_;
+        const auto out = (b0_ * value + w0_) / a0_;
         w0_            = b1_ * value - a1_ * out + w1_;
         w1_            = b2_ * value - a2_ * out;
         return out;
-- 
2.43.0


From 6e6f0350182fb57b828a7fdb9d6ece0b16adefc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 18/79] fix: frequency at which the gain of a band-pass filter
 is normalised

---
 include/edsp/filter/internal/bilinear/bandpass_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
index 79d29d0..849d642 100644
--- a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
@@ -76,7 +76,7 @@ namespace edsp { namespace filter {
             }
 
             const auto wn = analog.w();
-            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) + std::tan((wc2 + wn) * 0.5))));
+            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) * std::tan((wc2 + wn) * 0.5))));
             digital.set_gain(analog.gain());
         }
 
-- 
2.43.0


From 465ede9c0722e30acbb3ae8c894c4c0ca3417c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 19/79] fix: Zoelzer shelving filters with a negative gain

---
 include/edsp/filter/internal/zoelzer_designer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/zoelzer_designer.hpp b/include/edsp/filter/internal/zoelzer_designer.hpp
index acaab1d..3fd9a26 100644
--- a/include/edsp/filter/internal/zoelzer_designer.hpp
+++ b/include/edsp/filter/internal/zoelzer_designer.hpp
@@ -82,7 +82,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::LowShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -108,7 +108,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::HighShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -125,7 +125,7 @@ namespace edsp { namespace filter {
                 const auto b2   = (1 - constants<T>::root_two * K + K * K) * norm;
                 const auto a1   = 2 * (K * K - V) * norm;
                 const auto a2   = (V - std::sqrt(2 * V) * K + K * K) * norm;
-                return biquad<T>(b0, b1, b2, a1, a1, a2);
+                return biquad<T>(1, a1, a2, b0, b1, b2);
             }
         }
     };
-- 
2.43.0


From 13883f45934ca2bd72e9372b7489f8f6147f1ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 20/79] fix: negative magnitudes in the polar form of the
 Butterworth shelving prototype

---
 include/edsp/filter/internal/butterworth_designer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/filter/internal/butterworth_designer.hpp b/include/edsp/filter/internal/butterworth_designer.hpp
index 52ab5c8..cdbe5d6 100644
--- a/include/edsp/filter/internal/butterworth_designer.hpp
+++ b/include/edsp/filter/internal/butterworth_designer.hpp
@@ -70,16 +70,16 @@ namespace edsp { namespace filter {
 
                 const auto size  = static_cast<T>(num_poles * 2);
                 const auto g     = std::pow(converter::db2mag(gain_db), math::inv(size));
-                const auto gp    = -math::inv(g);
-                const auto gz    = -g;
+                const auto gp    = math::inv(g);
+                const auto gz    = g;
                 const auto pairs = num_poles / 2;
                 for (auto i = 1ul; i <= pairs; ++i) {
                     const auto theta = static_cast<T>(constants<T>::pi * (0.5 - (2 * i - 1) / size));
-                    analog.insert_conjugate(std::polar(gp, theta), std::polar(gz, theta));
+                    analog.insert_conjugate(-std::polar(gp, theta), -std::polar(gz, theta));
                 }
 
                 if (math::is_odd(num_poles)) {
-                    analog.insert(std::complex<T>(gp), std::complex<T>(gz));
+                    analog.insert(std::complex<T>(-gp), std::complex<T>(-gz));
                 }
             }
         };
-- 
2.43.0


From ecd13588cffd71757023af6b2ef495025ea13479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:37 +0000
Subject: [PATCH 21/79] fix: a moved fixed_ring_buffer used the storage of its
 source

---
 include/edsp/types/fixed_ring_buffer.hpp | 27 +++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..cb7ecfc 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -26,6 +26,8 @@
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
 #include <array>
+#include <memory>
+#include <utility>
 
 namespace edsp { inline namespace types {
 
@@ -59,10 +61,19 @@ namespace edsp { inline namespace types {
         typedef std::array<T, MaxSize> container_type;
 
         fixed_ring_buffer()                             = default;
-        fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer(const fixed_ring_buffer&) = default;
         fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+
+        fixed_ring_buffer(fixed_ring_buffer&& other) noexcept :
+            buffer_(std::move(other.buffer_)),
+            ring_(bind(other.offset(), other.size())) {}
+
+        fixed_ring_buffer& operator=(fixed_ring_buffer&& other) noexcept {
+            const auto offset = other.offset();
+            buffer_           = std::move(other.buffer_);
+            ring_             = bind(offset, other.size());
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
@@ -431,6 +442,16 @@ namespace edsp { inline namespace types {
         }
 
     private:
+        // Position of the first element in the internal buffer.
+        std::ptrdiff_t offset() const noexcept {
+            return std::addressof(*ring_.cbegin()) - buffer_.data();
+        }
+
+        // A view of the internal buffer of this object.
+        edsp::ring_span<T> bind(std::ptrdiff_t offset, size_type size) noexcept {
+            return edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + offset, size);
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
-- 
2.43.0


From c8997f8d5d8a50883026f3b97c9e5889ed4cdebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:37 +0000
Subject: [PATCH 22/79] fix: element access of the ring buffers did not compile

---
 include/edsp/types/fixed_ring_buffer.hpp | 17 ++++++++++++-----
 include/edsp/types/ring_buffer.hpp       | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index cb7ecfc..7d99aee 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -27,6 +27,7 @@
 #include <edsp/types/ring_span.hpp>
 #include <array>
 #include <memory>
+#include <stdexcept>
 #include <utility>
 
 namespace edsp { inline namespace types {
@@ -277,7 +278,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -292,7 +293,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -307,7 +308,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("Index out of bounds");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -322,7 +326,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("Index out of bounds");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -437,7 +444,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..f1f02b8 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace edsp { inline namespace types {
@@ -304,7 +305,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -319,7 +320,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -334,7 +335,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("Index out of bounds");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -349,7 +353,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("Index out of bounds");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -463,7 +470,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
-- 
2.43.0


From 02f511b73dd098a4d1d2bca308736d2dd281ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:34 +0000
Subject: [PATCH 23/79] fix: band edges of the band-stop filters

---
 include/edsp/filter/internal/bilinear/bandstop_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
index 909fc0d..3cddf91 100644
--- a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
@@ -47,7 +47,7 @@ namespace edsp { namespace filter {
                 wc = constants<T>::pi - 1e-8;
 
             a  = std::cos((wc + wc2) * 0.5) / std::cos((wc - wc2) * 0.5);
-            b  = math::inv(std::tan((wc - wc2) * 0.5));
+            b  = std::tan((wc - wc2) * 0.5);
             a2 = a * a;
             b2 = b * b;
         }
-- 
2.43.0


From 4dccc2e89cba26df15092fd000225bf32f2a6564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:01 +0000
Subject: [PATCH 24/79] fix: join: keep what follows a NUL character

---
 include/edsp/string/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/string/join.hpp b/include/edsp/string/join.hpp
index 476e5c9..ee4a29b 100644
--- a/include/edsp/string/join.hpp
+++ b/include/edsp/string/join.hpp
@@ -46,7 +46,7 @@ namespace edsp { namespace string {
             }
             ss << *first;
         }
-        d_str = ss.str().c_str();
+        d_str = ss.str();
     }
 
 }} // namespace edsp::string
-- 
2.43.0


From 19e6b824273ae57cc17448bf0c264b747c4f60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:01 +0000
Subject: [PATCH 25/79] fix: strings: do not pass negative characters to the
 <cctype> functions

---
 include/edsp/string/to_lower.hpp | 4 +++-
 include/edsp/string/to_upper.hpp | 4 +++-
 include/edsp/string/trim.hpp     | 5 +++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/edsp/string/to_lower.hpp b/include/edsp/string/to_lower.hpp
index 9dc97f7..b5d6a7e 100644
--- a/include/edsp/string/to_lower.hpp
+++ b/include/edsp/string/to_lower.hpp
@@ -36,7 +36,9 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void tolower(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::tolower(element); });
+        std::transform(first, last, d_first, [](const char element) {
+            return static_cast<char>(std::tolower(static_cast<unsigned char>(element)));
+        });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/to_upper.hpp b/include/edsp/string/to_upper.hpp
index 0149fe0..60ba46e 100644
--- a/include/edsp/string/to_upper.hpp
+++ b/include/edsp/string/to_upper.hpp
@@ -38,7 +38,9 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void toupper(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::toupper(element); });
+        std::transform(first, last, d_first, [](const char element) {
+            return static_cast<char>(std::toupper(static_cast<unsigned char>(element)));
+        });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/trim.hpp b/include/edsp/string/trim.hpp
index 16fffa9..e58c94f 100644
--- a/include/edsp/string/trim.hpp
+++ b/include/edsp/string/trim.hpp
@@ -25,6 +25,7 @@
 #include <edsp/meta/iterator.hpp>
 #include <sstream>
 #include <algorithm>
+#include <cctype>
 
 namespace edsp { namespace string {
 
@@ -36,7 +37,7 @@ namespace edsp { namespace string {
     inline void ltrim(String& str) {
         str.erase(
             std::begin(str), std::find_if(std::begin(str), std::end(str),
-                                [](auto character) { return !std::isspace(character); }));
+                                [](const char character) { return !std::isspace(static_cast<unsigned char>(character)); }));
     }
 
     /**
@@ -47,7 +48,7 @@ namespace edsp { namespace string {
     inline void rtrim(String& str) {
         str.erase(
             std::find_if(std::rbegin(str), std::rend(str),
-                         [](auto character) { return !std::isspace(character); })
+                         [](const char character) { return !std::isspace(static_cast<unsigned char>(character)); })
                 .base(), std::end(str));
     }
 
-- 
2.43.0


From 15d8f2796663d6c24e578d976183ece44054fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:21 +0000
Subject: [PATCH 26/79] fix: square oscillator: follow set_frequency

---
 include/edsp/oscillators/sinusoidal.hpp | 3 ++-
 include/edsp/oscillators/square.hpp     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..71b3204 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -183,7 +183,8 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr void oscillator<T>::set_frequency(value_type frequency) noexcept {
-        frequency_ = frequency;
+        frequency_         = frequency;
+        inverse_frequency_ = math::inv(frequency);
     }
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..6a34bfe 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,19 +98,19 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t >= duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From be69280d90a6183b69eb2cec323bb60ee1a6b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:21 +0000
Subject: [PATCH 27/79] fix: square oscillator: be active during the duty
 cycle, not outside it

---
 include/edsp/oscillators/square.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index 6a34bfe..7a6c9de 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -110,7 +110,7 @@ namespace edsp { namespace oscillators {
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t < duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From 85e25a094b3d319e4bf431eae77ce286b577f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:21 +0000
Subject: [PATCH 28/79] fix: envelope follower: apply the attack and release
 times, in milliseconds

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From 46769447daeaeb2dfe17cc198985677f8a7cf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:21 +0000
Subject: [PATCH 29/79] fix: adsr: release_rate() returned the release time

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From 4642d7290b96a82773dd3c6b3745e088cfff14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:21 +0000
Subject: [PATCH 30/79] fix: mu law: capture the compression factor (did not
 compile)

---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index 98fc255..b64db68 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    std::log(static_cast<value_type>(1 + compression_factor * ratio)) /
@@ -83,7 +83,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-- 
2.43.0


From 468f8783f9fd3ff0ba1f9fa0155e9555d5461938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:21 +0000
Subject: [PATCH 31/79] fix: mu law: divide the expansion by the compression
 factor

---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index b64db68..fd96b17 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -87,7 +87,7 @@ namespace edsp { namespace quantizer {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-                   std::log(static_cast<value_type>(1 + compression_factor));
+                   static_cast<value_type>(compression_factor);
         };
         std::transform(first, last, d_first, std::cref(lambda));
     }
-- 
2.43.0


From 2e9276fa671fffad7d14ddf195de6939dec0c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:35 +0000
Subject: [PATCH 32/79] fix: noise generators: support floating point types
 (did not compile)

---
 include/edsp/random/noise/white_noise_generator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/white_noise_generator.hpp b/include/edsp/random/noise/white_noise_generator.hpp
index 02d2cd4..091240f 100644
--- a/include/edsp/random/noise/white_noise_generator.hpp
+++ b/include/edsp/random/noise/white_noise_generator.hpp
@@ -34,13 +34,15 @@ namespace edsp { namespace random {
     template <typename T, typename Engine = std::mt19937>
     struct white_noise_generator {
         using value_type = T;
+        using distribution_type = std::conditional_t<std::is_integral<T>::value, std::uniform_int_distribution<T>,
+                                                     std::uniform_real_distribution<T>>;
 
         /**
          * @brief Creates a white noise sequence generator.
          */
         inline white_noise_generator(value_type min, value_type max) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(min, max)) {}
+            distribution_(distribution_type(min, max)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -52,7 +54,7 @@ namespace edsp { namespace random {
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        distribution_type distribution_;
     };
 
 }} // namespace edsp::random
-- 
2.43.0


From cd0ce8fcba5cf3073ee7ad876c6ea55cabbdd955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:25 +0000
Subject: [PATCH 33/79] fix: perlin noise: index an integer table and fade the
 fractional part (did not compile)

---
 .../edsp/random/noise/perlin_noise_generator.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 124f112..36b5cb0 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -59,7 +59,7 @@ namespace edsp { namespace random {
          */
         inline perlin_noise_generator() :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(0, 511)) {}
+            distribution_(std::uniform_real_distribution<T>(0, 511)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -69,16 +69,16 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(random_value);
+            const auto fade_value   = fade(floor_value);
             return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[index + 1], floor_value - 1)) *
+                        grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
-        static constexpr const std::array<T, 512> permutation = {
+        std::uniform_real_distribution<T> distribution_;
+        static constexpr const std::array<std::uint8_t, 256> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
              94,  252, 219, 203, 117, 35,  11,  32,  57,  177, 33,  88,  237, 149, 56,  87,  174, 20,  125, 136,
@@ -94,5 +94,8 @@ namespace edsp { namespace random {
              222, 114, 67,  29,  24,  72,  243, 141, 128, 195, 78,  66,  215, 61,  156, 180}};
     };
 
+    template <typename T, typename Engine>
+    constexpr const std::array<std::uint8_t, 256> perlin_noise_generator<T, Engine>::permutation;
+
 }}     // namespace edsp::random
 #endif // EDSP_PERLIN_NOISE_GENERATOR_HPP
-- 
2.43.0


From 3a1ed2a7c5527497ab0a1b7275535ccba3eec23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:08 +0000
Subject: [PATCH 34/79] fix: random_generator: forward the distribution's
 parameters (did not compile)

---
 include/edsp/random/random_generator.hpp | 70 ++++++++++++++++++------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index e98d5ea..7c47926 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -56,12 +56,12 @@ namespace edsp { namespace random {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-            using value_type = typename Distribution::value_type;
+            using value_type = typename Distribution::result_type;
             template <typename... Args>
             explicit RandomGeneratorImpl(Args... arg) :
                 generator_(
                     Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-                distribution_(Distribution(std::forward(arg...))) {}
+                distribution_(Distribution(arg...)) {}
 
             inline value_type operator()() {
                 return static_cast<value_type>(distribution_(generator_));
@@ -77,73 +77,107 @@ namespace edsp { namespace random {
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Uniform, T>
-            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {};
+            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {
+            using RandomGeneratorImpl<std::uniform_real_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Bernoulli, T>
-            : public RandomGeneratorImpl<std::bernoulli_distribution, T> {};
+            : public RandomGeneratorImpl<std::bernoulli_distribution> {
+            using RandomGeneratorImpl<std::bernoulli_distribution>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Binomial, T>
-            : public RandomGeneratorImpl<std::binomial_distribution<T>> {};
+            : public RandomGeneratorImpl<std::binomial_distribution<T>> {
+            using RandomGeneratorImpl<std::binomial_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Geometric, T>
-            : public RandomGeneratorImpl<std::geometric_distribution<T>> {};
+            : public RandomGeneratorImpl<std::geometric_distribution<T>> {
+            using RandomGeneratorImpl<std::geometric_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Poisson, T>
-            : public RandomGeneratorImpl<std::poisson_distribution<T>> {};
+            : public RandomGeneratorImpl<std::poisson_distribution<T>> {
+            using RandomGeneratorImpl<std::poisson_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Exponential, T>
-            : public RandomGeneratorImpl<std::exponential_distribution<T>> {};
+            : public RandomGeneratorImpl<std::exponential_distribution<T>> {
+            using RandomGeneratorImpl<std::exponential_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {};
+        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {
+            using RandomGeneratorImpl<std::gamma_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Weibull, T>
-            : public RandomGeneratorImpl<std::weibull_distribution<T>> {};
+            : public RandomGeneratorImpl<std::weibull_distribution<T>> {
+            using RandomGeneratorImpl<std::weibull_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ExtremeValue, T>
-            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {};
+            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {
+            using RandomGeneratorImpl<std::extreme_value_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Normal, T> : public RandomGeneratorImpl<std::normal_distribution<T>> {
+            using RandomGeneratorImpl<std::normal_distribution<T>>::RandomGeneratorImpl;
         };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::LogNormal, T>
-            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {};
+            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {
+            using RandomGeneratorImpl<std::lognormal_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ChiSquared, T>
-            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {};
+            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {
+            using RandomGeneratorImpl<std::chi_squared_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Fisher, T>
-            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {};
+            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {
+            using RandomGeneratorImpl<std::fisher_f_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Student, T>
-            : public RandomGeneratorImpl<std::student_t_distribution<T>> {};
+            : public RandomGeneratorImpl<std::student_t_distribution<T>> {
+            using RandomGeneratorImpl<std::student_t_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Discrete, T>
-            : public RandomGeneratorImpl<std::discrete_distribution<T>> {};
+            : public RandomGeneratorImpl<std::discrete_distribution<T>> {
+            using RandomGeneratorImpl<std::discrete_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseConstant, T>
-            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_constant_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseLinear, T>
-            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_linear_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Cauchy, T> : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+            using RandomGeneratorImpl<std::cauchy_distribution<T>>::RandomGeneratorImpl;
         };
 
     } // namespace internal
-- 
2.43.0


From 9fca660fca1d3e26658170a1ab51e761dd344b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 35/79] fix: rms: the sum of squares started from one

---
 include/edsp/feature/temporal/rms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index 8249985..ac287f7 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -42,7 +42,7 @@ namespace edsp { namespace feature { inline namespace temporal {
     template <typename ForwardIt>
     constexpr auto rms(ForwardIt first, ForwardIt last) {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
-        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(1));
+        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
         return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));
     }
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 06a4803b675e5120f09dbd62df9f0fa3347013bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 36/79] fix: snr: take the variance of the signal, not of the
 gap between two ranges

---
 include/edsp/feature/temporal/snr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 2ec7912..cd7496b 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,8 +56,8 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, first2);
-        const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
+        const auto var_ref   = edsp::statistics::variance(first1, last1);
+        const auto var_noise = edsp::statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
 
-- 
2.43.0


From faab08e198fe97fd8e85cf447c888c44c64f3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 37/79] fix: continuous_leq: did not compile

---
 include/edsp/feature/temporal/leq.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/feature/temporal/leq.hpp b/include/edsp/feature/temporal/leq.hpp
index c7fdb72..0e643c2 100644
--- a/include/edsp/feature/temporal/leq.hpp
+++ b/include/edsp/feature/temporal/leq.hpp
@@ -28,7 +28,7 @@
 #define EDSP_LEQ_HPP
 
 #include <edsp/filter/moving_average_filter.hpp>
-#include <edsp/feature/temporal/energy.hpp>
+#include <edsp/feature/temporal/power.hpp>
 #include <edsp/converter/pow2db.hpp>
 
 namespace edsp { namespace feature { inline namespace temporal {
@@ -61,7 +61,7 @@ namespace edsp { namespace feature { inline namespace temporal {
          * @brief Creates a leq estimator.
          * @param number_frames Number of frames over time of interest to compute the equivalent sound level.
          */
-        explicit continuous_leq(size_type number_frames) : filter(number_frames) {}
+        explicit continuous_leq(size_type number_frames) : filter_(number_frames) {}
 
         /**
          * @brief Default destructor.
@@ -79,11 +79,11 @@ namespace edsp { namespace feature { inline namespace temporal {
          */
         template <typename ForwardIt>
         value_type extract(ForwardIt first, ForwardIt last) {
-            return filter(leq(first, last));
+            return filter_(leq(first, last));
         }
 
     private:
-        filter::moving_average<T> filter;
+        edsp::filter::moving_average<T> filter_;
     };
 
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 3f87373d4cd238aa7dc58a04f7756e3ade5d2be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 38/79] fix: decrease: skip the term 0/0

---
 include/edsp/feature/statistics/decrease.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 6ad28d6..cc8c57c 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -51,7 +51,8 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_t       = typename std::iterator_traits<ForwardIt>::value_type;
         auto weighted_sum   = static_cast<value_t>(0);
         auto unweighted_sum = static_cast<value_t>(0);
-        for (value_t i = 0, initial = *first; first != last; ++first, ++i) {
+        const value_t initial = *first++;
+        for (value_t i = 1; first != last; ++first, ++i) {
             weighted_sum += ((*first) - initial) / i;
             unweighted_sum += *first;
         }
-- 
2.43.0


From cb6ac05342c49facfdce9ef86d6cd13774378cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 39/79] fix: flux: sum the second range, not the gap between
 both ranges

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From 2aac6c7a66a98b00dd497bd32db4d82f36c28668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 40/79] fix: slope: count the elements before consuming the
 range

---
 include/edsp/feature/statistics/slope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/slope.hpp b/include/edsp/feature/statistics/slope.hpp
index 3789591..294cb7c 100644
--- a/include/edsp/feature/statistics/slope.hpp
+++ b/include/edsp/feature/statistics/slope.hpp
@@ -61,6 +61,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     template <typename ForwardIt>
     constexpr auto slope(ForwardIt first1, ForwardIt last1, ForwardIt first2) {
         using value_type = typename std::iterator_traits<ForwardIt>::value_type;
+        const auto N     = static_cast<value_type>(std::distance(first1, last1));
         auto m_sum       = static_cast<value_type>(0);
         auto f_sum       = static_cast<value_type>(0);
         auto ff_sum      = static_cast<value_type>(0);
@@ -71,7 +72,6 @@ namespace edsp { namespace feature { inline namespace statistics {
             mf_sum += (*first1) * (*first2);
             ff_sum += (*first2) * (*first2);
         }
-        const auto N = static_cast<value_type>(std::distance(first1, last1));
         return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));
     }
 
-- 
2.43.0


From f2cffe31edf9368705cff9ddffb64fea052233cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 41/79] fix: variation: use the normalised correlation, so that
 equal spectra give zero

---
 include/edsp/feature/statistics/variation.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/statistics/variation.hpp b/include/edsp/feature/statistics/variation.hpp
index 5847d51..6cd7494 100644
--- a/include/edsp/feature/statistics/variation.hpp
+++ b/include/edsp/feature/statistics/variation.hpp
@@ -61,11 +61,11 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto sum_x2      = static_cast<value_type>(0);
         auto sum_x12     = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
-            sum_x1 += *first1;
-            sum_x2 += *first2;
+            sum_x1 += *first1 * *first1;
+            sum_x2 += *first2 * *first2;
             sum_x12 += *first1 * *first2;
         }
-        return 1 - sum_x2 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
+        return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
     }
 
 }}} // namespace edsp::feature::statistics
-- 
2.43.0


From f210c818b451cf3c9ad6221dcab80c66bd3fd1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 42/79] fix: spectral_irregularity: compare with the next
 element

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index 6063c46..e4a9abd 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
         for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = (*first + 1) - (*first);
+            const value_type diff = *(first + 1) - (*first);
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From 33deddd9bdf24db59cb14edc8f6b62f088a3aa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 43/79] fix: peak2peak: maximum minus minimum, whatever their
 signs

---
 include/edsp/converter/peak2peak.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/converter/peak2peak.hpp b/include/edsp/converter/peak2peak.hpp
index 25b35b0..9f09569 100644
--- a/include/edsp/converter/peak2peak.hpp
+++ b/include/edsp/converter/peak2peak.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace converter {
     template <typename ForwardIt>
     constexpr auto peak2peak(ForwardIt first, ForwardIt last) {
         const auto pair = std::minmax_element(first, last);
-        return std::abs(*pair.second) - std::abs(*pair.first);
+        return *pair.second - *pair.first;
     }
 
 }} // namespace edsp::converter
-- 
2.43.0


From ce51fc02073aa190136ac48f9a810077a9948587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 44/79] fix: derivative: drop a template parameter that could
 not be deduced

---
 include/edsp/algorithm/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/derivative.hpp b/include/edsp/algorithm/derivative.hpp
index fd394f3..71025cf 100644
--- a/include/edsp/algorithm/derivative.hpp
+++ b/include/edsp/algorithm/derivative.hpp
@@ -42,7 +42,7 @@ namespace edsp { inline namespace algorithm {
          * @param last Forward iterator defining the end of the range to examine.
          * @param d_first Output iterator defining the beginning of the destination range.
          */
-    template <typename InputItr, typename OutputIt, typename Numeric>
+    template <typename InputItr, typename OutputIt>
     constexpr void derivative(InputItr first, InputItr last, OutputIt d_first) {
         std::adjacent_difference(first, last, d_first);
     }
-- 
2.43.0


From a1069ab31dceeb4102750ec329c2926d3c728254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 45/79] fix: silence: drop a template parameter that could not
 be deduced

---
 include/edsp/algorithm/silence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/silence.hpp b/include/edsp/algorithm/silence.hpp
index dfccec9..41523db 100644
--- a/include/edsp/algorithm/silence.hpp
+++ b/include/edsp/algorithm/silence.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace algorithm {
      * @param last Input iterator defining the ending of the input range.
      * @param threshold Threshold .
      */
-    template <typename InputIt, typename OutputIt, typename Numeric>
+    template <typename InputIt, typename Numeric>
     constexpr bool silence(InputIt first, InputIt last, Numeric threshold) {
         return feature::temporal::power(first, last) < threshold;
     }
-- 
2.43.0


From 3bc7faa1264e58d0e05946ded613723890dfccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 46/79] fix: equal: accept two ranges of different iterator
 types

---
 include/edsp/algorithm/equal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/algorithm/equal.hpp b/include/edsp/algorithm/equal.hpp
index 6369b46..e4cd893 100644
--- a/include/edsp/algorithm/equal.hpp
+++ b/include/edsp/algorithm/equal.hpp
@@ -37,7 +37,7 @@ namespace edsp { inline namespace algorithm {
      * @returns If the elements in the two ranges are equal, returns true. Otherwise returns false.
      */
     template <typename ForwardIt1, typename ForwardIt2, typename BinaryPredicate>
-    constexpr bool equal(ForwardIt1 first1, ForwardIt2 last1, ForwardIt2 first2, ForwardIt2 last2, BinaryPredicate p) {
+    constexpr bool equal(ForwardIt1 first1, ForwardIt1 last1, ForwardIt2 first2, ForwardIt2 last2, BinaryPredicate p) {
         return std::equal(first1, last1, first2, last2, p);
     }
 
@@ -51,7 +51,7 @@ namespace edsp { inline namespace algorithm {
      * @returns If the elements in the two ranges are equal, returns true. Otherwise returns false.
      */
     template <typename ForwardIt1, typename ForwardIt2>
-    constexpr bool equal(ForwardIt1 first1, ForwardIt2 last1, ForwardIt2 first2, ForwardIt2 last2) {
+    constexpr bool equal(ForwardIt1 first1, ForwardIt1 last1, ForwardIt2 first2, ForwardIt2 last2) {
         return std::equal(first1, last1, first2, last2);
     }
 
-- 
2.43.0


From d6870a26bfa1d5e5a6226fa53a93584b4c48939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 47/79] fix: linspace, logspace: do not accumulate the rounding
 of the increment

---
 include/edsp/algorithm/linspace.hpp | 10 +++++-----
 include/edsp/algorithm/logspace.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/edsp/algorithm/linspace.hpp b/include/edsp/algorithm/linspace.hpp
index 1e5061c..c7fc605 100644
--- a/include/edsp/algorithm/linspace.hpp
+++ b/include/edsp/algorithm/linspace.hpp
@@ -38,13 +38,13 @@ namespace edsp { inline namespace algorithm {
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void linspace(OutputIt d_first, Numeric x1, Numeric x2, Integer N) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
-        const auto size  = static_cast<value_type>(std::trunc(N));
+        const auto size  = static_cast<std::ptrdiff_t>(std::trunc(N));
 
-        auto _x1             = static_cast<value_type>(x1);
-        auto _x2             = static_cast<value_type>(x2);
+        const auto _x1       = static_cast<value_type>(x1);
+        const auto _x2       = static_cast<value_type>(x2);
         const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);
-        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
-            *d_first = _x1;
+        for (std::ptrdiff_t i = 0; i < size; ++i, ++d_first) {
+            *d_first = (i == 0) ? _x1 : _x1 + static_cast<value_type>(i) * increment;
         }
     }
 
diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 8641022..7f0d182 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -37,13 +37,13 @@ namespace edsp { inline namespace algorithm {
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void logspace(OutputIt d_first, Numeric x1, Numeric x2, Integer N) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
-        const auto size  = static_cast<value_type>(std::trunc(N));
+        const auto size  = static_cast<std::ptrdiff_t>(std::trunc(N));
 
-        auto _x1             = static_cast<value_type>(x1);
-        auto _x2             = static_cast<value_type>(x2);
+        const auto _x1       = static_cast<value_type>(x1);
+        const auto _x2       = static_cast<value_type>(x2);
         const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);
-        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
-            *d_first = std::pow(static_cast<value_type>(10), _x1);
+        for (std::ptrdiff_t i = 0; i < size; ++i, ++d_first) {
+            *d_first = std::pow(static_cast<value_type>(10), (i == 0) ? _x1 : _x1 + static_cast<value_type>(i) * increment);
         }
     }
 
-- 
2.43.0


From d1c80eca75dc731202c77d1c2c1d85ed0bcab5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 48/79] fix: audspace: call the scales with their range (did
 not compile)

---
 include/edsp/auditory/audspace.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/auditory/audspace.hpp b/include/edsp/auditory/audspace.hpp
index 82397a9..a32fb06 100644
--- a/include/edsp/auditory/audspace.hpp
+++ b/include/edsp/auditory/audspace.hpp
@@ -23,6 +23,7 @@
 #ifndef EDSP_AUDSPACE_HPP
 #define EDSP_AUDSPACE_HPP
 
+#include <edsp/meta/advance.hpp>
 #include <edsp/auditory/barkspace.hpp>
 #include <edsp/auditory/melspace.hpp>
 #include <edsp/auditory/erbspace.hpp>
@@ -55,16 +56,16 @@ namespace edsp { namespace auditory {
     constexpr void audspace(OutputIt d_first, Numeric min, Numeric max, Integer N, auditory_scale scale) {
         switch (scale) {
             case auditory_scale::mel:
-                melspace(d_first, min, max, N);
+                melspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::erb:
-                erbspace(d_first, min, max, N);
+                erbspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::bark:
-                barkspace(d_first, min, max, N);
+                barkspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::cent:
-                centspace(d_first, min, max, N);
+                centspace(d_first, meta::advance(d_first, N), min, max);
                 break;
         }
     }
-- 
2.43.0


From a7137ddf6b855293ca0b2ef2d06bffc3d8a7d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:25 +0000
Subject: [PATCH 49/79] fix: entropy, spectral_entropy: an empty class
 contributes zero, not NaN

---
 include/edsp/feature/spectral/spectral_entropy.hpp | 2 +-
 include/edsp/feature/statistics/entropy.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_entropy.hpp b/include/edsp/feature/spectral/spectral_entropy.hpp
index 6505010..efba6bf 100644
--- a/include/edsp/feature/spectral/spectral_entropy.hpp
+++ b/include/edsp/feature/spectral/spectral_entropy.hpp
@@ -58,7 +58,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         const auto sum       = std::accumulate(first, last, static_cast<input_t>(0));
         const auto predicate = [&](const input_t accumulated, const input_t current) {
             const auto normalized = current / sum;
-            return (accumulated + std::log2(normalized) * normalized);
+            return (normalized > 0) ? (accumulated + std::log2(normalized) * normalized) : accumulated;
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
diff --git a/include/edsp/feature/statistics/entropy.hpp b/include/edsp/feature/statistics/entropy.hpp
index 92bbcb9..61d2b44 100644
--- a/include/edsp/feature/statistics/entropy.hpp
+++ b/include/edsp/feature/statistics/entropy.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     constexpr meta::value_type_t<ForwardIt> entropy(ForwardIt first, ForwardIt last) {
         using input_t        = meta::value_type_t<ForwardIt>;
         const auto predicate = [](const input_t accumulated, const input_t current) {
-            return (accumulated + std::log2(current) * current);
+            return (current > 0) ? (accumulated + std::log2(current) * current) : accumulated;
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
-- 
2.43.0


From 321edc23d4456a60ba5e5a90f181085ac891a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 50/79] fix: decoder: a closed decoder stayed open and closed
 its file twice

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..b87dc1e 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -105,6 +105,8 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
+            info_ = SF_INFO{};
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From afc379fd10fbb3ef29977c69c93f0c2ebd7a5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 51/79] fix: encoder: a closed encoder stayed open and closed
 its file twice

---
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..c0c9cbc 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -121,6 +121,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From 845c0b2ba7317b79ac4a158da75a0ffcc0c87a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 52/79] fix: decoder: read complete frames whatever the number
 of channels

---
 .../io/internal/decoder/libsndfile_decoder_impl.hpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index b87dc1e..55859f8 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -146,11 +146,17 @@ namespace edsp { namespace io {
             using value_type = meta::value_type_t<OutputIt>;
             static_assert(std::is_same<value_type, underlying_t>::value, "Expecting iterator of the same type");
 
+            if (!is_open()) {
+                return 0;
+            }
+            // libsndfile only reads complete frames
+            const auto maximum      = N - N % channels();
             index_type total        = std::distance(first, last);
-            index_type remaining    = total;
+            index_type remaining    = total - total % channels();
             index_type samples_read = 0;
+            total                   = remaining;
             do {
-                const auto counter = (remaining > N) ? N : remaining;
+                const auto counter = (remaining > maximum) ? maximum : remaining;
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
-- 
2.43.0


From 5abbf24a63a8f2141ca8e2d4d3f533d9ae062cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:13 +0000
Subject: [PATCH 53/79] fix: metadata: a file that cannot be parsed has no tag
 to read

---
 include/edsp/io/internal/metadata/libtag_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index efba48d..aab6cd7 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,27 +32,27 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.tag()->title().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->title().to8Bit();
         }
 
         std::string artist() const {
-            return ref_.tag()->artist().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->artist().to8Bit();
         }
 
         std::string album() const {
-            return ref_.tag()->album().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->album().to8Bit();
         }
 
         std::string genre() const {
-            return ref_.tag()->genre().to8Bit();
+            return ref_.isNull() ? std::string() : ref_.tag()->genre().to8Bit();
         }
 
         size_t track() const {
-            return ref_.tag()->track();
+            return ref_.isNull() ? 0 : ref_.tag()->track();
         }
 
         size_t year() const {
-            return ref_.tag()->year();
+            return ref_.isNull() ? 0 : ref_.tag()->year();
         }
 
     private:
-- 
2.43.0


From be1036a50b7c4ccbe793de1860bd73bb0a882f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:01 +0000
Subject: [PATCH 54/79] fix: encoder, decoder, resampler: a copy shared, and
 released twice, the handle of its source

---
 bindings/python/src/io.cpp                                  | 6 +++---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp    | 4 +++-
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp    | 3 +++
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp   | 3 +++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 1199587..88bf99a 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -93,7 +93,7 @@ void add_io_package() {
         .def("artist", &edsp::io::metadata::artist)
         .def("track", &edsp::io::metadata::track);
 
-    bp::class_<encoder>("Encoder", bp::init<std::size_t, std::size_t>())
+    bp::class_<encoder, boost::noncopyable>("Encoder", bp::init<std::size_t, std::size_t>())
         .def("open", &encoder::open)
         .def("is_open", &encoder::is_open)
         .def("close", &encoder::close)
@@ -101,7 +101,7 @@ void add_io_package() {
         .def("samplerate", &encoder::sample_rate)
         .def("write", encoder_wrapper);
 
-    bp::class_<decoder>("Decoder", bp::init<>())
+    bp::class_<decoder, boost::noncopyable>("Decoder", bp::init<>())
         .def("open", &decoder::open)
         .def("is_open", &decoder::is_open)
         .def("close", &decoder::close)
@@ -119,7 +119,7 @@ void add_io_package() {
         .value("Fastest", edsp::io::resample_quality::sinc_fastest)
         .value("ZeroOrderHold", edsp::io::resample_quality::zero_order_hold);
 
-    bp::class_<resampler>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
+    bp::class_<resampler, boost::noncopyable>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
         .def("process", resampler_process_wrapper)
         .def("error_string", resampler_error_string_wrapper)
         .def("quality", &resampler::quality)
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 55859f8..79edbe0 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -80,7 +80,9 @@ namespace edsp { namespace io {
         using index_type = std::ptrdiff_t;
         using value_type = T;
 
-        libsndfile_decoder() = default;
+        libsndfile_decoder()                          = default;
+        libsndfile_decoder(const libsndfile_decoder&) = delete;
+        libsndfile_decoder& operator=(const libsndfile_decoder&) = delete;
         ~libsndfile_decoder() {
             close();
         }
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c0c9cbc..a416d9b 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -97,6 +97,9 @@ namespace edsp { namespace io {
             info_.format     = SF_FORMAT_WAV | internal::writer<T>::FORMAT;
         }
 
+        libsndfile_encoder(const libsndfile_encoder&) = delete;
+        libsndfile_encoder& operator=(const libsndfile_encoder&) = delete;
+
         ~libsndfile_encoder() {
             close();
         }
diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 0ef7745..9c18b34 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -45,6 +45,9 @@ namespace edsp { namespace io {
             report_error(__PRETTY_FUNCTION__);
         }
 
+        libsamplerate_impl(const libsamplerate_impl&) = delete;
+        libsamplerate_impl& operator=(const libsamplerate_impl&) = delete;
+
         ~libsamplerate_impl() {
             src_delete(state_);
         }
-- 
2.43.0


From f8f274bac7ddaaee2599f39e401eb7dfc4480a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:01 +0000
Subject: [PATCH 55/79] fix: python decoder: return the samples that were read,
 and no division by zero when closed

---
 bindings/python/src/io.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 88bf99a..837dadd 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -47,9 +47,7 @@ auto decoder_wrapper(decoder& dec, unsigned int size) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
     const auto sizes     = dec.read(data, data + size);
-    const auto frames    = sizes / dec.channels();
-    result.reshape(bp::make_tuple(frames, dec.channels()));
-    return result;
+    return bp::object(result[bp::slice(0, sizes)]);
 }
 
 std::string resampler_error_string_wrapper(resampler& res) {
-- 
2.43.0


From b295f1a469d90f8fbc93aff68dead0bdccbf6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:01 +0000
Subject: [PATCH 56/79] fix: python resampler: the result of several channels
 overflowed its array

---
 bindings/python/src/io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 837dadd..45b4a13 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -68,12 +68,11 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     auto in              = reinterpret_cast<real_t*>(input.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
-    Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
     const auto final_samples   = sizes.second * res.channels();
+    Py_intptr_t final_shape[1] = {final_samples};
     auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
     auto final_data            = reinterpret_cast<real_t*>(final_result.get_data());
     std::copy(data, data + final_samples, final_data);
-    final_result.reshape(bp::make_tuple(sizes.second, res.channels()));
     return bp::make_tuple(final_result, sizes.first);
 }
 
-- 
2.43.0


From 08fad42de70a79d8adbc38811467c42a333d3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 57/79] fix: environment variables are named by the whole
 string view, not by what follows it in memory

---
 include/edsp/core/system.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..c9f1dcf 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -30,6 +30,7 @@
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
 #include <mutex>
+#include <string>
 
 namespace edsp { inline namespace core {
 
@@ -184,10 +185,10 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
+                const char* env_p = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());
                 if (!meta::is_null(env_p)) {
                     return env_p;
                 } else {
@@ -209,7 +210,9 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return error::empty;
             } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+                const std::string name(variable_name.data(), variable_name.size());
+                const std::string value(variable_value.data(), variable_value.size());
+                const auto result = setenv(name.c_str(), value.c_str(), overwrite);
                 return static_cast<error>(result);
             }
         }
@@ -221,7 +224,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            return !meta::is_null(std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()));
         }
 
     private:
-- 
2.43.0


From 70740df91da0772164c8542d3110f546e5bf28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 58/79] fix: an environment variable with an empty value exists

---
 include/edsp/core/system.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index c9f1dcf..518f356 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -189,7 +189,7 @@ namespace edsp { inline namespace core {
                 return edsp::make_unexpected(error::empty);
             } else {
                 const char* env_p = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());
-                if (!meta::is_null(env_p)) {
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
@@ -224,7 +224,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()));
+            return std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()) != nullptr;
         }
 
     private:
-- 
2.43.0


From 9066074784c3fc99b9ee915911840617b37a0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 59/79] fix: a rejected environment variable is reported as an
 invalid argument

---
 include/edsp/core/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 518f356..564a588 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -29,6 +29,7 @@
 #include <edsp/meta/expects.hpp>
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
+#include <cerrno>
 #include <mutex>
 #include <string>
 
@@ -213,7 +214,7 @@ namespace edsp { inline namespace core {
                 const std::string name(variable_name.data(), variable_name.size());
                 const std::string value(variable_value.data(), variable_value.size());
                 const auto result = setenv(name.c_str(), value.c_str(), overwrite);
-                return static_cast<error>(result);
+                return result == 0 ? error::no_error : static_cast<error>(errno);
             }
         }
 
-- 
2.43.0


From e21b4e099f58b312f6169d8e26ce1ee63373cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 60/79] fix: the FFT library reported is the one selected

---
 include/edsp/core/library_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index dbea03a..ceee06b 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -102,9 +102,9 @@ namespace edsp { inline namespace core {
 #if defined(USE_LIBFFTW)
             return fft_lib::fftw;
 #elif defined(USE_LIBPFFFT)
-            return fft_lib::fftw;
+            return fft_lib::pffft;
 #elif defined(USE_LIBACCELERATE)
-            return fft_lib::fftw;
+            return fft_lib::accelerate;
 #else
             return fft_lib::unknown;
 #endif
-- 
2.43.0


From f4030e9c07baa3e8223730d271f2163c2f6923b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 61/79] fix: the major version was the minor one

---
 include/edsp/core/library_info.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index ceee06b..a51d4d1 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -79,7 +79,7 @@ namespace edsp { inline namespace core {
         }
 
         static constexpr std::int32_t major_version() noexcept {
-            return E_VERSION_MINOR;
+            return E_VERSION_MAJOR;
         }
 
         static constexpr std::int32_t patch_version() noexcept {
-- 
2.43.0


From 10d4a111e76d18abdbb224dc9747dc2ca6084428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 62/79] fix: get_build_date returned the build time

---
 bindings/c/src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..008c021 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -43,7 +43,7 @@ const char *get_version() {
 }
 
 const char *get_build_date() {
-    return edsp::library_info::build_time();
+    return edsp::library_info::build_date();
 }
 
 const char *get_build_time() {
-- 
2.43.0


From ff04ee5b3fd6e8e628d821ddf054789314ff8e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 63/79] fix: the logger writes the strings it is given, not
 what follows them in memory

---
 include/edsp/core/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0f52df8..5ba65c1 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -483,13 +483,13 @@ namespace edsp { inline namespace core {
 
     template <typename Char>
     logger& logger::operator<<(const std::basic_string<Char>& str) {
-        msg_ << str.data();
+        msg_ << str;
         return space();
     }
 
     template <typename Char>
     logger& logger::operator<<(const edsp::basic_string_view<Char>& str) {
-        msg_ << str.data();
+        msg_ << str;
         return space();
     }
 
-- 
2.43.0


From 5d244391634d596fecb5b3f36cabdf49453fbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:18 +0000
Subject: [PATCH 64/79] fix: the minimum level of the logger had no effect

---
 include/edsp/core/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 5ba65c1..d4a06d0 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -427,8 +427,10 @@ namespace edsp { inline namespace core {
     logger::logger(logger::levels message_type) : logger(global_name(), "", message_type) {}
 
     logger::~logger() {
-        edsp::endc(*this);
-        std::cout << msg_.str();
+        if (type_ != levels::off && type_ >= default_level()) {
+            edsp::endc(*this);
+            std::cout << msg_.str();
+        }
     }
 
     logger& logger::space() {
-- 
2.43.0


From 6ca7fcced6a48af2944c94026978638f6a434125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:29 +0000
Subject: [PATCH 65/79] fix: peak_abs of the C interface returned the signed
 peak

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From 5253a2a71ab7ead55c1e2ceab5421af71f4905e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:29 +0000
Subject: [PATCH 66/79] fix: python get_environment of a missing variable
 raised instead of reporting the error

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..1e24e99 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data != nullptr ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From e81c9d5cc1556c4444aecf322c18c3f2c6b9d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:16 +0000
Subject: [PATCH 67/79] fix: the tab and endl manipulators of the logger wrote
 numbers

---
 include/edsp/core/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index d4a06d0..7215879 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -224,11 +224,13 @@ namespace edsp { inline namespace core {
     inline namespace internal {
         struct logger_impl {
             inline static logger& tab(logger& stream) {
-                return stream << '\t';
+                stream.msg_ << '\t';
+                return stream;
             }
 
             inline static logger& endl(logger& stream) {
-                return stream << '\n';
+                stream.msg_ << '\n';
+                return stream;
             }
 
             inline static logger& red(logger& stream) {
-- 
2.43.0


From bed5cf6cab726fbfe7dfe3a27a4a7108c8719ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 68/79] fix: python real2complex read its own uninitialised
 result

---
 bindings/python/src/converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 265f9dd..d61b9ac 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -53,7 +53,7 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(result.get_data());
+    auto* real        = reinterpret_cast<real_t*>(input.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
-- 
2.43.0


From a705b3ed37fbcd0baff5e3ff873d57643fcca4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 69/79] fix: python wrappers read arrays of other layouts and
 element types as contiguous doubles

---
 .../include/boost_numpy_dependencies.hpp      | 10 ++++++++
 bindings/python/src/algorithm.cpp             | 21 ++++++++++------
 bindings/python/src/converter.cpp             | 18 +++++++++-----
 bindings/python/src/feature_spectral.cpp      |  9 ++++---
 bindings/python/src/feature_statistics.cpp    |  9 ++++---
 bindings/python/src/feature_temporal.cpp      |  6 +++--
 bindings/python/src/filter.cpp                |  3 ++-
 bindings/python/src/io.cpp                    |  6 +++--
 bindings/python/src/spectral.cpp              | 24 ++++++++++++-------
 bindings/python/src/statistics.cpp            |  3 ++-
 10 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 0a5bd0c..7642370 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -40,4 +40,14 @@ namespace bp = boost::python;
 namespace bn = boost::python::numpy;
 #endif
 
+/**
+ * @brief Returns the elements of a one-dimensional array as contiguous values of type T.
+ *
+ * An array with another layout (a slice, a reversed array, ...) or another type is converted into a new one.
+ */
+template <typename T>
+inline bn::ndarray contiguous(const bn::ndarray& input) {
+    return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 9cf43b0..c747219 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -34,7 +34,8 @@ bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(input_array.get_data());
     auto out             = reinterpret_cast<real_t*>(result.get_data());
     f(in, size, out, arg...);
     return result;
@@ -47,7 +48,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, size, arg...);
 }
 
@@ -127,8 +129,10 @@ bool equal_python(bn::ndarray& first, bn::ndarray& second) {
         return false;
     }
 
-    auto* first_in  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_in  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_in = reinterpret_cast<real_t*>(second_array.get_data());
     return equal(first_in, size, second_in);
 }
 
@@ -141,8 +145,10 @@ bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
     const auto second_size = second.shape(0);
     Py_intptr_t shape[1]   = {first_size + second_size};
     auto result            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* first_in         = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in        = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_in         = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_in        = reinterpret_cast<real_t*>(second_array.get_data());
     auto* result_data      = reinterpret_cast<real_t*>(result.get_data());
 
     array_concatenate(first_in, first_size, second_in, second_size, result_data);
@@ -157,7 +163,8 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     const auto input_size = input.shape(0);
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* in              = reinterpret_cast<real_t*>(input_array.get_data());
     auto* result_data     = reinterpret_cast<real_t*>(result.get_data());
 
     array_padder(in, input_size, result_data, size);
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index d61b9ac..8b4d54b 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -29,7 +29,8 @@ real_t peak2rms_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
 
     return peak2rms(data, size);
 }
@@ -39,7 +40,8 @@ real_t peak2peak_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
 
     return peak2peak(data, size);
 }
@@ -53,7 +55,8 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* real        = reinterpret_cast<real_t*>(input_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
@@ -68,8 +71,10 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real_data   = reinterpret_cast<real_t*>(real.get_data());
-    auto* imag_data   = reinterpret_cast<real_t*>(imag.get_data());
+    const auto real_array = contiguous<real_t>(real);
+    auto* real_data   = reinterpret_cast<real_t*>(real_array.get_data());
+    const auto imag_array = contiguous<real_t>(imag);
+    auto* imag_data   = reinterpret_cast<real_t*>(imag_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     ri2complex(real_data, imag_data, size, result_data);
     return result;
@@ -85,7 +90,8 @@ bp::tuple complex2real_python(bn::ndarray& input) {
     auto real            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto imag            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* complex_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto input_array = contiguous<std::complex<real_t>>(input);
+    auto* complex_data = reinterpret_cast<complex_t*>(input_array.get_data());
     auto* real_data    = reinterpret_cast<real_t*>(real.get_data());
     auto* imag_data    = reinterpret_cast<real_t*>(imag.get_data());
     complex2real(complex_data, size, real_data, imag_data);
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 201a045..f6e7a11 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -41,7 +41,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -51,8 +52,10 @@ auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_array.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index aa7e70b..5a7bebe 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -38,7 +38,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -48,8 +49,10 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_array.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index ceedb3c..51e568f 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -38,7 +38,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, in + size, arg...);
 }
 
@@ -53,7 +54,8 @@ bn::ndarray execute_numpy(Functor&& f, bn::ndarray& input, Args... arg) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
 
-    auto in = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in = reinterpret_cast<real_t*>(input_array.get_data());
     f(in, in + size, data, arg...);
     return result;
 }
diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 2d813af..6a4789a 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -30,7 +30,8 @@ auto wrapper_filter(Class& obj, bn::ndarray& input) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto data            = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto data            = reinterpret_cast<real_t*>(input_array.get_data());
     auto output          = reinterpret_cast<real_t*>(result.get_data());
     obj.filter(data, data + size, output);
     return result;
diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 45b4a13..d10d6d5 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -38,7 +38,8 @@ auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return enc.write(in, in + size);
 }
 
@@ -65,7 +66,8 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     Py_intptr_t shape[1] = {expected_size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(input_array.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
     const auto final_samples   = sizes.second * res.channels();
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 8f3bd56..f6fbae0 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -34,8 +34,10 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* left_data  = reinterpret_cast<real_t*>(left.get_data());
-    auto* right_data = reinterpret_cast<real_t*>(right.get_data());
+    const auto left_array = contiguous<real_t>(left);
+    auto* left_data  = reinterpret_cast<real_t*>(left_array.get_data());
+    const auto right_array = contiguous<real_t>(right);
+    auto* right_data = reinterpret_cast<real_t*>(right_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(left_data, right_data, size, result_data);
     return result;
@@ -51,7 +53,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -67,7 +70,8 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -83,7 +87,8 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -99,7 +104,8 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -115,7 +121,8 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_ifft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto input_array = contiguous<std::complex<real_t>>(input);
+    auto* input_data = reinterpret_cast<complex_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -131,7 +138,8 @@ bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data  = reinterpret_cast<complex_t*>(input.get_data());
+    const auto input_array = contiguous<std::complex<real_t>>(input);
+    auto* input_data  = reinterpret_cast<complex_t*>(input_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index cf684e0..78ad5f6 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -31,7 +31,8 @@ inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, size, arg...);
 }
 
-- 
2.43.0


From fff01ba905e54934d6509225a4ea765f9eca7642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 70/79] fix: python wrappers of two arrays did not check the
 second size and pad accepted smaller sizes

---
 bindings/python/src/algorithm.cpp          | 3 +++
 bindings/python/src/converter.cpp          | 3 +++
 bindings/python/src/feature_spectral.cpp   | 5 ++++-
 bindings/python/src/feature_statistics.cpp | 5 ++++-
 bindings/python/src/spectral.cpp           | 4 ++++
 5 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index c747219..fd024ef 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -161,6 +161,9 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     }
 
     const auto input_size = input.shape(0);
+    if (size < input_size) {
+        throw std::invalid_argument("Expected a size of at least the one of the array");
+    }
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     const auto input_array = contiguous<real_t>(input);
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 8b4d54b..dd331c3 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -68,6 +68,9 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     }
 
     const auto size      = real.shape(0);
+    if (imag.shape(0) != size) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index f6e7a11..e6476bd 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -48,10 +48,13 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 or second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
+    if (second.shape(0) != size) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     const auto first_array = contiguous<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
     const auto second_array = contiguous<real_t>(second);
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 5a7bebe..c627737 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -45,10 +45,13 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 or second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
+    if (second.shape(0) != size) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     const auto first_array = contiguous<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
     const auto second_array = contiguous<real_t>(second);
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index f6fbae0..21842a7 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -31,6 +31,10 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     }
 
     const auto size      = left.shape(0);
+    if (right.shape(0) != size) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
+
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-- 
2.43.0


From 27f89fe68afcdcc29111c77be3e7b1f94d18078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 71/79] fix: python auditory spaces terminated the interpreter
 on a negative size

---
 bindings/python/src/auditory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/auditory.cpp b/bindings/python/src/auditory.cpp
index 323e508..b8e694d 100644
--- a/bindings/python/src/auditory.cpp
+++ b/bindings/python/src/auditory.cpp
@@ -37,7 +37,7 @@ constexpr auto converter_python(Functor&& f, T frequency) noexcept {
 }
 
 template <class Functor, typename T, typename Integer>
-bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) noexcept {
+bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
@@ -77,19 +77,19 @@ real_t erb2hertz(real_t frequency) noexcept {
     return converter_python(edsp::auditory::erb2hertz<real_t>, frequency);
 }
 
-bn::ndarray erbspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray erbspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::erbspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray barkspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray barkspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::barkspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray centspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray centspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::centspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray melspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray melspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::melspace<real_t*, real_t>, min, max, size);
 }
 
-- 
2.43.0


From 0f1b94cb2a3caf7eafb6d3f9e2ccc746a79579e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:12 +0000
Subject: [PATCH 72/79] fix: odd-order filter designs aborted when assertions
 are enabled

The point at infinity of the analog prototype was (inf, inf), which is not a
real number: every odd-order Butterworth and Chebyshev design tripped the
'Expected a real number' contract of complex_pair.
---
 include/edsp/math/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/complex.hpp b/include/edsp/math/complex.hpp
index e5ec2a3..efc7b39 100644
--- a/include/edsp/math/complex.hpp
+++ b/include/edsp/math/complex.hpp
@@ -107,7 +107,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr std::complex<T> infinity() noexcept {
-        return std::complex<T>(std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity());
+        return std::complex<T>(std::numeric_limits<T>::infinity(), 0);
     }
 
 }} // namespace edsp::math
-- 
2.43.0


From b0d320aca37ee97b4782f5f73fbf78907b436517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:33 +0000
Subject: [PATCH 73/79] fix: types/ring_span.hpp could not be included together
 with any, optional, expected or variant

---
 include/edsp/thirdparty/nonstd/ring_span.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/ring_span.hpp b/include/edsp/thirdparty/nonstd/ring_span.hpp
index 1485ff7..43bc288 100644
--- a/include/edsp/thirdparty/nonstd/ring_span.hpp
+++ b/include/edsp/thirdparty/nonstd/ring_span.hpp
@@ -318,7 +318,7 @@ namespace nonstd {
 
     // forward-declare iterator:
 
-    namespace detail {
+    namespace ring_span_detail {
 
         template <class, bool>
         class ring_iterator;
@@ -339,8 +339,8 @@ namespace nonstd {
 
         typedef ring_span<T, Popper> type;
 
-        typedef detail::ring_iterator<type, false> iterator;
-        typedef detail::ring_iterator<type, true> const_iterator;
+        typedef ring_span_detail::ring_iterator<type, false> iterator;
+        typedef ring_span_detail::ring_iterator<type, true> const_iterator;
 
 #    if nsrs_RING_SPAN_LITE_EXTENSION
         typedef std::reverse_iterator<iterator> reverse_iterator;
@@ -579,8 +579,8 @@ namespace nonstd {
         }
 
     private:
-        friend class detail::ring_iterator<ring_span, true>;  // const_iterator;
-        friend class detail::ring_iterator<ring_span, false>; // iterator;
+        friend class ring_span_detail::ring_iterator<ring_span, true>;  // const_iterator;
+        friend class ring_span_detail::ring_iterator<ring_span, false>; // iterator;
 
         size_type normalize_(size_type const idx) const nsrs_noexcept {
             return idx % m_capacity;
@@ -652,7 +652,7 @@ namespace nonstd {
         lhs.swap(rhs);
     }
 
-    namespace detail {
+    namespace ring_span_detail {
 
 //
 // ring iterator:
@@ -815,7 +815,7 @@ class ring_iterator : public std::iterator
             return it;
         }
 
-    } // namespace detail
+    } // namespace ring_span_detail
 } // namespace nonstd
 
 nsrs_RESTORE_WARNINGS()
-- 
2.43.0


From b32db6d5a6b11851170db8dd90493aebd2a3a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:33 +0000
Subject: [PATCH 74/79] fix: random_generator.hpp could not be included before
 perlin_noise_generator.hpp

---
 include/edsp/random/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index 7c47926..0e32e42 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace random {
         PieceWiseLinear    /*<! Produces real values distributed on defined subintervals.  */
     };
 
-    namespace internal {
+    inline namespace internal {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-- 
2.43.0


From d2d8ca692ebda2b4b256735c45b2b7528ec3517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 75/79] fix: headers did not include what they use, meta::data
 was ambiguous for arrays

Several public headers compiled only after another one had been included
(logger, index_of, logspace, rms, moving_average, the window functions, the
decoder, span), and meta::data() could not be called with a built-in array.
---
 include/edsp/algorithm/indexof.hpp                     |  2 ++
 include/edsp/algorithm/logspace.hpp                    |  1 +
 include/edsp/core/logger.hpp                           |  3 +++
 include/edsp/feature/temporal/rms.hpp                  |  1 +
 include/edsp/filter/internal/abstract_designer.hpp     |  1 +
 include/edsp/filter/moving_average_filter.hpp          |  2 ++
 .../io/internal/decoder/libsndfile_decoder_impl.hpp    |  2 ++
 include/edsp/meta/data.hpp                             | 10 ----------
 include/edsp/thirdparty/nonstd/span.hpp                |  4 +---
 include/edsp/windowing/blackman_harris.hpp             |  1 +
 include/edsp/windowing/blackman_nuttall.hpp            |  1 +
 include/edsp/windowing/hanning.hpp                     |  1 +
 12 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/edsp/algorithm/indexof.hpp b/include/edsp/algorithm/indexof.hpp
index 0810692..0083262 100644
--- a/include/edsp/algorithm/indexof.hpp
+++ b/include/edsp/algorithm/indexof.hpp
@@ -24,6 +24,8 @@
 #define EDSP_INDEX_OF_HPP
 
 #include <iterator>
+#include <algorithm>
+#include <cstdint>
 
 namespace edsp { inline namespace algorithm {
 
diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 7f0d182..6e46097 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -23,6 +23,7 @@
 #define EDSP_ALGORITHM_LOGSPACE_H
 
 #include <iterator>
+#include <cmath>
 
 namespace edsp { inline namespace algorithm {
 
diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 7215879..427c691 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -27,8 +27,11 @@
 #include <edsp/types/string_view.hpp>
 #include <edsp/meta/unused.hpp>
 #include <type_traits>
+#include <cstdint>
 #include <sstream>
 #include <functional>
+#include <iostream>
+#include <string>
 
 namespace edsp { inline namespace core {
 
diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index ac287f7..0ae25d3 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -23,6 +23,7 @@
 #define EDSP_STATISTICAL_RMS_H
 
 #include <numeric>
+#include <iterator>
 #include <cmath>
 
 namespace edsp { namespace feature { inline namespace temporal {
diff --git a/include/edsp/filter/internal/abstract_designer.hpp b/include/edsp/filter/internal/abstract_designer.hpp
index bb1ec10..75a1cef 100644
--- a/include/edsp/filter/internal/abstract_designer.hpp
+++ b/include/edsp/filter/internal/abstract_designer.hpp
@@ -24,6 +24,7 @@
 
 #include <edsp/filter/internal/bilinear/layout_base.hpp>
 #include <edsp/filter/biquad_cascade.hpp>
+#include <edsp/math/constant.hpp>
 #include <complex>
 
 namespace edsp { namespace filter {
diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 4f6964a..6ed35af 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -23,6 +23,8 @@
 #define EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 
 #include <edsp/types/ring_buffer.hpp>
+#include <algorithm>
+#include <functional>
 
 namespace edsp { namespace filter {
 
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 79edbe0..dfcdcfb 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -29,7 +29,9 @@
 #include <edsp/meta/advance.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <sndfile.h>
+#include <array>
 #include <cmath>
+#include <string>
 #include <edsp/meta/is_null.hpp>
 
 namespace edsp { namespace io {
diff --git a/include/edsp/meta/data.hpp b/include/edsp/meta/data.hpp
index decb273..cffa884 100644
--- a/include/edsp/meta/data.hpp
+++ b/include/edsp/meta/data.hpp
@@ -47,16 +47,6 @@ namespace edsp { namespace meta {
         return ptr;
     }
 
-    template <class T, std::size_t N>
-    constexpr T* data(T (&array)[N]) noexcept {
-        return array;
-    }
-
-    template <class T, std::size_t N>
-    constexpr const T* data(const T (&array)[N]) noexcept {
-        return array;
-    }
-
     template <class E>
     constexpr const E* data(const std::initializer_list<E>& il) noexcept {
         return il.begin();
diff --git a/include/edsp/thirdparty/nonstd/span.hpp b/include/edsp/thirdparty/nonstd/span.hpp
index 44c9fe5..cfc17dc 100644
--- a/include/edsp/thirdparty/nonstd/span.hpp
+++ b/include/edsp/thirdparty/nonstd/span.hpp
@@ -401,9 +401,7 @@ span_DISABLE_MSVC_WARNINGS(26439 26440 26472 26473 26481 26490)
 #        include <cstdio>
 #    endif
 
-#    if span_CONFIG(CONTRACT_VIOLATION_THROWS_V)
-#        include <stdexcept>
-#    endif
+#    include <stdexcept>
 
 // Contract violation
 
diff --git a/include/edsp/windowing/blackman_harris.hpp b/include/edsp/windowing/blackman_harris.hpp
index 0731ea7..0042828 100644
--- a/include/edsp/windowing/blackman_harris.hpp
+++ b/include/edsp/windowing/blackman_harris.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMANHARRIS_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
diff --git a/include/edsp/windowing/blackman_nuttall.hpp b/include/edsp/windowing/blackman_nuttall.hpp
index 21fdab2..b1fd35d 100644
--- a/include/edsp/windowing/blackman_nuttall.hpp
+++ b/include/edsp/windowing/blackman_nuttall.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMAN_NUTTAL_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 
 namespace edsp { namespace windowing {
diff --git a/include/edsp/windowing/hanning.hpp b/include/edsp/windowing/hanning.hpp
index 82c3fa1..166373f 100644
--- a/include/edsp/windowing/hanning.hpp
+++ b/include/edsp/windowing/hanning.hpp
@@ -23,6 +23,7 @@
 #define EDSP_HANNING_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
-- 
2.43.0


From ab6b19d61694d31597302311791cf0b193f3b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 76/79] fix: any took the value out of the objects it was
 copied from

any(lvalue) and any = lvalue moved from their argument, a copy that threw
terminated the program (noexcept), and any_cast to a reference did not
compile, unlike std::any used by C++17 builds.
---
 include/edsp/thirdparty/nonstd/any.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/any.hpp b/include/edsp/thirdparty/nonstd/any.hpp
index eee470f..b854e1c 100644
--- a/include/edsp/thirdparty/nonstd/any.hpp
+++ b/include/edsp/thirdparty/nonstd/any.hpp
@@ -375,7 +375,7 @@ namespace nonstd {
 
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
-            any(ValueType&& value) any_noexcept : content(new holder<T>(std::move(value))) {}
+            any(ValueType&& value) : content(new holder<T>(std::forward<ValueType>(value))) {}
 
             template <class T, class... Args,
                       typename = typename std::enable_if<std::is_constructible<T, Args...>::value>::type>
@@ -414,7 +414,7 @@ namespace nonstd {
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
             any& operator=(ValueType&& value) {
-                any(std::move(value)).swap(*this);
+                any(std::forward<ValueType>(value)).swap(*this);
                 return *this;
             }
 
@@ -530,8 +530,8 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any const& operand) {
-            const ValueType* result =
-                any_cast<typename detail::add_const<typename detail::remove_reference<ValueType>::type>::type>(
+            const typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename std::remove_cv<typename detail::remove_reference<ValueType>::type>::type>(
                     &operand);
 
             if (!result) {
@@ -549,7 +549,9 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename std::remove_cv<typename detail::remove_reference<ValueType>::type>::type>(
+                    &operand);
 
             if (!result) {
                 throw bad_any_cast();
@@ -568,7 +570,9 @@ namespace nonstd {
 #            endif
                   >
         any_nodiscard inline ValueType any_cast(any&& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename std::remove_cv<typename detail::remove_reference<ValueType>::type>::type>(
+                    &operand);
 
             if (!result) {
                 throw bad_any_cast();
-- 
2.43.0


From 7e06290a157483a0ee0954b75c791d5088036906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 77/79] fix: expected compared all errors as equal and could
 not emplace

Two unexpected results with different errors compared equal, copy assignment
returned a copy, and in-place construction from several arguments did not
compile.
---
 include/edsp/thirdparty/nonstd/expected.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index bbf4631..fb4ed0b 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -859,14 +859,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<T, Args&&...>::value)>
             nsel_constexpr14 explicit expected(nonstd_lite_in_place_t(T), Args&&... args) : has_value_(true) {
-                contained.construct_value(std::forward<Args>(args)...);
+                contained.construct_value(value_type(std::forward<Args>(args)...));
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<T, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(nonstd_lite_in_place_t(T), std::initializer_list<U> il, Args&&... args) :
                 has_value_(true) {
-                contained.construct_value(il, std::forward<Args>(args)...);
+                contained.construct_value(value_type(il, std::forward<Args>(args)...));
             }
 
             template <typename G = E>
@@ -899,14 +899,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<E, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, Args&&... args) : has_value_(false) {
-                contained.construct_error(std::forward<Args>(args)...);
+                contained.construct_error(error_type(std::forward<Args>(args)...));
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<T, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, std::initializer_list<U> il, Args&&... args) :
                 has_value_(false) {
-                contained.construct_error(il, std::forward<Args>(args)...);
+                contained.construct_error(error_type(il, std::forward<Args>(args)...));
             }
 
             // x.x.4.2 destructor
@@ -926,7 +926,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected operator=(expected const& other) {
+            expected& operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
@@ -1206,14 +1206,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<E, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, Args&&... args) : has_value_(false) {
-                contained.construct_error(std::forward<Args>(args)...);
+                contained.construct_error(error_type(std::forward<Args>(args)...));
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<U, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, std::initializer_list<U> il, Args&&... args) :
                 has_value_(false) {
-                contained.construct_error(il, std::forward<Args>(args)...);
+                contained.construct_error(error_type(il, std::forward<Args>(args)...));
             }
 
             // destructor
@@ -1338,7 +1338,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator==(expected<T, E> const& x, expected<T, E> const& y) {
-            return bool(x) != bool(y) ? false : bool(x) == false ? true : *x == *y;
+            return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : *x == *y;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From 225ef9e8f0db7943f0b0e64949f163115844dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 78/79] fix: assigning a variant leaked the value of the same
 alternative

Copy and move assignment between variants holding the same alternative
constructed the new value over the living one.
---
 include/edsp/thirdparty/nonstd/variant.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 8cf0139..99ff308 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1646,13 +1646,11 @@ namespace nonstd {
             }
 
             variant& copy_assign(variant const& other) {
-                if (valueless_by_exception() && other.valueless_by_exception()) {
+                if (this == &other || (valueless_by_exception() && other.valueless_by_exception())) {
                     // no effect
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::copy(other.type_index, other.ptr(), ptr());
                 } else {
                     // alas exception safety with pre-C++11 needs an extra copy:
 
@@ -1671,13 +1669,11 @@ namespace nonstd {
 #        if variant_CPP11_OR_GREATER
 
             variant& move_assign(variant&& other) {
-                if (valueless_by_exception() && other.valueless_by_exception()) {
+                if (this == &other || (valueless_by_exception() && other.valueless_by_exception())) {
                     // no effect
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::move(other.type_index, other.ptr(), ptr());
                 } else {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-- 
2.43.0


From 465ef1051cfbb793b8ff859beea69b278fdb0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:40 +0000
Subject: [PATCH 79/79] fix: string_view searches of empty views overflowed the
 stack

find_last_of and find_last_not_of of an empty view never returned, find of an
empty string failed at the end, and padded output was left aligned by default,
unlike std::string_view used by C++17 builds.
---
 include/edsp/thirdparty/nonstd/string_view.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 37e8e40..ddcee00 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -627,8 +627,9 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr14 size_type find(basic_string_view v, size_type pos = 0) const nssv_noexcept // (1)
             {
                 return assert(v.size() == 0 || v.data() != nssv_nullptr),
-                       pos >= size() ? npos
-                                     : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
+                       pos > size() ? size_type(npos)
+                                    : v.empty() ? pos
+                                    : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
             }
 
             nssv_constexpr14 size_type find(CharT c, size_type pos = 0) const nssv_noexcept // (2)
@@ -705,9 +706,10 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
             nssv_constexpr size_type find_last_of(basic_string_view v, size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size() ? find_last_of(v, size() - 1)
-                                     : to_pos(std::find_first_of(const_reverse_iterator(cbegin() + pos + 1), crend(),
-                                                                 v.cbegin(), v.cend(), Traits::eq));
+                return empty() ? size_type(npos)
+                               : pos >= size() ? find_last_of(v, size() - 1)
+                                               : to_pos(std::find_first_of(const_reverse_iterator(cbegin() + pos + 1),
+                                                                           crend(), v.cbegin(), v.cend(), Traits::eq));
             }
 
             nssv_constexpr size_type find_last_of(CharT c, size_type pos = npos) const nssv_noexcept // (2)
@@ -753,7 +755,9 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr size_type find_last_not_of(basic_string_view v,
                                                       size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size()
+                return empty()
+                           ? size_type(npos)
+                           : pos >= size()
                            ? find_last_not_of(v, size() - 1)
                            : to_pos(std::find_if(const_reverse_iterator(cbegin() + pos + 1), crend(), not_in_view(v)));
             }
@@ -1021,7 +1025,7 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
                 // Whether, and how, to pad:
                 const bool pad      = (length < os.width());
-                const bool left_pad = pad && (os.flags() & std::ios_base::adjustfield) == std::ios_base::right;
+                const bool left_pad = pad && (os.flags() & std::ios_base::adjustfield) != std::ios_base::left;
 
                 if (left_pad)
                     write_padding(os, os.width() - length);
-- 
2.43.0

