From 4c160c978d2556f422cf124d25b7db154204c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 01/35] fix: Rotation rejects matrices that contain NaN

---
 include/huira_impl/core/rotation.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/rotation.ipp b/include/huira_impl/core/rotation.ipp
index 42329bc..71b35c3 100644
--- a/include/huira_impl/core/rotation.ipp
+++ b/include/huira_impl/core/rotation.ipp
@@ -531,7 +531,7 @@ void Rotation<T>::set_matrix_(Mat3<T> matrix)
 {
     constexpr T loose_epsilon = static_cast<T>(1e-3);
     T det = glm::determinant(matrix);
-    if (std::fabs(det - 1.0) > loose_epsilon) {
+    if (!(std::fabs(det - 1.0) <= loose_epsilon)) { // also rejects a NaN determinant
         HUIRA_THROW_ERROR(
             "Rotation matrix must have a determinant close to 1. Given matrix has determinant: " +
             std::to_string(det));
-- 
2.43.0


From 3c9a40d25fd5cd62ee7c42c12ed048ccb73879f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 02/35] fix: Transform::to_matrix is T * R * S in glm's
 column-major layout

---
 include/huira_impl/core/transform.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 9d1af84..065b2c3 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -37,14 +37,14 @@ Mat4<T> Transform<T>::to_matrix() const
     Mat3<T> rot_basis = rotation.local_to_parent_matrix();
     for (int i = 0; i < 3; ++i) {
         for (int j = 0; j < 3; ++j) {
-            result[i][j] = rot_basis[i][j] * scale[j];
+            result[i][j] = rot_basis[i][j] * scale[i]; // column i is the image of axis i
         }
     }
 
     // Apply position
-    result[0][3] = position.x;
-    result[1][3] = position.y;
-    result[2][3] = position.z;
+    result[3][0] = position.x;
+    result[3][1] = position.y;
+    result[3][2] = position.z;
 
     // Set homogeneous coordinate
     result[3][3] = T(1);
-- 
2.43.0


From 728745bcbd8d6f778b6f3758afa8d533d726ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 03/35] fix: Transform::inverse accounts for the rotation of
 the frame in the velocity

---
 include/huira_impl/core/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/core/transform.ipp b/include/huira_impl/core/transform.ipp
index 065b2c3..d1f3012 100644
--- a/include/huira_impl/core/transform.ipp
+++ b/include/huira_impl/core/transform.ipp
@@ -123,7 +123,8 @@ Transform<T> Transform<T>::inverse() const
     result.position = result.rotation * (-position * result.scale);
 
     // Inverse velocity (in the new frame)
-    result.velocity = result.rotation * (-velocity * result.scale);
+    result.velocity =
+        result.rotation * ((glm::cross(angular_velocity, position) - velocity) * result.scale);
 
     // Inverse angular velocity
     result.angular_velocity = result.rotation * (-angular_velocity);
-- 
2.43.0


From da1292bb1c33b097d8b0197b7ce428626fb64b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 04/35] fix: a mile is 1609.344 m

---
 include/huira/units/units.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/units/units.hpp b/include/huira/units/units.hpp
index d738f4b..dbafaae 100644
--- a/include/huira/units/units.hpp
+++ b/include/huira/units/units.hpp
@@ -54,7 +54,7 @@ using AstronomicalUnit = Quantity<Length, std::ratio<149597870700, 1>>;
 
 using Foot = Quantity<Length, std::ratio<381, 1250>>;
 using Yard = Quantity<Length, std::ratio<1143, 1250>>;
-using Mile = Quantity<Length, std::ratio<80467, 50>>;
+using Mile = Quantity<Length, std::ratio<201168, 125>>;
 /// @}
 
 /// @defgroup mass_units Mass Units
-- 
2.43.0


From d33feee8f2b79e119486129bb2ae384e62d88fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 05/35] fix: SpectralBins from a short list leaves the other
 bins zero

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 8c11cee..49b8924 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -35,7 +35,7 @@ constexpr SpectralBins<N, Args...>::SpectralBins(const float& value)
  * @param init Initializer list of float values.
  */
 template <std::size_t N, auto... Args>
-constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> init)
+constexpr SpectralBins<N, Args...>::SpectralBins(std::initializer_list<float> init) : data_{}
 {
     if (init.size() == 1) {
         data_.fill(*init.begin());
-- 
2.43.0


From 95f35bb3d8334ab2fddb6ea022c6edf4c45d1159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 06/35] fix: convert_rgb_to_spectral tests the overlap with all
 three RGB bands

---
 include/huira_impl/core/spectral_bins.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/spectral_bins.ipp b/include/huira_impl/core/spectral_bins.ipp
index 49b8924..1e2bbfd 100644
--- a/include/huira_impl/core/spectral_bins.ipp
+++ b/include/huira_impl/core/spectral_bins.ipp
@@ -799,7 +799,7 @@ TSpectral convert_rgb_to_spectral(const RGB& rgb)
         // Determine overlap between TSpectral's full range and RGB's full range
         constexpr double spectral_min = TSpectral::get_bin(0).min_wavelength;
         constexpr double spectral_max = TSpectral::get_bin(TSpectral::size() - 1).max_wavelength;
-        constexpr double rgb_min = RGB::get_bin(0).min_wavelength; // 380nm (blue bin min)
+        constexpr double rgb_min = RGB::get_bin(RGB::size() - 1).min_wavelength; // 380nm (blue bin min)
         constexpr double rgb_max = RGB::get_bin(0).max_wavelength; // 750nm (red bin max)
 
         constexpr double overlap_min = std::max(spectral_min, rgb_min);
-- 
2.43.0


From a28bcbb2e175fed1ec5bb6fd38208da0a68c3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 07/35] fix: aberrated directions stay unit vectors

---
 include/huira_impl/core/physics.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index b2a6204..eb2c557 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -249,16 +249,16 @@ inline Vec3<double> compute_aberrated_direction(Vec3<double> direction, Vec3<dou
 
         // Relativistic Aberration Formula
         //    Transforms the direction vector 'u' into the moving frame 'u_app'.
-        //    Formula: u_app = (u + beta + (gamma / (1+gamma)) * (u . beta) * beta)
-        //                     ----------------------------------------------------
-        //                             gamma * (1 + u . beta)
+        //    Formula: u_app = (u / gamma + beta + (gamma / (1+gamma)) * (u . beta) * beta)
+        //                     ------------------------------------------------------------
+        //                                  (1 + u . beta)
         //
         // Because 'u' is (Observer -> Object) and we move 'v',
         // the object should appear shifted TOWARDS 'v'.
         // (u + beta) in the numerator achieves this correctly.
 
-        Vec3<double> num = direction + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
-        double den = gamma * (1.0 + u_dot_beta);
+        Vec3<double> num = direction / gamma + beta + (gamma / (1.0 + gamma)) * u_dot_beta * beta;
+        double den = 1.0 + u_dot_beta;
 
         return num / den;
     } else {
-- 
2.43.0


From 6200ffe9f3fac9a2f0f699caa598cacfaa55f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 08/35] fix: linspace with a single sample divided by zero

---
 include/huira_impl/core/physics.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index eb2c557..4e0523f 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -61,7 +61,7 @@ template <IsFloatingPoint T>
 std::vector<T> linspace(T min, T max, size_t N)
 {
     std::vector<T> output(N);
-    T step = (max - min) / static_cast<T>(N - 1);
+    T step = (N > 1) ? (max - min) / static_cast<T>(N - 1) : T(0);
     for (size_t i = 0; i < N; ++i) {
         output[i] = min + (static_cast<T>(i) * step);
     }
-- 
2.43.0


From 34a1eb2919c26e392f6f8595c4db0bfef10b1af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 09/35] fix: integrate over empty data read out of bounds

---
 include/huira_impl/core/physics.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/core/physics.ipp b/include/huira_impl/core/physics.ipp
index 4e0523f..82fa6fe 100644
--- a/include/huira_impl/core/physics.ipp
+++ b/include/huira_impl/core/physics.ipp
@@ -221,7 +221,7 @@ TSpectral visual_magnitude_to_irradiance(double visual_magnitude, TSpectral albe
 inline double integrate(const std::vector<double>& x, const std::vector<double>& y)
 {
     double sum = 0.0;
-    for (size_t i = 0; i < x.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < x.size(); ++i) {
         double dx = x[i + 1] - x[i];
         double avg_y = 0.5 * (y[i] + y[i + 1]);
         sum += avg_y * dx;
-- 
2.43.0


From e1b4e78397ce341c66232d239eec19a582a89d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 10/35] fix: float_to_integer cast NaN and values past the
 integer range

---
 include/huira_impl/images/io/convert_pixel.ipp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index bb12849..6505f4e 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -100,7 +100,12 @@ template <IsUnsignedInteger T>
 T float_to_integer(float value, float min_range, float max_range)
 {
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
+    if (!(normalized > 0.0f)) { // also NaN
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) { // the largest 32 and 64 bit values are not floats
+        return std::numeric_limits<T>::max();
+    }
     return static_cast<T>(normalized * static_cast<float>(std::numeric_limits<T>::max()) + 0.5f);
 }
 
@@ -111,7 +116,12 @@ T float_to_integer(float value, float min_range, float max_range)
     float type_max = static_cast<float>(std::numeric_limits<T>::max());
 
     float normalized = (value - min_range) / (max_range - min_range);
-    normalized = std::clamp(normalized, 0.0f, 1.0f);
+    if (!(normalized > 0.0f)) { // also NaN
+        return std::numeric_limits<T>::min();
+    }
+    if (normalized >= 1.0f) { // the largest 32 and 64 bit values are not floats
+        return std::numeric_limits<T>::max();
+    }
 
     return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
 }
-- 
2.43.0


From aad47b7e5b4c11b9bd2f624402e4b396128ef019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 11/35] fix: float_to_integer rounds negative values to the
 nearest integer

---
 include/huira_impl/images/io/convert_pixel.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/images/io/convert_pixel.ipp b/include/huira_impl/images/io/convert_pixel.ipp
index 6505f4e..fe83564 100644
--- a/include/huira_impl/images/io/convert_pixel.ipp
+++ b/include/huira_impl/images/io/convert_pixel.ipp
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <limits>
 
 #include "huira/concepts/numeric_concepts.hpp"
@@ -123,6 +124,6 @@ T float_to_integer(float value, float min_range, float max_range)
         return std::numeric_limits<T>::max();
     }
 
-    return static_cast<T>(type_min + normalized * (type_max - type_min) + 0.5f);
+    return static_cast<T>(std::floor(type_min + normalized * (type_max - type_min) + 0.5f));
 }
 } // namespace huira
-- 
2.43.0


From 21e2b0a6a9ee8d1a126561797cdb980106b7dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 12/35] fix: Image::at rejects negative and NaN coordinates

---
 include/huira_impl/images/image.ipp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 6d583b0..59e0148 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -290,7 +290,7 @@ const PixelT& Image<PixelT>::at(std::size_t index) const
 template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(int x, int y)
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -307,7 +307,7 @@ PixelT& Image<PixelT>::at(int x, int y)
 template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(int x, int y) const
 {
-    if (x >= resolution_.width || y >= resolution_.height) {
+    if (x < 0 || y < 0 || x >= resolution_.width || y >= resolution_.height) {
         HUIRA_THROW_ERROR("Image::at: coordinates out of bounds");
     }
     return data_[to_linear(x, y)];
@@ -326,11 +326,13 @@ template <IsImagePixel PixelT>
 PixelT& Image<PixelT>::at(const Pixel& pixel)
 {
     // TODO Do proper rounding/conversion
-    auto x = static_cast<int>(pixel.x);
-    auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    // Tested before the cast, which is undefined for NaN and rounds small negative values to 0
+    if (!(pixel.x >= 0.f && pixel.y >= 0.f && pixel.x < static_cast<float>(resolution_.width) &&
+          pixel.y < static_cast<float>(resolution_.height))) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
+    auto x = static_cast<int>(pixel.x);
+    auto y = static_cast<int>(pixel.y);
     return data_[to_linear(x, y)];
 }
 
@@ -347,11 +349,13 @@ template <IsImagePixel PixelT>
 const PixelT& Image<PixelT>::at(const Pixel& pixel) const
 {
     // TODO Do proper rounding/conversion
-    auto x = static_cast<int>(pixel.x);
-    auto y = static_cast<int>(pixel.y);
-    if (x >= resolution_.width || y >= resolution_.height) {
+    // Tested before the cast, which is undefined for NaN and rounds small negative values to 0
+    if (!(pixel.x >= 0.f && pixel.y >= 0.f && pixel.x < static_cast<float>(resolution_.width) &&
+          pixel.y < static_cast<float>(resolution_.height))) {
         HUIRA_THROW_ERROR("Image::at: pixel coordinates out of bounds");
     }
+    auto x = static_cast<int>(pixel.x);
+    auto y = static_cast<int>(pixel.y);
     return data_[to_linear(x, y)];
 }
 
-- 
2.43.0


From 7c1cd5a012ff36ff73a83f7a63818ad7707e8da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 13/35] fix: image sampling at NaN, infinite and huge
 coordinates read out of bounds

---
 include/huira_impl/images/image.ipp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 59e0148..69a7847 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -596,6 +596,9 @@ template <IsImagePixel PixelT>
 template <WrapMode W>
 float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
 {
+    if (!std::isfinite(coord)) {
+        return 0.0f;
+    }
     if constexpr (W == WrapMode::Clamp) {
         return std::clamp(coord, 0.0f, max);
     } else if constexpr (W == WrapMode::Repeat) {
@@ -605,11 +608,9 @@ float Image<PixelT>::wrap_coordinate(float coord, float max) const noexcept
         }
         return coord;
     } else if constexpr (W == WrapMode::Mirror) {
-        coord = std::fabs(coord);
-        int period = static_cast<int>(coord / max);
-        coord = std::fmod(coord, max);
-        if (period % 2 == 1) {
-            coord = max - coord;
+        coord = std::fmod(std::fabs(coord), 2.0f * max);
+        if (coord > max) {
+            coord = 2.0f * max - coord;
         }
         return std::clamp(coord, 0.0f, max);
     } else {
-- 
2.43.0


From c0149c2d7bcefff04902c7181efd9257f97a58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 14/35] fix: small kernels are convolved, not correlated, as
 large ones are

---
 include/huira_impl/images/image.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/images/image.ipp b/include/huira_impl/images/image.ipp
index 69a7847..40a51f6 100644
--- a/include/huira_impl/images/image.ipp
+++ b/include/huira_impl/images/image.ipp
@@ -632,12 +632,12 @@ void Image<PixelT>::convolve_direct_(const Image<PixelT>& kernel)
         for (int x = 0; x < this->width(); ++x) {
             PixelT sum{};
             for (int ky = 0; ky < kh; ++ky) {
-                int sy = y + ky - kcy;
+                int sy = y - ky + kcy;
                 if (sy < 0 || sy >= this->height()) {
                     continue;
                 }
                 for (int kx = 0; kx < kw; ++kx) {
-                    int sx = x + kx - kcx;
+                    int sx = x - kx + kcx;
                     if (sx < 0 || sx >= this->width()) {
                         continue;
                     }
-- 
2.43.0


From f4a18c5bb40cd7075743f783e19addf914fcc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 15/35] fix: OpenCV distortion added the whole radial factor
 instead of its excess over one

---
 include/huira_impl/cameras/distortion/opencv_distortion.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/distortion/opencv_distortion.ipp b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
index 6040246..23b58ff 100644
--- a/include/huira_impl/cameras/distortion/opencv_distortion.ipp
+++ b/include/huira_impl/cameras/distortion/opencv_distortion.ipp
@@ -71,7 +71,7 @@ OpenCVDistortion<TSpectral>::compute_delta_(BasePixel<TFloat> homogeneous_coords
             static_cast<TFloat>(coefficients_.s3) * r2 +
             static_cast<TFloat>(coefficients_.s4) * r4};
 
-    return radial_factor * homogeneous_coords_tf + tangential_and_prism;
+    return (radial_factor - TFloat{1}) * homogeneous_coords_tf + tangential_and_prism;
 }
 
 /**
-- 
2.43.0


From 7664e5530c1b82440ae0a65fa320c418bcb45684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 16/35] fix: DeterministicSampler default constructor called a
 number as a function

---
 include/huira/render/sampler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira/render/sampler.hpp b/include/huira/render/sampler.hpp
index f27ccb7..94933da 100644
--- a/include/huira/render/sampler.hpp
+++ b/include/huira/render/sampler.hpp
@@ -32,7 +32,7 @@ class RandomSampler : public Sampler<TFloat> {
 template <IsFloatingPoint TFloat>
 class DeterministicSampler : public Sampler<TFloat> {
   public:
-    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5)(0.5)} {}
+    DeterministicSampler() : value_1d(TFloat(0.5)), value_2d{TFloat(0.5), TFloat(0.5)} {}
     DeterministicSampler(TFloat v1d, Vec2<TFloat> v2d) : value_1d(v1d), value_2d(v2d) {}
 
     TFloat get_1d() override { return value_1d; }
-- 
2.43.0


From 75e8e24104876182feb34fd7c58925f1a33f0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 17/35] fix: offset_intersection_ overflowed an integer for
 coordinates at and just below zero

---
 include/huira_impl/render/interaction.ipp | 30 ++++++++++-------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/huira_impl/render/interaction.ipp b/include/huira_impl/render/interaction.ipp
index ca9889c..4b4a33f 100644
--- a/include/huira_impl/render/interaction.ipp
+++ b/include/huira_impl/render/interaction.ipp
@@ -1,4 +1,3 @@
-#include <array>
 #include <cmath>
 #include <cstdint>
 #include <cstring>
@@ -118,24 +117,21 @@ inline Vec3<T> offset_intersection_(Vec3<T> intersection, const Vec3<T>& N)
 {
     using IntType = std::conditional_t<std::is_same_v<T, float>, int32_t, int64_t>;
 
-    std::array<IntType, 3> offset_int{static_cast<IntType>(int_scale<T>() * N.x),
-                                      static_cast<IntType>(int_scale<T>() * N.y),
-                                      static_cast<IntType>(int_scale<T>() * N.z)};
-
-    const Vec3<T> offset_result{
-        int_as_float(float_as_int(intersection.x) +
-                     (intersection.x < 0 ? -offset_int[0] : offset_int[0])),
-        int_as_float(float_as_int(intersection.y) +
-                     (intersection.y < 0 ? -offset_int[1] : offset_int[1])),
-        int_as_float(float_as_int(intersection.z) +
-                     (intersection.z < 0 ? -offset_int[2] : offset_int[2]))};
-
     const T threshold = origin<T>();
     const T scale = float_scale<T>();
 
-    return Vec3<T>{
-        std::abs(intersection.x) < threshold ? intersection.x + scale * N.x : offset_result.x,
-        std::abs(intersection.y) < threshold ? intersection.y + scale * N.y : offset_result.y,
-        std::abs(intersection.z) < threshold ? intersection.z + scale * N.z : offset_result.z};
+    // Coordinates near zero are moved in floating-point space only: stepping the bit pattern of a
+    // negative value close to zero overflows the integer.
+    const auto offset = [&](T p, T n) -> T {
+        if (std::abs(p) < threshold) {
+            return p + scale * n;
+        }
+        const IntType offset_int = static_cast<IntType>(int_scale<T>() * n);
+        return int_as_float(float_as_int(p) + (p < 0 ? -offset_int : offset_int));
+    };
+
+    return Vec3<T>{offset(intersection.x, N.x),
+                   offset(intersection.y, N.y),
+                   offset(intersection.z, N.z)};
 }
 } // namespace huira
-- 
2.43.0


From 38772dd0376eb52b3fec53f8b7595fdf67564d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 18/35] fix: GGX highlight of polished surfaces was infinite in
 single precision

---
 include/huira/materials/sampling_utils.hpp                | 4 ++--
 include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/huira/materials/sampling_utils.hpp b/include/huira/materials/sampling_utils.hpp
index 329b3aa..7841106 100644
--- a/include/huira/materials/sampling_utils.hpp
+++ b/include/huira/materials/sampling_utils.hpp
@@ -102,7 +102,7 @@ ggx_sample_half_vector(float u1, float u2, float roughness) noexcept
 
     const Vec3<float> h = {sin_theta * std::cos(phi), sin_theta * std::sin(phi), cos_theta};
 
-    const float denom = cos_theta2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom = (1.0f - cos_theta2) + cos_theta2 * alpha2;
     const float D = alpha2 / (std::numbers::pi_v<float> * denom * denom);
     const float pdf = D * cos_theta;
 
@@ -148,7 +148,7 @@ ggx_vndf_sample(const Vec3<float>& wo, float roughness, float u1, float u2) noex
     const float cos_theta_h = h.z;
     const float cos_theta_h2 = cos_theta_h * cos_theta_h;
     const float alpha2 = alpha * alpha;
-    const float denom_D = cos_theta_h2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom_D = (1.0f - cos_theta_h2) + cos_theta_h2 * alpha2;
     const float D = alpha2 / (std::numbers::pi_v<float> * denom_D * denom_D);
 
     const float cos_theta_o = wo.z;
diff --git a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
index 756a47b..3dc0bbb 100644
--- a/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
+++ b/include/huira_impl/materials/bsdfs/cook_torrance_bsdf.ipp
@@ -171,7 +171,7 @@ template <IsSpectral TSpectral>
 float CookTorranceBSDF<TSpectral>::ggx_D(float n_dot_h, float alpha2) noexcept
 {
     const float cos2 = n_dot_h * n_dot_h;
-    const float denom = cos2 * (alpha2 - 1.0f) + 1.0f;
+    const float denom = (1.0f - cos2) + cos2 * alpha2;
     return alpha2 / (std::numbers::pi_v<float> * denom * denom);
 }
 
-- 
2.43.0


From c84b676ec611c66890499be65f4544d839f094a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 19/35] fix: MediumStack lost track of overlapping volumes left
 in order of entry

---
 include/huira/volumes/medium_stack.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/huira/volumes/medium_stack.hpp b/include/huira/volumes/medium_stack.hpp
index 3c952a0..fac2ed6 100644
--- a/include/huira/volumes/medium_stack.hpp
+++ b/include/huira/volumes/medium_stack.hpp
@@ -53,9 +53,18 @@ class MediumStack {
             return;
         }
 
-        if (size_ > 0 && entries_[size_ - 1].primitive == primitive) {
-            --size_;
-        } else if (size_ < CAPACITY) {
+        // Overlapping volumes need not be left in the reverse order of entry.
+        for (std::size_t i = size_; i > 0; --i) {
+            if (entries_[i - 1].primitive == primitive) {
+                for (std::size_t j = i; j < size_; ++j) {
+                    entries_[j - 1] = entries_[j];
+                }
+                --size_;
+                return;
+            }
+        }
+
+        if (size_ < CAPACITY) {
             entries_[size_] = {primitive, medium};
             ++size_;
         }
-- 
2.43.0


From 97d93bb437cc5899a4fc92aaed933aa352c9938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 20/35] fix: a ray grazing an Ellipsoid at its own origin was
 given a NaN distance

---
 include/huira_impl/geometry/ellipsoid.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index 030b8a0..b767c71 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -128,7 +128,8 @@ void Ellipsoid<TSpectral>::intersect_callback(const RTCIntersectFunctionNArgumen
     float sqrt_disc = std::sqrt(discriminant);
     float q = -0.5f * (B + std::copysign(sqrt_disc, B));
     float t0_u = q;
-    float t1_u = C / q;
+    // q vanishes when the ray starts on the surface and grazes it; both roots are then zero
+    float t1_u = (q != 0.0f) ? C / q : 0.0f;
 
     if (t0_u > t1_u) {
         std::swap(t0_u, t1_u);
-- 
2.43.0


From 636fc070b74792ae66cce0932b7e259652c1cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 21/35] fix: tangents of Ellipsoids thinner than 0.1 mm were
 wrong or NaN away from the poles

---
 include/huira_impl/geometry/ellipsoid.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/geometry/ellipsoid.ipp b/include/huira_impl/geometry/ellipsoid.ipp
index b767c71..472b329 100644
--- a/include/huira_impl/geometry/ellipsoid.ipp
+++ b/include/huira_impl/geometry/ellipsoid.ipp
@@ -36,7 +36,7 @@ void Ellipsoid<TSpectral>::compute_surface_interaction(const HitRecord& hit,
     Vec3<float> dpdu = {-radii_.x * sin_theta * sin_phi, radii_.y * sin_theta * cos_phi, 0.0f};
 
     // Handle singularity at the poles
-    if (glm::dot(dpdu, dpdu) < 1e-8f) {
+    if (glm::dot(dpdu, dpdu) <= 0.0f) {
         dpdu = {1.0f, 0.0f, 0.0f};
     }
 
-- 
2.43.0


From 48ba10ff89e33a3c1b8f0a516af846166c8be5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 22/35] fix: TrajectoryArc missed or misplaced plane crossings
 where the cubic has one real root

---
 include/huira_impl/render/trajectory_arc.ipp | 21 ++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/huira_impl/render/trajectory_arc.ipp b/include/huira_impl/render/trajectory_arc.ipp
index 769d5bd..d482b4f 100644
--- a/include/huira_impl/render/trajectory_arc.ipp
+++ b/include/huira_impl/render/trajectory_arc.ipp
@@ -345,16 +345,17 @@ TrajectoryArc::solve_cubic_(float a, float b, float c, float d, float t_min, flo
             }
         }
     } else if (discriminant < -eps) {
-        float sqrtQ3 = std::sqrt(-A / 3.0f);
-        float cosh_val = std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3) * 1.5f;
-
-        float u;
-        if (A < 0.0f) {
-            float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
-            u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
-        } else {
-            float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
-            u = -2.0f * std::copysign(std::sqrt(A / 3.0f), B) * std::sinh(asinh_val / 3.0f);
+        float u = std::cbrt(-B);
+        if (A != 0.0f) {
+            float sqrtQ3 = std::sqrt(std::abs(A) / 3.0f);
+            float cosh_val = 0.5f * std::abs(B) / (sqrtQ3 * sqrtQ3 * sqrtQ3);
+            if (A < 0.0f) {
+                float acosh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val - 1.0f));
+                u = -2.0f * std::copysign(sqrtQ3, B) * std::cosh(acosh_val / 3.0f);
+            } else {
+                float asinh_val = std::log(cosh_val + std::sqrt(cosh_val * cosh_val + 1.0f));
+                u = -2.0f * std::copysign(sqrtQ3, B) * std::sinh(asinh_val / 3.0f);
+            }
         }
 
         float t = u + offset;
-- 
2.43.0


From 890bdad085e1b418a26d098ea9a551b7b995de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 23/35] fix: UnresolvedAsteroid multiplied its distances by the
 astronomical unit instead of dividing

---
 include/huira_impl/assets/unresolved/unresolved_asteroid.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
index c925429..919a9f1 100644
--- a/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_asteroid.ipp
@@ -179,8 +179,8 @@ void UnresolvedAsteroid<TSpectral>::resolve_irradiance(
             double phi2 = asteroid_phi2(alpha_rad);
             double reduced_mag = H_ - 2.5 * std::log10((1.0 - G_) * phi1 + G_ * phi2);
 
-            double r_au = r_m * AU<double>();
-            double delta_au = delta_m * AU<double>();
+            double r_au = r_m / AU<double>();
+            double delta_au = delta_m / AU<double>();
             double apparent_visual_mag = reduced_mag + 5.0 * std::log10(r_au * delta_au);
 
             TSpectral computed_irradiance =
-- 
2.43.0


From 248550522c998a9652dc7f2e7cbf753b06065b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:28 +0000
Subject: [PATCH 24/35] fix: a SphereLight of a total power emitted that power
 in every spectral bin

---
 include/huira_impl/assets/lights/sphere_light.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/lights/sphere_light.ipp b/include/huira_impl/assets/lights/sphere_light.ipp
index 1a7bd93..84183c1 100644
--- a/include/huira_impl/assets/lights/sphere_light.ipp
+++ b/include/huira_impl/assets/lights/sphere_light.ipp
@@ -72,7 +72,7 @@ void SphereLight<TSpectral>::set_spectral_power(const units::Watt& power)
 
     // L = Phi / (4 * pi^2 * r^2)
     float surface_area = 4.0f * PI<float>() * radius_ * radius_;
-    this->radiance_ = TSpectral{power_si / (PI<float>() * surface_area)};
+    this->radiance_ = TSpectral::from_total(power_si / (PI<float>() * surface_area));
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From 134e26d504e90aeea63d42006ca5f2a650b32e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 25/35] fix: an UnresolvedLambertianSphere reflected only three
 eighths of the light its albedo says

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 01292a0..4b96b7f 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -142,8 +142,9 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
 
+            // The phase function integrates to 3 pi / 2 over all directions
             TSpectral reflected_irradiance =
-                reflectedPower / (4 * PI<float>() * distance * distance);
+                reflectedPower / (1.5f * PI<float>() * distance * distance);
 
             if (!reflected_irradiance.valid()) {
                 HUIRA_THROW_ERROR("UnresolvedLambertianSphere::resolve_irradiance - Computed "
-- 
2.43.0


From 3887c5d78d3a89e3abf4ecb80d40a27190f87c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 26/35] fix: an UnresolvedLambertianSphere lit from behind the
 observer could have NaN irradiance

---
 include/huira_impl/assets/unresolved/unresolved_sphere.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
index 4b96b7f..21b3bbb 100644
--- a/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
+++ b/include/huira_impl/assets/unresolved/unresolved_sphere.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cmath>
 #include <memory>
 #include <vector>
@@ -137,7 +138,7 @@ void UnresolvedLambertianSphere<TSpectral>::resolve_irradiance(
             TSpectral incident_irradiance =
                 light_->irradiance_at(self_transform.position, light_inst.transforms[0]);
 
-            float phase = std::acos(glm::dot(V, L));
+            float phase = std::acos(std::clamp(glm::dot(V, L), -1.0f, 1.0f));
             float A = PI<float>() * radius_ * radius_; // Cross-sectional area
             TSpectral reflectedPower =
                 albedo_ * A * incident_irradiance * lambert_phase_function(phase);
-- 
2.43.0


From 891686378fec13ae7cab445eb1735ec9dfa0597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:08 +0000
Subject: [PATCH 27/35] fix: CameraModel::set_intrinsic_matrix read the
 principal point from the wrong elements

---
 include/huira_impl/cameras/camera_model.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 7be37bc..052beb0 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -228,8 +228,8 @@ void CameraModel<TSpectral>::set_intrinsic_matrix(const Mat3<float>& intrinsic_m
 {
     this->set_intrinsics(intrinsic_matrix[0][0],
                          intrinsic_matrix[1][1],
-                         intrinsic_matrix[0][2],
-                         intrinsic_matrix[1][2],
+                         intrinsic_matrix[2][0],
+                         intrinsic_matrix[2][1],
                          resolution,
                          anchor_focal_length);
 }
-- 
2.43.0


From dbe31a127cea2d8b8f104ad40ecc008f9545d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 28/35] fix: CameraModel::set_focal_length kept the value that
 it rejected

---
 include/huira_impl/cameras/camera_model.ipp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 052beb0..1307411 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -33,15 +33,17 @@ CameraModel<TSpectral>::CameraModel()
 template <IsSpectral TSpectral>
 void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
 {
-    is_explicit_matrix_ = false;
-    focal_length_ = focal_length.to_si_f();
+    float f_si = focal_length.to_si_f();
 
-    if (focal_length_ <= 0 || std::isinf(focal_length_) || std::isnan(focal_length_)) {
+    if (f_si <= 0 || std::isinf(f_si) || std::isnan(f_si)) {
         HUIRA_THROW_ERROR(
             "CameraModel::set_focal_length - Focal length must be a positive finite value: " +
-            std::to_string(focal_length_));
+            std::to_string(f_si));
     }
 
+    is_explicit_matrix_ = false;
+    focal_length_ = f_si;
+
     compute_intrinsics_();
     if (use_aperture_psf_) {
         units::Meter f(focal_length_);
-- 
2.43.0


From 6ac8cb50004762fec823e7bae4eda524d88476f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 29/35] fix: CameraModel kept directions, frustum and solid
 angles of an earlier sensor, distortion or convention

---
 include/huira/cameras/camera_model.hpp      | 12 ++++++++++--
 include/huira_impl/cameras/camera_model.ipp |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index f4aa44e..0ad4cb3 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -62,7 +62,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
     void set_opencv_distortion(OpenCVCoefficients coeffs);
     void set_owen_distortion(OwenCoefficients coeffs);
 
-    void delete_distortion() { distortion_ = nullptr; }
+    void delete_distortion()
+    {
+        distortion_ = nullptr;
+        compute_intrinsics_();
+    }
 
     template <IsSensor<TSpectral> TSensor, typename... Args>
     void set_sensor(Args&&... args);
@@ -152,7 +156,11 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
         return FrameBuffer<TSpectral>(resolution());
     }
 
-    void use_blender_convention(bool value = true) { blender_convention_ = value; }
+    void use_blender_convention(bool value = true)
+    {
+        blender_convention_ = value;
+        compute_intrinsics_();
+    }
     bool is_blender_convention() const { return blender_convention_; }
 
   protected:
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 1307411..035c945 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -65,8 +65,7 @@ template <IsDistortion<TSpectral> TDistortion, typename... Args>
 void CameraModel<TSpectral>::set_distortion(Args&&... args)
 {
     distortion_ = std::make_unique<TDistortion>(std::forward<Args>(args)...);
-    compute_distortion_field_();
-    compute_frustum_();
+    compute_intrinsics_();
 }
 
 /**
@@ -611,6 +610,9 @@ void CameraModel<TSpectral>::compute_intrinsics_()
         fy_ = focal_length_ / sensor_->pixel_pitch().y;
     }
 
+    if (distortion_) {
+        compute_distortion_field_();
+    }
     compute_frustum_();
     compute_pixel_solid_angles_();
 }
-- 
2.43.0


From e030789cfa574625c92eda5d3119c85b694c2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 30/35] fix: CameraModel kept the defocus and diffraction
 kernels of an earlier aperture, focal length or sensor

---
 include/huira/cameras/camera_model.hpp      |  1 +
 include/huira_impl/cameras/camera_model.ipp | 37 +++++++++++----------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/include/huira/cameras/camera_model.hpp b/include/huira/cameras/camera_model.hpp
index 0ad4cb3..1454f20 100644
--- a/include/huira/cameras/camera_model.hpp
+++ b/include/huira/cameras/camera_model.hpp
@@ -193,6 +193,7 @@ class CameraModel : public SceneObject<CameraModel<TSpectral>> {
 
     bool is_explicit_matrix_ = false;
     void compute_intrinsics_();
+    void update_kernels_();
 
     bool depth_of_field_ = false;
 
diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index 035c945..e3ca154 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -45,12 +45,6 @@ void CameraModel<TSpectral>::set_focal_length(units::Millimeter focal_length)
     focal_length_ = f_si;
 
     compute_intrinsics_();
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
 }
 
 /**
@@ -293,6 +287,7 @@ template <IsAperture TAperture, typename... Args>
 void CameraModel<TSpectral>::set_aperture(Args&&... args)
 {
     aperture_ = std::make_unique<TAperture>(std::forward<Args>(args)...);
+    update_kernels_();
 }
 
 /**
@@ -408,11 +403,7 @@ void CameraModel<TSpectral>::set_focus_distance(units::Meter focus_distance)
         HUIRA_THROW_ERROR("CameraModel::set_focus_distance - Focus distance is too small");
     }
     d_ = focus_distance_;
-
-    units::Meter pitch_x(sensor_->pixel_pitch().x);
-    units::Meter pitch_y(sensor_->pixel_pitch().y);
-    this->aperture_->build_defocus_kernel(
-        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
+    update_kernels_();
 }
 
 /**
@@ -576,12 +567,7 @@ void CameraModel<TSpectral>::set_fstop(float fstop)
     units::Meter aperture_diameter(focal_length_ / fstop);
     units::SquareMeter aperture_area = PI<float>() * (aperture_diameter * aperture_diameter) / 4.f;
     this->aperture_->set_area(aperture_area);
-    if (use_aperture_psf_) {
-        units::Meter f(focal_length_);
-        units::Meter px(sensor_->pixel_pitch().x);
-        units::Meter py(sensor_->pixel_pitch().y);
-        psf_ = aperture_->make_psf(f, px, py, psf_->get_radius(), psf_->get_banks());
-    }
+    update_kernels_();
 }
 
 /**
@@ -615,6 +601,23 @@ void CameraModel<TSpectral>::compute_intrinsics_()
     }
     compute_frustum_();
     compute_pixel_solid_angles_();
+    update_kernels_();
+}
+
+/**
+ * @brief Rebuild the diffraction and defocus kernels for the current optics and sensor.
+ */
+template <IsSpectral TSpectral>
+void CameraModel<TSpectral>::update_kernels_()
+{
+    units::Meter pitch_x(sensor_->pixel_pitch().x);
+    units::Meter pitch_y(sensor_->pixel_pitch().y);
+    if (use_aperture_psf_) {
+        units::Meter f(focal_length_);
+        psf_ = aperture_->make_psf(f, pitch_x, pitch_y, psf_->get_radius(), psf_->get_banks());
+    }
+    this->aperture_->build_defocus_kernel(
+        this->get_diopters(), this->focal_length(), pitch_x, pitch_y, 16);
 }
 
 template <IsSpectral TSpectral>
-- 
2.43.0


From ab73df0c37a6a1a4b626f4abc6cd2ba378da6d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:04 +0000
Subject: [PATCH 31/35] fix: a distorted CameraModel focused on a sphere
 instead of the plane at its focus distance

---
 include/huira_impl/cameras/camera_model.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/huira_impl/cameras/camera_model.ipp b/include/huira_impl/cameras/camera_model.ipp
index e3ca154..e0432c8 100644
--- a/include/huira_impl/cameras/camera_model.ipp
+++ b/include/huira_impl/cameras/camera_model.ipp
@@ -494,7 +494,7 @@ Ray<TSpectral> CameraModel<TSpectral>::cast_ray(const Pixel& pixel, Sampler<floa
         Vec3<float> aperture_point{aperture_sample.x, aperture_sample.y, 0.f};
 
         if (!std::isinf(d_)) {
-            Vec3<float> focal_point = direction * d_;
+            Vec3<float> focal_point = direction * (d_ / std::abs(direction.z));
             direction = focal_point - aperture_point;
         }
         origin = aperture_point;
-- 
2.43.0


From 8a93bb1c72a398db3085b851f42d74987bf89f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:48 +0000
Subject: [PATCH 32/35] fix: the BMP reader computed with negative, overflowing
 or truncated sizes of the header

A width below zero, a height of INT_MIN, or sizes whose products overflow an int or a
size_t passed the check against the size of the data; a DIB header size close to 2^32
wrapped around in it.
---
 include/huira_impl/images/io/bmp_io.ipp | 27 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/huira_impl/images/io/bmp_io.ipp b/include/huira_impl/images/io/bmp_io.ipp
index 3d68983..4aa8168 100644
--- a/include/huira_impl/images/io/bmp_io.ipp
+++ b/include/huira_impl/images/io/bmp_io.ipp
@@ -3,6 +3,8 @@
 #include <cstdio>
 #include <cstring>
 #include <filesystem>
+#include <limits>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -65,7 +67,7 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(dib_size) + ")");
     }
 
-    if (size < 14 + dib_size) {
+    if (size < 14 + static_cast<std::size_t>(dib_size)) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in DIB header");
     }
 
@@ -92,6 +94,11 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
                           "), only 24 and 32 supported");
     }
 
+    if (raw_width <= 0 || raw_height == 0 || raw_height == std::numeric_limits<int32_t>::min()) {
+        HUIRA_THROW_ERROR("read_bmp_raw_ - Invalid BMP dimensions (" + std::to_string(raw_width) +
+                          " x " + std::to_string(raw_height) + ")");
+    }
+
     int width = static_cast<int>(raw_width);
     bool flip_vertical = (raw_height > 0);
     int height = (raw_height > 0) ? static_cast<int>(raw_height) : static_cast<int>(-raw_height);
@@ -102,29 +109,31 @@ inline BMPData read_bmp_raw_(const unsigned char* data, std::size_t size)
 
     // BMP rows are padded to 4-byte boundaries
     std::size_t row_stride =
-        (static_cast<std::size_t>(width * file_channels) + 3) & ~static_cast<std::size_t>(3);
+        (static_cast<std::size_t>(width) * static_cast<std::size_t>(file_channels) + 3) &
+        ~static_cast<std::size_t>(3);
 
-    std::size_t required_size =
-        static_cast<std::size_t>(pixel_offset) + row_stride * static_cast<std::size_t>(height);
-    if (size < required_size) {
+    if (pixel_offset > size || (size - pixel_offset) / row_stride < static_cast<std::size_t>(height)) {
         HUIRA_THROW_ERROR("read_bmp_raw_ - Data truncated in pixel data (need " +
-                          std::to_string(required_size) + ", have " + std::to_string(size) + ")");
+                          std::to_string(height) + " rows of " + std::to_string(row_stride) +
+                          " bytes, have " + std::to_string(size) + ")");
     }
 
     const unsigned char* pixel_data = data + pixel_offset;
 
     // Convert from BGR(A) bottom-up to RGB(A) top-down
     std::vector<unsigned char> raw_data(static_cast<std::size_t>(width) *
-                                        static_cast<std::size_t>(height * out_channels));
+                                        static_cast<std::size_t>(height) *
+                                        static_cast<std::size_t>(out_channels));
 
     for (int y = 0; y < height; ++y) {
         int src_y = flip_vertical ? (height - 1 - y) : y;
         const unsigned char* src_row = pixel_data + static_cast<std::size_t>(src_y) * row_stride;
 
         for (int x = 0; x < width; ++x) {
-            std::size_t src_idx = static_cast<std::size_t>(x * file_channels);
+            std::size_t src_idx = static_cast<std::size_t>(x) * static_cast<std::size_t>(file_channels);
             std::size_t dst_idx =
-                (static_cast<std::size_t>(y * width) + static_cast<std::size_t>(x)) *
+                (static_cast<std::size_t>(y) * static_cast<std::size_t>(width) +
+                 static_cast<std::size_t>(x)) *
                 static_cast<std::size_t>(out_channels);
 
             // BMP stores BGR(A), convert to RGB(A)
-- 
2.43.0


From c98869cf006f2794dadf823a52e8ba54c2c7d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 33/35] fix: the TGA reader read pixels of other depths beyond
 their end

Pixels of 8, 15 and 16 bits, color map entries of 15 and 16 bits and gray values of 16 bits
were read as if they had three bytes or one, past the end of the last of them.
---
 include/huira_impl/images/io/tga_io.ipp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 2a2fd28..a432b2c 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -90,6 +91,15 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                           std::to_string(static_cast<int>(image_type)) + ")");
     }
 
+    bool supported = (is_truecolor && (pixel_depth == 24 || pixel_depth == 32)) ||
+                     (is_gray && pixel_depth == 8) ||
+                     (is_color_mapped && (pixel_depth == 8 || pixel_depth == 16) &&
+                      color_map_type == 1 && (cm_entry_size == 24 || cm_entry_size == 32));
+    if (!supported) {
+        HUIRA_THROW_ERROR("read_tga_raw_ - Unsupported TGA pixel format (" +
+                          std::to_string(static_cast<int>(pixel_depth)) + " bits per pixel)");
+    }
+
     // Current read position in buffer
     std::size_t pos = 18;
 
-- 
2.43.0


From 858fc85d6d851c2232e48b1abca55a992dd5aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 34/35] fix: the TGA reader read beyond the color map for
 indices that are not in it

---
 include/huira_impl/images/io/tga_io.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index a432b2c..8b70ee0 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -221,6 +221,9 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 } else if (pixel_depth == 16) {
                     std::memcpy(&index, &pixel_indices[src_pixel * 2], sizeof(uint16_t));
                 }
+                if (index < cm_first_index || index - cm_first_index >= cm_length) {
+                    HUIRA_THROW_ERROR("read_tga_raw_ - Color map index out of range");
+                }
                 index = static_cast<uint16_t>(index - cm_first_index);
                 const unsigned char* src_ptr =
                     &color_map[static_cast<std::size_t>(index) *
-- 
2.43.0


From 1dbd04406a07fd45d22bc3af7ba4ceeb825c1342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 35/35] fix: the TGA reader wrote raw RLE packets past the end
 of the image

---
 include/huira_impl/images/io/tga_io.ipp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/huira_impl/images/io/tga_io.ipp b/include/huira_impl/images/io/tga_io.ipp
index 8b70ee0..40011e4 100644
--- a/include/huira_impl/images/io/tga_io.ipp
+++ b/include/huira_impl/images/io/tga_io.ipp
@@ -183,10 +183,14 @@ inline TGAData read_tga_raw_(const unsigned char* data, std::size_t size)
                 if (pos + bytes_to_read > size) {
                     HUIRA_THROW_ERROR("read_tga_raw_ - Unexpected end of RLE data");
                 }
-                std::memcpy(
-                    &pixel_indices[pixels_decoded * index_bytes], data + pos, bytes_to_read);
+                // As for run packets, pixels beyond the image are ignored
+                std::size_t pixels_to_copy =
+                    std::min(static_cast<std::size_t>(count), num_pixels - pixels_decoded);
+                std::memcpy(&pixel_indices[pixels_decoded * index_bytes],
+                            data + pos,
+                            pixels_to_copy * index_bytes);
                 pos += bytes_to_read;
-                pixels_decoded += static_cast<std::size_t>(count);
+                pixels_decoded += pixels_to_copy;
             }
         }
     } else {
-- 
2.43.0

