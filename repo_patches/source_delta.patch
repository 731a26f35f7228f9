From 4eeccb4bd291d149f74dd77c3d11b1ee4d2e66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 01/19] fix: OKLAB XYZ-to-LMS matrix has a flipped sign

M1[1][0] is +0.0329845436 in the published matrix; with the negative sign
every XYZ with a non-zero X got wrong OKLAB coordinates (OKLAB/test2).
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..218fc50 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1419,7 +1419,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1454,7 +1454,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From 2a233cc420f044a961b3c441ffd586963086dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 02/19] fix: XYZ_to_OKLAB no longer writes debug output to
 stdout

---
 include/colorsystem.hpp | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 218fc50..9236510 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1423,29 +1423,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
 
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
-- 
2.43.0


From c097aa2f09ae4176a8426201485b34005a92aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 03/19] fix: S-Log3 encoding scales the logarithm, not its
 argument

The misplaced parenthesis made Y_to_SLog3 differ from the S-Log3 curve and
from the inverse of SLog3_to_Y for every scene value above 0.01125.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 9236510..f5fe076 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -669,7 +669,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From 3e0860c7c404043d40bccf4beea1d74c489da310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 04/19] fix: Illuminant B has X = 0.99072, not 1.99072

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f5fe076..5bb4974 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1352,7 +1352,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From 6cf0b4095dd56c88d8828031196e81c34f025966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 05/19] fix: Planckian locus approximation uses its own
 coefficients for 2222K-4000K

The middle branch repeated the cubic of the 1667K-2222K branch, which is off
by more than 0.001 in y around 3000K and jumps at 4000K.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 5bb4974..61b20a9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -358,7 +358,7 @@ class Tristimulus
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From 0d5567866597abc3a405ab9c0ef55b4a8ec2ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 06/19] fix: Spectrum::fetch interpolates in the first sampling
 interval too

index <= 0 returned sample[0] for every wavelength between the first two
samples, so the interpolated spectrum was flat there and jumped at the second
sample. Out-of-range wavelengths are now told apart by the wavelength itself,
which also keeps far-away ones from overflowing the integer index.
---
 include/colorsystem.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 61b20a9..d553cca 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1245,13 +1245,15 @@ class Spectrum
     static constexpr float fetch(
         const float *sample, const int samples, const float &lo, const float &hi, const float &t)
     {
-        const int   count = samples - 1;
+        const int count = samples - 1;
+        if (!(t > lo))
+            return sample[0];
+        if (t >= hi)
+            return sample[count];
         const int   index = (int)(count * (t - lo) / (hi - lo));
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
-        return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
-                                : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
+        return (index >= count) ? sample[count] : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
 
-- 
2.43.0


From 2b5a6d0884c16fc0e1f96bb00f08cc772f01d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 07/19] fix: mod360 terminates for hues of any magnitude

Stepping by 360 recursed once per turn, and forever once 360 was below the
float resolution of the hue.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index d553cca..7f82283 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -441,7 +441,7 @@ class Tristimulus
     // HSV
     static constexpr float mod360(const float &r)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        return (r < 0.f) ? (fmodf(r, 360.f) + 360.f) : ((r > 360.f) ? fmodf(r, 360.f) : r);
     }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
-- 
2.43.0


From 9323b8edcefba262ad7c23f7ee77f190d12c26fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 08/19] fix: MemoryStream::putUint8 advances the cursor when
 overwriting

Writing a multi-byte value inside existing data put all its bytes on the same
position.
---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7f82283..226d87f 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -923,6 +923,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From 981feba6795d72bd8122325afe1f353c202dd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:05 +0000
Subject: [PATCH 09/19] fix: MemoryStream::put_at grows the buffer instead of
 truncating it

The inverted test cut the buffer at the position about to be written and then
wrote one past its end; a position beyond the end was written unallocated.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 226d87f..ab0d056 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -872,8 +872,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From 403808abf181273b2a500233e8787b6421808d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:06 +0000
Subject: [PATCH 10/19] fix: MemoryStream block access stays inside the buffer

read_at narrowed the position to int, so positions from 2^31 on passed the
bounds test and read outside the buffer; empty reads, writes and initial data
formed references past the end of the vector.
---
 include/colorsystem.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index ab0d056..ec7b492 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -818,7 +818,7 @@ class MemoryStream
 
     void init(const void *data = NULL, size_t sz = 0)
     {
-        if (data)
+        if (data && sz > 0)
         {
             buffer_.resize(sz);
             memcpy(&(buffer_.front()), data, sz);
@@ -878,9 +878,9 @@ class MemoryStream
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
     {
-        int r = (int)buffer_.size() - (int)p;
-        if (r < 0)
+        if (p >= buffer_.size())
             return 0;
+        size_t r      = buffer_.size() - p;
         size_t remain = (s < r) ? s : r;
         memcpy(buffer, ptr(p), remain);
         return remain;
@@ -891,7 +891,8 @@ class MemoryStream
         size_t s2 = p + s;
         if (s2 > s1)
             buffer_.resize(s2);
-        memcpy(ptr(p), buffer, s);
+        if (s > 0)
+            memcpy(ptr(p), buffer, s);
         return s;
     }
     size_t read(void *buffer, size_t size)
-- 
2.43.0


From 3f6818f0213c2cf8dd27f5ced7df26481b55b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:06 +0000
Subject: [PATCH 11/19] fix: MemoryStream signed reads do not left-shift
 negative values

---
 include/colorsystem.hpp | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index ec7b492..fb2dc37 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -948,24 +948,14 @@ class MemoryStream
         uint8_t b = getUint8();
         return (readEndian_ == BIG) ? ((a << 8) | b) : ((b << 8) | a);
     }
-    const int16_t getInt16(void)
-    {
-        uint8_t a = getUint8();
-        uint8_t b = getUint8();
-        return (readEndian_ == BIG) ? ((*(int8_t *)&a << 8) | b) : ((*(int8_t *)&b << 8) | a);
-    }
+    const int16_t getInt16(void) { return (int16_t)getUint16(); }
     const uint32_t getUint32(void)
     {
         uint16_t a = getUint16();
         uint16_t b = getUint16();
         return (readEndian_ == BIG) ? ((a << 16) | b) : ((b << 16) | a);
     }
-    const int32_t getInt32(void)
-    {
-        uint16_t a = getUint16();
-        uint16_t b = getUint16();
-        return (readEndian_ == BIG) ? ((*(int16_t *)&a << 16) | b) : ((*(int16_t *)&b << 16) | a);
-    }
+    const int32_t getInt32(void) { return (int32_t)getUint32(); }
     const uint64_t getUint64(void)
     {
         uint64_t lo, hi;
@@ -981,22 +971,7 @@ class MemoryStream
         }
         return (lo | hi << 32);
     }
-    const int64_t getInt64(void)
-    {
-        uint64_t lo;
-        int64_t  hi;
-        if (readEndian_ == BIG)
-        {
-            hi = getInt32();
-            lo = getUint32();
-        }
-        else
-        {
-            lo = getUint32();
-            hi = getInt32();
-        }
-        return (lo | hi << 32);
-    }
+    const int64_t getInt64(void) { return (int64_t)getUint64(); }
     const float getFloat(void)
     {
         union
-- 
2.43.0


From d5130e0bc57f5b5f1f8d9e08dd179790e98808eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:06 +0000
Subject: [PATCH 12/19] fix: MemoryStream strings survive a write and a read

putSubstr with len 0 (putString of an empty string) ran off the string, a len
above the string's size read past its end, and putString dropped the last
character and the length that get_string reads.
---
 include/colorsystem.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index fb2dc37..3a9d04e 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1194,14 +1194,18 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
-            putUint8(str[i]);
+            putUint8(i < str.size() ? str[i] : 0);
         }
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)str.size() + 1);
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From e54e40ecc1941c999cdbea21dd96d23b625c54ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:06 +0000
Subject: [PATCH 13/19] fix: svdcmp updates the superdiagonal when it cancels a
 zero singular value

Without rv1[i] *= c the decomposition was wrong for matrices with a vanishing
singular value (e.g. an all-zero channel), and solve returned a vector that
does not minimise the residual.
---
 include/colorsystem.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 3a9d04e..7deb8f9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7586,22 +7586,22 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
-                        if (fabs(f) + anorm != anorm)
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
+                        if (fabs(f) + anorm == anorm)
+                            break;
+                        g    = w[i];
+                        h    = PYTHAG(f, g);
+                        w[i] = h;
+                        h    = 1.0f / h;
+                        c    = g * h;
+                        s    = (-f * h);
+                        for (j = 0; j < m; j++)
                         {
-                            g    = w[i];
-                            h    = PYTHAG(f, g);
-                            w[i] = h;
-                            h    = 1.0f / h;
-                            c    = g * h;
-                            s    = (-f * h);
-                            for (j = 0; j < m; j++)
-                            {
-                                y        = a[j][nm];
-                                z        = a[j][i];
-                                a[j][nm] = (y * c + z * s);
-                                a[j][i]  = (z * c - y * s);
-                            }
+                            y        = a[j][nm];
+                            z        = a[j][i];
+                            a[j][nm] = (y * c + z * s);
+                            a[j][i]  = (z * c - y * s);
                         }
                     }
                 }
-- 
2.43.0


From 021fc9aa283ef015cfcb30ec987d08c756a43862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:12 +0000
Subject: [PATCH 14/19] fix: SOLVER::solve reports failure

solve tested for a code svdcmp never returns, so a system with fewer equations
than unknowns came back as solved.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7deb8f9..ee1fae0 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7718,7 +7718,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From 2b2b0fee331bf4ac73000335b5bf485dd15c6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:12 +0000
Subject: [PATCH 15/19] fix: Corrector::makeGamut builds the gamut in the right
 direction

solve yields the matrix from patch values to XYZ, while Gamut's constructor
takes the matrix from XYZ; the resulting gamut mapped patch values by the
inverse matrix.
---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index ee1fae0..9f23c7b 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7820,7 +7820,7 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        return Gamut(name, solve(patch, light, observer).invert());
     }
 };
 
-- 
2.43.0


From c4aebae49b519ed0168f9dbb8bc751b429068cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:14 +0000
Subject: [PATCH 16/19] fix: svdcmp takes columns too small to invert as zero

Rounding residue of rank-deficient systems (e.g. a grey ramp) decays to
subnormal pivots whose reciprocals overflow; the solution came out as NaN.
---
 include/colorsystem.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 9f23c7b..af9d91c 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7418,6 +7418,8 @@ namespace SOLVER
         int   flag, its, j, jj, k, l, nm;
         float c, f, h, s, x, y, z;
         float anorm = 0.0, g = 0.0, scale = 0.0;
+        /* below this, reciprocals overflow: take the column (or row) as zero */
+        const float tiny = std::numeric_limits<float>::min() / std::numeric_limits<float>::epsilon();
 
         int m = a.rows();
         int n = a.cols();
@@ -7440,7 +7442,7 @@ namespace SOLVER
             {
                 for (k = i; k < m; k++)
                     scale += fabs(a[k][i]);
-                if (scale)
+                if (scale > tiny)
                 {
                     for (k = i; k < m; k++)
                     {
@@ -7474,7 +7476,7 @@ namespace SOLVER
             {
                 for (k = l; k < n; k++)
                     scale += fabs(a[i][k]);
-                if (scale)
+                if (scale > tiny)
                 {
                     for (k = l; k < n; k++)
                     {
-- 
2.43.0


From 1c9d9ff03caf4ef8c819844e6e0c5c7185d92f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:23 +0000
Subject: [PATCH 17/19] fix: svdcmp converges for repeated singular values

Asking for values below half an ulp of the norm can stagnate on rounding noise;
after 30 rounds the values were left as they were, negative ones included, and
solve dropped those as if they were zero.
---
 include/colorsystem.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index af9d91c..7d4ceaa 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7565,6 +7565,8 @@ namespace SOLVER
             ++a[i][i];
         }
 
+        const float negligible = std::numeric_limits<float>::epsilon() * anorm;
+
         /* diagonalize the bidiagonal form */
         for (k = n - 1; k >= 0; k--)
         { /* loop over singular values */
@@ -7574,12 +7576,12 @@ namespace SOLVER
                 for (l = k; l >= 0; l--)
                 { /* test for splitting */
                     nm = l - 1;
-                    if (fabs(rv1[l]) + anorm == anorm)
+                    if (fabs(rv1[l]) <= negligible)
                     {
                         flag = 0;
                         break;
                     }
-                    if (fabs(w[nm]) + anorm == anorm)
+                    if (fabs(w[nm]) <= negligible)
                         break;
                 }
                 if (flag)
@@ -7590,7 +7592,7 @@ namespace SOLVER
                     {
                         f      = s * rv1[i];
                         rv1[i] = c * rv1[i];
-                        if (fabs(f) + anorm == anorm)
+                        if (fabs(f) <= negligible)
                             break;
                         g    = w[i];
                         h    = PYTHAG(f, g);
-- 
2.43.0


From 2c7171a572012ad53858e4a0e225bca7cfea388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 18/19] fix: Planck's law uses h*c and h*c^2 consistent with h
 and c

The hard-coded products were 0.081% low, so every spectral radiance was.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 7d4ceaa..f74a9c3 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1255,8 +1255,8 @@ class Spectrum
         static const double h    = 6.62606896e-34; // Plank constant         J s
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
-        static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hc   = h * c;
+        static const double hcc  = h * c * c;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From d4fedbecce814984a9c6997fb3329f86f7ffe118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:45 +0000
Subject: [PATCH 19/19] fix: Spectrum::fetch does not cast an overflowing index
 to int

For sample ranges near the float limits (or not numbers) the index expression is infinite or NaN, and
casting that to int is undefined. Such positions now give the last sample.
---
 include/colorsystem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f74a9c3..796e95a 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1231,6 +1231,8 @@ class Spectrum
             return sample[0];
         if (t >= hi)
             return sample[count];
+        if (!(count * (t - lo) / (hi - lo) < count)) // not an index, or not in range of one
+            return sample[count];
         const int   index = (int)(count * (t - lo) / (hi - lo));
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
-- 
2.43.0

