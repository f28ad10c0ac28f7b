From f64678699e025aec4d796ca290a8c56ada7cff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 01/21] fix: keep the Kalman estimation error covariance
 symmetric

With two measurements, rounding makes the innovation covariance slightly
asymmetric; its inverse then amplifies the asymmetry at every update, and
a stable estimator diverges after some fifty updates.
---
 include/dsp/kalman.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index dc44dce..1fa7606 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -96,6 +96,9 @@ public:
 
         // 2c: Update the error covariance:
         P = (I() - K * H) * P;
+
+        // 2d: Remove the asymmetry due to rounding, it would grow from update to update:
+        P = (P + transposed(P)) * (real_t(1) / real_t(2));
     }
 
     // Observers:
-- 
2.43.0


From cf39a8ba408def821ed00f2b3c7ab877681b5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:13 +0000
Subject: [PATCH 02/21] fix: initialize the Kalman gain, it can be read before
 the first update

---
 include/dsp/kalman.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dsp/kalman.hpp b/include/dsp/kalman.hpp
index 1fa7606..4dd92a6 100644
--- a/include/dsp/kalman.hpp
+++ b/include/dsp/kalman.hpp
@@ -63,6 +63,7 @@ public:
         , H( H_)
         , Q( Q_)
         , R( R_)
+        , K( 0 )
         , P( P_)
         , xhat( xhat_)
         , t(  0  )
-- 
2.43.0


From 91c723502236b2d97e77689b1f597d8ebc66b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:13 +0000
Subject: [PATCH 03/21] fix: round to nearest when constructing fixed_point
 from float or double

---
 include/num/fixed-point.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..4867d76 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -52,6 +52,17 @@ constexpr auto power2( std20::int64_t n )
     return result;
 }
 
+// Nearest integral value, half away from zero (adding 0.5 and truncating is inexact for large values and just below 0.5):
+
+template< typename T, typename U >
+constexpr T round_to( U value )
+{
+    const T whole = static_cast<T>( value );
+    const U rest  = value - whole;
+
+    return static_cast<T>( whole + ( rest >= U(0.5) ? 1 : rest <= U(-0.5) ? -1 : 0 ) );
+}
+
 } // namespace detail
 
 // fixed_point:
@@ -102,11 +113,11 @@ public:
     {}
 
     constexpr fixed_point( float value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0f ? 0.5f : -0.5f) ) )
+    : storage( detail::round_to<T>( detail::power2(F) * value ) )
     {}
 
     constexpr fixed_point( double value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0 ? 0.5 : -0.5) ) )
+    : storage( detail::round_to<T>( detail::power2(F) * value ) )
     {}
 
     // Observers:
-- 
2.43.0


From 3542a7952ba1db6885aaa7c065b2d38fee9df63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 04/21] fix: compute the pole of a one-pole filter

---
 include/dsp/onepole.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..4e5c84c 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
-- 
2.43.0


From 47e13eff82ef18572c2f972bb51961377fa0061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 05/21] fix: report a one-pole filter with its pole outside the
 unit circle as not stable

---
 include/dsp/onepole-io.hpp | 2 +-
 include/dsp/onepole.hpp    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 4e5c84c..0fefa0f 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to leq unity:
 
     auto is_stable() const
     {
-        return true;
+        return coeff_type{-1} <= a.a1 && a.a1 <= coeff_type{1};
     }
 
     // Modifiers:
-- 
2.43.0


From b7c3c9f8f69744c4166ae6751013080267cda06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 06/21] fix: convert amplitude decibels to a factor with 20 dB
 per decade

---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..f1256d5 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -56,7 +56,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return dbP_factor( dbv / T{2} );
 }
 
 } // namespace dsp
-- 
2.43.0


From 9295e979aa51b0b3ad0ae8e790a8bd77c488a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 07/21] fix: derive type 1 Chebyshev designs from the pass-band
 ripple

---
 include/dsp/chebyshev-design.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..c470eb7 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -116,7 +116,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
@@ -128,7 +128,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
@@ -139,7 +139,8 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         const auto th = num::pi<T> * (N - 1 + 2 * i) / (2 * N);
         const auto Wi = Wpass * sin(th);
         const auto D  =  1 - 2 * W0 * cos( th ) + W0 * W0 + Wi * Wi;
-        const auto G  = (W0 * W0 + Wi * Wi ) / D;
+        const auto H  = r == 0 && i == 1 ? 1 / std::sqrt( 1 + epass * epass ) : T{1};  // even order: ripple starts at its minimum
+        const auto G  = H * (W0 * W0 + Wi * Wi ) / D;
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
-- 
2.43.0


From d3fe0cd0077bb6403d43a779c0db066905aa8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 08/21] fix: return the compare value of timers 0 and 1

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..175b9f2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 099e13b4adb6795948ccc9bc26ec15c54abe6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 09/21] fix: report the waveform set for timers 0 and 1

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 175b9f2..54604bc 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From 1dc4031792321060881f192b0927ee46a1fe706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 10/21] fix: clear pin change interrupt flags by writing a one

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 54604bc..f2167b6 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
-- 
2.43.0


From 0dc52bc2eb3d9ff39170dd48e44043c5e1acf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 11/21] fix: force timer 1 compare matches through TCCR1C

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index f2167b6..f9b0227 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From 4bb02a3070be70e17d568241f5f80d5a79165f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 12/21] fix: send the data byte in twi::sync::write()

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index f9b0227..c99f5bb 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2079,7 +2079,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From 98669418fd4455b0571c7e55a92b8697e2e5da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 13/21] fix: enable the pull-ups and use the prescaler in
 twi::sync::init()

---
 include/mcu/atmega328.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index c99f5bb..86aaac2 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1981,8 +1981,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2015,11 +2015,11 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From d3e60593ca261cdeb0d8c0e8748a1618e34666cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 14/21] fix: end the include guard of std/tuple.hpp

---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..a72018d 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From 59f42ce5e1a7793781e0ceee25febe158e198a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 15/21] fix: unsigned types are not signed in the AVR
 numeric_limits

---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From 596077ba3c5b975c84f7508969482a28eb54afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 16/21] fix: return from the assignments of the AVR complex

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..176f63c 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -46,12 +46,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +61,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
-- 
2.43.0


From 81df288509e322a128d50e600936b7867974badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 17/21] fix: divide before narrowing when reading a fixed_point
 as an integral type

---
 include/num/fixed-point.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 4867d76..770532b 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -140,7 +140,9 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        // divide before narrowing to an integral type, the underlying value may not fit it:
+        if constexpr( std20::is_integral_v<U> ) { return static_cast<U>( underlying_value() / detail::power2(F) ); }
+        else                                    { return static_cast<U>( underlying_value() ) / detail::power2(F); }
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From be72f6bc582b0386451e64aac00c30fe5b2ce1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 18/21] fix: a row vector times a matrix has as many elements
 as the matrix has columns

---
 include/num/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..356096e 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -401,9 +401,9 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
 // x * A - rowvec:
 
 template< typename T, int N, int M >
-constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
+constexpr rowvec<T,M> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
 {
-    rowvec<T,N> result( 0 );
+    rowvec<T,M> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
         for ( int col = 0; col < A.columns(); ++col )
-- 
2.43.0


From 3cdeb422e9d3f3ccf893852178735674d78d4393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:28 +0000
Subject: [PATCH 19/21] fix: a reciprocal too large for its type is that of
 zero, not infinity

---
 include/num/matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 356096e..7914ea8 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -484,7 +484,10 @@ constexpr matrix<T,2,2> transposed( matrix<T,2,2> const & A )
 template< typename T >
 constexpr T inverted( T v )
 {
-    return v != 0 ? 1 / v : 0;
+    const T result = v != 0 ? 1 / v : 0;
+
+    // a reciprocal that exceeds the type counts as that of zero:
+    return v == v && result - result != 0 ? 0 : result;
 }
 
 // inverted(A) - 2x2:
-- 
2.43.0


From c198807cf159dbd4cf890c093f7c704c829c8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:55 +0000
Subject: [PATCH 20/21] fix: a stepped range of integers ends also where the
 type cannot hold a value beyond last

---
 include/core/range.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index a872826..7e44377 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -13,6 +13,7 @@
 
 //#include <cassert>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #ifndef _MSC_VER
@@ -114,6 +115,15 @@ struct step_range_proxy
 
         iterator & operator++()
         {
+            if ( std::numeric_limits<T>::is_integer && !infinite )
+            {
+                // the type may not hold a next value, it does hold one that ends the range:
+                const T largest = std::numeric_limits<T>::max();
+
+                this->current = this->current < largest - step ? this->current + step : largest;
+                return *this;
+            }
+
             this->current = first + ++factor * step; return *this;
         }
 
-- 
2.43.0


From 44a34ba11bb15772f6b2658fa68f1343b1b577c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:44 +0000
Subject: [PATCH 21/21] fix: a stepped range of floats goes on after 2^24 steps

---
 include/core/range.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index 7e44377..0cf6637 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -124,7 +124,7 @@ struct step_range_proxy
                 return *this;
             }
 
-            this->current = first + ++factor * step; return *this;
+            this->current = static_cast<T>( first + ++factor * step ); return *this;
         }
 
         iterator operator++( int )
@@ -143,7 +143,10 @@ struct step_range_proxy
         }
 
     private:
-        T factor = 0;
+        // a float can only count up to 2^24:
+        using factor_type = std::conditional_t< std::is_same<T, float>::value, double, T >;
+
+        factor_type factor = 0;
         T first;
         T step;
         bool infinite;
-- 
2.43.0

