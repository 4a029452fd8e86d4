From 40452fb8535c8e49cf7f6a970804c18d6b844cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:36 +0000
Subject: [PATCH 01/61] fix: bitfield: a zero-bit readUINTn/writeUINTn shifted
 a 32-bit word by 32

---
 src/bitfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bitfield.cpp b/src/bitfield.cpp
index ae846b5..dbaa998 100644
--- a/src/bitfield.cpp
+++ b/src/bitfield.cpp
@@ -115,7 +115,7 @@ uint32_t bitfield::readUINTn( const size_t index,
 {
     uint32_t retValue = 0U;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         if ( 1U == xBits ) {
             retValue = static_cast<uint32_t>( readBit( index ) );
         }
@@ -137,7 +137,7 @@ bool bitfield::writeUINTn( const size_t index,
 {
     bool retValue = false;
 
-    if ( ( nullptr != field ) && ( xBits <= 32U ) ) {
+    if ( ( nullptr != field ) && ( xBits > 0U ) && ( xBits <= 32U ) ) {
         uint32_t w, wMask;
 
         if ( 1U == xBits ) {
-- 
2.43.0


From 5d93b02416052dc57c59b66ea60a3397be67c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:31 +0000
Subject: [PATCH 02/61] fix: tdl: reading tap 0 of a one-element delay line
 read past the end of the area

---
 src/tdl.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tdl.cpp b/src/tdl.cpp
index fda5ca5..1bf4693 100644
--- a/src/tdl.cpp
+++ b/src/tdl.cpp
@@ -54,8 +54,8 @@ real_t tdl::getRecent( void ) const noexcept
 real_t tdl::getAtIndex( const size_t i ) const noexcept
 {
     /*cstat -MISRAC++2008-5-0-3*/
-    return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
-                                                      : *( rd - i );
+    return ( ( head + i ) > rd ) ? rd[ itemCount - i ]
+                                 : *( rd - i );
     /*cstat +MISRAC++2008-5-0-3*/
 }
 /*============================================================================*/
@@ -71,8 +71,8 @@ const real_t& tdl::operator[]( int index ) noexcept
     /*cstat -MISRAC++2008-6-6-5*/
     if ( ( index >= 0 ) && ( i < itemCount ) ) {
         /*cstat -MISRAC++2008-5-0-3*/
-        return ( ( wr >= rd ) && ( ( head + i ) >= wr ) ) ? rd[ itemCount - i ]
-                                                          : *( rd - i );
+        return ( ( head + i ) > rd ) ? rd[ itemCount - i ]
+                                     : *( rd - i );
         /*cstat +MISRAC++2008-5-0-3*/
     }
     else if ( -1 == index ) {
-- 
2.43.0


From acf2d158eb429f0ac79fc86b64700cae8704adb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 03/61] fix: fp16: product of a large and a tiny factor
 reported overflow (32-bit cross product wrapped); rounding/negation at the
 overflow boundary

---
 src/fp16.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 7a42099..b34e851 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -147,7 +147,8 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                      const fp16Raw_t y ) noexcept
 {
     fp16Raw_t retValue = overflow;
-    fp16Raw_t a, c, ac, ad_cb, mulH;
+    fp16Raw_t a, c, ac, mulH;
+    int64_t ad_cb; /*the sum of both cross products needs more than 32 bits*/
     uint32_t b, d, bd, tmp, mulL;
 
     a = ( x >> 16 );
@@ -155,9 +156,9 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
     b = static_cast<uint32_t>( x & 0xFFFF );
     d = static_cast<uint32_t>( y & 0xFFFF );
     ac = a*c;
-    ad_cb = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( a )*d ) + ( static_cast<uint32_t>( c )*b ) );
+    ad_cb = ( static_cast<int64_t>( a )*d ) + ( static_cast<int64_t>( c )*b );
     bd = b*d;
-    mulH = ac + ( ad_cb >> 16 );
+    mulH = ac + static_cast<fp16Raw_t>( ad_cb >> 16 );
     tmp = static_cast<uint32_t>( ad_cb ) << 16;
     mulL = bd + tmp;
     if ( mulL < bd ) {
@@ -177,7 +178,7 @@ fp16Raw_t fp16::mul( const fp16Raw_t x,
                 --mulH;
             }
             retValue = static_cast<fp16Raw_t>( mulH << 16 ) | static_cast<fp16Raw_t>( mulL >> 16 );
-            retValue += 1;
+            retValue = add( retValue, 1 );
         }
         else {
             retValue = static_cast<fp16Raw_t>( mulH << 16 ) | static_cast<fp16Raw_t>( mulL >> 16 );
@@ -233,7 +234,7 @@ fp16Raw_t fp16::div( const fp16Raw_t x,
 
             retValue = static_cast<fp16Raw_t>( quotient );
             if ( 0U != ( static_cast<uint32_t>( x ^ y ) & overflow_mask ) ) {
-                if ( quotient == static_cast<uint32_t>( Min ) ) {
+                if ( quotient == static_cast<uint32_t>( overflow ) ) {
                     retValue = overflow;
                 }
                 else {
-- 
2.43.0


From 9690eb90b61ad3341259fc9139986b059a61556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 04/61] fix: fp16: toInt overflowed when rounding values next
 to the limits

---
 src/fp16.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index b34e851..c515fd1 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -42,10 +42,10 @@ int fp16::toInt( const fp16 &x ) noexcept
 
     if ( flag_rounding ) {
         if ( x.value >= 0 ) {
-            retValue = ( x.value + ( one >> 1 ) ) / one;
+            retValue = static_cast<int>( ( static_cast<int64_t>( x.value ) + ( one >> 1 ) ) / one );
         }
         else {
-            retValue = ( x.value - ( one >> 1 ) ) / one;
+            retValue = static_cast<int>( ( static_cast<int64_t>( x.value ) - ( one >> 1 ) ) / one );
         }
     }
     else {
-- 
2.43.0


From 062d360f151019fbe4c44a02a4518bd0cf99bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 05/61] fix: fp16: rounding() added one instead of rounding;
 absolute, ceil and negation mishandled the ends of the range

---
 src/fp16.cpp         | 4 ++--
 src/include/fp16.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index c515fd1..74b06ff 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -251,7 +251,7 @@ fp16Raw_t fp16::absolute( fp16Raw_t x ) noexcept
 {
     fp16Raw_t retValue;
 
-    if ( x == Min ) {
+    if ( x == overflow ) {
         retValue = overflow;
     }
     else {
@@ -266,7 +266,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
     const fp16Raw_t i = x & static_cast<fp16Raw_t>( integer_mask );
     const fp16Raw_t f = x & static_cast<fp16Raw_t>( fraction_mask );
 
-    return ( 0 != f ) ? i + one : i;
+    return ( 0 != f ) ? add( i, one ) : i;
 }
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
diff --git a/src/include/fp16.hpp b/src/include/fp16.hpp
index 04de4ee..cc23769 100644
--- a/src/include/fp16.hpp
+++ b/src/include/fp16.hpp
@@ -149,7 +149,7 @@ namespace qlibs {
             }
             inline fp16 operator-() const noexcept
             {
-                return fp16( { -value } );
+                return fp16( { ( overflow == value ) ? overflow : -value } );
             }
             inline fp16& operator-=( const fp16 &other ) noexcept
             {
@@ -322,7 +322,9 @@ namespace qlibs {
             */
             static inline fp16 rounding( const fp16 &x ) noexcept
             {
-                return fp16( { x.raw() + one } );
+                /*cstat -MISRAC++2008-5-0-9*/
+                return fp16( { static_cast<fp16Raw_t>( static_cast<uint32_t>( add( x.raw(), one_half ) ) & integer_mask ) } );
+                /*cstat +MISRAC++2008-5-0-9*/
             }
 
             /**
-- 
2.43.0


From 7902f18433325393386b4b1769f07688e5d26a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 06/61] fix: fp16: sqrt of zero and of negative values returned
 the minimum instead of zero and overflow

---
 src/fp16.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index 74b06ff..e9ba3e4 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -271,7 +271,7 @@ fp16Raw_t fp16::ceil( fp16Raw_t x ) noexcept
 /*============================================================================*/
 fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
 {
-    fp16Raw_t retValue = overflow;
+    fp16Raw_t retValue = ( 0 == x ) ? 0 : overflow;
 
     if ( x > 0 ) {
         uint32_t bit;
@@ -312,9 +312,9 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-    }
-    if ( ( flag_rounding ) && ( x > retValue ) ) {
-        ++retValue;
+        if ( ( flag_rounding ) && ( x > retValue ) ) {
+            ++retValue;
+        }
     }
 
     return static_cast<fp16Raw_t>( retValue );
-- 
2.43.0


From 657c0a538dae3f055f4c356c2ad377abc7747ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 07/61] fix: fp16: sinh(0) returned one

---
 src/fp16.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index e9ba3e4..ab3a7fb 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -643,7 +643,7 @@ fp16Raw_t fp16::sinh( fp16Raw_t x ) noexcept
     fp16Raw_t epx, enx;
 
     if ( 0 == x ) {
-        retValue = one;
+        retValue = 0;
     }
     else if ( x >= exp_max ) {
         retValue = Max;
-- 
2.43.0


From afe7246c6848b2d02f10b2bbb0c3fa26c214ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:20 +0000
Subject: [PATCH 08/61] fix: fp16: a negative base raised to zero or to an even
 negative power came out negative

---
 src/fp16.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index ab3a7fb..f306bba 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -727,8 +727,11 @@ fp16Raw_t fp16::pow( fp16Raw_t x,
         fp16Raw_t tmp;
         tmp = mul( y, log( absolute( x ) ) );
         if ( overflow != tmp ) {
+            const uint32_t e = static_cast<uint32_t>( y );
+            const bool isEven = ( 0U == ( e & fraction_mask ) ) && ( 0U == ( ( e >> 16U ) & 1U ) );
+
             retValue = exp( tmp );
-            if ( x < 0 ) {
+            if ( ( x < 0 ) && ( !isEven ) ) {
                 retValue = -retValue;
             }
         }
-- 
2.43.0


From 015aa9ec1a6ae98712819446f2fc76227c0a1a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:00 +0000
Subject: [PATCH 09/61] fix: fp16: sqrt lost the top bit of its remainder and
 was wrong by up to 256 for about a quarter of the large inputs

---
 src/fp16.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/fp16.cpp b/src/fp16.cpp
index f306bba..80d2ebb 100644
--- a/src/fp16.cpp
+++ b/src/fp16.cpp
@@ -274,50 +274,50 @@ fp16Raw_t fp16::sqrt( fp16Raw_t x ) noexcept
     fp16Raw_t retValue = ( 0 == x ) ? 0 : overflow;
 
     if ( x > 0 ) {
+        /*the remainder takes all the 32 bits, so it must be unsigned*/
+        uint32_t num = static_cast<uint32_t>( x ), result = 0U;
         uint32_t bit;
         uint8_t n;
 
-        retValue = 0;
-        /*cstat -MISRAC++2008-5-0-3*/
-        bit = ( 0 != ( x & static_cast<fp16Raw_t>( 4293918720 ) ) ) ? 1073741824U : 262144U;
-        /*cstat +MISRAC++2008-5-0-3*/
-        while ( bit > static_cast<uint32_t>( x ) ) {
+        bit = ( 0U != ( num & 4293918720U ) ) ? 1073741824U : 262144U;
+        while ( bit > num ) {
             bit >>= 2U;
         }
 
         for ( n = 0U ; n < 2U ; ++n ) {
             while ( 0U != bit ) {
-                if ( x >= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit ) ) {
-                    x -= static_cast<fp16Raw_t>( static_cast<uint32_t>( retValue ) + bit );
-                    retValue = static_cast<fp16Raw_t>( ( static_cast<uint32_t>( retValue ) >> 1U ) + bit );
+                if ( num >= ( result + bit ) ) {
+                    num -= ( result + bit );
+                    result = ( result >> 1U ) + bit;
                 }
                 else {
-                    retValue = ( retValue >> 1 );
+                    result >>= 1U;
                 }
                 bit >>= 2U;
             }
 
             if ( 0U == n ) {
-                if ( x > 65535 ) {
-                    x -= retValue;
-                    x = ( x << 16 ) - one_half;
-                    retValue = ( retValue << 16 ) + one_half;
+                if ( num > 65535U ) {
+                    num -= result;
+                    num = ( num << 16U ) - static_cast<uint32_t>( one_half );
+                    result = ( result << 16U ) + static_cast<uint32_t>( one_half );
                 }
                 else {
-                    x <<= 16;
-                    retValue <<= 16;
+                    num <<= 16U;
+                    result <<= 16U;
                 }
                 /*cstat -ATH-shift-bounds -MISRAC++2008-5-8-1 -CERT-INT34-C_b*/
                 bit = 1U << 14U;
                 /*cstat +ATH-shift-bounds +MISRAC++2008-5-8-1 +CERT-INT34-C_b*/
             }
         }
-        if ( ( flag_rounding ) && ( x > retValue ) ) {
-            ++retValue;
+        if ( ( flag_rounding ) && ( num > result ) ) {
+            ++result;
         }
+        retValue = static_cast<fp16Raw_t>( result );
     }
 
-    return static_cast<fp16Raw_t>( retValue );
+    return retValue;
 }
 /*============================================================================*/
 fp16Raw_t fp16::exp( fp16Raw_t x ) noexcept
-- 
2.43.0


From 79b32371f9e34a49bfaf5064d40979cf1b1d831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 10/61] fix: algorithm: sort with a comparator compared against
 a moving element and left the array unsorted

---
 src/include/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 372bd5f..7cc450c 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -118,7 +118,7 @@ namespace qlibs {
 
                     for ( int i = start; i < end; ++i ) {
                         if ( nullptr != comp ) {
-                            if ( comp( array[ i ], array[ pivotIndex ] ) ) {
+                            if ( comp( array[ i ], pivotValue ) ) {
                                 algorithm::swap( array[ i ], array[ pivotIndex ] );
                                 ++pivotIndex;
                             }
-- 
2.43.0


From afcaf44d0206d62f5f74b78e836731c960a37a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 11/61] fix: algorithm: left-rotating by a multiple of the
 length ran past the array

---
 src/include/algorithm.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 7cc450c..e138386 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -185,12 +185,14 @@ namespace qlibs {
                 }
                 else {
                     /*cstat -MISRAC++2008-5-0-9*/
-                    r = static_cast<size_t>( -k );
+                    r = static_cast<size_t>( -( k + 1 ) ) + 1U;
                     /*cstat +MISRAC++2008-5-0-9*/
                     r %= n;
-                    algorithm::reverse( array, 0U, r - 1U );
-                    algorithm::reverse( array, r, n - 1U );
-                    algorithm::reverse( array, 0U, n - 1U );
+                    if ( 0U != r ) {
+                        algorithm::reverse( array, 0U, r - 1U );
+                        algorithm::reverse( array, r, n - 1U );
+                        algorithm::reverse( array, 0U, n - 1U );
+                    }
                 }
             }
         }
-- 
2.43.0


From 74ebcd0c1814cad0fdccb8dac0d6047bfbc8a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 12/61] fix: algorithm: replace and replace_if replaced only
 the first match

---
 src/include/algorithm.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index e138386..5f799f6 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -329,7 +329,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( old_value == array[ i ] ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
@@ -356,7 +355,6 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     array[ i ] = new_value;
-                    break;
                 }
             }
         }
-- 
2.43.0


From 915cddace02a9096f5ad4610365c53c08d316976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:47 +0000
Subject: [PATCH 13/61] fix: algorithm: find_if returned the last match instead
 of the first

---
 src/include/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/algorithm.hpp b/src/include/algorithm.hpp
index 5f799f6..d0f97e6 100644
--- a/src/include/algorithm.hpp
+++ b/src/include/algorithm.hpp
@@ -413,6 +413,7 @@ namespace qlibs {
             for ( size_t i = first; i <= last; ++i ) {
                 if ( pred( array[ i ] ) ) {
                     found = &array[ i ];
+                    break;
                 }
             }
             return found;
-- 
2.43.0


From f48ae9cf9f52a1510d7160978b4485bfdfc10e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 14/61] fix: mat: pre-decrement incremented the elements

---
 src/include/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 680733f..f2c6255 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -257,7 +257,7 @@ namespace qlibs {
             {
                 for (size_t i = 0; i < Rows; ++i) {
                     for (size_t j = 0; j < Cols; ++j) {
-                        ++m[i][j];
+                        --m[i][j];
                     }
                 }
                 return *this;
-- 
2.43.0


From 1722121d9bf17c492552565cf4cc1d350d54d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 15/61] fix: mat: compound matrix product discarded its result

---
 src/include/mat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index f2c6255..34c0dca 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -309,6 +309,7 @@ namespace qlibs {
                 }
 
                 *this = result; // Update the current matrix with the result
+                *this = result;
                 return *this;
             }
 
-- 
2.43.0


From f2dd13731edc70e8febe62af13f7ec69b58d7fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 16/61] fix: mat: normInf of a non-square matrix ran over the
 wrong dimensions

---
 src/include/mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 34c0dca..445b438 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -471,9 +471,9 @@ namespace qlibs {
                 size_t i,j;
                 real_t maxM =0.0_re, sum = 0.0_re;
 
-                for ( i = 0U ; i < Cols; i++ ) {
+                for ( i = 0U ; i < Rows; i++ ) {
                     sum = 0.0_re;
-                    for ( j = 0U ; j < Rows ; ++j ) {
+                    for ( j = 0U ; j < Cols ; ++j ) {
                         sum += ( m[i][j] < 0.0_re ) ? -m[i][j] : m[i][j];
                     }
                     if ( 0U == i ) {
-- 
2.43.0


From cc1b48fc0d513a2f13b587cad2f42d20015adeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:05 +0000
Subject: [PATCH 17/61] fix: mat: inv of an invertible matrix with a zero (or
 tiny) leading element returned NaN or garbage

---
 src/include/mat.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/include/mat.hpp b/src/include/mat.hpp
index 445b438..40c6068 100644
--- a/src/include/mat.hpp
+++ b/src/include/mat.hpp
@@ -446,6 +446,24 @@ namespace qlibs {
                 mat<Rows,Rows> I( MAT_IDENTITY );
 
                 for ( size_t i = 0; i < Rows; ++i ) {
+                    // Bring the largest remaining element of the column to the diagonal
+                    size_t p = i;
+                    for ( size_t j = i + 1U; j < Rows; ++j ) {
+                        const real_t a = ( X(j, i) < 0.0_re ) ? -X(j, i) : X(j, i);
+                        const real_t b = ( X(p, i) < 0.0_re ) ? -X(p, i) : X(p, i);
+                        if ( a > b ) {
+                            p = j;
+                        }
+                    }
+                    if ( p != i ) {
+                        for ( size_t j = 0; j < Rows; ++j ) {
+                            const real_t x = X(i, j), y = I(i, j);
+                            X(i, j) = X(p, j);
+                            I(i, j) = I(p, j);
+                            X(p, j) = x;
+                            I(p, j) = y;
+                        }
+                    }
                     real_t pivot = X(i, i);
                     // Make the diagonal element 1
                     for ( size_t j = 0; j < Rows; ++j ) {
-- 
2.43.0


From cda1bbd3279ab271c91a5bf24e788bef1c86969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:56 +0000
Subject: [PATCH 18/61] fix: interp1: sine interpolation always used the last
 interval

---
 src/interp1.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index a40ecf6..994b605 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -177,6 +177,7 @@ real_t interp1::sine( const real_t x,
                     const real_t y1 = ty[ i];
                     const real_t w = 0.5_re - 0.5_re*ffmath::cos( ffmath::FFP_PI*( x - x0 )/( x1 - x0 ) );
                     y = y0 + w*( y1 - y0 );
+                    break;
                 }
             }
         }
-- 
2.43.0


From 9834d060b1f45b2fc5d1352c1bb8569ea68e7f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:56 +0000
Subject: [PATCH 19/61] fix: interp1: cubic interpolation in the first interval
 read the element before the table

---
 src/interp1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 994b605..fbab4da 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -234,7 +234,7 @@ real_t interp1::cubic( const real_t x,
                     const real_t t2 = t*t;
                     const real_t t3 = t2*t;
                     y = ( 2.0_re*t3 - 3.0_re*t2 + 1.0_re )*y0 +
-                        ( t3 - 2.0_re*t2 + t )*h*( y0 - ty[ i - 2U ] ) +
+                        ( t3 - 2.0_re*t2 + t )*h*( ( 1U == i ) ? ( y1 - y0 ) : ( y0 - ty[ i - 2U ] ) ) +
                         ( -2.0_re*t3 + 3.0_re*t2 )*y1 +
                         ( t3 - t2 )*h*( y1 - y0 );
                     break;
-- 
2.43.0


From fdf0b59061836a9e0c98d86c32d23d1067645e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:56 +0000
Subject: [PATCH 20/61] fix: interp1: the next neighbor of a point before the
 table is its first element

---
 src/interp1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index fbab4da..27177da 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -45,7 +45,10 @@ real_t interp1::next( const real_t x,
             }
         }
 
-        if ( x >= tx[ tableSize - 1U ] ) {
+        if ( x < tx[ 0 ] ) {
+            y = ty[ 0 ];
+        }
+        else if ( x >= tx[ tableSize - 1U ] ) {
             y = ty[ tableSize - 1U ];
         }
         else {
-- 
2.43.0


From 8c4a5d682ed81623c7f83242dc72515762fd0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:56 +0000
Subject: [PATCH 21/61] fix: interp1: end slopes of the constrained spline
 overshot and could divide by zero on finite data

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 27177da..9600501 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -423,13 +423,13 @@ real_t interp1::firstDerivate( const real_t * const tx,
         const real_t dx = tx[ 1 ] - tx[ 0 ];
         const real_t dy = ty[ 1 ] - ty[ 0 ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ 2 ] - tx[ 0 ] )/( ty[ 2 ] - ty[ 0 ] ) + dx/dy );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, 1U );
     }
     else if ( n == i ) {
         const real_t dx = tx[ n ] - tx[ n - 1U ];
         const real_t dy = ty[ n ] - ty[ n - 1U ];
         fd1_x = 1.5_re*( dy/dx );
-        fd1_x -= 1.0_re/( ( tx[ n ] - tx[ n - 2U ] )/( ty[ n ] - ty[ n - 2U ] ) + ( dx/dy ) );
+        fd1_x -= 0.5_re*firstDerivate( tx, ty, n, n - 1U );
     }
     else {
         const real_t tmp1 = ( tx[ i + 1U ] - tx[ i ] )/( ty[ i + 1U ] - ty[ i ] );
-- 
2.43.0


From 71d9a9d1cb3d2ba956b432d239424b8dae7d6a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:24 +0000
Subject: [PATCH 22/61] fix: interp1: the constrained spline used the end
 curvatures of each interval swapped

---
 src/interp1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interp1.cpp b/src/interp1.cpp
index 9600501..04b4603 100644
--- a/src/interp1.cpp
+++ b/src/interp1.cpp
@@ -385,8 +385,8 @@ real_t interp1::cSpline( const real_t x,
             const real_t x0_2 = x0*x0;
             const real_t x0_3 = x0_2*x0;
             const real_t inv_x0_x1 = 1.0_re/x0_x1;
-            const real_t d = ( fd2i_x - fd2i_xl1 )*( 0.166666667_re*inv_x0_x1 );
-            const real_t c = ( ( x0*fd2i_xl1 ) - ( x1*fd2i_x ) )*( 0.5_re*inv_x0_x1 );
+            const real_t d = ( fd2i_xl1 - fd2i_x )*( 0.166666667_re*inv_x0_x1 );
+            const real_t c = ( ( x0*fd2i_x ) - ( x1*fd2i_xl1 ) )*( 0.5_re*inv_x0_x1 );
             const real_t b = ( y0 - y1 - c*( x0_2 - x1_2 ) - d*( x0_3 - x1_3 ) )*inv_x0_x1;
             const real_t a = y1 - ( b*x1 ) - ( c*x1_2 ) - ( d*x1_3 );
             y = a + x*( b + x*( c + ( x*d ) ) );
-- 
2.43.0


From 6025b19c033a14797e2441e0ffa9d8ae799943ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 23/61] fix: smoother: setup of the moving mean filter tested
 its old window size and always failed

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 4a39430..fc2e21f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -87,7 +87,7 @@ bool smootherMWM1::setup( real_t *window,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) ) {
+    if ( ( nullptr != window ) && ( w_size > 0U ) ) {
         w = window;
         wsize = w_size;
         retValue = reset();
-- 
2.43.0


From ebf3ce9e5600ec7938ae3cffb39687f5f5710345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 24/61] fix: smoother: the O(1) outlier removal filter returned
 the raw sample

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index fc2e21f..7cf053f 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -210,7 +210,7 @@ real_t smootherMOR2::smooth( const real_t x )
     m = sum/wsize;
     insertSample( xx );
 
-    return x;
+    return xx;
 }
 /*============================================================================*/
 bool smootherGMWF::setup( const real_t sg,
-- 
2.43.0


From 95fd62ab030c410b88be33ce54dc78226c189b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 25/61] fix: smoother: the adaptive filter read the previous
 weights past the end of the weights array

---
 src/smoother.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 7cf053f..17be5dc 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -403,11 +403,9 @@ real_t smootherALNF::smooth( const real_t x )
     }
     xe = discreteSystem::updateFIR( xx, n, x, w );
     if ( nullptr != w_1 ) {
-        real_t * const ww_1 = &w[ n ];
-
         for ( size_t i = 0U ; i < n ; ++i ) {
             const real_t w0 = w[ i ];
-            const real_t w1 = ww_1[ i ];
+            const real_t w1 = w_1[ i ];
 
             w[ i ] += ( alpha*( x - xe )*xx[ i ] ) + ( mu*( w0 - w1 ) );
             w_1[ i ] = w0;
-- 
2.43.0


From 998b8af36a0cc945097d4069a8213a3e08816c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 26/61] fix: smoother: the adaptive filter without momentum
 could not be set up

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index 17be5dc..c303f05 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -373,7 +373,7 @@ bool smootherALNF::setup( const real_t a,
 {
     bool retValue = false;
 
-    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m > 0.0_re ) && ( m < 1.0_re ) ) {
+    if ( ( nullptr != window ) && ( wsize > 0U ) && ( a > 0.0_re ) && ( a < 1.0_re ) && ( m >= 0.0_re ) && ( m < 1.0_re ) ) {
         alpha = a;
         mu = m;
         xx = window;
-- 
2.43.0


From a85ccf3189cd443cd41f9e999a68831cc0d99626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 27/61] fix: smoother: double exponential smoothing started
 with a trend equal to the level

---
 src/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smoother.cpp b/src/smoother.cpp
index c303f05..1456ba3 100644
--- a/src/smoother.cpp
+++ b/src/smoother.cpp
@@ -354,7 +354,7 @@ real_t smootherDESF::smooth( const real_t x )
 
     if ( init ) {
         lt = x;
-        bt = x;
+        bt = 0.0_re;
         init = false;
     }
     lt_1 = lt;
-- 
2.43.0


From 20b95d7590ca57c51e7b2eea58917880b493f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 28/61] fix: ltisys: normalising a discrete system with
 different numerator and denominator sizes ran past the arrays

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index bdfc3c1..3da15e3 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -141,7 +141,7 @@ bool discreteSystem::setup( real_t *num,
         xd = x;
         a = &den[ 1 ];
         type = LTISYS_TYPE_DISCRETE;
-        normalizeTransferFunction( num, den, n_a, n_b );
+        normalizeTransferFunction( num, den, n_b, n_a );
         (void)setInitStates();
         retValue = true;
     }
-- 
2.43.0


From 85b23f41c0f9ae9a1965cbd92170554cab101a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 29/61] fix: ltisys: a discrete system with fewer zeros than
 poles read past the numerator

---
 src/ltisys.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 3da15e3..418050c 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -157,7 +157,23 @@ real_t discreteSystem::update( const real_t u )
     for ( size_t i = 0 ; i < na ; ++i ) {
         v -= a[ i ]*xd[ i ];
     }
-    return updateFIR( xd, n, v, b );
+    if ( n == nb ) {
+        v = updateFIR( xd, n, v, b );
+    }
+    else { /*fewer zeros than states*/
+        const real_t x0 = v;
+
+        v *= b[ 0 ];
+        for ( size_t i = ( n - 1U ) ; i >= 1U ; --i ) {
+            xd[ i ] = xd[ i - 1U ];
+            if ( i < nb ) {
+                v += xd[ i ]*b[ i ];
+            }
+        }
+        xd[ 0 ] = x0;
+    }
+
+    return v;
 }
 /*============================================================================*/
 bool continuousSystem::setup( real_t *num,
-- 
2.43.0


From d3b4f28d8094417c19519b90fcfca34f27bd274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 30/61] fix: ltisys: a discrete system without denominator
 coefficients was accepted

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 418050c..8f753f8 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -133,7 +133,7 @@ bool discreteSystem::setup( real_t *num,
 {
     bool retValue = false;
 
-    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) ) {
+    if ( ( nullptr != num ) && ( nullptr != den ) && ( nullptr != x ) && ( n_b > 0U ) && ( n_a > 0U ) ) {
         b = num;
         na = n_a - 1U;
         nb = n_b;
-- 
2.43.0


From 0ab86aca0f10c24978955feabe55b12831fb7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 31/61] fix: ltisys: all initial states of a continuous system
 took the first given value

---
 src/ltisys.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 8f753f8..7e5ddc7 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -208,7 +208,7 @@ bool continuousSystem::setInitStates( const real_t *xi )
     if ( isInitialized() ) {
         if ( nullptr != xi ) {
             for ( size_t i = 0U; i < n ; ++i ) {
-                xc[ i ].init( xi[ 0 ], xi[ 0 ], xi[ 0 ] );
+                xc[ i ].init( xi[ i ], xi[ i ], xi[ i ] );
             }
         }
         else {
-- 
2.43.0


From b035e0d677b471e12c6ed0a69d2411bb11590b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 32/61] fix: ltisys: a continuous system with direct
 feedthrough lost it

---
 src/ltisys.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ltisys.cpp b/src/ltisys.cpp
index 7e5ddc7..8e37f57 100644
--- a/src/ltisys.cpp
+++ b/src/ltisys.cpp
@@ -248,6 +248,7 @@ real_t continuousSystem::update( const real_t u )
     }
     /*get the output of the system*/
     y += ( b[ 0 ] - ( a[ 0 ]*b0 ) )*xc[ 0 ];
+    y += b0*u;
 
     return y;
 }
-- 
2.43.0


From 6a0b9cc1e15424d7d9df23ee5b519d91af9a734f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:51 +0000
Subject: [PATCH 33/61] fix: ltisys: without explicit saturation limits every
 negative output was clamped to zero

---
 src/include/ltisys.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/ltisys.hpp b/src/include/ltisys.hpp
index ee63527..d4451e7 100644
--- a/src/include/ltisys.hpp
+++ b/src/include/ltisys.hpp
@@ -189,7 +189,7 @@ namespace qlibs {
             size_t na{ 0U };
             size_t nb{ 0U };
             real_t b0{ 0.0_re };
-            real_t min{ REAL_MIN };
+            real_t min{ -REAL_MAX };
             real_t max{ REAL_MAX };
             void normalizeTransferFunction( real_t *num,
                                             real_t *den,
-- 
2.43.0


From 1d8e5bbf9f743b25b4044d645569b30e7b9ea3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:21 +0000
Subject: [PATCH 34/61] fix: pid: setup tested the old time step instead of the
 given one

A zero or negative time step was accepted (and a later valid setup then
refused), because the current member was tested in place of the argument.
---
 src/pid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pid.cpp b/src/pid.cpp
index d38fdef..b25ec87 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -14,7 +14,7 @@ bool pidController::setup( const real_t kc,
 {
     bool retValue = false;
 
-    if ( dt > 0.0_re ) {
+    if ( dT > 0.0_re ) {
         dt = dT;
         isInitialized = true;
         (void)setDerivativeFilter( 0.98_re );
-- 
2.43.0


From b0337dc930999dd7330eaccb91fe0eb239950b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:21 +0000
Subject: [PATCH 35/61] fix: pid: the derivative was taken against the previous
 integrator input

The derivative of the weighted error c*w - y used the state of the
integrator (the previous e + u1). Unless c is one and the output is not
saturated, a constant set-point and process output gave a derivative of
about -w/dt. The weighted error now has a state of its own.
---
 src/include/pid.hpp | 11 +++++++++++
 src/pid.cpp         |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/include/pid.hpp b/src/include/pid.hpp
index b661adc..8b4b525 100644
--- a/src/include/pid.hpp
+++ b/src/include/pid.hpp
@@ -141,6 +141,7 @@ namespace qlibs {
             real_t m, mInput;
             const real_t *yr{ nullptr };
             real_t alpha, gamma; /*MRAC additive controller parameters*/
+            nState d_state; /*Derivative state, it holds the weighted error*/
             nState m_state; /*MRAC additive controller state*/
             nState b_state; /*Bumpless-transfer state*/
             pidAutoTuning *adapt{ nullptr };
@@ -182,6 +183,16 @@ namespace qlibs {
                 return setup( g.Kc, g.Ki, g.Kd, dT );
             }
 
+            /**
+            * @brief Set the derivation method used for the derivative action.
+            * @param[in] dm The desired derivation method.
+            * @return none
+            */
+            inline void setDerivationMethod( derivationMethod dm ) noexcept
+            {
+                d_state.setDerivationMethod( dm );
+            }
+
             /**
             * @brief Set the PID control action direction.
             * @param[in] d Desired output direction.
diff --git a/src/pid.cpp b/src/pid.cpp
index b25ec87..dbb2abe 100644
--- a/src/pid.cpp
+++ b/src/pid.cpp
@@ -217,6 +217,7 @@ bool pidController::reset( void ) noexcept
 
     if ( isInitialized ) {
         init(); //internal controller state
+        d_state.init();
         m_state.init();
         b_state.init();
         D = 0.0_re;
@@ -285,7 +286,7 @@ real_t pidController::control( const real_t w,
             kd = ( kd > 0.0_re ) ? -kd : kd;
         }
         e = error( w, y );
-        de = derive( error( w, y, c ) , dt, false );
+        de = d_state.derive( error( w, y, c ) , dt );
         ie = integrate( e + u1 , dt );
         D = de + beta*( D - de ); /*derivative filtering*/
         v  = ( kc*error( w, y, b ) ) + ( ki*ie ) + ( kd*D ); /*compute PID action*/
-- 
2.43.0


From e2c3271ea2a68b511e92cb707b4e777522900c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 36/61] fix: triangular and trapezoidal membership are 1 at a
 vertical right edge

---
 src/fisCore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index e2c5a5e..c672d95 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -18,7 +18,8 @@ real_t fis::core::TriMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
     c = p[ 2 ];
-    tmp = Min( ( x - a )/( b - a ) , ( c - x )/( c - b ) );
+    tmp = Min( ( x - a )/( b - a ) , 1.0_re );
+    tmp = Min( ( c - x )/( c - b ) , tmp );
 
     return Max( tmp , 0.0_re );
 }
@@ -36,7 +37,7 @@ real_t fis::core::TrapMF( const fis::ioBase * const in,
     c = p[ 2 ];
     d = p[ 3 ];
     tmp = Min( ( x - a )/( b - a ) , 1.0_re );
-    tmp = Min( tmp, ( d - x )/( d - c ) ) ;
+    tmp = Min( ( d - x )/( d - c ) , tmp );
 
     return Max( tmp , 0.0_re );
 }
-- 
2.43.0


From b12efcb8eff7a4cdaf3b88b5d5c670dabf4c7f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 37/61] fix: right half of the gaussian combination membership
 function

---
 src/fisCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index c672d95..0a4a5ea 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -82,7 +82,7 @@ real_t fis::core::Gauss2MF( const fis::ioBase * const in,
     c1 = p[ 1 ];
     c2 = p[ 3 ];
     f1 = ( x <= c1 ) ? GaussMF( in , p, n ) : 1.0_re;
-    f2 = ( x <= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
+    f2 = ( x >= c2 ) ? GaussMF( in , &p[ 2 ], n ) : 1.0_re;
 
     return f1*f2;
 }
-- 
2.43.0


From 1d26ffef3a4b3f974777352a78166bf98de3988b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 38/61] fix: linear z-shaped membership function falls between
 its points

---
 src/fisCore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 0a4a5ea..f9ce62a 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -287,7 +287,7 @@ real_t fis::core::LinZMF( const fis::ioBase * const in,
             y = 0.0_re;
         }
         else {
-            y = ( a - x )/( a - b );
+            y = ( b - x )/( b - a );
         }
     }
     else if ( ffmath::isEqual( a, b ) ) {
@@ -413,7 +413,7 @@ real_t fis::core::TLinZMF( const fis::ioBase * const in,
     a = p[ 0 ];
     b = p[ 1 ];
 
-    return a - ( ( a - b )*x );
+    return b - ( ( b - a )*x );
 }
 /*============================================================================*/
 real_t fis::core::TRampMF( const ioBase * const in,
-- 
2.43.0


From 2f7a9ae772e2fad78ec8f7edaee643e0715d03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 39/61] fix: Tsukamoto s-shaped, z-shaped and concave
 consequents invert their membership functions

---
 src/fisCore.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index f9ce62a..08184ad 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -199,7 +199,7 @@ real_t fis::core::TSMF( const fis::ioBase * const in,
     ta = a + ffmath::sqrt( x*diff );
     tmp.value = ta;
     ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( -( x - 1.0_re )*diff );
+    tb = b - ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = tb;
     mb = SMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
@@ -315,10 +315,10 @@ real_t fis::core::TZMF( const fis::ioBase * const in,
     diff = 0.5_re*diff*diff;
     ta = a + ffmath::sqrt( -( x - 1.0_re )*diff );
     tmp.value = ta;
-    ma = SMF( &tmp, p, n );
-    tb = b + ffmath::sqrt( x*diff );
+    ma = ZMF( &tmp, p, n );
+    tb = b - ffmath::sqrt( x*diff );
     tmp.value = tb;
-    mb = SMF( &tmp, p, n );
+    mb = ZMF( &tmp, p, n );
     return  ( ffmath::absf( x - ma ) < ffmath::absf( x - mb ) ) ? ta : tb;
 }
 /*============================================================================*/
@@ -366,12 +366,14 @@ real_t fis::core::TConcaveMF( const fis::ioBase * const in,
                               const real_t *p,
                               const size_t n )
 {
+    const real_t x = in[ 0 ].value;
     real_t i, e;
+    (void)n;
 
     i = p[ 0 ];
     e = p[ 1 ];
 
-    return ( ( i - e )/ConcaveMF( in, p, n ) ) + ( 2.0_re*e ) - i;
+    return ( ( i - e )/x ) + ( 2.0_re*e ) - i;
 }
 /*============================================================================*/
 real_t fis::core::SpikeMF( const fis::ioBase * const in,
-- 
2.43.0


From c5dac98b97aabbebae6539c18ba9d122314d4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 40/61] fix: Tsukamoto consequents are evaluated at the firing
 strength of the rule

---
 src/fis.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index d2fdcc3..5c89f0c 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -382,7 +382,13 @@ size_t fis::instance::inferenceConsequent( size_t i ) noexcept
         }
         else { /* Sugeno and Tsukamoto*/
             real_t zi;
-            zi = m.membership( xInput, nInputs );
+            if ( Tsukamoto == xType ) {
+                o.value = wi[ ruleCount ];
+                zi = m.membership( &o );
+            }
+            else {
+                zi = m.membership( xInput, nInputs );
+            }
             o.v[ sum_wz ] += zi*wi[ ruleCount ];
             o.v[ sum_w ] += wi[ ruleCount ];
         }
-- 
2.43.0


From fca7b05cfbc05c1e04c33575b5e3f2c25195154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 41/61] fix: smallest of maximum keeps the first maximum

---
 src/fisCore.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fisCore.cpp b/src/fisCore.cpp
index 08184ad..085b4e5 100644
--- a/src/fisCore.cpp
+++ b/src/fisCore.cpp
@@ -624,17 +624,17 @@ real_t fis::core::deFuzzSOM( fis::output * const o,
 
     switch ( stage ) {
         case FIS_DEFUZZ_COMPUTE:
-            if ( o->y >= o->v[ yMax ] ) {
+            if ( o->y > o->v[ yMax ] ) {
                 o->v[ yMax ] = o->y;
-                o->v[ xLargest ] = o->x;
+                o->v[ xSmallest ] = o->x;
             }
             break;
         case FIS_DEFUZZ_INIT:
             o->v[ yMax ] = -1.0_re;
-            o->v[ xLargest ] = o->min;
+            o->v[ xSmallest ] = o->min;
             break;
         case FIS_DEFUZZ_END:
-            d = o->v[ xLargest ];
+            d = o->v[ xSmallest ];
             break;
         default:
             break;
-- 
2.43.0


From 24a427d172d9e93f57fef1c0c0c28b4ac4e3dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 42/61] fix: only min and prod are accepted as implication
 method

---
 src/fis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 5c89f0c..012d2ff 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -19,7 +19,7 @@ bool fis::instance::setParameter( const fis::parameter p,
             }
             break;
         case fis::parameter::FIS_Implication:
-            if ( x <= fis::paramValue::FIS_PROBOR ) {
+            if ( x <= fis::paramValue::FIS_PROD ) {
                 implicate = method[ x ];
                 retValue = true;
             }
-- 
2.43.0


From 4d882f2a35e82d9be2701c454666fbd97b1283d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:38 +0000
Subject: [PATCH 43/61] fix: reject fis tags out of range

---
 src/fis.cpp         | 15 +++++++++------
 src/include/fis.hpp |  4 ++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/fis.cpp b/src/fis.cpp
index 012d2ff..ec110fc 100644
--- a/src/fis.cpp
+++ b/src/fis.cpp
@@ -122,7 +122,7 @@ bool fis::instance::setupInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].min = Min;
         xInput[ t ].max = Max;
@@ -139,7 +139,7 @@ bool fis::instance::setupOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         xOutput[ t ].min = Min;
         xOutput[ t ].max = Max;
@@ -172,7 +172,7 @@ bool fis::instance::setInput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xInput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xInput ) && ( static_cast<size_t>( t ) < nInputs ) ) {
         /*cstat -CERT-STR34-C*/
         xInput[ t ].value = value;
         /*cstat +CERT-STR34-C*/
@@ -187,7 +187,7 @@ bool fis::instance::getOutput( const fis::tag t,
 {
     bool retVal = false;
 
-    if ( ( nullptr != xOutput ) && ( t >= 0 ) ) {
+    if ( ( nullptr != xOutput ) && ( static_cast<size_t>( t ) < nOutputs ) ) {
         /*cstat -CERT-STR34-C*/
         value = xOutput[ t ].value;
         /*cstat +CERT-STR34-C*/
@@ -217,7 +217,10 @@ bool fis::instance::setMF( fis::mf *m,
         &TLinSMF, &TLinZMF, &TConcaveMF, &TSigMF, &TSMF, &TZMF, &TRampMF
     };
 
-    if ( ( io >= 0 ) && ( mf >= 0 ) && ( s < FIS_NUM_MFS ) ) {
+    const size_t nIO = ( m == inMF ) ? nInputs : nOutputs;
+    const size_t nMF = ( m == inMF ) ? nMFInputs : nMFOutputs;
+
+    if ( ( static_cast<size_t>( io ) < nIO ) && ( static_cast<size_t>( mf ) < nMF ) && ( s < FIS_NUM_MFS ) ) {
         /*cstat -CERT-STR34-C*/
         m[ mf ].shape = ( nullptr != customMf ) ? customMf : fShape[ s ];
         m[ mf ].index = static_cast<size_t>( io );
@@ -300,7 +303,7 @@ size_t fis::instance::inferenceAntecedent( size_t i ) noexcept
     op = getFuzzOperator();
     rStrength = op( rStrength, parseFuzzValue( inMF, MFInIndex ) );
 
-    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) > nInputs ) ) {
+    if ( ( inIndex < 0 ) || ( static_cast<size_t>( inIndex ) >= nInputs ) ) {
         i = INFERENCE_ERROR;
     }
     else {
diff --git a/src/include/fis.hpp b/src/include/fis.hpp
index 924e8c7..53cdbe8 100644
--- a/src/include/fis.hpp
+++ b/src/include/fis.hpp
@@ -833,7 +833,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xInput[ nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < nOutputs ) ? xOutput[ outTag ].value :  xOutput[ nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
@@ -1168,7 +1168,7 @@ namespace qlibs {
             real_t operator[]( tag outTag ) const
             {
                 /*cstat -CERT-STR34-C*/
-                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xInput[ sys.nOutputs -1 ].value;
+                return ( static_cast<size_t>( outTag ) < sys.nOutputs ) ? sys.xOutput[ outTag ].value :  sys.xOutput[ sys.nOutputs -1 ].value;
                 /*cstat +CERT-STR34-C*/
             }
 
-- 
2.43.0


From 003db6f748a8bfdeb5e755aa66091c0fdecce5bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 44/61] fix: ffmath: rem of zero is zero, and only a zero
 divisor is an error

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 7bfd6ba..52c5ac2 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -404,7 +404,7 @@ float ffmath::frac( float x )
 float ffmath::rem( float x,
                    float y )
 {
-    return ( classification::FFP_ZERO == classify( x ) ) ? limits::nan()
+    return ( classification::FFP_ZERO == classify( y ) ) ? limits::nan()
                                                          : ( x - ( y*ffmath::trunc( x/y ) ) );
 }
 /*============================================================================*/
-- 
2.43.0


From 529b1a025bc8b6ca283c0769fb6e511ff1d81a42 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 45/61] fix: ffmath: cubic root of negative numbers started
 from the sign bit

---
 src/ffmath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 52c5ac2..3a78dca 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -248,13 +248,14 @@ static float compute_cbrt( float x , bool r )
     float retVal, y = 0.0F, c, d;
     const float k[ 3 ] = { 1.752319676F, 1.2509524245F, 0.5093818292F };
     constexpr float c13 = 1.0F/3.0F;
-    uint32_t i = bit_cast<uint32_t>( x );
+    uint32_t i;
     bool neg = false;
 
     if ( x < 0.0F ) {
         x = -x;
         neg = true;
     }
+    i = bit_cast<uint32_t>( x );
     i = 0x548C2B4BU - ( i/3U );
     y = bit_cast<float>( i );
     c = x*y*y*y;
-- 
2.43.0


From 4dd40bcfce79fb5fd4aa4ec137b7326c0a77bf0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 46/61] fix: ffmath: square root of infinity and of subnormal
 numbers

---
 src/ffmath.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 3a78dca..33ccb5c 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -208,7 +208,12 @@ float ffmath::sqrt( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = 0.0F;
     }
+    else if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = x;
+    }
     else {
+        const bool tiny = ( x < limits::Min() );
+        x *= ( tiny ) ? 16777216.0F : 1.0F;
         uint32_t y = bit_cast<uint32_t>( x );
         float z = 0.0F;
 
@@ -216,6 +221,7 @@ float ffmath::sqrt( float x )
         z = bit_cast<float>( y );
         z = 0.5F*( ( x/z ) + z );
         retVal = 0.5F*( ( x/z ) + z );
+        retVal *= ( tiny ) ? ( 1.0F/4096.0F ) : 1.0F;
     }
 
     return retVal;
@@ -231,13 +237,19 @@ float ffmath::rSqrt( float x )
     else if ( ffmath::classification::FFP_ZERO  == ffmath::classify( x ) ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::classification::FFP_INFINITE == ffmath::classify( x ) ) {
+        retVal = 0.0F;
+    }
     else {
+        const bool tiny = ( x < limits::Min() );
+        x *= ( tiny ) ? 16777216.0F : 1.0F;
         uint32_t y = bit_cast<uint32_t>( x );
         const float z = 0.5F*x;
 
         y = 0x5F375A86U - ( y >> 1U );
         x = bit_cast<float>( y );
         retVal = x*( 1.5F - ( z*x*x ) );
+        retVal *= ( tiny ) ? 4096.0F : 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From 8a220348f64199a72108abc2fe8201a21fce57fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 47/61] fix: ffmath: tanh of large negative numbers was not a
 number

---
 src/ffmath.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 33ccb5c..8ceaad7 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -663,8 +663,9 @@ float ffmath::cosh( float x )
 /*============================================================================*/
 float ffmath::tanh( float x )
 {
-    x = ffmath::exp( -2.0F*x );
-    return ( 1.0F - x )/( 1.0F + x );
+    const float e = ffmath::exp( -2.0F*absolute( x ) );
+
+    return ffmath::copysign( ( 1.0F - e )/( 1.0F + e ), x );
 }
 /*============================================================================*/
 float ffmath::asinh( float x )
-- 
2.43.0


From f49ac371183485bbf2bcca64df47ad7d68d0ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 48/61] fix: ffmath: asinh of negative numbers cancelled down
 to the logarithm of zero

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 8ceaad7..a340148 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -670,7 +670,7 @@ float ffmath::tanh( float x )
 /*============================================================================*/
 float ffmath::asinh( float x )
 {
-    return ffmath::log( x + ffmath::sqrt( ( x*x ) + 1.0F ) );
+    return ffmath::copysign( ffmath::log( absolute( x ) + ffmath::sqrt( ( x*x ) + 1.0F ) ), x );
 }
 /*============================================================================*/
 float ffmath::acosh( float x )
-- 
2.43.0


From b346a6322193b7ed7a1503e6a1145f4130b35c9b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 49/61] fix: ffmath: logarithm of infinity, of subnormal
 numbers and of what is not a number

---
 src/ffmath.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index a340148..26c2b6a 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -572,9 +572,14 @@ float ffmath::log2( float x )
     else if ( ffmath::classification::FFP_ZERO == ffmath::classify( x ) ) {
         retVal = -limits::infinity();
     }
+    else if ( !ffmath::isFinite( x ) ) {
+        retVal = x;
+    }
     else {
         float z, px;
         int32_t ip, fp;
+        const bool tiny = ( x < limits::Min() );
+        x *= ( tiny ) ? 16777216.0F : 1.0F;
         const int32_t val_i = bit_cast<int32_t>( x );
         /*cstat -MISRAC++2008-5-0-21*/
         fp = val_i & 8388607;
@@ -582,7 +587,7 @@ float ffmath::log2( float x )
         fp |= 1065353216;
         x = bit_cast<float>( fp );
         ip >>= 23;
-        ip -= 127;
+        ip -= ( tiny ) ? 151 : 127;
         /*cstat +MISRAC++2008-5-0-21*/
         if ( x > ffmath::FFP_SQRT2 ) {
             x *= 0.5F;
-- 
2.43.0


From e11983a3113827505d87cc12da8e48ee02dcb8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 50/61] fix: ffmath: exp2 overflowed half a binade too early
 and converted nan to an integer

---
 src/ffmath.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 26c2b6a..9fa969f 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -540,11 +540,14 @@ float ffmath::exp2( float x )
     else if ( x > 128.0F ) {
         retVal = limits::infinity();
     }
+    else if ( ffmath::isNan( x ) ) {
+        retVal = x;
+    }
     else {
         float ip, fp;
         int32_t ep_i;
 
-        ip = ffmath::floor( x + 0.5F );
+        ip = ffmath::Min( ffmath::floor( x + 0.5F ), 127.0F );
         fp = x - ip;
         /*cstat -CERT-FLP34-C -MISRAC++2008-5-0-21*/
         ep_i = ( static_cast<int32_t>( ip ) + 127 ) << 23;
-- 
2.43.0


From 210dc43d343680d34122dc56f79cf78fb258329a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 51/61] fix: ffmath: arc tangent of infinity was not a number

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 9fa969f..6556322 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -512,7 +512,7 @@ float ffmath::atan( float x )
 {
     float abs_x;
 
-    x /= absolute( x ) + 1.0F;
+    x = ffmath::isInf( x ) ? ffmath::copysign( 1.0F, x ) : ( x/( absolute( x ) + 1.0F ) );
     abs_x = absolute( x );
 
     return x*( ( abs_x*( ( -1.45667498914F*abs_x ) + 2.18501248371F ) ) + 0.842458832225F );
-- 
2.43.0


From 032152e4acabdc68f5016046286be385881ca2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 52/61] fix: ffmath: the error function was neither odd nor
 zero at zero

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 6556322..41a202b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -851,8 +851,8 @@ float ffmath::erf( float x )
         retVal = 1.0F;
     }
     else {
-        x = ffmath::exp( 3.472034176F*x );
-        retVal = ( x/( ( absolute( x ) + 1.0F )*2.0F ) ) - 1.0F;
+        x = ffmath::exp2( 3.472034176F*x );
+        retVal = ( ( 2.0F*x )/( x + 1.0F ) ) - 1.0F;
     }
 
     return retVal;
-- 
2.43.0


From ff9c3e99a0679e046721ad1ac6f5d345ba850572 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 53/61] fix: ffmath: mod left its range for quotients beyond
 the float precision

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 41a202b..bb05d0b 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -437,7 +437,7 @@ float ffmath::mod( float x,
             }
             else if ( m < 0.0F ) {
                 const float tmp = y + m;
-                m = ( absolute( tmp - y ) <= limits::Min() ) ? 0.0F : tmp;
+                m = ( ( tmp < 0.0F ) || ( absolute( tmp - y ) <= limits::Min() ) ) ? 0.0F : tmp;
             }
             else {
                 /*nothing to do here*/
@@ -449,7 +449,7 @@ float ffmath::mod( float x,
             }
             else if ( m > 0.0F ) {
                 const float tmp = y + m;
-                m = ( absolute( tmp - y ) <= limits::Min() ) ? 0.0F : tmp;
+                m = ( ( tmp > 0.0F ) || ( absolute( tmp - y ) <= limits::Min() ) ) ? 0.0F : tmp;
             }
             else {
                 /*nothing to do here*/
-- 
2.43.0


From 26e16eb0f9444aa5d73211afaf9f88091bf9b187 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 54/61] fix: ffmath: inPolygon compared with a crossing
 computed by a misplaced parenthesis

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index bb05d0b..ee4e5ef 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -822,7 +822,7 @@ bool ffmath::inPolygon( const float x,
             if ( ( px[ i ] > x ) != ( px[ j ] > x ) ) {
                 const float dx = px[ j ] - px[ i ];
                 const float dy = py[ j ] - py[ i ];
-                if ( y < ( ( dy*( x - px[ i ] ) )/( dx + py[ i ] ) ) ) {
+                if ( y < ( ( ( dy*( x - px[ i ] ) )/dx ) + py[ i ] ) ) {
                     retVal = !retVal;
                 }
             }
-- 
2.43.0


From eedddaed2e54d05ff93306199f629560d497c875 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 55/61] fix: ffmath: rexp of zero and of subnormal numbers

---
 src/ffmath.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index ee4e5ef..700c758 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -866,6 +866,10 @@ float ffmath::erfc( float x )
 float ffmath::rexp( float x,
                     int32_t *pw2 )
 {
+    const auto xClass = ffmath::classify( x );
+    if ( classification::FFP_SUBNORMAL == xClass ) {
+        x *= 16777216.0F;
+    }
     uint32_t lu = bit_cast<uint32_t>( x );
     uint32_t iu;
     int32_t i = 0;
@@ -873,6 +877,13 @@ float ffmath::rexp( float x,
     iu  = ( lu >> 23U ) & 0x000000FFU;  /* Find the exponent (power of 2) */
     i = bit_cast<int32_t>( iu );
     i -= 0x7E;
+    if ( classification::FFP_SUBNORMAL == xClass ) {
+        i -= 24;
+    }
+    if ( classification::FFP_ZERO == xClass ) {
+        pw2[ 0 ] = 0;
+        return x;
+    }
     pw2[ 0 ] = static_cast<int>( i );
     lu &= 0x807FFFFFU; /* strip all exponent bits */
     lu |= 0x3F000000U; /* mantissa between 0.5 and 1 */
-- 
2.43.0


From 5c6965c9155c54af39a8dd745420780b143062ac Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 56/61] fix: ffmath: ldexp wrapped its exponent around and made
 numbers out of zero

---
 src/ffmath.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 700c758..6a8a226 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -894,17 +894,18 @@ float ffmath::rexp( float x,
 float ffmath::ldexp( float x,
                      int32_t pw2 )
 {
-    uint32_t lu = bit_cast<uint32_t>( x );
-    uint32_t eu;
-    int32_t e = 0;
-
-    eu = ( lu >> 23U ) & 0x000000FFU;
-    e = bit_cast<int32_t>( eu );
-    e += pw2;
-    eu = bit_cast<uint32_t>( e );
-    lu = ( ( eu & 0xFFU ) << 23U ) | ( lu & 0x807FFFFFU );
+    /* exact steps first, so that only the last product can round*/
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 > 127 ) ; ++i ) {
+        x *= 1.7014118346e+38F;
+        pw2 -= 127;
+    }
+    for ( int i = 0 ; ( i < 2 ) && ( pw2 < -126 ) ; ++i ) {
+        x *= 1.9721522630525295e-31F;
+        pw2 += 102;
+    }
+    pw2 = ( pw2 > 127 ) ? 127 : ( ( pw2 < -126 ) ? -126 : pw2 );
 
-    return bit_cast<float>( lu );
+    return x*bit_cast<float>( static_cast<uint32_t>( pw2 + 127 ) << 23U );
 }
 /*============================================================================*/
 float ffmath::hypot( float x,
-- 
2.43.0


From 7ea5185dea7f09be0ac0742bc02913448b00aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 57/61] fix: ffmath: hypot scaled by the larger signed argument
 instead of the larger magnitude

---
 src/ffmath.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 6a8a226..16985c8 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -919,6 +919,8 @@ float ffmath::hypot( float x,
         float a, b, an, bn;
         int32_t e = 0;
 
+        x = absolute( x );
+        y = absolute( y );
         if ( x >= y ) {
             a = x;
             b = y;
-- 
2.43.0


From 345f6af3ac9aa82bdc7b454a015455463e4a439f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 58/61] fix: ffmath: lgamma of arguments above the limit of the
 gamma function is finite

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 16985c8..952bea9 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1109,7 +1109,7 @@ static float lgamma_positive( float x )
     constexpr float pnt68 = 0.6796875F;
     float result;
 
-    if ( x > 171.624F ) {
+    if ( x > 4.08e+36F ) {
         result = limits::infinity();
     }
     else {
-- 
2.43.0


From b0d278ccc52b4f1d2e667c3b070e2685d139d323 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 59/61] fix: ffmath: Laguerre polynomials used the asymptotic
 series for every degree

---
 src/ffmath.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 952bea9..477b187 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1435,7 +1435,7 @@ float ffmath::assoc_laguerre( size_t n,
     }
     else if ( ffmath::isEqual( 0.0F, x ) ) {
         float prod = alpha + 1.0F;
-        for ( size_t i = 2U ; i < n ; ++i ) {
+        for ( size_t i = 2U ; i <= n ; ++i ) {
             /*cstat -CERT-FLP36-C*/
             const float k = static_cast<float>( i );
             /*cstat +CERT-FLP36-C*/
@@ -1443,10 +1443,10 @@ float ffmath::assoc_laguerre( size_t n,
         }
         y = prod;
     }
-    else if ( ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
+    else if ( ( n > 10000000U ) && ( alpha > -1.0F ) && ( x < ( ( 2.0F*( alpha + 1.0F ) ) + ( 4.0F*N ) ) ) ) {
         y = poly_laguerre_large_n( n, alpha, x );
     }
-    else if ( ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
+    else if ( ( alpha >= 0.0F ) || ( ( x > 0.0F ) && ( alpha < -( N + 1.0F ) ) ) ) {
         y = poly_laguerre_recursion( n, alpha, x );
     }
     else {
-- 
2.43.0


From 733d21446a694ae038c47f9bd4aa23b324b248e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 60/61] fix: ffmath: the associated Legendre recurrence divided
 only its second term

---
 src/ffmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 477b187..89b5db1 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -1543,7 +1543,7 @@ float ffmath::assoc_legendre( size_t n,
                 for ( size_t i = ( m + 2U ) ; i <= n ; ++i ) {
                     const float j = static_cast<float>( i );
                     /*cstat +CERT-FLP36-C*/
-                    p_lm = ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m/( j - M ) );
+                    p_lm = ( ( ( ( 2.0F*j ) - 1.0F )*x*p_lm1m ) - ( ( j + M - 1.0F )*p_lm2m ) )/( j - M );
                     p_lm2m = p_lm1m;
                     p_lm1m = p_lm;
                 }
-- 
2.43.0


From 40cf4a85275e529528975aea3de3e211a2c393a0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 09:06:47 +0000
Subject: [PATCH 61/61] fix: ffmath: sign of the exponential integral between
 -1 and 0 and of its asymptotic terms

---
 src/ffmath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ffmath.cpp b/src/ffmath.cpp
index 89b5db1..aab64a6 100644
--- a/src/ffmath.cpp
+++ b/src/ffmath.cpp
@@ -2026,7 +2026,7 @@ static float expint_Ei_asymp( float x )
     for ( size_t i = 1U; i < maxIter; ++i ) {
         const float prev = term;
         /*cstat -CERT-FLP36-C*/
-        term *= -static_cast<float>( i )/x;
+        term *= static_cast<float>( i )/x;
         /*cstat +CERT-FLP36-C*/
         if ( ( term < limits::epsilon() ) || ( term >= prev ) ) {
             break;
@@ -2095,7 +2095,7 @@ static float expint_Ei( float x )
     if ( x < 0.0F ) {
         x = -x;
         if ( x < 1.0F ) {
-            y = expint_E1_series( x );
+            y = -expint_E1_series( x );
         }
         else if ( x < 100.F ) {
             y = -expint_En_cont_frac( 1, x );
-- 
2.43.0

