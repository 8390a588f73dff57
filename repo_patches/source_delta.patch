From f7c8e91e4751527b22ac0fa8f777e0b8c759eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 01/17] fix: div_rem keeps the sign of a small remainder

The remainder was negated as an unsigned 32-bit value, so a negative
dividend with a small divisor gave 2^32-r instead of -r.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..ddaf8af 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -605,7 +605,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
+        remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
         return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
     }
 
-- 
2.43.0


From 7aa3dc1941f67989e6c4a1d1dc4006ab9be6b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 02/17] fix: div_rem computes the quotient before storing the
 remainder

When the remainder object was also the dividend or the divisor, the
quotient's sign and value were computed from the overwritten operand.
---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index ddaf8af..e667f33 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        int quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = dividend._sign < 0 ? -1 * static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From a4a87f38b5857a0b4cda878406b7ddb102f1a143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 03/17] fix: mod_pow keeps the sign of a small result

The residue was negated as an unsigned 32-bit value, so
mod_pow(-2, 3, 5) gave 4294967293.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index e667f33..9726d92 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1598,7 +1598,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -1 * static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From 9678d68956633ddbdfb2b9c3d61ec4654ebea494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 04/17] fix: mod_pow with a multi-limb exponent throws on a
 zero modulus

It divided by zero at machine level and killed the process.
---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..b895345 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 5b0a3ab39eda901a455add0550a0c2ad669a30a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 05/17] fix: to_string reserves room for the minus sign

A negative value whose number of digits is a multiple of nine wrote the
sign in front of the heap buffer.
---
 src/BigInteger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 9726d92..87290e5 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -880,6 +880,8 @@ std::string BigInteger::to_string() const {
     } else {
         cchMax = cuDst * kcchBase;
     }
+    if (_sign < 0)
+        cchMax += 1; // room for the sign
 
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
     // to be null terminated.  Let's ensure that we can allocate a buffer of that size.
-- 
2.43.0


From 3e24d38a07e42fca21253cbb6e89d950b5a1e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 06/17] fix: operator>>= compares the shift in 64 bits

32 * xl overflows for magnitudes of 2^26 limbs or more, for example
(BigInteger(-1) << INT_MAX) >> 5.
---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 87290e5..4e567f9 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1068,7 +1068,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
 
     if (negx) {
-        if (shift >= (kcbitUint * xl)) {
+        if (shift >= (static_cast<int64_t>(kcbitUint) * xl)) {
             *this = s_bnMinusOneInt;
             return *this;
         }
-- 
2.43.0


From 9d4c2e123640bafcff4054b1fb4925a64bdba635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 07/17] fix: operator>>= keeps the sign of a negative value in
 whole-limb shifts

When the two's complement of the magnitude has a zero highest limb the
sign bit was lost: -18446744069414584321 >> 32 gave a wrong result.
---
 src/BigInteger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 4e567f9..adece54 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1066,6 +1066,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     int xl;
     bool negx;
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
+    bool trackSignBit = false;
 
     if (negx) {
         if (shift >= (static_cast<int64_t>(kcbitUint) * xl)) {
@@ -1075,10 +1076,14 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         uint_array temp = xd;
         xd = temp;
         NumericsHelpers::dangerous_make_twos_complement(xd); // Mutates xd
+        // When the shift is a whole number of limbs and the highest limb of the
+        // two's complement is zero, the sign bit lies outside of xd.
+        trackSignBit = smallShift == 0 && xd[xl - 1] == 0;
     }
 
     int zl = xl - digitShift;
     if (zl < 0) zl = 0;
+    if (trackSignBit) zl++;
     uint_array zd(zl, 0);
 
     if (smallShift == 0) {
@@ -1099,6 +1104,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
         }
     }
     if (negx) {
+        if (trackSignBit) zd[zl - 1] = 0xFFFFFFFF;
         NumericsHelpers::dangerous_make_twos_complement(zd); // Mutates zd
     }
     *this = BigInteger(zd, negx);
-- 
2.43.0


From 14df003a2b45a11c20ac13b2cafbac6d8c418ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 08/17] fix: Lehmer's gcd step writes to the buffers

lehmer_core updated copies of the limbs, so the gcd of operands of three
or more limbs was wrong or tripped an assertion.
---
 include/BitsBuffer.h                | 2 +-
 src/BigIntegerCalculator/GcdInv.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From 904497b82ea16ef8fde6b9a04fbb0a3391f0311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 09/17] fix: BitsBuffer clears the limbs above the new length

Overwrite and Refresh filled the low limbs with a wrong value (the
arguments of C#'s Array.Clear taken for those of std::fill).
---
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
-- 
2.43.0


From d43d266c47310f76840936c1798457f144904690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 10/17] fix: FastReducer reduces the caller's limbs

Reduce and SubMod took the value by copy, so the reduced limbs were lost
and only the length changed; the final fill wrote a wrong value over the
result.
---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..34b8104 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..d0af920 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -14,7 +14,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
-- 
2.43.0


From 49eabadbbc36b54b21aba6b84e0973a38488d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 11/17] fix: mod_pow with a large modulus uses each exponent
 limb once

The loop went over every limb and the last one was then applied again.
---
 src/BigIntegerCalculator/PowMod.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index b895345..c66caba 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -214,7 +214,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (size_t i = 0; i < power.size() - 1; i++) {
+        uint32_t p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From e58d5ba0014e0a8381da54ca1cfd45cc682e4ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 12/17] fix: FastReducer's first product fits its buffer

For the modulus 2^(32*(k-1)) _mu has k+2 limbs, and the product with a
value of 2k limbs was written one limb past the end of _q1.
---
 src/BigIntegerCalculator/FastReducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index d0af920..4a53ce7 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,7 +8,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
+    _q1 = uint_array(modulus.size() * 2 + 3);
     _q2 = uint_array(modulus.size() * 2 + 1);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
-- 
2.43.0


From ed1a523b1a039d27f42424eb0e02bf57c17d636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 13/17] fix: negate native integers without signed overflow

The most negative int64 and converting -2^31 to int or -2^63 to long
negated the minimum value of a signed type.
---
 src/BigInteger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index adece54..2c2bd20 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -51,7 +51,7 @@ BigInteger::BigInteger(int64_t value) {
     } else {
         uint64_t x = 0;
         if (value < 0) {
-            x = static_cast<uint64_t>(-value);
+            x = -static_cast<uint64_t>(value);
             _sign = -1;
         } else {
             x = static_cast<uint64_t>(value);
@@ -1432,7 +1432,7 @@ BigInteger::operator int() {
     if (_bits[0] > kuMaskHighBit)
         throw std::overflow_error("SR.Overflow_Int32");
 
-    return -static_cast<int>(_bits[0]);
+    return static_cast<int>(-_bits[0]);
 }
 
 BigInteger::operator unsigned int() {
@@ -1463,7 +1463,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(-uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0


From 514583dc00269c2499fa2828e6aaf87ed6c257d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 14/17] fix: construct from bytes without shifting a negative
 int

The sign-extended accumulator was left-shifted as a signed int, which is
undefined before C++20.
---
 src/BigInteger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 2c2bd20..ca06ce7 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -133,11 +133,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
 
         if (isBigEndian) {
             for (int i = 0; i < byteCount; i++) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         } else {
             for (int i = byteCount - 1; i >= 0; i--) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         }
 
-- 
2.43.0


From d95b61cd6b23b9ce23fcfe9bbb946f62e1116ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 15/17] fix: to_byte_array accepts its default null byte
 counter

The public overload's default argument was dereferenced for zero (and
always when only the count was asked for).
---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index ca06ce7..403a0ee 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1270,10 +1270,12 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     if (sign == 0) {
         switch (mode) {
             case GetBytesMode::Count:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr)
+                    *bytesWritten = 1;
                 return byte_array();
             default:
-                *bytesWritten = 1;
+                if (bytesWritten != nullptr)
+                    *bytesWritten = 1;
                 return byte_array(1, 0);
         }
     }
@@ -1342,7 +1344,8 @@ byte_array BigInteger::to_byte_array(GetBytesMode mode, bool isUnsigned, bool is
     byte_array destination;
     switch (mode) {
         case GetBytesMode::Count:
-            *bytesWritten = length;
+            if (bytesWritten != nullptr)
+                *bytesWritten = length;
             return byte_array();
         default:
             destination = byte_array(length);
-- 
2.43.0


From ef3eb0e6a6ac66002f6f44f66d5f5d079baf61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:24 +0000
Subject: [PATCH 16/17] fix: BigInteger of a sliced buffer read bytes between
 its elements

---
 bindings/python/python-bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..d2fe6e5 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -92,8 +92,11 @@ PYBIND11_MODULE(pybiginteger, m) {
               if (info.format != py::format_descriptor<unsigned char>::format() || info.ndim != 1)
                   throw std::runtime_error("Incompatible buffer format!");
 
+              // the elements of a sliced buffer are not adjacent
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data(info.size);
+              for (py::ssize_t i = 0; i < info.size; i++)
+                  data[i] = data_ptr[i * info.strides[0]];
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From 4744e161fcb9036ffdd85d9a896d2a560c668269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:24 +0000
Subject: [PATCH 17/17] fix: a Python BigInteger hashes like the int it equals

---
 bindings/python/python-bindings.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index d2fe6e5..54f8c05 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -118,9 +118,8 @@ PYBIND11_MODULE(pybiginteger, m) {
                 return self == to_biginteger(other);
             })
             .def("__hash__", [](BigInteger& self) {
-                auto h = 2166136261;
-                h = (h * 16777619) ^ self.get_hash_code();
-                return h;
+                // a BigInteger equals the int of its value, so it has to hash like it
+                return py::hash(to_py_int(self));
             })
             .def("__gt__", [](BigInteger& self, BigInteger& other) {
                 return self > other;
-- 
2.43.0

