From 5dfb87400fb40cbef2b50a7f213055795d113ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 01/25] fix: keep the carry when adding a 64-bit built-in to
 Aeu

---
 include/AesiMultiprecision/Aeu.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 5773baf..c2f4ca4 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -361,9 +361,10 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator+=(Aeu& addition, Unsigned addendum) noexcept -> Aeu& {
+            auto carryOut = static_cast<uint64_t>(addendum);
             for(std::size_t i = 0; i < blocksNumber; ++i) {
-                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + static_cast<uint64_t>(addendum);
-                addendum = static_cast<Unsigned>(currentSum / blockBase); addition.blocks[i] = static_cast<block>(currentSum % blockBase);
+                const auto currentSum = static_cast<uint64_t>(addition.blocks[i]) + carryOut % blockBase;
+                carryOut = carryOut / blockBase + currentSum / blockBase; addition.blocks[i] = static_cast<block>(currentSum % blockBase);
             }
             return addition;
         }
-- 
2.43.0


From 17909c7c9f32cf421116fdf046af1546377e21b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 02/25] fix: multiply by every 64-bit built-in without overflow

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index c2f4ca4..9c2dcd7 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -437,7 +437,7 @@ public:
          */
         template <typename Unsigned> requires (std::is_unsigned_v<Unsigned>)
         gpu constexpr friend auto operator*=(Aeu& multiplication, Unsigned factor) noexcept -> Aeu& {
-            if constexpr (std::is_same_v<Unsigned, uint64_t>) {
+            if constexpr (sizeof(Unsigned) == sizeof(uint64_t)) {
                 const auto longerLength = multiplication.filledBlocksNumber();
                 const auto smallerLength = (factor > blockMax ? 2UL : 1UL);
                 blockLine buffer {};
-- 
2.43.0


From 6ec111774eceaee9e3e21dd6b361793e0e94882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 03/25] fix: compare the extra high blocks first in
 cross-precision Aeu comparison

---
 include/AesiMultiprecision/Aeu.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 9c2dcd7..6cc185f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -807,12 +807,6 @@ public:
             using enum Comparison;
 
             const auto lowerBlockBorder = (blocksNumber < other.totalBlocksNumber() ? blocksNumber : other.totalBlocksNumber());
-            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
-                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
-                if(thisBlock != otherBlock)
-                    return (thisBlock > otherBlock ? greater : less);
-            }
-
             if constexpr (otherBitness != blocksNumber * blockBitLength) {
                 using enum Comparison;
                 if (other.totalBlocksNumber() > blocksNumber) {
@@ -826,6 +820,12 @@ public:
                 }
             }
 
+            for(std::size_t i = lowerBlockBorder; i-- > 0;) {
+                const block thisBlock = blocks[i], otherBlock = other.getBlock(i);
+                if(thisBlock != otherBlock)
+                    return (thisBlock > otherBlock ? greater : less);
+            }
+
             return equal;
         }
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 6630ddc56f41e8191b95edcffc9f59a8bd49f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 04/25] fix: do not truncate the wider operand in
 cross-precision Aesi comparison

---
 include/AesiMultiprecision/Aesi.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 960e459..de0c410 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -620,7 +620,7 @@ public:
             if constexpr (bitness == otherBitness) {
                 return our.compareTo(other) == Comparison::equal;
             } else {
-                return our.precisionCast<otherBitness>() == other;
+                return our.compareTo(other) == Comparison::equal;
             }
         }
 
@@ -683,7 +683,9 @@ public:
          */
         template <std::size_t otherBitness = bitness> [[nodiscard]]
         gpu constexpr auto compareTo(const Aesi<otherBitness>& value) const noexcept -> Comparison {
-            return precisionCast<otherBitness>().compareTo(value);
+            if constexpr (otherBitness < bitness)
+                return compareTo(value.template precisionCast<bitness>());
+            else return precisionCast<otherBitness>().compareTo(value);
         }
 
         /**
-- 
2.43.0


From 3306218ecd93807f0b9f617b6e56e2ed98bcfc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 05/25] fix: treat the byte index equal to the byte count as
 out of range

---
 include/AesiMultiprecision/Aeu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 6cc185f..64c2829 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -930,7 +930,7 @@ public:
      */
     gpu constexpr auto setByte(std::size_t index, byte byte) noexcept -> void {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return;
+        if(index >= blocksNumber * sizeof(block)) return;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
@@ -946,7 +946,7 @@ public:
     [[nodiscard]]
     gpu constexpr auto getByte(std::size_t index) const noexcept -> byte {
 #ifndef AESI_UNSAFE
-        if(index > blocksNumber * sizeof(block)) return 0;
+        if(index >= blocksNumber * sizeof(block)) return 0;
 #endif
         const std::size_t blockNumber = index / sizeof(block), byteInBlock = index % sizeof(block), shift = byteInBlock * bitsInByte;
         assert(blockNumber < blocksNumber && byteInBlock < sizeof(block));
-- 
2.43.0


From 0db0f180ff7baba93ffe794dadd540608f1b1ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 06/25] fix: keep Aeu::getString inside the given buffer

---
 include/AesiMultiprecision/Aeu.h | 29 ++++-------------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 64c2829..dfa47a0 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1315,36 +1315,15 @@ public:
         }
 
         if constexpr (base == 16) {
-            std::size_t iter = blocks.size() - 1;
-            for (; iter > 0 && blocks[iter] == 0; --iter)
-                ;
-
-            if constexpr (std::is_same_v<Char, char>) {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(snprintf(buffer + position, bufferSize - position, "%08x", blocks[iter]));
-                }
-            } else {
-                if constexpr (hexUppercase) {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%X", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08X", blocks[iter]));
-                } else {
-                    position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%x", blocks[iter]));
-                    for (; iter-- > 0;)
-                        position += static_cast<std::size_t>(swprintf(buffer + position, bufferSize - position, L"%08x", blocks[iter]));
-                }
+            for (auto digitsLeft = (bitCount() + 3) / 4; digitsLeft-- > 0 && position + 1 < bufferSize;) {
+                const auto digit = (blocks[digitsLeft / 8] >> (digitsLeft % 8 * 4)) & 0xfU;
+                buffer[position++] = static_cast<Char>(digit < 10 ? '0' + digit : (hexUppercase ? 'A' : 'a') + (digit - 10));
             }
         } else {
             const auto startPosition = position;
 
             Aeu copy = *this;
-            while (!copy.isZero() && position < bufferSize) {
+            while (!copy.isZero() && position + 1 < bufferSize) {
                 auto [quotient, remainder] = divide(copy, base);
                 if constexpr (std::is_same_v<Char, char>) {
                     buffer[position++] = static_cast<Char>('0' + remainder.template integralCast<byte>());
-- 
2.43.0


From d813992f2040ea39b23ec9224ffeacbaf72c5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 07/25] fix: terminate the text of zero written by getString

---
 include/AesiMultiprecision/Aesi.h | 6 ++++++
 include/AesiMultiprecision/Aeu.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index de0c410..a1089de 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1078,6 +1078,7 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
                     buffer[2] = buffer[0];
+                    if(bufferSize > 3) buffer[3] = Char {};
                     return 3;
                 }
                 case 8: {
@@ -1085,6 +1086,7 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
                     buffer[2] = buffer[0];
+                    if(bufferSize > 3) buffer[3] = Char {};
                     return 3;
                 }
                 case 16: {
@@ -1092,17 +1094,21 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
                     buffer[2] = buffer[0];
+                    if(bufferSize > 3) buffer[3] = Char {};
                     return 3;
                 }
                 default: {
                     if(bufferSize < 1) return 0;
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
+                    if(bufferSize > 1) buffer[1] = Char {};
                     return 1;
                 }
             }
         }
 
+        if(bufferSize < 1) return 0;
         buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
+        if(bufferSize > 1) buffer[1] = Char {};
         return 1;
     }
 
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index dfa47a0..018e417 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1311,6 +1311,7 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
+            buffer[position] = Char {};
             return position;
         }
 
-- 
2.43.0


From 6c46d52cc35ed0b02c745a3e567a97b471f72314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 08/25] fix: reduce powm results for base 0 and modulo 1

---
 include/AesiMultiprecision/Aeu.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 018e417..650340d 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1200,12 +1200,7 @@ public:
      */
     template <std::size_t powerBitness = bitness> [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu<powerBitness>& power, const Aeu& modulo) noexcept -> Aeu {
-        if(base == 1u)
-            return base;
-        if(base == 0u)
-            return { 1u };
-
-        Aeu output = 1u;
+        auto output = Aeu(1u) % modulo;
         auto [_, b] = divide(base, modulo);
 
         for(unsigned iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
@@ -1223,7 +1218,7 @@ public:
 
     [[nodiscard]]
     gpu static constexpr auto powm(const Aeu& base, const Aeu& power, const Aeu& mod) noexcept -> Aeu {
-        Aeu output = 1u;
+        auto output = Aeu(1u) % mod;
         auto [_, b] = divide(base, mod);
 
         for(std::size_t iteration = 0; power.filledBlocksNumber() * blockBitLength != iteration; iteration++) {
-- 
2.43.0


From c79e4981c05ee595d30bb82ae96c0cb716126ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 09/25] fix: clear the magnitude of Aesi results that become
 zero

---
 include/AesiMultiprecision/Aesi.h | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index a1089de..00f0c99 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -289,8 +289,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
-                        return addition;
+                        return addition = Aesi {};
                     }
                 }
             } else {
@@ -306,8 +305,7 @@ public:
                         return addition;
                     }
                     default: {
-                        lSign = Zero;
-                        return addition;
+                        return addition = Aesi {};
                     }
                 }
             }
@@ -359,8 +357,7 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
-                            return subtraction;
+                            return subtraction = Aesi {};
                         }
                     }
                 } else {
@@ -381,8 +378,7 @@ public:
                             return subtraction;
                         }
                         default: {
-                            lSign = Zero;
-                            return subtraction;
+                            return subtraction = Aesi {};
                         }
                     }
                 } else {
@@ -426,7 +422,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, Integral factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor == 0) {
-                multiplication.sign = Zero;
+                multiplication = Aesi {};
             } else {
                 if(factor < 0) {
                     multiplication.inverse();
@@ -446,7 +442,7 @@ public:
         gpu constexpr friend auto operator*=(Aesi& multiplication, const Aesi& factor) noexcept -> Aesi& {
             using enum Sign;
             if(factor.isZero()) {
-                multiplication.sign = Zero;
+                multiplication = Aesi {};
             } else {
                 if(factor.isNegative())
                     multiplication.inverse();
@@ -492,7 +488,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, Integral divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor == 0) {
-                division.sign = Zero;
+                division = Aesi {};
             } else {
                 if(divisor < 0) {
                     division.inverse();
@@ -514,7 +510,7 @@ public:
         gpu constexpr friend auto operator/=(Aesi& division, const Aesi& divisor) noexcept -> Aesi& {
             using enum Sign;
             if(divisor.isZero()) {
-                division.sign = Zero;
+                division = Aesi {};
             } else {
                 if(divisor.isNegative())
                     division.inverse();
@@ -562,7 +558,7 @@ public:
         gpu constexpr friend auto operator%=(Aesi& modulation, Integral modulo) noexcept -> Aesi& {
             using enum Sign;
             if(modulo == 0) {
-                modulation.sign = Zero;
+                modulation = Aesi {};
             } else {
                 if(modulo < 0) {
                     modulation.inverse();
@@ -944,8 +940,8 @@ public:
     gpu static constexpr auto divide(const Aesi& number, const Aesi& divisor, Aesi& quotient, Aesi& remainder) noexcept -> void {
         using enum Sign;
         if(number.sign == Zero || divisor.sign == Zero) {
-            quotient.sign = Zero;
-            remainder.sign = Zero;
+            quotient = Aesi {};
+            remainder = Aesi {};
             return;
         }
 
-- 
2.43.0


From 0216922a6768201d815a608ec8970f23deae275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 10/25] fix: give Aesi results that wrap or crop to zero the
 zero sign

---
 include/AesiMultiprecision/Aesi.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 00f0c99..2c4428c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -163,7 +163,9 @@ public:
             sign = Zero;
         } else {
             base = number;
-            if(number < 0)
+            if(base.isZero())
+                sign = Zero;
+            else if(number < 0)
                 sign = Negative;
             else sign = Positive;
         }
@@ -212,7 +214,7 @@ public:
             if(sign == Negative) {
                 --base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Positive; }
             return *this;
         }
@@ -230,7 +232,7 @@ public:
         gpu constexpr auto operator--() noexcept -> Aesi& {
             using enum Sign;
             if(sign == Negative) {
-                ++base;
+                ++base; if(base.isZero()) sign = Zero;
             } else if(sign == Positive) {
                 --base; if(base.isZero()) sign = Zero;
             } else { base = 1u; sign = Negative; }
@@ -272,7 +274,7 @@ public:
             else if(lSign == Zero)
                 return addition = addendum;
             else if(lSign == rSign) {
-                lBase += rBase;
+                lBase += rBase; if(lBase.isZero()) lSign = Zero;
                 return addition;
             }
 
@@ -361,7 +363,7 @@ public:
                         }
                     }
                 } else {
-                    lBase += rBase;
+                    lBase += rBase; if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             } else {
@@ -382,7 +384,7 @@ public:
                         }
                     }
                 } else {
-                    lBase += rBase;
+                    lBase += rBase; if(lBase.isZero()) lSign = Zero;
                     return subtraction;
                 }
             }
@@ -429,6 +431,7 @@ public:
                     factor = static_cast<Integral>(-factor);
                 }
                 multiplication.base *= static_cast<unsigned long long>(factor);
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -447,6 +450,7 @@ public:
                 if(factor.isNegative())
                     multiplication.inverse();
                 multiplication.base *= factor.base;
+                if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
         }
@@ -1029,6 +1033,9 @@ public:
             for(std::size_t blockIdx = 0; blockIdx < blockBoarder; ++blockIdx)
                 result.setBlock(blockIdx, getBlock(blockIdx));
 
+            if(result.filledBlocksNumber() == 0)
+                return Aesi<newBitness> {};
+
             if(sign == Negative)
                 result.inverse();
 
-- 
2.43.0


From cb299424b807a772e0ea5bdb0a28fb3c02159bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 11/25] fix: set the zero sign in Aesi modulo by a built-in

---
 include/AesiMultiprecision/Aesi.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 2c4428c..d8cc70d 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -569,6 +569,7 @@ public:
                     modulo = static_cast<Integral>(-modulo);
                 }
                 modulation.base %= static_cast<unsigned long long>(modulo);
+                if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
         }
-- 
2.43.0


From 3289c35c00c24997424b00c2ceb20a91197ca94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 12/25] fix: keep the sign of the dividend in Aesi modulo by a
 negative number

---
 include/AesiMultiprecision/Aesi.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index d8cc70d..13d10f0 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -564,10 +564,8 @@ public:
             if(modulo == 0) {
                 modulation = Aesi {};
             } else {
-                if(modulo < 0) {
-                    modulation.inverse();
+                if(modulo < 0)
                     modulo = static_cast<Integral>(-modulo);
-                }
                 modulation.base %= static_cast<unsigned long long>(modulo);
                 if(modulation.base.isZero()) modulation.sign = Zero;
             }
@@ -586,8 +584,6 @@ public:
             if(modulo.isZero())
                 return modulation;
 
-            if(modulo.isNegative())
-                modulation.inverse();
             modulation.base %= modulo.base;
             if(modulation.base.isZero())
                 modulation.sign = Sign::Zero;
-- 
2.43.0


From f9623f12ce05cc87e82fd736851dd8f57d8ad6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 13/25] fix: take the magnitude of minimum built-in values
 without overflow in Aesi

---
 include/AesiMultiprecision/Aesi.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 13d10f0..6781874 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -74,6 +74,16 @@ class Aesi final {
 
     gpu constexpr Aesi(Sign withSign, Base withBase): sign { withSign }, base { withBase } {}
 
+    /**
+     * @brief Absolute value of a built-in integral, valid for the minimum value of the type as well
+     * @param value Integral
+     * @return Unsigned long long
+     */
+    template <typename Integral> requires (std::is_integral_v<Integral>)
+    gpu static constexpr auto magnitudeOf(Integral value) noexcept -> unsigned long long {
+        return value < 0 ? 0ULL - static_cast<unsigned long long>(value) : static_cast<unsigned long long>(value);
+    }
+
 public:
     /* --------------------- @name Different constructors. ------------------- */
     /**
@@ -100,7 +110,7 @@ public:
     gpu constexpr Aesi(Integral value) noexcept {
         using enum Sign;
         if(value < 0) {
-            base = Base(static_cast<unsigned long long>(-value));
+            base = Base(magnitudeOf(value));
             sign = Negative;
         } else if(value > 0) {
             base = Base(static_cast<unsigned long long>(value));
@@ -426,11 +436,9 @@ public:
             if(factor == 0) {
                 multiplication = Aesi {};
             } else {
-                if(factor < 0) {
+                if(factor < 0)
                     multiplication.inverse();
-                    factor = static_cast<Integral>(-factor);
-                }
-                multiplication.base *= static_cast<unsigned long long>(factor);
+                multiplication.base *= magnitudeOf(factor);
                 if(multiplication.base.isZero()) multiplication.sign = Zero;
             }
             return multiplication;
@@ -494,11 +502,9 @@ public:
             if(divisor == 0) {
                 division = Aesi {};
             } else {
-                if(divisor < 0) {
+                if(divisor < 0)
                     division.inverse();
-                    divisor = static_cast<Integral>(-divisor);
-                }
-                division.base /= static_cast<unsigned long long>(divisor);
+                division.base /= magnitudeOf(divisor);
                 if(division.base.isZero()) division.sign = Zero;
             }
             return division;
@@ -564,9 +570,7 @@ public:
             if(modulo == 0) {
                 modulation = Aesi {};
             } else {
-                if(modulo < 0)
-                    modulo = static_cast<Integral>(-modulo);
-                modulation.base %= static_cast<unsigned long long>(modulo);
+                modulation.base %= magnitudeOf(modulo);
                 if(modulation.base.isZero()) modulation.sign = Zero;
             }
             return modulation;
@@ -656,7 +660,7 @@ public:
                 }
             } else if(integral < 0) {
                 if(sign == Negative)
-                    switch(base.compareTo(static_cast<uint64_t>(-static_cast<int64_t>(integral)))) {
+                    switch(base.compareTo(static_cast<uint64_t>(magnitudeOf(integral)))) {
                         using enum Comparison;
                         case greater:
                             return less;
-- 
2.43.0


From e07cc0129fb23a4d8ef1594538c9ba2bde762dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 14/25] fix: construct Aesi from a zero Aeu with the zero sign

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 6781874..8ccc290 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -158,7 +158,7 @@ public:
      * @brief Unsigned integer conversion
      * @param value Aeu&
      */
-    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(Sign::Positive), base(value) {}
+    explicit gpu constexpr Aesi(const Aeu<bitness>& value) : sign(value.isZero() ? Sign::Zero : Sign::Positive), base(value) {}
 
 
 #ifdef AESI_GMP_INTEGRATION
-- 
2.43.0


From 0a20a437e62d6d5cb32723a55b293df0c528b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 15/25] fix: cast negative Aesi to the minimum built-in values
 without overflow

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 8ccc290..6cde7d9 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1014,7 +1014,7 @@ public:
 
         if constexpr (std::is_signed_v<Integral>) {
             if(sign == Negative)
-                return base.template integralCast<Integral>() * -1;
+                return static_cast<Integral>(0ULL - base.template integralCast<unsigned long long>());
         }
 
         return base.template integralCast<Integral>();
-- 
2.43.0


From f562629e2db064f6ac274094cea01e8be154e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 16/25] fix: make the comparison operators used before C++20
 compile

---
 include/AesiMultiprecision/Aesi.h | 12 ++++++------
 include/AesiMultiprecision/Aeu.h  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 6cde7d9..ba25419 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -732,19 +732,19 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA cause it does not support <=> operator.
          */
-        gpu constexpr auto operator!=(const Aeu<bitness>& value) const noexcept -> bool {
-            return !this->operator==(value);
+        gpu constexpr auto operator!=(const Aesi& value) const noexcept -> bool {
+            return !(*this == value);
         }
-        gpu constexpr auto operator<(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::less;
         }
-        gpu constexpr auto operator<=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator<=(const Aesi& value) const noexcept -> bool {
             return !this->operator>(value);
         }
-        gpu constexpr auto operator>(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>(const Aesi& value) const noexcept -> bool {
             return this->compareTo(value) == Comparison::greater;
         }
-        gpu constexpr auto operator>=(const Aeu<bitness>& value) const noexcept -> bool {
+        gpu constexpr auto operator>=(const Aesi& value) const noexcept -> bool {
             return !this->operator<(value);
         }
 #else
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 650340d..478a7df 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -836,7 +836,7 @@ public:
         /**
          * @brief Oldstyle comparison operator(s). Used inside CUDA because it does not support <=> on preCpp20
          */
-        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !this->operator==(value); }
+        gpu constexpr auto operator!=(const Aeu& value) const noexcept -> bool { return !(*this == value); }
         gpu constexpr auto operator<(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::less; }
         gpu constexpr auto operator<=(const Aeu& value) const noexcept -> bool { return !this->operator>(value); }
         gpu constexpr auto operator>(const Aeu& value) const noexcept -> bool { return this->compareTo(value) == Comparison::greater; }
-- 
2.43.0


From 03a03ee7cc5c368d9cff04ae08b30c171082b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 17/25] fix: refuse precisions of 64 bits or less as the
 assertion says

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 478a7df..795887f 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -82,7 +82,7 @@ namespace {
  */
 template <std::size_t bitness = 512> requires (bitness % blockBitLength == 0)
 class Aeu final {
-    static_assert(bitness > sizeof(uint64_t), "Use built-in types for numbers 64-bit or less.");
+    static_assert(bitness > sizeof(uint64_t) * bitsInByte, "Use built-in types for numbers 64-bit or less.");
     
     static constexpr std::size_t blocksNumber = bitness / blockBitLength;
 
-- 
2.43.0


From 79d5df53f95154791096f56c7d177a3baf24d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 18/25] fix: allow string construction in constant expressions

---
 include/AesiMultiprecision/Aesi.h | 6 +++---
 include/AesiMultiprecision/Aeu.h  | 9 ++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index ba25419..566efef 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -39,10 +39,10 @@ namespace {
     enum class Sign { Zero = 0, Positive = 1, Negative = -1 };
 
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
-    Sign traverseDashes(const Char* ptr, std::size_t);
+    constexpr Sign traverseDashes(const Char* ptr, std::size_t);
 
     template <>
-    inline Sign traverseDashes(const char* ptr, std::size_t size) {
+    constexpr Sign traverseDashes(const char* ptr, std::size_t size) {
         std::byte positive { 1 };
         for(std::size_t i = 0; i < size; ++i)
             if(ptr[i] == '-') positive ^= std::byte {1};
@@ -50,7 +50,7 @@ namespace {
     }
 
     template <>
-    inline Sign traverseDashes(const wchar_t* ptr, std::size_t size) {
+    constexpr Sign traverseDashes(const wchar_t* ptr, std::size_t size) {
         std::byte positive { 1 };
         for(std::size_t i = 0; i < size; ++i)
             if(ptr[i] == L'-') positive ^= std::byte {1};
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 795887f..a37213a 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -187,11 +187,10 @@ public:
 
         std::size_t position = 0;
 
-        if constexpr (std::is_same_v<Char, char>) {
-            for(; position < size && !std::isalnum(data[position]); ++position) ;
-        } else {
-            for(; position < size && !std::iswalnum(static_cast<wint_t>(data[position])); ++position) ;
-        }
+        constexpr auto isAlphanumeric = [] (Char ch) {
+            return (Char('0') <= ch && ch <= Char('9')) || (Char('a') <= ch && ch <= Char('z')) || (Char('A') <= ch && ch <= Char('Z'));
+        };
+        for(; position < size && !isAlphanumeric(data[position]); ++position) ;
 
         if(position == size)
             return;
-- 
2.43.0


From 487c9b2f131e8c3a2ffbda62929d147093861440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 19/25] fix: exchange both objects in tryAtomicExchange

---
 include/AesiMultiprecision/Aesi.h | 4 ++--
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 566efef..7711e5c 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1157,9 +1157,9 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aesi& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aesi& value) noexcept -> void {
         base.tryAtomicExchange(value.base);
-        sign = value.sign; /* TODO: Make enum substitution using existing CUDA atomics */
+        const Sign tSign = sign; sign = value.sign; value.sign = tSign; /* TODO: Make enum substitution using existing CUDA atomics */
     }
 #endif
 };
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index a37213a..df2c8d1 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1492,7 +1492,7 @@ public:
      * @note Method itself is not fully-atomic. There may be race conditions between two consecutive atomic calls on number blocks.
      * This method is an interface for exchanging encapsulated class members atomically one by one
      */
-    __device__ constexpr auto tryAtomicExchange(const Aeu& value) noexcept -> void {
+    __device__ constexpr auto tryAtomicExchange(Aeu& value) noexcept -> void {
         for(std::size_t i = 0; i < blocksNumber; ++i)
             atomicExch(&value.blocks[i], atomicExch(&blocks[i], value.blocks[i]));
     }
-- 
2.43.0


From e16543fef31c2a11e146896be05e616b28549172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 20/25] fix: restore the stream's fill and alignment after
 hexadecimal output

---
 include/AesiMultiprecision/Aeu.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index df2c8d1..cfbf12c 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1375,10 +1375,12 @@ public:
                 ;
 
             os << number.blocks[iter];
+            const auto fill = os.fill();
             for (; iter-- > 0;) {
                 os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
                 os.width(8); os << std::right << number.blocks[iter];
             }
+            os.fill(fill); os.setf(flags & std::ios::adjustfield, std::ios::adjustfield);
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 7117b0a483fe6feaf3248f20bd3cc27ed89dbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 21/25] fix: compare with GMP integers that do not fit the
 precision

---
 include/AesiMultiprecision/Aesi.h | 2 +-
 include/AesiMultiprecision/Aeu.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 7711e5c..7e9f3e7 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -634,7 +634,7 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aesi& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aesi(mpz_class(other));
+            return [&our] (const mpz_class& value) { return mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aesi(value); } (mpz_class(other));
         }
 #endif
     /* --------------------------------------------------------------------------- */
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index cfbf12c..25915b2 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -751,7 +751,7 @@ public:
          */
         template <typename T, typename U>
         constexpr friend auto operator==(const Aeu& our, const __gmp_expr<T, U>& other) noexcept -> bool {
-            return our == Aeu(mpz_class(other));
+            return [&our] (const mpz_class& value) { return sgn(value) >= 0 && mpz_sizeinbase(value.get_mpz_t(), 2) <= bitness && our == Aeu(value); } (mpz_class(other));
         }
 #endif
     /* --------------------------------------------------------------------------- */
-- 
2.43.0


From 893436023909ab56242ec47add862fcaff30b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 22/25] fix: keep digit grouping of the stream's locale out of
 hexadecimal output

---
 include/AesiMultiprecision/Aeu.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 25915b2..24d8139 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1370,17 +1370,10 @@ public:
             return os << '0';
 
         if(base == 16) {
-            std::size_t iter = number.blocks.size() - 1;
-            for(; iter > 0 && number.blocks[iter] == 0; --iter)
-                ;
-
-            os << number.blocks[iter];
-            const auto fill = os.fill();
-            for (; iter-- > 0;) {
-                os.fill([] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ());
-                os.width(8); os << std::right << number.blocks[iter];
+            for(auto digitsLeft = (number.bitCount() + 3) / 4; digitsLeft-- > 0;) {
+                const auto digit = (number.blocks[digitsLeft / 8] >> (digitsLeft % 8 * 4)) & 0xfU;
+                os << static_cast<Char>(digit < 10 ? '0' + digit : ((flags & std::ios::uppercase) ? 'A' : 'a') + (digit - 10));
             }
-            os.fill(fill); os.setf(flags & std::ios::adjustfield, std::ios::adjustfield);
         } else {
             /* Well, here we use a pre-calculated magic number to ratio the length of numbers in decimal or octal notation according to bitness.
              * * It is 2.95-98 for octal and 3.2 for decimal. */
-- 
2.43.0


From 7316cffd5afc32b5715284fc5f619d6f88e06dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 23/25] fix: apply the field width to the whole number in
 stream insertion

---
 include/AesiMultiprecision/Aesi.h | 6 ++++++
 include/AesiMultiprecision/Aeu.h  | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 7e9f3e7..87f488a 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1130,6 +1130,12 @@ public:
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
     friend constexpr auto operator<<(std::basic_ostream<Char>& os, const Aesi& number) -> std::basic_ostream<Char>& {
         using enum Sign;
+        if(os.width() > 0) { /* The field width concerns the whole number, not its first character */
+            std::basic_ostringstream<Char> text; text.flags(os.flags()); text << number;
+            os.setf(text.flags() & std::ios::showbase, std::ios::showbase);
+            return os << text.str();
+        }
+
         if(number.sign != Zero) {
             if(number.sign == Negative)
                 os << [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 24d8139..ba7ecc0 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -36,6 +36,7 @@
 #include <cctype>
 #include <cwctype>
 #include <iostream>
+#include <sstream>
 #include <cassert>
 
 #ifdef __CUDACC__
@@ -1351,6 +1352,12 @@ public:
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
     friend constexpr auto operator<<(std::basic_ostream<Char>& os, const Aeu& number) -> std::basic_ostream<Char>& {
+        if(os.width() > 0) { /* The field width concerns the whole number, not its first character */
+            std::basic_ostringstream<Char> text; text.flags(os.flags()); text << number;
+            os.setf(text.flags() & std::ios::showbase, std::ios::showbase);
+            return os << text.str();
+        }
+
         auto flags = os.flags();
 
         const auto base = [] (long baseField, std::basic_ostream<Char>& ss, bool showbase) {
-- 
2.43.0


From eade13cee19bb075a9351232de9bede5e4ce8462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:47 +0000
Subject: [PATCH 24/25] fix: let exceptions of the stream leave writeBinary
 instead of terminating

---
 include/AesiMultiprecision/Aeu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index ba7ecc0..857e5e4 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1430,7 +1430,7 @@ public:
      * @details Writes number in stream using .write method. Accepts STD streams based on char or wchar_t.
      */
     template <typename Char> requires (std::is_same_v<Char, char> || std::is_same_v<Char, wchar_t>)
-    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const noexcept -> void {
+    constexpr auto writeBinary(std::basic_ostream<Char>& os, bool bigEndian = true) const -> void {
         if(bigEndian) {
             for(auto it = blocks.rbegin(); it != blocks.rend(); ++it)
                 if(!os.write(reinterpret_cast<const char*>(&*it), sizeof(block))) break;
-- 
2.43.0


From 8af674b6398bc5f48cc14e9edb1d6783c6a4a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 25/25] fix: count every character getString places in the
 buffer

---
 include/AesiMultiprecision/Aesi.h | 27 ++++++++++++++++-----------
 include/AesiMultiprecision/Aeu.h  |  2 +-
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/AesiMultiprecision/Aesi.h b/include/AesiMultiprecision/Aesi.h
index 87f488a..26b705e 100644
--- a/include/AesiMultiprecision/Aesi.h
+++ b/include/AesiMultiprecision/Aesi.h
@@ -1070,7 +1070,7 @@ public:
         if(sign != Zero) {
             if(sign == Negative && bufferSize > 0) {
                 *buffer++ = [] { if constexpr (std::is_same_v<Char, char>) { return '-'; } else { return L'-'; } } ();
-                --bufferSize;
+                return 1 + base.template getString<notation, hexUppercase, Char>(buffer, bufferSize - 1, showBase);
             }
             return base.template getString<notation, hexUppercase, Char>(buffer, bufferSize, showBase);
         }
@@ -1082,38 +1082,43 @@ public:
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'b'; } else { return L'b'; } } ();
                     buffer[2] = buffer[0];
-                    if(bufferSize > 3) buffer[3] = Char {};
-                    return 3;
+                    if(bufferSize < 4) return 3;
+                    buffer[3] = Char {};
+                    return 4;
                 }
                 case 8: {
                     if(bufferSize < 3) return 0;
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'o'; } else { return L'o'; } } ();
                     buffer[2] = buffer[0];
-                    if(bufferSize > 3) buffer[3] = Char {};
-                    return 3;
+                    if(bufferSize < 4) return 3;
+                    buffer[3] = Char {};
+                    return 4;
                 }
                 case 16: {
                     if(bufferSize < 3) return 0;
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
                     buffer[1] = [] { if constexpr (std::is_same_v<Char, char>) { return 'x'; } else { return L'x'; } } ();
                     buffer[2] = buffer[0];
-                    if(bufferSize > 3) buffer[3] = Char {};
-                    return 3;
+                    if(bufferSize < 4) return 3;
+                    buffer[3] = Char {};
+                    return 4;
                 }
                 default: {
                     if(bufferSize < 1) return 0;
                     buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-                    if(bufferSize > 1) buffer[1] = Char {};
-                    return 1;
+                    if(bufferSize < 2) return 1;
+                    buffer[1] = Char {};
+                    return 2;
                 }
             }
         }
 
         if(bufferSize < 1) return 0;
         buffer[0] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; } } ();
-        if(bufferSize > 1) buffer[1] = Char {};
-        return 1;
+        if(bufferSize < 2) return 1;
+        buffer[1] = Char {};
+        return 2;
     }
 
     /**
diff --git a/include/AesiMultiprecision/Aeu.h b/include/AesiMultiprecision/Aeu.h
index 857e5e4..20169b2 100644
--- a/include/AesiMultiprecision/Aeu.h
+++ b/include/AesiMultiprecision/Aeu.h
@@ -1306,7 +1306,7 @@ public:
 
         if(isZero()) {
             buffer[position++] = [] { if constexpr (std::is_same_v<Char, char>) { return '0'; } else { return L'0'; }}();
-            buffer[position] = Char {};
+            buffer[position++] = Char {};
             return position;
         }
 
-- 
2.43.0

