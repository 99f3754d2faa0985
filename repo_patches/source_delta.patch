From 9cceffa3a22ad0f10dce37354bf15b658b218142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 01/34] fix: encoding of posits filling their holder near
 minpos/maxpos

When the regime fills the word the exponent and fraction were shifted by the
width of the type (undefined; on x86 the bits come back), e.g.
Posit<int32_t,32,2,uint64_t>(1.5*2^-120) gave -2147483647 instead of minpos.
---
 include/bithippop.hpp | 8 ++++++++
 include/posit.h       | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index e3606fe..8da0816 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -268,6 +268,14 @@ constexpr std::bitset<N> bitset_lsb(const T x)
 	return std::bitset<N>(x);
 }
 
+/// right shift that gives 0 when the amount covers the whole type, where a plain >> is undefined
+template <class T>
+constexpr T shift_right_full(T x, long long n)
+{
+	static_assert(std::is_unsigned<T>::value, "required unsigned T");
+	return n >= (long long)(sizeof(T) * 8) ? T(0) : T(x >> n);
+}
+
 /// absolute value of signed integer with conditions
 template <class T>
 constexpr T pcabs(T x)
diff --git a/include/posit.h b/include/posit.h
index 665384a..9de8b82 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -725,7 +725,8 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::pack_low(UnpackedLow x)
     POSIT_UTYPE regbits = reg < 0 ? (PT::POSIT_HOLDER_MSB >> -reg) : (PT::POSIT_MASK << (PT::POSIT_HOLDER_SIZE-(reg+1))); // reg+1 bits on the left
 	POSIT_UTYPE eexp = msb_exp<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,esbits,(esbits == 00)>()(exp);
 	POSIT_UTYPE fraction =  x.fraction;
-	POSIT_STYPE p = ((fraction >> (rs+es+1)) | (eexp >> (rs+1)) | (regbits>>1)) >> (sizeof(T)*8-totalbits);
+	// near minpos/maxpos the regime takes all the bits: fraction and exponent are shifted out completely
+	POSIT_STYPE p = (shift_right_full<POSIT_UTYPE>(fraction,rs+es+1) | shift_right_full<POSIT_UTYPE>(eexp,rs+1) | (regbits>>1)) >> (sizeof(T)*8-totalbits);
 	//std::cout << "incoming " << x << std::endl;
 	//std::cout << "fraction before " << std::bitset<sizeof(FT)*8>(x.fraction) << " and " << " after " << std::bitset<sizeof(POSIT_UTYPE)*8>(fraction) << " residual exponent " << exp << " from " << eexponent <<  " and regime " << reg << std::endl;
 	//std::cout << "output sign " << std::bitset<sizeof(T)*8>(p) << " then " << std::bitset<sizeof(T)*8>(-p) << std::endl; 
-- 
2.43.0


From 65c5b3c7ed5e1f283527862762b032462400cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 02/34] fix: sum of operands whose exponents differ by the
 fraction width or more

The alignment shift was undefined there: 2^100 + 2^-28 with a 64 bit fraction gave 2^101.
---
 include/unpacked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index b794ebd..afcf7c5 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -343,9 +343,9 @@ struct Unpacked
           (a.fraction >> 2); // denormalized and shifted right
       POSIT_LUTYPE bfrac1 = (FT_leftmost_bit >> 1) | (b.fraction >> 2);
       POSIT_LUTYPE afrac = dir < 0
-                               ? (afrac1 >> -dir)
+                               ? shift_right_full<POSIT_LUTYPE>(afrac1, -dir)
                                : afrac1; // denormalized and shifted right
-      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : (bfrac1 >> dir);
+      POSIT_LUTYPE bfrac = dir < 0 ? bfrac1 : shift_right_full<POSIT_LUTYPE>(bfrac1, dir);
 
       // 1.xxxx => 0.1xxxxx => 0.0k 1 xxxx
       //
-- 
2.43.0


From 9547abece9e0da3a4af1adb7f3e1821e7ff03dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 03/34] fix: normalization of a fraction with only its lowest
 bit set

The shift amount was the width of the type (undefined).
---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index afcf7c5..ba3852d 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -98,7 +98,7 @@ struct Unpacked
     else
     {
       int k = findbitleftmostC(fraction);
-      return Unpacked(exponent - k, fraction << (k + 1), negativeSign);
+      return Unpacked(exponent - k, FT(fraction << k) << 1, negativeSign);
     }
   }
 
-- 
2.43.0


From 771847617c6ba4c7db78c63ea6b79daee9cf3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 04/34] fix: NaN as right operand of + * / was dropped

1+NaN gave 1: the left operand was returned whichever of the two was NaN.
---
 include/unpacked.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index ba3852d..2840955 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -327,7 +327,7 @@ struct Unpacked
     // UnpackedDualSel(*,NaN)
     // UnpackedDualSel(NaN,*)
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -389,7 +389,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator*(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
     switch (UnpackedDualSel(a.type, b.type))
     {
     case UnpackedDualSel(Regular, Regular):
@@ -432,7 +432,7 @@ struct Unpacked
   CONSTEXPR14 friend Unpacked operator/(const Unpacked &a, const Unpacked &b)
   {
     if (a.isNaN() || b.isNaN())
-      return a;
+      return nan();
 
     // 9 more cases
     switch (UnpackedDualSel(a.type, b.type))
-- 
2.43.0


From eab523fd8c47278bc288ef77dace386553bd8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 05/34] fix: finite divided by infinity is zero

It fell in the default case and gave infinity.
---
 include/unpacked.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/unpacked.h b/include/unpacked.h
index 2840955..5d35fae 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -457,6 +457,7 @@ struct Unpacked
     case UnpackedDualSel(Infinity, Infinity):
       return nan();
     case UnpackedDualSel(Zero, Infinity):
+    case UnpackedDualSel(Regular, Infinity):
       return zero();
     case UnpackedDualSel(Zero, Regular):
     case UnpackedDualSel(Infinity, Zero):
-- 
2.43.0


From 07ee884af2364faa8cdefb2663b603790fa158ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 06/34] fix: negation of unpacked zero, infinity and NaN

The result was always a regular number, -0 becoming -1; it also broke a-b and a-=b.
---
 include/unpacked.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 5d35fae..ad0007d 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -233,7 +233,8 @@ struct Unpacked
 
   constexpr Unpacked operator-() const
   {
-    return Unpacked(exponent, fraction, !negativeSign);
+    return type == Regular ? Unpacked(exponent, fraction, !negativeSign)
+                           : type == Infinity ? Unpacked(Infinity, !negativeSign) : *this;
   }
 
   CONSTEXPR14 Unpacked inv() const
-- 
2.43.0


From 5c71df1af9b966e4d3c1a042e34d12dc2c266ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 07/34] fix: operator!= of unpacked numbers was operator==

---
 include/unpacked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index ad0007d..e695bc2 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -228,7 +228,7 @@ struct Unpacked
   constexpr bool operator!=(const Unpacked &u) const
   {
     // nan != nan ALWAYS
-    return type == NaN || u.type == NaN ? true : (*this == u);
+    return !(*this == u);
   }
 
   constexpr Unpacked operator-() const
-- 
2.43.0


From db626967e5b55fd58d8b776205cc227681eac8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 08/34] fix: opposite and absolute value of NaN/unsigned
 infinity

With spare holder bits -NaN was +2^(N-1), no valid posit (posit 12 in int16_t: 2048);
without them it overflowed. std::abs did not compile.
---
 include/posit.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 9de8b82..63c0cac 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -335,10 +335,10 @@ public:
 	/// absolute value
 	/// TODO: use (v ^ mask) - mask   OR (x+mask)^nasj
 	/// where int const mask = v >> sizeof(int) * CHAR_BIT - 1;
-	constexpr Posit abs()  const { return Posit(DeepInit(),pcabs(v));  }  // could be >= infinity because infinity is sign symmetric
+	constexpr Posit abs()  const { return v < 0 ? neg() : *this;  }  // could be >= infinity because infinity is sign symmetric
 
 	/// negation
-	constexpr Posit neg()  const { return Posit(DeepInit(),-v); }; 
+	constexpr Posit neg()  const { return Posit(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; // the top element is its own opposite
 
 	/// 1/x
 	CONSTEXPR14 Posit inv()  const;
@@ -902,8 +902,7 @@ namespace std
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
 	inline CONSTEXPR14 Posit<T,totalbits,esbits,FT,positspec> abs(Posit<T,totalbits,esbits,FT,positspec> z) 
 	{
-		using PP=Posit<T,totalbits,esbits,FT,positspec>;
-		return PP(PP::DeepInit(),pcabs(z.v));
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FT, PositSpec positspec>
-- 
2.43.0


From a22f5e9326d3e6d7fdbbdcc2858fcbf7b753a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 09/34] fix: next() at the two ends of the range

next(lowest) stayed at lowest and next(max) left the finite values.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 63c0cac..b1c3ef1 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -351,7 +351,7 @@ public:
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr Posit prev() const { return Posit(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr Posit next() const { return Posit(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr Posit next() const { return Posit(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
-- 
2.43.0


From 0fd05d03245f54ab1f8c952bcbbc6bd162ded500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 10/34] fix: inverse of zero, infinity and minpos

inv(0) was 0, inv(inf) was inf and, with signed infinities, inv(minpos) was inf
instead of maxpos; 1/x was right in all these cases.
---
 include/posit.h | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index b1c3ef1..27a1259 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -597,24 +597,8 @@ std::ostream & operator << (std::ostream & ons, Posit<T,totalbits,esbits,FT,posi
 template <class T, int totalbits, int esbits, class FT, PositSpec positspec>
 CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::inv() const -> Posit
 {
-	auto u = unpack_low();
-	if(u.fraction == 0)
-	{
-		// 2^(R scale + E) with E unsigned
-		// becomes -R scale + (scale-E)
-		if(u.exp == 0)
-			u.regime = -u.regime;
-		else
-		{
-			u.regime = -(u.regime+1);
-			u.exp = PT::POSIT_REG_SCALE-u.exp; // NOP if esbits == 0
-		}
-		return pack_low(u);
-	}
-	else
-	{
-		return pack_posit< T,totalbits,esbits,FT,positspec> (unpacked_low2full(u).inv());
-	}
+	// exponent inversion when the fraction is zero, saturating as any other result
+	return pack_posit< T,totalbits,esbits,FT,positspec> (unpack().inv());
 }
 
 template <class T, int totalbits, int esbits, class FT, PositSpec positspec>
-- 
2.43.0


From 0861a82a173e4b53e80693c812e2f1ff93e7f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 11/34] fix: half() and twice() saturate as x/2 and x*2

half(minpos) was 0 and, with signed infinities, twice(max) was infinity.
---
 include/posit.h | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 27a1259..386bf68 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -725,20 +725,10 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::half() const -> Posit<T
 	{
 		// +- 2^(R expmax + E) 1.xyz  == +- 2^(exp) 1.xyz
 		// where xyz are decimal digits
-		// 1.xyz / 2     => 0.1xyz ==> just exp--
-		//
-		// exp-- mean E-- if E s not null
-		// otherwise R-- and exp 
-		if(q.exp == 0)
-		{
-			q.regime--; // will it undrflow?
-			q.exp = PT::POSIT_REG_SCALE-1; // maximum exponent
-		}
-		else
-		{
-			q.exp--;
-		}
-		return pack_low(q);
+		// just exp--, saturating at minpos/maxpos
+		UnpackedT r = unpacked_low2full(q);
+		r.exponent--;
+		return pack_posit<T,totalbits,esbits,FT,positspec>(r);
 	}
 	else
 	{
@@ -754,20 +744,10 @@ CONSTEXPR14 auto Posit<T,totalbits,esbits,FT,positspec>::twice() const -> Posit<
 	{
 		// +- 2^(R expmax + E) 1.xyz  == +- 2^(exp) 1.xyz
 		// where xyz are decimal digits
-		// 1.xyz / 2     => 0.1xyz ==> just exp--
-		//
-		// exp-- mean E-- if E s not null
-		// otherwise R-- and exp 
-		if(q.exp == PT::POSIT_REG_SCALE-1)
-		{
-			q.regime++; // will it overflo??
-			q.exp = 0; // maximum exponent
-		}
-		else
-		{
-			q.exp++;
-		}
-		return pack_low(q);
+		// just exp++, saturating at minpos/maxpos
+		UnpackedT r = unpacked_low2full(q);
+		r.exponent++;
+		return pack_posit<T,totalbits,esbits,FT,positspec>(r);
 	}
 	else
 	{
-- 
2.43.0


From acfb49689a5b176bff020d724bdcca5a155980ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 12/34] fix: constant 1/2 of posits narrower than their holder

Posit<int16_t,12,2,...>::onehalf() was 0x3F80.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 386bf68..6dca8ea 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -90,7 +90,7 @@ struct PositTrait
 
 		// 1/2
 		// 00 1[esbits+1] 0[N-2-esbitis-1]
-		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (totalbits-esbits-1))) << (totalbits-3-esbits);
+		static constexpr POSIT_STYPE POSIT_HALF = POSIT_STYPE( (POSIT_UTYPE(-1) >> (POSIT_HOLDER_SIZE-esbits-1))) << (totalbits-3-esbits);
 		
 		// max value below Infinity
 		// 1[holder-total] 1 0[total-1]
-- 
2.43.0


From 444467cbec0ee500672e5fe0d36e15d40c882bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 13/34] fix: exponent type of posits with an 8 bit holder

An 8 bit exponent cannot hold those of float and double: Posit<int8_t,6,0,...>(1e300)
gave minpos, (1e-300) gave maxpos and infinity was not recognized.
---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index 6dca8ea..8846a3f 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -51,7 +51,7 @@ struct PositTrait
 	using POSIT_UTYPE = typename std::make_unsigned<T>::type;
 	static constexpr PositSpec positspec = positspec_;
 	static constexpr bool withnan = positspec_ != PositSpec::WithInf;
-	using exponenttype = typename std::conditional<(totalbits+esbits >= sizeof(T)*8),typename  nextinttype<T>::type,T>::type;
+	using exponenttype = typename std::conditional<(sizeof(T) == 1 || totalbits+esbits >= sizeof(T)*8),typename  nextinttype<T>::type,T>::type;
 
 	//enum : POSIT_UTYPE {
 		static constexpr POSIT_UTYPE POSIT_MAXREGIME_BITS = totalbits-1;
-- 
2.43.0


From 336b096721126a1de01aba3ef3a2f3469d72a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 14/34] fix: pseudosigmoid and pseudosoftplus of negative
 numbers

The sign extension of the holder leaked in the result: pseudosigmoid(-1) was -0.5
for a 16 bit posit.
---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 8846a3f..049191b 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -476,10 +476,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr Posit pseudosigmoid() const { return Posit(DeepInit(),(((typename PT::POSIT_UTYPE)v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr Posit pseudosoftplus() const { return Posit(DeepInit(),(((typename PT::POSIT_UTYPE)v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
-- 
2.43.0


From 668635c064b23f347c401fbbe1ce9d1a955f6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 15/34] fix: analyze() with a fraction type wider than the
 holder, or without exponent bits

Both shifted by the width of the type.
---
 include/posit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/posit.h b/include/posit.h
index 049191b..f2372e1 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -832,10 +832,10 @@ auto Posit<T,totalbits,esbits,FT,positspec>::analyze() -> info
         int reg = q.first;
         int rs = q.second;
         pars <<= rs; // MSB: ES FS
-        POSIT_UTYPE exp = bitset_leftmost_getT(pars,esbits);
+        POSIT_UTYPE exp = bitset_leftmost_get_const<POSIT_UTYPE,esbits>()(pars);
         pars <<= esbits; // output MSB: FS left aligned in T
         //std::cout << std::bitset<PT::POSIT_HOLDER_SIZE>(pars) << std::endl;
-        i.ifraction = sizeof(FT) >= sizeof(T) ? pars << (UT::FT_bits-PT::POSIT_HOLDER_SIZE) : pars >> (PT::POSIT_HOLDER_SIZE-UT::FT_bits); // output: FS left aligned in FT (larger or equal to T)
+        i.ifraction = cast_msb<POSIT_UTYPE,PT::POSIT_HOLDER_SIZE,FT,UT::FT_bits>()(pars); // output: FS left aligned in FT (larger or equal to T)
     	i.exponent = PT::join_reg_exp(reg,exp);
     	i.exp = exp;
     	i.rs = rs;
-- 
2.43.0


From 25d4adfd35c3891c8bf3a403166a2809ddb76395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 16/34] fix: numeric_limits has_infinity of posits that have
 only NaN

---
 include/posit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/posit.h b/include/posit.h
index f2372e1..320d8ab 100644
--- a/include/posit.h
+++ b/include/posit.h
@@ -911,7 +911,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
-- 
2.43.0


From 3b6d8e033218d0a518024c09052cebaed7106eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 17/34] fix: conversion to and from fixed point and int

(int)1.5 was -2147483647 (shift by the width of the type), 2^31 and above wrapped
instead of saturating, and the absolute value of INT_MIN overflowed.
---
 include/unpacked.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index e695bc2..a9835d4 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -510,7 +510,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfixed(
     using UT = typename int_least_bits<sizeof(typename Trait::value_t)*8>::unsigned_type;
     type = Regular;
     negativeSign = nx < 0;
-    UT x = pcabs(nx);
+    UT x = nx < 0 ? UT(0) - UT(nx) : UT(nx); // also for the lowest value
     const int p = Trait::totalbits - findbitleftmostC(x) - 1; // 31->0,0->31
     exponent = (p - Trait::fraction_bits);
     UT ux = p == 0 ? 0 : (x << (Trait::totalbits - p));
@@ -653,7 +653,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     break;
   }
   constexpr int intbits = Trait::totalbits - Trait::fraction_bits;
-  if (exponent >= intbits)
+  if (exponent >= intbits - 1) // one bit is for the sign
   {
     return negativeSign ? std::numeric_limits<typename Trait::value_t>::lowest()
                         : std::numeric_limits<typename Trait::value_t>::max();
@@ -680,7 +680,7 @@ CONSTEXPR14 typename Trait::value_t Unpacked<FT, ET>::pack_xfixed() const
     // - exponent==-Trait::fraction_bits ==> 1 | 0
     // - exponent==intbits-1 ==> 0x8000000 | (F >> 1)
     ST r = (ST(1) << (exponent + Trait::fraction_bits)) |
-           (ST)(f >> (intbits - exponent));
+           (ST)shift_right_full<UT>(f, intbits - exponent);
     return negativeSign ? -r : r;
   }
 }
-- 
2.43.0


From 3f9c39d00d961ea0d458e5d19b26e952486c5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 18/34] fix: NaN and denormals read in a fraction narrower than
 the source

A NaN with only low payload bits became infinity and small denormals became zero
instead of the smallest posit; with equal widths the shift was undefined.
---
 include/unpacked.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index a9835d4..8eef946 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -559,6 +559,9 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   fraction = cast_right_to_left<typename Trait::holder_t, Trait::fraction_bits,
                                 FT, FT_bits>()(value);
 
+  // the fraction as stored, as the one above could have lost its lowest bits
+  const typename Trait::holder_t rawfraction = bitset_getT(value, 0, Trait::fraction_bits);
+
   // if(FT_bits < Trait::fraction_bits)
   //	fraction = bitset_getT(value,0,Trait::fraction_bits) >>
   //(Trait::fraction_bits-FT_bits);  else 	fraction =
@@ -569,7 +572,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   // biased: -max, -max+1, ..., max, max+1 === 0, min, ..., max, infinity
   if (rawexp == ((1 << Trait::exponent_bits) - 1)) // AKA 128 for single
   {
-    if (fraction == 0)
+    if (rawfraction == 0)
     {
       type = Infinity;
     }
@@ -581,7 +584,7 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
   else if (rawexp == 0)
   {
     // normalized
-    if (!Trait::with_denorm || fraction == 0)
+    if (!Trait::with_denorm || rawfraction == 0)
     {
       type = Zero;
       negativeSign = false; // don't care signed zero
@@ -589,9 +592,10 @@ CONSTEXPR14 Unpacked<FT, ET> &Unpacked<FT, ET>::unpack_xfloati(
     // denormalized
     else
     {
-      int k = findbitleftmostC(fraction);
+      int k = findbitleftmostC(rawfraction) - (int)(sizeof(rawfraction) * 8 - Trait::fraction_bits);
       exponent -= k;
-      fraction <<= (k + 1);
+      fraction = cast_right_to_left<typename Trait::holder_t, Trait::fraction_bits,
+                                FT, FT_bits>()(rawfraction << (k + 1));
       //std::cout << typeid(Trait).name() << "unpacking: denormalized (rawexp=0,fraction=" <<  (int)tmp << ") unpacked as  (exp=" << exponent << ",fraction=" << (int)fraction << ")"<< std::endl;
     }
   }
-- 
2.43.0


From 639f359e27619c3d43cb2560f074e8cf4beabc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:22 +0000
Subject: [PATCH 19/34] fix: denormals in conversions to IEEE formats

The test was inverted: formats with denormals flushed to zero and those without
got them. (float)Posit(2^-130) was 0, and binary8 values below 2^-14 were lost.
---
 include/unpacked.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/unpacked.h b/include/unpacked.h
index 8eef946..c538ad0 100644
--- a/include/unpacked.h
+++ b/include/unpacked.h
@@ -629,7 +629,7 @@ struct fraction_bit_extract<abits, AT, bbits, BT, false, msb>
 {
   static constexpr BT packdenorm(AT fraction)
   {
-    return ((BT)(msb | (fraction >> 1)) << (bbits - abits));
+    return ((BT)msb << (bbits - abits)) | (((BT)fraction << (bbits - abits)) >> 1);
   }
 
   static constexpr BT pack(AT fraction)
@@ -723,7 +723,7 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
   }
   else if (fexp < 1)
   {
-    if (Trait::with_denorm)
+    if (!Trait::with_denorm)
       return 0;
     else
     {
@@ -742,7 +742,9 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
                                        (FT_bits > Trait::fraction_bits),
                                        FT_leftmost_bit>::packdenorm(fraction);
       // use denormalization
-      ffracbits >>= -fexp;
+      ffracbits = shift_right_full<typename Trait::holder_t>(ffracbits, -(long long)fexp);
+      if (ffracbits == 0)
+        return 0; // unsigned as the other zeros
       //std::cout << typeid(Trait).name()<< "pack - denormalized (exp=" << exponent << ",fraction=" << (int)fraction << ") means rawexp=" << fexp << " results in fraction=" << (int)ffracbits << "\n";
     }
   }
@@ -757,12 +759,6 @@ CONSTEXPR14 typename Trait::holder_t Unpacked<FT, ET>::pack_xfloati() const
 
   typename Trait::holder_t value =
       ffracbits | fexpbits | (negativeSign ? Trait::signbit : 0);
-
-  // don't underflow to zero?
-  if (value != 0 && (value << 1) == 0)
-  {
-    value++;
-  }
   return value;
 }
 
-- 
2.43.0


From 9a674c9d2fd64d1e85300dfc11e09e6d2de9fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:02 +0000
Subject: [PATCH 20/34] fix: opposite and absolute value of NaN in tabulated
 posits

-NaN was +2^(N-1) for posit10 and posit12, that is not a NaN anymore.
---
 include/posit10.hpp | 4 ++--
 include/posit12.hpp | 4 ++--
 include/posit8.hpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 42161f1..044715d 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -97,7 +97,7 @@ public:
 	posit10 twice() const;
 	posit10 exp2() const { return posit10(DeepInit(),posit10ns::opexp2[uu()]); }
 	posit10 square() const { return posit10(DeepInit(),posit10ns::opsquare[uu()]); }
-	posit10 operator-() const { return posit10(DeepInit(),-v);  }
+	posit10 operator-() const { return posit10(DeepInit(),is_nan() ? v : -v);  }
 
 #if 0
 //	friend posit10 operator+(const posit10 &a, const posit10 & b) { return posit10(DeepInit(),a.v<0? -posit10ns::opadd[(-a).uu()*1024+(-b).uu()] : posit10ns::opadd[a.uu()*1024+b.uu()]); }
@@ -162,7 +162,7 @@ namespace std
 {
 	inline posit10 abs(posit10 z) 
 	{
-		return posit10(posit10::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 	inline posit10 min(const posit10 &a, const posit10 & b)
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 9a39672..78b115d 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -80,7 +80,7 @@ public:
 	posit12 twice() const;
 	posit12 exp2() const { return posit12(DeepInit(),posit12ns::opexp2[uu()]); }
 	posit12 square() const { return posit12(DeepInit(),posit12ns::opsquare[uu()]); }
-	posit12 operator-() const { return posit12(DeepInit(),-v);  }
+	posit12 operator-() const { return posit12(DeepInit(),is_nan() ? v : -v);  }
 
 	friend bool operator<(posit12 a, posit12 b) { return a.v < b.v; }
 	friend bool operator>(posit12 a, posit12 b) { return a.v > b.v; }
@@ -141,7 +141,7 @@ namespace std
 {
 	inline posit12 abs(posit12 z) 
 	{
-		return posit12(posit12::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 
diff --git a/include/posit8.hpp b/include/posit8.hpp
index 7881222..8be9bd1 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -88,7 +88,7 @@ public:
 	posit8 twice() const;
 	posit8 exp2() const { return posit8(DeepInit(),posit8ns::opexp2[uu()]); }
 	posit8 square() const { return posit8(DeepInit(),posit8ns::opsquare[uu()]); }
-	posit8 operator-() const { return posit8(DeepInit(),-v);  }
+	posit8 operator-() const { return posit8(DeepInit(),is_nan() ? v : -v);  }
 
 	friend bool operator<(posit8 a, posit8 b) { return a.v < b.v; }
 	friend bool operator>(posit8 a, posit8 b) { return a.v > b.v; }
@@ -157,7 +157,7 @@ namespace std
 {
 	inline posit8 abs(posit8 z) 
 	{
-		return posit8(posit8::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.v < 0 ? -z : z;
 	}
 
 	inline posit8 min(posit8 a, posit8 b)
-- 
2.43.0


From 15a69e9bfaa504d550c48f59e3813dbb165e2216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:02 +0000
Subject: [PATCH 21/34] fix: two and is_infinity of posit8

two() was 1.25 and NaN was reported as infinity, that this format does not have.
---
 include/posit8.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/posit8.hpp b/include/posit8.hpp
index 8be9bd1..d9bebc6 100644
--- a/include/posit8.hpp
+++ b/include/posit8.hpp
@@ -71,14 +71,14 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x80) == 0; }
 	bool is_nan() const { return PT::withnan && v == PT::POSIT_NAN; }
-	bool is_infinity() const { return (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
+	bool is_infinity() const { return PT::positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
 	static posit8 max() { return posit8(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit8 min() { return posit8(DeepInit(),1); } //  ? -126 : -127
 	static posit8 one() { return posit8(DeepInit(),PT::POSIT_ONE); } // 0x40
 	static posit8 afterone() { return posit8(DeepInit(),PT::POSIT_ONE+1); } // 0x40
-	static posit8 two() { return posit8(DeepInit(),72); }
+	static posit8 two() { return posit8(DeepInit(),PT::POSIT_TWO); }
 	static posit8 zero() { return posit8(DeepInit(),0); }
-	static posit8 onehalf() { return posit8(DeepInit(),0x20); }
+	static posit8 onehalf() { return posit8(DeepInit(),PT::POSIT_HALF); }
 	static posit8 pinfinity() { return posit8(DeepInit(),PT::POSIT_PINF); } // ? 127: -128); }
 	static posit8 ninfinity() { return posit8(DeepInit(),PT::POSIT_NINF); } //,PT::withnan ?-127: -128); }
 	static posit8 nan() { return posit8(DeepInit(),PT::POSIT_NAN); } // withnan ?-128: 0); }
-- 
2.43.0


From 80887956a4bed98b188dea6e07470e2c51e5ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:02 +0000
Subject: [PATCH 22/34] fix: max, onehalf and infinity of posit10 and posit12

They were still those of the format with signed infinities, so that maxpos was reported
as infinity and posit10::max() was not the maximum; onehalf() was 1/16.
---
 include/posit10.hpp | 10 +++++-----
 include/posit12.hpp |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/posit10.hpp b/include/posit10.hpp
index 044715d..1abccac 100644
--- a/include/posit10.hpp
+++ b/include/posit10.hpp
@@ -72,16 +72,16 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x100) == 0; }
 	bool is_nan() const { return PT::withnan && v == -512; }
-	bool is_infinity() const { return PT::withnan ? (v == -511 || v == 511) : v == -512;}
-	static posit10 max() { return posit10(DeepInit(),PT::withnan ? 510 : 511); }
+	bool is_infinity() const { return PT::positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
+	static posit10 max() { return posit10(DeepInit(),PT::POSIT_MAXPOS); }
 	static posit10 min() { return posit10(DeepInit(),1); }
 	static posit10 one() { return posit10(DeepInit(),0x100); }
 	static posit10 afterone() { return posit10(DeepInit(),0x101); }
 	static posit10 zero() { return posit10(DeepInit(),0); }
 	static posit10 two() { return posit10(DeepInit(),288); }
-	static posit10 onehalf() { return posit10(DeepInit(),0x80); }
-	static posit10 pinfinity() { return posit10(DeepInit(),PT::withnan ? 511: -512); }
-	static posit10 ninfinity() { return posit10(DeepInit(),PT::withnan ?-511: -512); }
+	static posit10 onehalf() { return posit10(DeepInit(),PT::POSIT_HALF); }
+	static posit10 pinfinity() { return posit10(DeepInit(),PT::POSIT_PINF); }
+	static posit10 ninfinity() { return posit10(DeepInit(),PT::POSIT_NINF); }
 	static posit10 nan() { return posit10(DeepInit(),PT::withnan ?-512: 0); }
 
 
diff --git a/include/posit12.hpp b/include/posit12.hpp
index 78b115d..3ba514c 100644
--- a/include/posit12.hpp
+++ b/include/posit12.hpp
@@ -65,14 +65,14 @@ public:
 	bool is_negative() const { return v < 0; }
 	bool has_neg_exponent() const { return (v & 0x400) == 0; }
 	bool is_nan() const { return PT::withnan && v == -2048; }
-	bool is_infinity() const { return PT::withnan ? (v == -2047 || v == 2047) : v == -2048;}
+	bool is_infinity() const { return PT::positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF);}
 	static posit12 max() { return posit12(DeepInit(),PT::POSIT_MAXPOS); } // 126 or 127
 	static posit12 min() { return posit12(DeepInit(),1); } //  ? -126 : -127
 	static posit12 one() { return posit12(DeepInit(),0x400); }
 	static posit12 afterone() { return posit12(DeepInit(),0x401); } // 0x40
-	static posit12 onehalf() { return posit12(DeepInit(),0x200); }
-	static posit12 pinfinity() { return posit12(DeepInit(),PT::withnan ? 2047: -2048); }
-	static posit12 ninfinity() { return posit12(DeepInit(),PT::withnan ?-2047: -2048); }
+	static posit12 onehalf() { return posit12(DeepInit(),PT::POSIT_HALF); }
+	static posit12 pinfinity() { return posit12(DeepInit(),PT::POSIT_PINF); }
+	static posit12 ninfinity() { return posit12(DeepInit(),PT::POSIT_NINF); }
 	static posit12 nan() { return posit12(DeepInit(),PT::withnan ?-2048: 0); }
 
 	posit12 inv() const { return posit12(DeepInit(),posit12ns::opinv[uu()]); }
-- 
2.43.0


From 9934ec729123ba21c583581aec989281e3be0332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 23/34] fix: opposite and comparison of binary8tab

The format is sign and magnitude: -1 was -1.5*2^-15 by complement of the bits (so a-b was wrong)
and negative numbers compared in reverse order.
---
 include/binary8.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/binary8.hpp b/include/binary8.hpp
index ac042df..f66384b 100644
--- a/include/binary8.hpp
+++ b/include/binary8.hpp
@@ -90,14 +90,14 @@ public:
 	binary8tab twice() const;
 	binary8tab exp2() const { return binary8tab(DeepInit(),binary8ns::opexp2[uu()]); }
 	binary8tab square() const { return binary8tab(DeepInit(),binary8ns::opsquare[uu()]); }
-	binary8tab operator-() const { return binary8tab(DeepInit(),-v);  }
-
-	friend bool operator<(binary8tab a, binary8tab b) { return a.v < b.v; }
-	friend bool operator>(binary8tab a, binary8tab b) { return a.v > b.v; }
-	friend bool operator<=(binary8tab a, binary8tab b) { return a.v <= b.v;}
-	friend bool operator>=(binary8tab a, binary8tab b) { return a.v >= b.v; }
-	friend bool operator==(binary8tab a, binary8tab b) { return a.v == b.v; }
-	friend bool operator!=(binary8tab a, binary8tab b) { return a.v !=b.v; }
+	binary8tab operator-() const { return binary8tab(DeepInit(),v ^ trait_t::signbit);  }
+
+	friend bool operator<(binary8tab a, binary8tab b) { return (float)a < (float)b; }
+	friend bool operator>(binary8tab a, binary8tab b) { return (float)a > (float)b; }
+	friend bool operator<=(binary8tab a, binary8tab b) { return (float)a <= (float)b;}
+	friend bool operator>=(binary8tab a, binary8tab b) { return (float)a >= (float)b; }
+	friend bool operator==(binary8tab a, binary8tab b) { return (float)a == (float)b; }
+	friend bool operator!=(binary8tab a, binary8tab b) { return (float)a != (float)b; }
 
 	friend binary8tab operator+(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opadd[a.uu()*256+b.uu()]); }
 	friend binary8tab operator*(binary8tab a, binary8tab b) { return binary8tab(DeepInit(),binary8ns::opmul[a.uu()*256+b.uu()]); }
-- 
2.43.0


From 613bff13713847ca30fc076c47891368335e0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 24/34] fix: binary8tab made from numbers had an undefined
 value

The constructors were empty and twice() had no definition.
---
 src/binary8.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/binary8.cpp b/src/binary8.cpp
index c36d481..9aef56a 100644
--- a/src/binary8.cpp
+++ b/src/binary8.cpp
@@ -4,15 +4,23 @@
  * Emanuele Ruffaldi 2017
  */
 #include "binary8.hpp"
+#include "unpacked.h"
 
-binary8tab::binary8tab(int a)
+using UnpackedT = Unpacked<uint8_t,int>; // as in binary8_gen
+
+binary8tab::binary8tab(int a) : v(UnpackedT(a).pack_xfloati<trait_t>())
+{
+}
+
+binary8tab::binary8tab(float a) : v(UnpackedT(a).pack_xfloati<trait_t>())
 {
 }
 
-binary8tab::binary8tab(float a)
+binary8tab::binary8tab(double a) : v(UnpackedT(a).pack_xfloati<trait_t>())
 {
 }
 
-binary8tab::binary8tab(double a) 
+binary8tab binary8tab::twice() const
 {
+	return *this + *this;
 }
-- 
2.43.0


From a706ccad1beece48b9bcdb89b4a1154f554cbc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:30 +0000
Subject: [PATCH 25/34] fix: half to float conversion without F16C returned the
 bits as a number

---
 include/float16native32.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/float16native32.hpp b/include/float16native32.hpp
index a237046..72637f0 100644
--- a/include/float16native32.hpp
+++ b/include/float16native32.hpp
@@ -53,7 +53,7 @@ inline float float16nto32(float16n_t x)
 {	
 	// template <class SrcTrait, class DstTrait, class FT>
 	// constexpr DstTrait::holder_t convertfloats(SrcTrait::holder_t src)
-    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloati<single_trait>();
+    return Unpacked<uint32_t,int>::template make_floati<half_trait>(x.what).template pack_xfloat<single_trait>();
 }
 
 // TODO: use optimized quicker version
-- 
2.43.0


From d0d62348096afab29b3e8f048cc6377c7eec8193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 26/34] fix: in PositF the same opposite, next, is infinity and
 pseudosigmoid defects of Posit

---
 include/positf.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index e9462ee..bd0d6d3 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -85,19 +85,19 @@ public:
 
 	constexpr UnpackedT unpack() const { return PPT(typename PPT::DeepInit(),v).unpack(); }
 
-	constexpr PositF abs()  const { return PositF(DeepInit(),(v < 0 ? -v : v));  }  // could be >= infinity because infinity is sign symmetric
-	constexpr PositF neg()  const { return PositF(DeepInit(),-v); }; 
+	constexpr PositF abs()  const { return v < 0 ? neg() : *this;  }  // could be >= infinity because infinity is sign symmetric
+	constexpr PositF neg()  const { return PositF(DeepInit(),v == PT::_POSIT_TOP ? v : -v); }; 
 	PositF inv()  const { return PositF(1/(FFT)unpack());}
 
 	// SFINAE optionally: template<typename U = T, class = typename std::enable_if<withnan, U>::type>
     constexpr bool hasNaN() const { return positspec != PositSpec::WithInf; }
 	constexpr bool isNaN() const { return positspec != PositSpec::WithInf && v == PT::POSIT_NAN; } 
 	constexpr bool isnegative() const { return v < 0; } //(v &POSIT_SIGNBIT) != 0; }
-	constexpr bool isinfinity() const { return v == PT::POSIT_PINF || v == PT::POSIT_NINF; }
+	constexpr bool isinfinity() const { return positspec != PositSpec::WithNan && (v == PT::POSIT_PINF || v == PT::POSIT_NINF); }
 	constexpr bool iszero() const { return v == 0; }
 	constexpr bool isone() const { return v == PT::POSIT_ONE; }
 	constexpr PositF prev() const { return PositF(DeepInit(),v > PT::POSIT_MAXPOS || v <= PT::POSIT_MINNEG ? v : v-1); }
-	constexpr PositF next() const { return PositF(DeepInit(),v <= PT::POSIT_MINNEG || v > PT::POSIT_MAXPOS ? v : v+1); }
+	constexpr PositF next() const { return PositF(DeepInit(),v < PT::POSIT_MINNEG || v >= PT::POSIT_MAXPOS ? v : v+1); }
 	//TBDconstexpr bool isNaN() const; 
 	//TBD constexpr bool isexact() const { return (v&1) == 0; }
 
@@ -158,10 +158,10 @@ public:
 
 	/// 1/(exp(-x)+1)
 	/// TODO: infintity check + __round of result
-	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 2); };
+	constexpr PositF pseudosigmoid() const { return PositF(DeepInit(),(((typename PT::POSIT_UTYPE)v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 2); };
 
 	/// ln(1+exp(x))
-	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),(v ^ PT::POSIT_SIGNBIT) >> 1); };
+	constexpr PositF pseudosoftplus() const { return PositF(DeepInit(),(((typename PT::POSIT_UTYPE)v ^ PT::POSIT_SIGNBIT) & PT::POSIT_MASK) >> 1); };
 
 	/// returns true if in [0,1]
 	constexpr bool isUnitRange() const { return v >= 0 && v <= PT::POSIT_ONE; };
@@ -229,7 +229,7 @@ namespace std
 	inline CONSTEXPR14 PositF<T,totalbits,esbits,FFT,positspec> abs(PositF<T,totalbits,esbits,FFT,positspec> z) 
 	{
 		using PP=PositF<T,totalbits,esbits,FFT,positspec>;
-		return PP(PP::DeepInit(),z.v < 0 ? -z.v : z.v);
+		return z.abs();
 	}
 
 	template <class T,int totalbits, int esbits, class FFT, PositSpec positspec>
@@ -267,7 +267,7 @@ namespace std
 	  static constexpr int  max_exponent = PT::maxexponent();
 	  //static constexpr int  max_exponent10 = 0;
 
-	  static constexpr bool has_infinity = true;
+	  static constexpr bool has_infinity = positspec != PositSpec::WithNan;
 	  static constexpr bool has_quiet_NaN = positspec != PositSpec::WithInf;
 	  static constexpr bool has_signaling_NaN = false;
 	  //static constexpr float_denorm_style has_denorm = denorm_absent;
-- 
2.43.0


From 3a9e6dbc286305641e52322a70c45e3190545a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:49 +0000
Subject: [PATCH 27/34] fix: fma, *= and unpack_low of PositF did not compile

---
 include/positf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/positf.h b/include/positf.h
index bd0d6d3..81fb0b5 100644
--- a/include/positf.h
+++ b/include/positf.h
@@ -36,7 +36,7 @@ public:
 	
 	CONSTEXPR14 UnpackedLow unpack_low() const 
 	{ 
-		return PPT(PPT::DeepInit(),v).unpack_low(); 
+		return PPT(typename PPT::DeepInit(),v).unpack_low(); 
 	}
 
 	static CONSTEXPR14 PositF pack_low(UnpackedLow u) 
@@ -113,12 +113,12 @@ public:
 
 	friend constexpr PositF fma(const PositF & a, const PositF & b, const PositF & c)
 	{
-		return PositF::pack_posit((FFT)a*(FFT)b+(FFT)c);
+		return PositF((FFT)a*(FFT)b+(FFT)c);
 	}
 
 	CONSTEXPR14 PositF & operator*= (const PositF & b)
 	{
-		*this = PositF::pack_posit((FFT)*this *(FFT)b);
+		*this = PositF((FFT)*this *(FFT)b);
 		return *this;
 	}
     friend constexpr PositF operator+(const PositF & a, const PositF & b)
-- 
2.43.0


From b08baaa83ede51f178e09d571b1a2473dc6942d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:56 +0000
Subject: [PATCH 28/34] fix: generated tables of posit8 and posit12 in step
 with inv(0)

---
 src/posit12_tbl.cpp | 4 ++--
 src/posit8_tbl.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/posit12_tbl.cpp b/src/posit12_tbl.cpp
index b84d459..145c7b3 100644
--- a/src/posit12_tbl.cpp
+++ b/src/posit12_tbl.cpp
@@ -2,10 +2,10 @@
 namespace posit12ns {
 // type is 5PositIsLi12ELi2EtL9PositSpec0EE
 int16_t opinv[] = {
-0,2047,2046,2045,2044,2043,2042,2041,2040,2038,2038,2036,2036,2034,2034,2032,2032,2030,2029,2028,2028,2026,2025,2024,2024,2022,2021,2020,2020,2018,2017,2016,2016,2014,2012,2011,2010,2009,2009,2008,2008,2006,2004,2003,2002,2001,2001,2000,2000,1998,1996,1995,1994,1993,1993,1992,1992,1990,1988,1987,1986,1985,1985,1984,1984,1982,1980,1978,1977,1976,1975,1974,1973,1972,1971,1970,1970,1969,1969,1968,1968,1966,1964,1962,1961,1960,1959,1958,1957,1956,1955,1954,1954,1953,1953,1952,1952,1950,1948,1946,1945,1944,1943,1942,1941,1940,1939,1938,1938,1937,1937,1936,1936,1934,1932,1930,1929,1928,1927,1926,1925,1924,1923,1922,1922,1921,1921,1920,1920,1918,1916,1914,1912,1911,1909,1908,1907,1905,1904,1903,1902,1901,1900,1899,1898,1897,1896,1896,1895,1894,1893,1893,1892,1891,1891,1890,1890,1889,1889,1888,1888,1886,1884,1882,1880,1879,1877,1876,1875,1873,1872,1871,1870,1869,1868,1867,1866,1865,1864,1864,1863,1862,1861,1861,1860,1859,1859,1858,1858,1857,1857,1856,1856,1854,1852,1850,1848,1847,1845,1844,1843,1841,1840,1839,1838,1837,1836,1835,1834,1833,1832,1832,1831,1830,1829,1829,1828,1827,1827,1826,1826,1825,1825,1824,1824,1822,1820,1818,1816,1815,1813,1812,1811,1809,1808,1807,1806,1805,1804,1803,1802,1801,1800,1800,1799,1798,1797,1797,1796,1795,1795,1794,1794,1793,1793,1792,1792,1790,1788,1786,1784,1782,1781,1779,1777,1776,1774,1773,1771,1770,1769,1767,1766,1765,1763,1762,1761,1760,1759,1758,1757,1756,1755,1754,1753,1752,1751,1750,1749,1748,1747,1746,1745,1745,1744,1743,1742,1742,1741,1740,1739,1739,1738,1737,1737,1736,1735,1735,1734,1734,1733,1732,1732,1731,1731,1730,1730,1729,1729,1728,1728,1726,1724,1722,1720,1718,1717,1715,1713,1712,1710,1709,1707,1706,1705,1703,1702,1701,1699,1698,1697,1696,1695,1694,1693,1692,1691,1690,1689,1688,1687,1686,1685,1684,1683,1682,1681,1681,1680,1679,1678,1678,1677,1676,1675,1675,1674,1673,1673,1672,1671,1671,1670,1670,1669,1668,1668,1667,1667,1666,1666,1665,1665,1664,1664,1662,1660,1658,1656,1654,1653,1651,1649,1648,1646,1645,1643,1642,1641,1639,1638,1637,1635,1634,1633,1632,1631,1630,1629,1628,1627,1626,1625,1624,1623,1622,1621,1620,1619,1618,1617,1617,1616,1615,1614,1614,1613,1612,1611,1611,1610,1609,1609,1608,1607,1607,1606,1606,1605,1604,1604,1603,1603,1602,1602,1601,1601,1600,1600,1598,1596,1594,1592,1590,1589,1587,1585,1584,1582,1581,1579,1578,1577,1575,1574,1573,1571,1570,1569,1568,1567,1566,1565,1564,1563,1562,1561,1560,1559,1558,1557,1556,1555,1554,1553,1553,1552,1551,1550,1550,1549,1548,1547,1547,1546,1545,1545,1544,1543,1543,1542,1542,1541,1540,1540,1539,1539,1538,1538,1537,1537,1536,1536,1534,1532,1530,1528,1526,1524,1522,1520,1519,1517,1515,1514,1512,1510,1509,1507,1505,1504,1502,1501,1499,1498,1497,1495,1494,1492,1491,1490,1488,1487,1486,1484,1483,1482,1481,1479,1478,1477,1476,1475,1473,1472,1471,1470,1469,1468,1467,1466,1465,1464,1463,1462,1461,1460,1459,1458,1457,1456,1455,1454,1453,1452,1451,1450,1449,1448,1448,1447,1446,1445,1444,1443,1443,1442,1441,1440,1439,1439,1438,1437,1436,1436,1435,1434,1433,1433,1432,1431,1431,1430,1429,1428,1428,1427,1426,1426,1425,1424,1424,1423,1423,1422,1421,1421,1420,1420,1419,1418,1418,1417,1417,1416,1415,1415,1414,1414,1413,1413,1412,1412,1411,1411,1410,1410,1409,1409,1408,1408,1406,1404,1402,1400,1398,1396,1394,1392,1391,1389,1387,1386,1384,1382,1381,1379,1377,1376,1374,1373,1371,1370,1369,1367,1366,1364,1363,1362,1360,1359,1358,1356,1355,1354,1353,1351,1350,1349,1348,1347,1345,1344,1343,1342,1341,1340,1339,1338,1337,1336,1335,1334,1333,1332,1331,1330,1329,1328,1327,1326,1325,1324,1323,1322,1321,1320,1320,1319,1318,1317,1316,1315,1315,1314,1313,1312,1311,1311,1310,1309,1308,1308,1307,1306,1305,1305,1304,1303,1303,1302,1301,1300,1300,1299,1298,1298,1297,1296,1296,1295,1295,1294,1293,1293,1292,1292,1291,1290,1290,1289,1289,1288,1287,1287,1286,1286,1285,1285,1284,1284,1283,1283,1282,1282,1281,1281,1280,1280,1278,1276,1274,1272,1270,1268,1266,1264,1263,1261,1259,1258,1256,1254,1253,1251,1249,1248,1246,1245,1243,1242,1241,1239,1238,1236,1235,1234,1232,1231,1230,1228,1227,1226,1225,1223,1222,1221,1220,1219,1217,1216,1215,1214,1213,1212,1211,1210,1209,1208,1207,1206,1205,1204,1203,1202,1201,1200,1199,1198,1197,1196,1195,1194,1193,1192,1192,1191,1190,1189,1188,1187,1187,1186,1185,1184,1183,1183,1182,1181,1180,1180,1179,1178,1177,1177,1176,1175,1175,1174,1173,1172,1172,1171,1170,1170,1169,1168,1168,1167,1167,1166,1165,1165,1164,1164,1163,1162,1162,1161,1161,1160,1159,1159,1158,1158,1157,1157,1156,1156,1155,1155,1154,1154,1153,1153,1152,1152,1150,1148,1146,1144,1142,1140,1138,1136,1135,1133,1131,1130,1128,1126,1125,1123,1121,1120,1118,1117,1115,1114,1113,1111,1110,1108,1107,1106,1104,1103,1102,1100,1099,1098,1097,1095,1094,1093,1092,1091,1089,1088,1087,1086,1085,1084,1083,1082,1081,1080,1079,1078,1077,1076,1075,1074,1073,1072,1071,1070,1069,1068,1067,1066,1065,1064,1064,1063,1062,1061,1060,1059,1059,1058,1057,1056,1055,1055,1054,1053,1052,1052,1051,1050,1049,1049,1048,1047,1047,1046,1045,1044,1044,1043,1042,1042,1041,1040,1040,1039,1039,1038,1037,1037,1036,1036,1035,1034,1034,1033,1033,1032,1031,1031,1030,1030,1029,1029,1028,1028,1027,1027,1026,1026,1025,1025,1024,1024,1022,1020,1018,1016,1014,1012,1010,1008,1007,1005,1003,1002,1000,998,997,995,993,992,990,989,987,986,985,983,982,980,979,978,976,975,974,972,971,970,969,967,966,965,964,963,961,960,959,958,957,956,955,954,953,952,951,950,949,948,947,946,945,944,943,942,941,940,939,938,937,936,936,935,934,933,932,931,931,930,929,928,927,927,926,925,924,924,923,922,921,921,920,919,919,918,917,916,916,915,914,914,913,912,912,911,911,910,909,909,908,908,907,906,906,905,905,904,903,903,902,902,901,901,900,900,899,899,898,898,897,897,896,896,894,892,890,888,886,884,882,880,879,877,875,874,872,870,869,867,865,864,862,861,859,858,857,855,854,852,851,850,848,847,846,844,843,842,841,839,838,837,836,835,833,832,831,830,829,828,827,826,825,824,823,822,821,820,819,818,817,816,815,814,813,812,811,810,809,808,808,807,806,805,804,803,803,802,801,800,799,799,798,797,796,796,795,794,793,793,792,791,791,790,789,788,788,787,786,786,785,784,784,783,783,782,781,781,780,780,779,778,778,777,777,776,775,775,774,774,773,773,772,772,771,771,770,770,769,769,768,768,766,764,762,760,758,756,754,752,751,749,747,746,744,742,741,739,737,736,734,733,731,730,729,727,726,724,723,722,720,719,718,716,715,714,713,711,710,709,708,707,705,704,703,702,701,700,699,698,697,696,695,694,693,692,691,690,689,688,687,686,685,684,683,682,681,680,680,679,678,677,676,675,675,674,673,672,671,671,670,669,668,668,667,666,665,665,664,663,663,662,661,660,660,659,658,658,657,656,656,655,655,654,653,653,652,652,651,650,650,649,649,648,647,647,646,646,645,645,644,644,643,643,642,642,641,641,640,640,638,636,634,632,630,628,626,624,623,621,619,618,616,614,613,611,609,608,606,605,603,602,601,599,598,596,595,594,592,591,590,588,587,586,585,583,582,581,580,579,577,576,575,574,573,572,571,570,569,568,567,566,565,564,563,562,561,560,559,558,557,556,555,554,553,552,552,551,550,549,548,547,547,546,545,544,543,543,542,541,540,540,539,538,537,537,536,535,535,534,533,532,532,531,530,530,529,528,528,527,527,526,525,525,524,524,523,522,522,521,521,520,519,519,518,518,517,517,516,516,515,515,514,514,513,513,512,512,510,508,506,504,502,501,499,497,496,494,493,491,490,489,487,486,485,483,482,481,480,479,478,477,476,475,474,473,472,471,470,469,468,467,466,465,465,464,463,462,462,461,460,459,459,458,457,457,456,455,455,454,454,453,452,452,451,451,450,450,449,449,448,448,446,444,442,440,438,437,435,433,432,430,429,427,426,425,423,422,421,419,418,417,416,415,414,413,412,411,410,409,408,407,406,405,404,403,402,401,401,400,399,398,398,397,396,395,395,394,393,393,392,391,391,390,390,389,388,388,387,387,386,386,385,385,384,384,382,380,378,376,374,373,371,369,368,366,365,363,362,361,359,358,357,355,354,353,352,351,350,349,348,347,346,345,344,343,342,341,340,339,338,337,337,336,335,334,334,333,332,331,331,330,329,329,328,327,327,326,326,325,324,324,323,323,322,322,321,321,320,320,318,316,314,312,310,309,307,305,304,302,301,299,298,297,295,294,293,291,290,289,288,287,286,285,284,283,282,281,280,279,278,277,276,275,274,273,273,272,271,270,270,269,268,267,267,266,265,265,264,263,263,262,262,261,260,260,259,259,258,258,257,257,256,256,254,252,250,248,247,245,244,243,241,240,239,238,237,236,235,234,233,232,232,231,230,229,229,228,227,227,226,226,225,225,224,224,222,220,218,216,215,213,212,211,209,208,207,206,205,204,203,202,201,200,200,199,198,197,197,196,195,195,194,194,193,193,192,192,190,188,186,184,183,181,180,179,177,176,175,174,173,172,171,170,169,168,168,167,166,165,165,164,163,163,162,162,161,161,160,160,158,156,154,152,151,149,148,147,145,144,143,142,141,140,139,138,137,136,136,135,134,133,133,132,131,131,130,130,129,129,128,128,126,124,122,121,120,119,118,117,116,115,114,114,113,113,112,112,110,108,106,105,104,103,102,101,100,99,98,98,97,97,96,96,94,92,90,89,88,87,86,85,84,83,82,82,81,81,80,80,78,76,74,73,72,71,70,69,68,67,66,66,65,65,64,64,62,60,59,58,57,57,56,56,54,52,51,50,49,49,48,48,46,44,43,42,41,41,40,40,38,36,35,34,33,33,32,32,30,29,28,28,26,25,24,24,22,21,20,20,18,17,16,16,14,14,12,12,10,10,8,8,7,6,5,4,3,2,1,-2048,-1,-2,-3,-4,-5,-6,-7,-8,-8,-10,-10,-12,-12,-14,-14,-16,-16,-17,-18,-20,-20,-21,-22,-24,-24,-25,-26,-28,-28,-29,-30,-32,-32,-33,-33,-34,-35,-36,-38,-40,-40,-41,-41,-42,-43,-44,-46,-48,-48,-49,-49,-50,-51,-52,-54,-56,-56,-57,-57,-58,-59,-60,-62,-64,-64,-65,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-76,-78,-80,-80,-81,-81,-82,-82,-83,-84,-85,-86,-87,-88,-89,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-106,-108,-110,-112,-112,-113,-113,-114,-114,-115,-116,-117,-118,-119,-120,-121,-122,-124,-126,-128,-128,-129,-129,-130,-130,-131,-131,-132,-133,-133,-134,-135,-136,-136,-137,-138,-139,-140,-141,-142,-143,-144,-145,-147,-148,-149,-151,-152,-154,-156,-158,-160,-160,-161,-161,-162,-162,-163,-163,-164,-165,-165,-166,-167,-168,-168,-169,-170,-171,-172,-173,-174,-175,-176,-177,-179,-180,-181,-183,-184,-186,-188,-190,-192,-192,-193,-193,-194,-194,-195,-195,-196,-197,-197,-198,-199,-200,-200,-201,-202,-203,-204,-205,-206,-207,-208,-209,-211,-212,-213,-215,-216,-218,-220,-222,-224,-224,-225,-225,-226,-226,-227,-227,-228,-229,-229,-230,-231,-232,-232,-233,-234,-235,-236,-237,-238,-239,-240,-241,-243,-244,-245,-247,-248,-250,-252,-254,-256,-256,-257,-257,-258,-258,-259,-259,-260,-260,-261,-262,-262,-263,-263,-264,-265,-265,-266,-267,-267,-268,-269,-270,-270,-271,-272,-273,-273,-274,-275,-276,-277,-278,-279,-280,-281,-282,-283,-284,-285,-286,-287,-288,-289,-290,-291,-293,-294,-295,-297,-298,-299,-301,-302,-304,-305,-307,-309,-310,-312,-314,-316,-318,-320,-320,-321,-321,-322,-322,-323,-323,-324,-324,-325,-326,-326,-327,-327,-328,-329,-329,-330,-331,-331,-332,-333,-334,-334,-335,-336,-337,-337,-338,-339,-340,-341,-342,-343,-344,-345,-346,-347,-348,-349,-350,-351,-352,-353,-354,-355,-357,-358,-359,-361,-362,-363,-365,-366,-368,-369,-371,-373,-374,-376,-378,-380,-382,-384,-384,-385,-385,-386,-386,-387,-387,-388,-388,-389,-390,-390,-391,-391,-392,-393,-393,-394,-395,-395,-396,-397,-398,-398,-399,-400,-401,-401,-402,-403,-404,-405,-406,-407,-408,-409,-410,-411,-412,-413,-414,-415,-416,-417,-418,-419,-421,-422,-423,-425,-426,-427,-429,-430,-432,-433,-435,-437,-438,-440,-442,-444,-446,-448,-448,-449,-449,-450,-450,-451,-451,-452,-452,-453,-454,-454,-455,-455,-456,-457,-457,-458,-459,-459,-460,-461,-462,-462,-463,-464,-465,-465,-466,-467,-468,-469,-470,-471,-472,-473,-474,-475,-476,-477,-478,-479,-480,-481,-482,-483,-485,-486,-487,-489,-490,-491,-493,-494,-496,-497,-499,-501,-502,-504,-506,-508,-510,-512,-512,-513,-513,-514,-514,-515,-515,-516,-516,-517,-517,-518,-518,-519,-519,-520,-521,-521,-522,-522,-523,-524,-524,-525,-525,-526,-527,-527,-528,-528,-529,-530,-530,-531,-532,-532,-533,-534,-535,-535,-536,-537,-537,-538,-539,-540,-540,-541,-542,-543,-543,-544,-545,-546,-547,-547,-548,-549,-550,-551,-552,-552,-553,-554,-555,-556,-557,-558,-559,-560,-561,-562,-563,-564,-565,-566,-567,-568,-569,-570,-571,-572,-573,-574,-575,-576,-577,-579,-580,-581,-582,-583,-585,-586,-587,-588,-590,-591,-592,-594,-595,-596,-598,-599,-601,-602,-603,-605,-606,-608,-609,-611,-613,-614,-616,-618,-619,-621,-623,-624,-626,-628,-630,-632,-634,-636,-638,-640,-640,-641,-641,-642,-642,-643,-643,-644,-644,-645,-645,-646,-646,-647,-647,-648,-649,-649,-650,-650,-651,-652,-652,-653,-653,-654,-655,-655,-656,-656,-657,-658,-658,-659,-660,-660,-661,-662,-663,-663,-664,-665,-665,-666,-667,-668,-668,-669,-670,-671,-671,-672,-673,-674,-675,-675,-676,-677,-678,-679,-680,-680,-681,-682,-683,-684,-685,-686,-687,-688,-689,-690,-691,-692,-693,-694,-695,-696,-697,-698,-699,-700,-701,-702,-703,-704,-705,-707,-708,-709,-710,-711,-713,-714,-715,-716,-718,-719,-720,-722,-723,-724,-726,-727,-729,-730,-731,-733,-734,-736,-737,-739,-741,-742,-744,-746,-747,-749,-751,-752,-754,-756,-758,-760,-762,-764,-766,-768,-768,-769,-769,-770,-770,-771,-771,-772,-772,-773,-773,-774,-774,-775,-775,-776,-777,-777,-778,-778,-779,-780,-780,-781,-781,-782,-783,-783,-784,-784,-785,-786,-786,-787,-788,-788,-789,-790,-791,-791,-792,-793,-793,-794,-795,-796,-796,-797,-798,-799,-799,-800,-801,-802,-803,-803,-804,-805,-806,-807,-808,-808,-809,-810,-811,-812,-813,-814,-815,-816,-817,-818,-819,-820,-821,-822,-823,-824,-825,-826,-827,-828,-829,-830,-831,-832,-833,-835,-836,-837,-838,-839,-841,-842,-843,-844,-846,-847,-848,-850,-851,-852,-854,-855,-857,-858,-859,-861,-862,-864,-865,-867,-869,-870,-872,-874,-875,-877,-879,-880,-882,-884,-886,-888,-890,-892,-894,-896,-896,-897,-897,-898,-898,-899,-899,-900,-900,-901,-901,-902,-902,-903,-903,-904,-905,-905,-906,-906,-907,-908,-908,-909,-909,-910,-911,-911,-912,-912,-913,-914,-914,-915,-916,-916,-917,-918,-919,-919,-920,-921,-921,-922,-923,-924,-924,-925,-926,-927,-927,-928,-929,-930,-931,-931,-932,-933,-934,-935,-936,-936,-937,-938,-939,-940,-941,-942,-943,-944,-945,-946,-947,-948,-949,-950,-951,-952,-953,-954,-955,-956,-957,-958,-959,-960,-961,-963,-964,-965,-966,-967,-969,-970,-971,-972,-974,-975,-976,-978,-979,-980,-982,-983,-985,-986,-987,-989,-990,-992,-993,-995,-997,-998,-1000,-1002,-1003,-1005,-1007,-1008,-1010,-1012,-1014,-1016,-1018,-1020,-1022,-1024,-1024,-1025,-1025,-1026,-1026,-1027,-1027,-1028,-1028,-1029,-1029,-1030,-1030,-1031,-1031,-1032,-1033,-1033,-1034,-1034,-1035,-1036,-1036,-1037,-1037,-1038,-1039,-1039,-1040,-1040,-1041,-1042,-1042,-1043,-1044,-1044,-1045,-1046,-1047,-1047,-1048,-1049,-1049,-1050,-1051,-1052,-1052,-1053,-1054,-1055,-1055,-1056,-1057,-1058,-1059,-1059,-1060,-1061,-1062,-1063,-1064,-1064,-1065,-1066,-1067,-1068,-1069,-1070,-1071,-1072,-1073,-1074,-1075,-1076,-1077,-1078,-1079,-1080,-1081,-1082,-1083,-1084,-1085,-1086,-1087,-1088,-1089,-1091,-1092,-1093,-1094,-1095,-1097,-1098,-1099,-1100,-1102,-1103,-1104,-1106,-1107,-1108,-1110,-1111,-1113,-1114,-1115,-1117,-1118,-1120,-1121,-1123,-1125,-1126,-1128,-1130,-1131,-1133,-1135,-1136,-1138,-1140,-1142,-1144,-1146,-1148,-1150,-1152,-1152,-1153,-1153,-1154,-1154,-1155,-1155,-1156,-1156,-1157,-1157,-1158,-1158,-1159,-1159,-1160,-1161,-1161,-1162,-1162,-1163,-1164,-1164,-1165,-1165,-1166,-1167,-1167,-1168,-1168,-1169,-1170,-1170,-1171,-1172,-1172,-1173,-1174,-1175,-1175,-1176,-1177,-1177,-1178,-1179,-1180,-1180,-1181,-1182,-1183,-1183,-1184,-1185,-1186,-1187,-1187,-1188,-1189,-1190,-1191,-1192,-1192,-1193,-1194,-1195,-1196,-1197,-1198,-1199,-1200,-1201,-1202,-1203,-1204,-1205,-1206,-1207,-1208,-1209,-1210,-1211,-1212,-1213,-1214,-1215,-1216,-1217,-1219,-1220,-1221,-1222,-1223,-1225,-1226,-1227,-1228,-1230,-1231,-1232,-1234,-1235,-1236,-1238,-1239,-1241,-1242,-1243,-1245,-1246,-1248,-1249,-1251,-1253,-1254,-1256,-1258,-1259,-1261,-1263,-1264,-1266,-1268,-1270,-1272,-1274,-1276,-1278,-1280,-1280,-1281,-1281,-1282,-1282,-1283,-1283,-1284,-1284,-1285,-1285,-1286,-1286,-1287,-1287,-1288,-1289,-1289,-1290,-1290,-1291,-1292,-1292,-1293,-1293,-1294,-1295,-1295,-1296,-1296,-1297,-1298,-1298,-1299,-1300,-1300,-1301,-1302,-1303,-1303,-1304,-1305,-1305,-1306,-1307,-1308,-1308,-1309,-1310,-1311,-1311,-1312,-1313,-1314,-1315,-1315,-1316,-1317,-1318,-1319,-1320,-1320,-1321,-1322,-1323,-1324,-1325,-1326,-1327,-1328,-1329,-1330,-1331,-1332,-1333,-1334,-1335,-1336,-1337,-1338,-1339,-1340,-1341,-1342,-1343,-1344,-1345,-1347,-1348,-1349,-1350,-1351,-1353,-1354,-1355,-1356,-1358,-1359,-1360,-1362,-1363,-1364,-1366,-1367,-1369,-1370,-1371,-1373,-1374,-1376,-1377,-1379,-1381,-1382,-1384,-1386,-1387,-1389,-1391,-1392,-1394,-1396,-1398,-1400,-1402,-1404,-1406,-1408,-1408,-1409,-1409,-1410,-1410,-1411,-1411,-1412,-1412,-1413,-1413,-1414,-1414,-1415,-1415,-1416,-1417,-1417,-1418,-1418,-1419,-1420,-1420,-1421,-1421,-1422,-1423,-1423,-1424,-1424,-1425,-1426,-1426,-1427,-1428,-1428,-1429,-1430,-1431,-1431,-1432,-1433,-1433,-1434,-1435,-1436,-1436,-1437,-1438,-1439,-1439,-1440,-1441,-1442,-1443,-1443,-1444,-1445,-1446,-1447,-1448,-1448,-1449,-1450,-1451,-1452,-1453,-1454,-1455,-1456,-1457,-1458,-1459,-1460,-1461,-1462,-1463,-1464,-1465,-1466,-1467,-1468,-1469,-1470,-1471,-1472,-1473,-1475,-1476,-1477,-1478,-1479,-1481,-1482,-1483,-1484,-1486,-1487,-1488,-1490,-1491,-1492,-1494,-1495,-1497,-1498,-1499,-1501,-1502,-1504,-1505,-1507,-1509,-1510,-1512,-1514,-1515,-1517,-1519,-1520,-1522,-1524,-1526,-1528,-1530,-1532,-1534,-1536,-1536,-1537,-1537,-1538,-1538,-1539,-1539,-1540,-1540,-1541,-1542,-1542,-1543,-1543,-1544,-1545,-1545,-1546,-1547,-1547,-1548,-1549,-1550,-1550,-1551,-1552,-1553,-1553,-1554,-1555,-1556,-1557,-1558,-1559,-1560,-1561,-1562,-1563,-1564,-1565,-1566,-1567,-1568,-1569,-1570,-1571,-1573,-1574,-1575,-1577,-1578,-1579,-1581,-1582,-1584,-1585,-1587,-1589,-1590,-1592,-1594,-1596,-1598,-1600,-1600,-1601,-1601,-1602,-1602,-1603,-1603,-1604,-1604,-1605,-1606,-1606,-1607,-1607,-1608,-1609,-1609,-1610,-1611,-1611,-1612,-1613,-1614,-1614,-1615,-1616,-1617,-1617,-1618,-1619,-1620,-1621,-1622,-1623,-1624,-1625,-1626,-1627,-1628,-1629,-1630,-1631,-1632,-1633,-1634,-1635,-1637,-1638,-1639,-1641,-1642,-1643,-1645,-1646,-1648,-1649,-1651,-1653,-1654,-1656,-1658,-1660,-1662,-1664,-1664,-1665,-1665,-1666,-1666,-1667,-1667,-1668,-1668,-1669,-1670,-1670,-1671,-1671,-1672,-1673,-1673,-1674,-1675,-1675,-1676,-1677,-1678,-1678,-1679,-1680,-1681,-1681,-1682,-1683,-1684,-1685,-1686,-1687,-1688,-1689,-1690,-1691,-1692,-1693,-1694,-1695,-1696,-1697,-1698,-1699,-1701,-1702,-1703,-1705,-1706,-1707,-1709,-1710,-1712,-1713,-1715,-1717,-1718,-1720,-1722,-1724,-1726,-1728,-1728,-1729,-1729,-1730,-1730,-1731,-1731,-1732,-1732,-1733,-1734,-1734,-1735,-1735,-1736,-1737,-1737,-1738,-1739,-1739,-1740,-1741,-1742,-1742,-1743,-1744,-1745,-1745,-1746,-1747,-1748,-1749,-1750,-1751,-1752,-1753,-1754,-1755,-1756,-1757,-1758,-1759,-1760,-1761,-1762,-1763,-1765,-1766,-1767,-1769,-1770,-1771,-1773,-1774,-1776,-1777,-1779,-1781,-1782,-1784,-1786,-1788,-1790,-1792,-1792,-1793,-1793,-1794,-1794,-1795,-1795,-1796,-1797,-1797,-1798,-1799,-1800,-1800,-1801,-1802,-1803,-1804,-1805,-1806,-1807,-1808,-1809,-1811,-1812,-1813,-1815,-1816,-1818,-1820,-1822,-1824,-1824,-1825,-1825,-1826,-1826,-1827,-1827,-1828,-1829,-1829,-1830,-1831,-1832,-1832,-1833,-1834,-1835,-1836,-1837,-1838,-1839,-1840,-1841,-1843,-1844,-1845,-1847,-1848,-1850,-1852,-1854,-1856,-1856,-1857,-1857,-1858,-1858,-1859,-1859,-1860,-1861,-1861,-1862,-1863,-1864,-1864,-1865,-1866,-1867,-1868,-1869,-1870,-1871,-1872,-1873,-1875,-1876,-1877,-1879,-1880,-1882,-1884,-1886,-1888,-1888,-1889,-1889,-1890,-1890,-1891,-1891,-1892,-1893,-1893,-1894,-1895,-1896,-1896,-1897,-1898,-1899,-1900,-1901,-1902,-1903,-1904,-1905,-1907,-1908,-1909,-1911,-1912,-1914,-1916,-1918,-1920,-1920,-1921,-1921,-1922,-1922,-1923,-1924,-1925,-1926,-1927,-1928,-1929,-1930,-1932,-1934,-1936,-1936,-1937,-1937,-1938,-1938,-1939,-1940,-1941,-1942,-1943,-1944,-1945,-1946,-1948,-1950,-1952,-1952,-1953,-1953,-1954,-1954,-1955,-1956,-1957,-1958,-1959,-1960,-1961,-1962,-1964,-1966,-1968,-1968,-1969,-1969,-1970,-1970,-1971,-1972,-1973,-1974,-1975,-1976,-1977,-1978,-1980,-1982,-1984,-1984,-1985,-1985,-1986,-1987,-1988,-1990,-1992,-1992,-1993,-1993,-1994,-1995,-1996,-1998,-2000,-2000,-2001,-2001,-2002,-2003,-2004,-2006,-2008,-2008,-2009,-2009,-2010,-2011,-2012,-2014,-2016,-2016,-2017,-2018,-2020,-2020,-2021,-2022,-2024,-2024,-2025,-2026,-2028,-2028,-2029,-2030,-2032,-2032,-2034,-2034,-2036,-2036,-2038,-2038,-2040,-2041,-2042,-2043,-2044,-2045,-2046,-2047,}; 
+-2048,2047,2046,2045,2044,2043,2042,2041,2040,2038,2038,2036,2036,2034,2034,2032,2032,2030,2029,2028,2028,2026,2025,2024,2024,2022,2021,2020,2020,2018,2017,2016,2016,2014,2012,2011,2010,2009,2009,2008,2008,2006,2004,2003,2002,2001,2001,2000,2000,1998,1996,1995,1994,1993,1993,1992,1992,1990,1988,1987,1986,1985,1985,1984,1984,1982,1980,1978,1977,1976,1975,1974,1973,1972,1971,1970,1970,1969,1969,1968,1968,1966,1964,1962,1961,1960,1959,1958,1957,1956,1955,1954,1954,1953,1953,1952,1952,1950,1948,1946,1945,1944,1943,1942,1941,1940,1939,1938,1938,1937,1937,1936,1936,1934,1932,1930,1929,1928,1927,1926,1925,1924,1923,1922,1922,1921,1921,1920,1920,1918,1916,1914,1912,1911,1909,1908,1907,1905,1904,1903,1902,1901,1900,1899,1898,1897,1896,1896,1895,1894,1893,1893,1892,1891,1891,1890,1890,1889,1889,1888,1888,1886,1884,1882,1880,1879,1877,1876,1875,1873,1872,1871,1870,1869,1868,1867,1866,1865,1864,1864,1863,1862,1861,1861,1860,1859,1859,1858,1858,1857,1857,1856,1856,1854,1852,1850,1848,1847,1845,1844,1843,1841,1840,1839,1838,1837,1836,1835,1834,1833,1832,1832,1831,1830,1829,1829,1828,1827,1827,1826,1826,1825,1825,1824,1824,1822,1820,1818,1816,1815,1813,1812,1811,1809,1808,1807,1806,1805,1804,1803,1802,1801,1800,1800,1799,1798,1797,1797,1796,1795,1795,1794,1794,1793,1793,1792,1792,1790,1788,1786,1784,1782,1781,1779,1777,1776,1774,1773,1771,1770,1769,1767,1766,1765,1763,1762,1761,1760,1759,1758,1757,1756,1755,1754,1753,1752,1751,1750,1749,1748,1747,1746,1745,1745,1744,1743,1742,1742,1741,1740,1739,1739,1738,1737,1737,1736,1735,1735,1734,1734,1733,1732,1732,1731,1731,1730,1730,1729,1729,1728,1728,1726,1724,1722,1720,1718,1717,1715,1713,1712,1710,1709,1707,1706,1705,1703,1702,1701,1699,1698,1697,1696,1695,1694,1693,1692,1691,1690,1689,1688,1687,1686,1685,1684,1683,1682,1681,1681,1680,1679,1678,1678,1677,1676,1675,1675,1674,1673,1673,1672,1671,1671,1670,1670,1669,1668,1668,1667,1667,1666,1666,1665,1665,1664,1664,1662,1660,1658,1656,1654,1653,1651,1649,1648,1646,1645,1643,1642,1641,1639,1638,1637,1635,1634,1633,1632,1631,1630,1629,1628,1627,1626,1625,1624,1623,1622,1621,1620,1619,1618,1617,1617,1616,1615,1614,1614,1613,1612,1611,1611,1610,1609,1609,1608,1607,1607,1606,1606,1605,1604,1604,1603,1603,1602,1602,1601,1601,1600,1600,1598,1596,1594,1592,1590,1589,1587,1585,1584,1582,1581,1579,1578,1577,1575,1574,1573,1571,1570,1569,1568,1567,1566,1565,1564,1563,1562,1561,1560,1559,1558,1557,1556,1555,1554,1553,1553,1552,1551,1550,1550,1549,1548,1547,1547,1546,1545,1545,1544,1543,1543,1542,1542,1541,1540,1540,1539,1539,1538,1538,1537,1537,1536,1536,1534,1532,1530,1528,1526,1524,1522,1520,1519,1517,1515,1514,1512,1510,1509,1507,1505,1504,1502,1501,1499,1498,1497,1495,1494,1492,1491,1490,1488,1487,1486,1484,1483,1482,1481,1479,1478,1477,1476,1475,1473,1472,1471,1470,1469,1468,1467,1466,1465,1464,1463,1462,1461,1460,1459,1458,1457,1456,1455,1454,1453,1452,1451,1450,1449,1448,1448,1447,1446,1445,1444,1443,1443,1442,1441,1440,1439,1439,1438,1437,1436,1436,1435,1434,1433,1433,1432,1431,1431,1430,1429,1428,1428,1427,1426,1426,1425,1424,1424,1423,1423,1422,1421,1421,1420,1420,1419,1418,1418,1417,1417,1416,1415,1415,1414,1414,1413,1413,1412,1412,1411,1411,1410,1410,1409,1409,1408,1408,1406,1404,1402,1400,1398,1396,1394,1392,1391,1389,1387,1386,1384,1382,1381,1379,1377,1376,1374,1373,1371,1370,1369,1367,1366,1364,1363,1362,1360,1359,1358,1356,1355,1354,1353,1351,1350,1349,1348,1347,1345,1344,1343,1342,1341,1340,1339,1338,1337,1336,1335,1334,1333,1332,1331,1330,1329,1328,1327,1326,1325,1324,1323,1322,1321,1320,1320,1319,1318,1317,1316,1315,1315,1314,1313,1312,1311,1311,1310,1309,1308,1308,1307,1306,1305,1305,1304,1303,1303,1302,1301,1300,1300,1299,1298,1298,1297,1296,1296,1295,1295,1294,1293,1293,1292,1292,1291,1290,1290,1289,1289,1288,1287,1287,1286,1286,1285,1285,1284,1284,1283,1283,1282,1282,1281,1281,1280,1280,1278,1276,1274,1272,1270,1268,1266,1264,1263,1261,1259,1258,1256,1254,1253,1251,1249,1248,1246,1245,1243,1242,1241,1239,1238,1236,1235,1234,1232,1231,1230,1228,1227,1226,1225,1223,1222,1221,1220,1219,1217,1216,1215,1214,1213,1212,1211,1210,1209,1208,1207,1206,1205,1204,1203,1202,1201,1200,1199,1198,1197,1196,1195,1194,1193,1192,1192,1191,1190,1189,1188,1187,1187,1186,1185,1184,1183,1183,1182,1181,1180,1180,1179,1178,1177,1177,1176,1175,1175,1174,1173,1172,1172,1171,1170,1170,1169,1168,1168,1167,1167,1166,1165,1165,1164,1164,1163,1162,1162,1161,1161,1160,1159,1159,1158,1158,1157,1157,1156,1156,1155,1155,1154,1154,1153,1153,1152,1152,1150,1148,1146,1144,1142,1140,1138,1136,1135,1133,1131,1130,1128,1126,1125,1123,1121,1120,1118,1117,1115,1114,1113,1111,1110,1108,1107,1106,1104,1103,1102,1100,1099,1098,1097,1095,1094,1093,1092,1091,1089,1088,1087,1086,1085,1084,1083,1082,1081,1080,1079,1078,1077,1076,1075,1074,1073,1072,1071,1070,1069,1068,1067,1066,1065,1064,1064,1063,1062,1061,1060,1059,1059,1058,1057,1056,1055,1055,1054,1053,1052,1052,1051,1050,1049,1049,1048,1047,1047,1046,1045,1044,1044,1043,1042,1042,1041,1040,1040,1039,1039,1038,1037,1037,1036,1036,1035,1034,1034,1033,1033,1032,1031,1031,1030,1030,1029,1029,1028,1028,1027,1027,1026,1026,1025,1025,1024,1024,1022,1020,1018,1016,1014,1012,1010,1008,1007,1005,1003,1002,1000,998,997,995,993,992,990,989,987,986,985,983,982,980,979,978,976,975,974,972,971,970,969,967,966,965,964,963,961,960,959,958,957,956,955,954,953,952,951,950,949,948,947,946,945,944,943,942,941,940,939,938,937,936,936,935,934,933,932,931,931,930,929,928,927,927,926,925,924,924,923,922,921,921,920,919,919,918,917,916,916,915,914,914,913,912,912,911,911,910,909,909,908,908,907,906,906,905,905,904,903,903,902,902,901,901,900,900,899,899,898,898,897,897,896,896,894,892,890,888,886,884,882,880,879,877,875,874,872,870,869,867,865,864,862,861,859,858,857,855,854,852,851,850,848,847,846,844,843,842,841,839,838,837,836,835,833,832,831,830,829,828,827,826,825,824,823,822,821,820,819,818,817,816,815,814,813,812,811,810,809,808,808,807,806,805,804,803,803,802,801,800,799,799,798,797,796,796,795,794,793,793,792,791,791,790,789,788,788,787,786,786,785,784,784,783,783,782,781,781,780,780,779,778,778,777,777,776,775,775,774,774,773,773,772,772,771,771,770,770,769,769,768,768,766,764,762,760,758,756,754,752,751,749,747,746,744,742,741,739,737,736,734,733,731,730,729,727,726,724,723,722,720,719,718,716,715,714,713,711,710,709,708,707,705,704,703,702,701,700,699,698,697,696,695,694,693,692,691,690,689,688,687,686,685,684,683,682,681,680,680,679,678,677,676,675,675,674,673,672,671,671,670,669,668,668,667,666,665,665,664,663,663,662,661,660,660,659,658,658,657,656,656,655,655,654,653,653,652,652,651,650,650,649,649,648,647,647,646,646,645,645,644,644,643,643,642,642,641,641,640,640,638,636,634,632,630,628,626,624,623,621,619,618,616,614,613,611,609,608,606,605,603,602,601,599,598,596,595,594,592,591,590,588,587,586,585,583,582,581,580,579,577,576,575,574,573,572,571,570,569,568,567,566,565,564,563,562,561,560,559,558,557,556,555,554,553,552,552,551,550,549,548,547,547,546,545,544,543,543,542,541,540,540,539,538,537,537,536,535,535,534,533,532,532,531,530,530,529,528,528,527,527,526,525,525,524,524,523,522,522,521,521,520,519,519,518,518,517,517,516,516,515,515,514,514,513,513,512,512,510,508,506,504,502,501,499,497,496,494,493,491,490,489,487,486,485,483,482,481,480,479,478,477,476,475,474,473,472,471,470,469,468,467,466,465,465,464,463,462,462,461,460,459,459,458,457,457,456,455,455,454,454,453,452,452,451,451,450,450,449,449,448,448,446,444,442,440,438,437,435,433,432,430,429,427,426,425,423,422,421,419,418,417,416,415,414,413,412,411,410,409,408,407,406,405,404,403,402,401,401,400,399,398,398,397,396,395,395,394,393,393,392,391,391,390,390,389,388,388,387,387,386,386,385,385,384,384,382,380,378,376,374,373,371,369,368,366,365,363,362,361,359,358,357,355,354,353,352,351,350,349,348,347,346,345,344,343,342,341,340,339,338,337,337,336,335,334,334,333,332,331,331,330,329,329,328,327,327,326,326,325,324,324,323,323,322,322,321,321,320,320,318,316,314,312,310,309,307,305,304,302,301,299,298,297,295,294,293,291,290,289,288,287,286,285,284,283,282,281,280,279,278,277,276,275,274,273,273,272,271,270,270,269,268,267,267,266,265,265,264,263,263,262,262,261,260,260,259,259,258,258,257,257,256,256,254,252,250,248,247,245,244,243,241,240,239,238,237,236,235,234,233,232,232,231,230,229,229,228,227,227,226,226,225,225,224,224,222,220,218,216,215,213,212,211,209,208,207,206,205,204,203,202,201,200,200,199,198,197,197,196,195,195,194,194,193,193,192,192,190,188,186,184,183,181,180,179,177,176,175,174,173,172,171,170,169,168,168,167,166,165,165,164,163,163,162,162,161,161,160,160,158,156,154,152,151,149,148,147,145,144,143,142,141,140,139,138,137,136,136,135,134,133,133,132,131,131,130,130,129,129,128,128,126,124,122,121,120,119,118,117,116,115,114,114,113,113,112,112,110,108,106,105,104,103,102,101,100,99,98,98,97,97,96,96,94,92,90,89,88,87,86,85,84,83,82,82,81,81,80,80,78,76,74,73,72,71,70,69,68,67,66,66,65,65,64,64,62,60,59,58,57,57,56,56,54,52,51,50,49,49,48,48,46,44,43,42,41,41,40,40,38,36,35,34,33,33,32,32,30,29,28,28,26,25,24,24,22,21,20,20,18,17,16,16,14,14,12,12,10,10,8,8,7,6,5,4,3,2,1,-2048,-1,-2,-3,-4,-5,-6,-7,-8,-8,-10,-10,-12,-12,-14,-14,-16,-16,-17,-18,-20,-20,-21,-22,-24,-24,-25,-26,-28,-28,-29,-30,-32,-32,-33,-33,-34,-35,-36,-38,-40,-40,-41,-41,-42,-43,-44,-46,-48,-48,-49,-49,-50,-51,-52,-54,-56,-56,-57,-57,-58,-59,-60,-62,-64,-64,-65,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-76,-78,-80,-80,-81,-81,-82,-82,-83,-84,-85,-86,-87,-88,-89,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-106,-108,-110,-112,-112,-113,-113,-114,-114,-115,-116,-117,-118,-119,-120,-121,-122,-124,-126,-128,-128,-129,-129,-130,-130,-131,-131,-132,-133,-133,-134,-135,-136,-136,-137,-138,-139,-140,-141,-142,-143,-144,-145,-147,-148,-149,-151,-152,-154,-156,-158,-160,-160,-161,-161,-162,-162,-163,-163,-164,-165,-165,-166,-167,-168,-168,-169,-170,-171,-172,-173,-174,-175,-176,-177,-179,-180,-181,-183,-184,-186,-188,-190,-192,-192,-193,-193,-194,-194,-195,-195,-196,-197,-197,-198,-199,-200,-200,-201,-202,-203,-204,-205,-206,-207,-208,-209,-211,-212,-213,-215,-216,-218,-220,-222,-224,-224,-225,-225,-226,-226,-227,-227,-228,-229,-229,-230,-231,-232,-232,-233,-234,-235,-236,-237,-238,-239,-240,-241,-243,-244,-245,-247,-248,-250,-252,-254,-256,-256,-257,-257,-258,-258,-259,-259,-260,-260,-261,-262,-262,-263,-263,-264,-265,-265,-266,-267,-267,-268,-269,-270,-270,-271,-272,-273,-273,-274,-275,-276,-277,-278,-279,-280,-281,-282,-283,-284,-285,-286,-287,-288,-289,-290,-291,-293,-294,-295,-297,-298,-299,-301,-302,-304,-305,-307,-309,-310,-312,-314,-316,-318,-320,-320,-321,-321,-322,-322,-323,-323,-324,-324,-325,-326,-326,-327,-327,-328,-329,-329,-330,-331,-331,-332,-333,-334,-334,-335,-336,-337,-337,-338,-339,-340,-341,-342,-343,-344,-345,-346,-347,-348,-349,-350,-351,-352,-353,-354,-355,-357,-358,-359,-361,-362,-363,-365,-366,-368,-369,-371,-373,-374,-376,-378,-380,-382,-384,-384,-385,-385,-386,-386,-387,-387,-388,-388,-389,-390,-390,-391,-391,-392,-393,-393,-394,-395,-395,-396,-397,-398,-398,-399,-400,-401,-401,-402,-403,-404,-405,-406,-407,-408,-409,-410,-411,-412,-413,-414,-415,-416,-417,-418,-419,-421,-422,-423,-425,-426,-427,-429,-430,-432,-433,-435,-437,-438,-440,-442,-444,-446,-448,-448,-449,-449,-450,-450,-451,-451,-452,-452,-453,-454,-454,-455,-455,-456,-457,-457,-458,-459,-459,-460,-461,-462,-462,-463,-464,-465,-465,-466,-467,-468,-469,-470,-471,-472,-473,-474,-475,-476,-477,-478,-479,-480,-481,-482,-483,-485,-486,-487,-489,-490,-491,-493,-494,-496,-497,-499,-501,-502,-504,-506,-508,-510,-512,-512,-513,-513,-514,-514,-515,-515,-516,-516,-517,-517,-518,-518,-519,-519,-520,-521,-521,-522,-522,-523,-524,-524,-525,-525,-526,-527,-527,-528,-528,-529,-530,-530,-531,-532,-532,-533,-534,-535,-535,-536,-537,-537,-538,-539,-540,-540,-541,-542,-543,-543,-544,-545,-546,-547,-547,-548,-549,-550,-551,-552,-552,-553,-554,-555,-556,-557,-558,-559,-560,-561,-562,-563,-564,-565,-566,-567,-568,-569,-570,-571,-572,-573,-574,-575,-576,-577,-579,-580,-581,-582,-583,-585,-586,-587,-588,-590,-591,-592,-594,-595,-596,-598,-599,-601,-602,-603,-605,-606,-608,-609,-611,-613,-614,-616,-618,-619,-621,-623,-624,-626,-628,-630,-632,-634,-636,-638,-640,-640,-641,-641,-642,-642,-643,-643,-644,-644,-645,-645,-646,-646,-647,-647,-648,-649,-649,-650,-650,-651,-652,-652,-653,-653,-654,-655,-655,-656,-656,-657,-658,-658,-659,-660,-660,-661,-662,-663,-663,-664,-665,-665,-666,-667,-668,-668,-669,-670,-671,-671,-672,-673,-674,-675,-675,-676,-677,-678,-679,-680,-680,-681,-682,-683,-684,-685,-686,-687,-688,-689,-690,-691,-692,-693,-694,-695,-696,-697,-698,-699,-700,-701,-702,-703,-704,-705,-707,-708,-709,-710,-711,-713,-714,-715,-716,-718,-719,-720,-722,-723,-724,-726,-727,-729,-730,-731,-733,-734,-736,-737,-739,-741,-742,-744,-746,-747,-749,-751,-752,-754,-756,-758,-760,-762,-764,-766,-768,-768,-769,-769,-770,-770,-771,-771,-772,-772,-773,-773,-774,-774,-775,-775,-776,-777,-777,-778,-778,-779,-780,-780,-781,-781,-782,-783,-783,-784,-784,-785,-786,-786,-787,-788,-788,-789,-790,-791,-791,-792,-793,-793,-794,-795,-796,-796,-797,-798,-799,-799,-800,-801,-802,-803,-803,-804,-805,-806,-807,-808,-808,-809,-810,-811,-812,-813,-814,-815,-816,-817,-818,-819,-820,-821,-822,-823,-824,-825,-826,-827,-828,-829,-830,-831,-832,-833,-835,-836,-837,-838,-839,-841,-842,-843,-844,-846,-847,-848,-850,-851,-852,-854,-855,-857,-858,-859,-861,-862,-864,-865,-867,-869,-870,-872,-874,-875,-877,-879,-880,-882,-884,-886,-888,-890,-892,-894,-896,-896,-897,-897,-898,-898,-899,-899,-900,-900,-901,-901,-902,-902,-903,-903,-904,-905,-905,-906,-906,-907,-908,-908,-909,-909,-910,-911,-911,-912,-912,-913,-914,-914,-915,-916,-916,-917,-918,-919,-919,-920,-921,-921,-922,-923,-924,-924,-925,-926,-927,-927,-928,-929,-930,-931,-931,-932,-933,-934,-935,-936,-936,-937,-938,-939,-940,-941,-942,-943,-944,-945,-946,-947,-948,-949,-950,-951,-952,-953,-954,-955,-956,-957,-958,-959,-960,-961,-963,-964,-965,-966,-967,-969,-970,-971,-972,-974,-975,-976,-978,-979,-980,-982,-983,-985,-986,-987,-989,-990,-992,-993,-995,-997,-998,-1000,-1002,-1003,-1005,-1007,-1008,-1010,-1012,-1014,-1016,-1018,-1020,-1022,-1024,-1024,-1025,-1025,-1026,-1026,-1027,-1027,-1028,-1028,-1029,-1029,-1030,-1030,-1031,-1031,-1032,-1033,-1033,-1034,-1034,-1035,-1036,-1036,-1037,-1037,-1038,-1039,-1039,-1040,-1040,-1041,-1042,-1042,-1043,-1044,-1044,-1045,-1046,-1047,-1047,-1048,-1049,-1049,-1050,-1051,-1052,-1052,-1053,-1054,-1055,-1055,-1056,-1057,-1058,-1059,-1059,-1060,-1061,-1062,-1063,-1064,-1064,-1065,-1066,-1067,-1068,-1069,-1070,-1071,-1072,-1073,-1074,-1075,-1076,-1077,-1078,-1079,-1080,-1081,-1082,-1083,-1084,-1085,-1086,-1087,-1088,-1089,-1091,-1092,-1093,-1094,-1095,-1097,-1098,-1099,-1100,-1102,-1103,-1104,-1106,-1107,-1108,-1110,-1111,-1113,-1114,-1115,-1117,-1118,-1120,-1121,-1123,-1125,-1126,-1128,-1130,-1131,-1133,-1135,-1136,-1138,-1140,-1142,-1144,-1146,-1148,-1150,-1152,-1152,-1153,-1153,-1154,-1154,-1155,-1155,-1156,-1156,-1157,-1157,-1158,-1158,-1159,-1159,-1160,-1161,-1161,-1162,-1162,-1163,-1164,-1164,-1165,-1165,-1166,-1167,-1167,-1168,-1168,-1169,-1170,-1170,-1171,-1172,-1172,-1173,-1174,-1175,-1175,-1176,-1177,-1177,-1178,-1179,-1180,-1180,-1181,-1182,-1183,-1183,-1184,-1185,-1186,-1187,-1187,-1188,-1189,-1190,-1191,-1192,-1192,-1193,-1194,-1195,-1196,-1197,-1198,-1199,-1200,-1201,-1202,-1203,-1204,-1205,-1206,-1207,-1208,-1209,-1210,-1211,-1212,-1213,-1214,-1215,-1216,-1217,-1219,-1220,-1221,-1222,-1223,-1225,-1226,-1227,-1228,-1230,-1231,-1232,-1234,-1235,-1236,-1238,-1239,-1241,-1242,-1243,-1245,-1246,-1248,-1249,-1251,-1253,-1254,-1256,-1258,-1259,-1261,-1263,-1264,-1266,-1268,-1270,-1272,-1274,-1276,-1278,-1280,-1280,-1281,-1281,-1282,-1282,-1283,-1283,-1284,-1284,-1285,-1285,-1286,-1286,-1287,-1287,-1288,-1289,-1289,-1290,-1290,-1291,-1292,-1292,-1293,-1293,-1294,-1295,-1295,-1296,-1296,-1297,-1298,-1298,-1299,-1300,-1300,-1301,-1302,-1303,-1303,-1304,-1305,-1305,-1306,-1307,-1308,-1308,-1309,-1310,-1311,-1311,-1312,-1313,-1314,-1315,-1315,-1316,-1317,-1318,-1319,-1320,-1320,-1321,-1322,-1323,-1324,-1325,-1326,-1327,-1328,-1329,-1330,-1331,-1332,-1333,-1334,-1335,-1336,-1337,-1338,-1339,-1340,-1341,-1342,-1343,-1344,-1345,-1347,-1348,-1349,-1350,-1351,-1353,-1354,-1355,-1356,-1358,-1359,-1360,-1362,-1363,-1364,-1366,-1367,-1369,-1370,-1371,-1373,-1374,-1376,-1377,-1379,-1381,-1382,-1384,-1386,-1387,-1389,-1391,-1392,-1394,-1396,-1398,-1400,-1402,-1404,-1406,-1408,-1408,-1409,-1409,-1410,-1410,-1411,-1411,-1412,-1412,-1413,-1413,-1414,-1414,-1415,-1415,-1416,-1417,-1417,-1418,-1418,-1419,-1420,-1420,-1421,-1421,-1422,-1423,-1423,-1424,-1424,-1425,-1426,-1426,-1427,-1428,-1428,-1429,-1430,-1431,-1431,-1432,-1433,-1433,-1434,-1435,-1436,-1436,-1437,-1438,-1439,-1439,-1440,-1441,-1442,-1443,-1443,-1444,-1445,-1446,-1447,-1448,-1448,-1449,-1450,-1451,-1452,-1453,-1454,-1455,-1456,-1457,-1458,-1459,-1460,-1461,-1462,-1463,-1464,-1465,-1466,-1467,-1468,-1469,-1470,-1471,-1472,-1473,-1475,-1476,-1477,-1478,-1479,-1481,-1482,-1483,-1484,-1486,-1487,-1488,-1490,-1491,-1492,-1494,-1495,-1497,-1498,-1499,-1501,-1502,-1504,-1505,-1507,-1509,-1510,-1512,-1514,-1515,-1517,-1519,-1520,-1522,-1524,-1526,-1528,-1530,-1532,-1534,-1536,-1536,-1537,-1537,-1538,-1538,-1539,-1539,-1540,-1540,-1541,-1542,-1542,-1543,-1543,-1544,-1545,-1545,-1546,-1547,-1547,-1548,-1549,-1550,-1550,-1551,-1552,-1553,-1553,-1554,-1555,-1556,-1557,-1558,-1559,-1560,-1561,-1562,-1563,-1564,-1565,-1566,-1567,-1568,-1569,-1570,-1571,-1573,-1574,-1575,-1577,-1578,-1579,-1581,-1582,-1584,-1585,-1587,-1589,-1590,-1592,-1594,-1596,-1598,-1600,-1600,-1601,-1601,-1602,-1602,-1603,-1603,-1604,-1604,-1605,-1606,-1606,-1607,-1607,-1608,-1609,-1609,-1610,-1611,-1611,-1612,-1613,-1614,-1614,-1615,-1616,-1617,-1617,-1618,-1619,-1620,-1621,-1622,-1623,-1624,-1625,-1626,-1627,-1628,-1629,-1630,-1631,-1632,-1633,-1634,-1635,-1637,-1638,-1639,-1641,-1642,-1643,-1645,-1646,-1648,-1649,-1651,-1653,-1654,-1656,-1658,-1660,-1662,-1664,-1664,-1665,-1665,-1666,-1666,-1667,-1667,-1668,-1668,-1669,-1670,-1670,-1671,-1671,-1672,-1673,-1673,-1674,-1675,-1675,-1676,-1677,-1678,-1678,-1679,-1680,-1681,-1681,-1682,-1683,-1684,-1685,-1686,-1687,-1688,-1689,-1690,-1691,-1692,-1693,-1694,-1695,-1696,-1697,-1698,-1699,-1701,-1702,-1703,-1705,-1706,-1707,-1709,-1710,-1712,-1713,-1715,-1717,-1718,-1720,-1722,-1724,-1726,-1728,-1728,-1729,-1729,-1730,-1730,-1731,-1731,-1732,-1732,-1733,-1734,-1734,-1735,-1735,-1736,-1737,-1737,-1738,-1739,-1739,-1740,-1741,-1742,-1742,-1743,-1744,-1745,-1745,-1746,-1747,-1748,-1749,-1750,-1751,-1752,-1753,-1754,-1755,-1756,-1757,-1758,-1759,-1760,-1761,-1762,-1763,-1765,-1766,-1767,-1769,-1770,-1771,-1773,-1774,-1776,-1777,-1779,-1781,-1782,-1784,-1786,-1788,-1790,-1792,-1792,-1793,-1793,-1794,-1794,-1795,-1795,-1796,-1797,-1797,-1798,-1799,-1800,-1800,-1801,-1802,-1803,-1804,-1805,-1806,-1807,-1808,-1809,-1811,-1812,-1813,-1815,-1816,-1818,-1820,-1822,-1824,-1824,-1825,-1825,-1826,-1826,-1827,-1827,-1828,-1829,-1829,-1830,-1831,-1832,-1832,-1833,-1834,-1835,-1836,-1837,-1838,-1839,-1840,-1841,-1843,-1844,-1845,-1847,-1848,-1850,-1852,-1854,-1856,-1856,-1857,-1857,-1858,-1858,-1859,-1859,-1860,-1861,-1861,-1862,-1863,-1864,-1864,-1865,-1866,-1867,-1868,-1869,-1870,-1871,-1872,-1873,-1875,-1876,-1877,-1879,-1880,-1882,-1884,-1886,-1888,-1888,-1889,-1889,-1890,-1890,-1891,-1891,-1892,-1893,-1893,-1894,-1895,-1896,-1896,-1897,-1898,-1899,-1900,-1901,-1902,-1903,-1904,-1905,-1907,-1908,-1909,-1911,-1912,-1914,-1916,-1918,-1920,-1920,-1921,-1921,-1922,-1922,-1923,-1924,-1925,-1926,-1927,-1928,-1929,-1930,-1932,-1934,-1936,-1936,-1937,-1937,-1938,-1938,-1939,-1940,-1941,-1942,-1943,-1944,-1945,-1946,-1948,-1950,-1952,-1952,-1953,-1953,-1954,-1954,-1955,-1956,-1957,-1958,-1959,-1960,-1961,-1962,-1964,-1966,-1968,-1968,-1969,-1969,-1970,-1970,-1971,-1972,-1973,-1974,-1975,-1976,-1977,-1978,-1980,-1982,-1984,-1984,-1985,-1985,-1986,-1987,-1988,-1990,-1992,-1992,-1993,-1993,-1994,-1995,-1996,-1998,-2000,-2000,-2001,-2001,-2002,-2003,-2004,-2006,-2008,-2008,-2009,-2009,-2010,-2011,-2012,-2014,-2016,-2016,-2017,-2018,-2020,-2020,-2021,-2022,-2024,-2024,-2025,-2026,-2028,-2028,-2029,-2030,-2032,-2032,-2034,-2034,-2036,-2036,-2038,-2038,-2040,-2041,-2042,-2043,-2044,-2045,-2046,-2047,}; 
 int16_t opsquare[] = {
 0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,5,5,5,5,5,5,5,5,5,6,6,6,6,6,6,6,7,7,7,7,7,7,7,7,7,8,8,8,8,9,9,9,10,10,10,10,10,11,11,11,11,12,12,12,12,13,13,13,14,14,14,14,14,15,15,15,15,16,16,16,16,17,17,17,17,18,18,18,19,19,19,20,20,20,20,20,21,21,21,21,21,22,22,22,22,23,23,23,23,24,24,24,24,25,25,25,25,26,26,26,27,27,27,28,28,28,28,28,29,29,29,29,29,30,30,30,30,31,31,31,31,32,32,33,33,34,34,35,35,36,37,37,38,39,39,40,40,41,41,41,42,42,42,43,43,44,44,45,45,46,46,47,47,48,48,49,49,50,50,51,51,52,53,53,54,55,55,56,56,57,57,57,58,58,58,59,59,60,60,61,61,62,62,63,63,64,64,65,65,66,66,67,67,68,68,69,69,70,71,71,72,73,73,74,74,75,76,76,77,78,78,79,80,80,80,81,81,82,82,82,83,83,83,84,84,85,85,85,86,86,87,87,88,88,88,89,89,90,90,91,91,92,92,93,93,94,94,95,95,96,96,97,97,98,98,99,99,100,100,101,101,102,103,103,104,105,105,106,106,107,108,108,109,110,110,111,112,112,112,113,113,114,114,114,115,115,115,116,116,117,117,117,118,118,119,119,120,120,120,121,121,122,122,123,123,124,124,125,125,126,126,127,127,128,129,130,131,132,133,134,135,136,137,138,139,141,142,143,144,146,147,148,149,151,152,153,155,156,157,159,160,161,161,162,163,164,164,165,166,167,167,168,169,170,171,171,172,173,174,175,176,177,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,205,206,207,208,210,211,212,213,215,216,217,219,220,221,223,224,225,225,226,227,228,228,229,230,231,231,232,233,234,235,235,236,237,238,239,240,241,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255,256,257,258,259,260,261,262,263,264,265,266,267,268,269,270,271,273,274,275,276,277,278,279,281,282,283,284,285,287,288,289,290,292,293,294,295,297,298,299,300,302,303,304,306,307,308,310,311,313,314,315,317,318,319,320,321,322,322,323,324,325,325,326,327,328,328,329,330,331,331,332,333,334,334,335,336,337,338,338,339,340,341,342,342,343,344,345,346,347,347,348,349,350,351,352,353,354,354,355,356,357,358,359,360,361,362,362,363,364,365,366,367,368,369,370,371,372,373,374,375,376,377,378,379,380,381,382,383,384,385,386,387,388,389,390,391,392,393,394,395,396,397,398,399,401,402,403,404,405,406,407,409,410,411,412,413,415,416,417,418,420,421,422,423,425,426,427,428,430,431,432,434,435,436,438,439,441,442,443,445,446,447,448,449,450,450,451,452,453,453,454,455,456,456,457,458,459,459,460,461,462,462,463,464,465,466,466,467,468,469,470,470,471,472,473,474,475,475,476,477,478,479,480,481,482,482,483,484,485,486,487,488,489,490,490,491,492,493,494,495,496,497,498,499,500,501,502,503,504,505,506,507,508,509,510,511,512,514,516,518,520,522,524,526,528,530,532,534,537,539,541,543,546,548,550,552,555,557,559,562,564,566,569,571,574,576,579,581,584,586,589,591,594,596,599,601,604,607,609,612,615,617,620,623,626,628,631,634,637,639,641,642,644,645,647,648,650,651,653,654,656,657,659,660,662,663,665,666,668,669,671,672,674,676,677,679,681,682,684,685,687,689,690,692,694,695,697,699,701,702,704,706,708,709,711,713,715,716,718,720,722,724,725,727,729,731,733,735,737,738,740,742,744,746,748,750,752,754,756,758,760,762,764,766,768,770,772,774,776,778,780,782,784,786,788,790,793,795,797,799,802,804,806,808,811,813,815,818,820,822,825,827,830,832,835,837,840,842,845,847,850,852,855,857,860,863,865,868,871,873,876,879,882,884,887,890,893,895,897,898,900,901,903,904,906,907,909,910,912,913,915,916,918,919,921,922,924,925,927,928,930,932,933,935,937,938,940,941,943,945,946,948,950,951,953,955,957,958,960,962,964,965,967,969,971,972,974,976,978,980,981,983,985,987,989,991,993,994,996,998,1000,1002,1004,1006,1008,1010,1012,1014,1016,1018,1020,1022,1024,1026,1028,1030,1032,1034,1036,1038,1040,1042,1044,1046,1049,1051,1053,1055,1058,1060,1062,1064,1067,1069,1071,1074,1076,1078,1081,1083,1086,1088,1091,1093,1096,1098,1101,1103,1106,1108,1111,1113,1116,1119,1121,1124,1127,1129,1132,1135,1138,1140,1143,1146,1149,1151,1153,1154,1156,1157,1159,1160,1162,1163,1165,1166,1168,1169,1171,1172,1174,1175,1177,1178,1180,1181,1183,1184,1186,1188,1189,1191,1193,1194,1196,1197,1199,1201,1202,1204,1206,1207,1209,1211,1213,1214,1216,1218,1220,1221,1223,1225,1227,1228,1230,1232,1234,1236,1237,1239,1241,1243,1245,1247,1249,1250,1252,1254,1256,1258,1260,1262,1264,1266,1268,1270,1272,1274,1276,1278,1280,1282,1284,1286,1288,1290,1292,1294,1296,1298,1300,1302,1305,1307,1309,1311,1314,1316,1318,1320,1323,1325,1327,1330,1332,1334,1337,1339,1342,1344,1347,1349,1352,1354,1357,1359,1362,1364,1367,1369,1372,1375,1377,1380,1383,1385,1388,1391,1394,1396,1399,1402,1405,1407,1409,1410,1412,1413,1415,1416,1418,1419,1421,1422,1424,1425,1427,1428,1430,1431,1433,1434,1436,1437,1439,1440,1442,1444,1445,1447,1449,1450,1452,1453,1455,1457,1458,1460,1462,1463,1465,1467,1469,1470,1472,1474,1476,1477,1479,1481,1483,1484,1486,1488,1490,1492,1493,1495,1497,1499,1501,1503,1505,1506,1508,1510,1512,1514,1516,1518,1520,1522,1524,1526,1528,1530,1532,1534,1536,1537,1538,1539,1540,1541,1542,1543,1544,1545,1546,1547,1548,1549,1550,1551,1553,1554,1555,1556,1557,1558,1559,1561,1562,1563,1564,1565,1567,1568,1569,1570,1572,1573,1574,1575,1577,1578,1579,1580,1582,1583,1584,1586,1587,1588,1590,1591,1593,1594,1595,1597,1598,1599,1600,1601,1602,1602,1603,1604,1605,1605,1606,1607,1608,1608,1609,1610,1611,1611,1612,1613,1614,1614,1615,1616,1617,1618,1618,1619,1620,1621,1622,1622,1623,1624,1625,1626,1627,1627,1628,1629,1630,1631,1632,1633,1634,1634,1635,1636,1637,1638,1639,1640,1641,1642,1642,1643,1644,1645,1646,1647,1648,1649,1650,1651,1652,1653,1654,1655,1656,1657,1658,1659,1660,1661,1662,1663,1664,1665,1666,1667,1668,1669,1670,1671,1672,1673,1674,1675,1676,1677,1678,1679,1681,1682,1683,1684,1685,1686,1687,1689,1690,1691,1692,1693,1695,1696,1697,1698,1700,1701,1702,1703,1705,1706,1707,1708,1710,1711,1712,1714,1715,1716,1718,1719,1721,1722,1723,1725,1726,1727,1728,1729,1730,1730,1731,1732,1733,1733,1734,1735,1736,1736,1737,1738,1739,1739,1740,1741,1742,1742,1743,1744,1745,1746,1746,1747,1748,1749,1750,1750,1751,1752,1753,1754,1755,1755,1756,1757,1758,1759,1760,1761,1762,1762,1763,1764,1765,1766,1767,1768,1769,1770,1770,1771,1772,1773,1774,1775,1776,1777,1778,1779,1780,1781,1782,1783,1784,1785,1786,1787,1788,1789,1790,1791,1792,1793,1794,1795,1796,1797,1798,1799,1800,1801,1802,1803,1805,1806,1807,1808,1810,1811,1812,1813,1815,1816,1817,1819,1820,1821,1823,1824,1825,1825,1826,1827,1828,1828,1829,1830,1831,1831,1832,1833,1834,1835,1835,1836,1837,1838,1839,1840,1841,1841,1842,1843,1844,1845,1846,1847,1848,1849,1850,1851,1852,1853,1854,1855,1856,1857,1858,1859,1860,1861,1862,1863,1864,1865,1866,1867,1869,1870,1871,1872,1874,1875,1876,1877,1879,1880,1881,1883,1884,1885,1887,1888,1889,1889,1890,1891,1892,1892,1893,1894,1895,1895,1896,1897,1898,1899,1899,1900,1901,1902,1903,1904,1905,1905,1906,1907,1908,1909,1910,1911,1912,1913,1914,1915,1916,1917,1918,1919,1920,1920,1921,1921,1922,1922,1923,1923,1924,1924,1925,1925,1926,1927,1927,1928,1929,1929,1930,1930,1931,1932,1932,1933,1934,1934,1935,1936,1936,1936,1937,1937,1938,1938,1938,1939,1939,1939,1940,1940,1941,1941,1941,1942,1942,1943,1943,1944,1944,1944,1945,1945,1946,1946,1947,1947,1948,1948,1949,1949,1950,1950,1951,1951,1952,1952,1953,1953,1954,1954,1955,1955,1956,1956,1957,1957,1958,1959,1959,1960,1961,1961,1962,1962,1963,1964,1964,1965,1966,1966,1967,1968,1968,1968,1969,1969,1970,1970,1970,1971,1971,1971,1972,1972,1973,1973,1973,1974,1974,1975,1975,1976,1976,1976,1977,1977,1978,1978,1979,1979,1980,1980,1981,1981,1982,1982,1983,1983,1984,1984,1985,1985,1986,1986,1987,1987,1988,1989,1989,1990,1991,1991,1992,1992,1993,1993,1993,1994,1994,1994,1995,1995,1996,1996,1997,1997,1998,1998,1999,1999,2000,2000,2001,2001,2002,2002,2003,2003,2004,2005,2005,2006,2007,2007,2008,2008,2009,2009,2009,2010,2010,2010,2011,2011,2012,2012,2013,2013,2014,2014,2015,2015,2016,2016,2016,2016,2017,2017,2017,2017,2018,2018,2018,2019,2019,2019,2020,2020,2020,2020,2020,2021,2021,2021,2021,2021,2022,2022,2022,2022,2023,2023,2023,2023,2024,2024,2024,2024,2025,2025,2025,2025,2026,2026,2026,2027,2027,2027,2028,2028,2028,2028,2028,2029,2029,2029,2029,2029,2030,2030,2030,2030,2031,2031,2031,2031,2032,2032,2032,2032,2033,2033,2033,2034,2034,2034,2034,2034,2035,2035,2035,2035,2036,2036,2036,2036,2037,2037,2037,2038,2038,2038,2038,2038,2039,2039,2039,2039,2040,2040,2040,2040,2040,2040,2040,2041,2041,2041,2041,2041,2041,2041,2041,2041,2042,2042,2042,2042,2042,2042,2042,2043,2043,2043,2043,2043,2043,2043,2043,2043,2044,2044,2044,2044,2044,2044,2044,2044,2045,2045,2045,2045,2045,2045,2045,2045,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,-2048,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2046,2045,2045,2045,2045,2045,2045,2045,2045,2044,2044,2044,2044,2044,2044,2044,2044,2043,2043,2043,2043,2043,2043,2043,2043,2043,2042,2042,2042,2042,2042,2042,2042,2041,2041,2041,2041,2041,2041,2041,2041,2041,2040,2040,2040,2040,2040,2040,2040,2039,2039,2039,2039,2038,2038,2038,2038,2038,2037,2037,2037,2036,2036,2036,2036,2035,2035,2035,2035,2034,2034,2034,2034,2034,2033,2033,2033,2032,2032,2032,2032,2031,2031,2031,2031,2030,2030,2030,2030,2029,2029,2029,2029,2029,2028,2028,2028,2028,2028,2027,2027,2027,2026,2026,2026,2025,2025,2025,2025,2024,2024,2024,2024,2023,2023,2023,2023,2022,2022,2022,2022,2021,2021,2021,2021,2021,2020,2020,2020,2020,2020,2019,2019,2019,2018,2018,2018,2017,2017,2017,2017,2016,2016,2016,2016,2015,2015,2014,2014,2013,2013,2012,2012,2011,2011,2010,2010,2010,2009,2009,2009,2008,2008,2007,2007,2006,2005,2005,2004,2003,2003,2002,2002,2001,2001,2000,2000,1999,1999,1998,1998,1997,1997,1996,1996,1995,1995,1994,1994,1994,1993,1993,1993,1992,1992,1991,1991,1990,1989,1989,1988,1987,1987,1986,1986,1985,1985,1984,1984,1983,1983,1982,1982,1981,1981,1980,1980,1979,1979,1978,1978,1977,1977,1976,1976,1976,1975,1975,1974,1974,1973,1973,1973,1972,1972,1971,1971,1971,1970,1970,1970,1969,1969,1968,1968,1968,1967,1966,1966,1965,1964,1964,1963,1962,1962,1961,1961,1960,1959,1959,1958,1957,1957,1956,1956,1955,1955,1954,1954,1953,1953,1952,1952,1951,1951,1950,1950,1949,1949,1948,1948,1947,1947,1946,1946,1945,1945,1944,1944,1944,1943,1943,1942,1942,1941,1941,1941,1940,1940,1939,1939,1939,1938,1938,1938,1937,1937,1936,1936,1936,1935,1934,1934,1933,1932,1932,1931,1930,1930,1929,1929,1928,1927,1927,1926,1925,1925,1924,1924,1923,1923,1922,1922,1921,1921,1920,1920,1919,1918,1917,1916,1915,1914,1913,1912,1911,1910,1909,1908,1907,1906,1905,1905,1904,1903,1902,1901,1900,1899,1899,1898,1897,1896,1895,1895,1894,1893,1892,1892,1891,1890,1889,1889,1888,1887,1885,1884,1883,1881,1880,1879,1877,1876,1875,1874,1872,1871,1870,1869,1867,1866,1865,1864,1863,1862,1861,1860,1859,1858,1857,1856,1855,1854,1853,1852,1851,1850,1849,1848,1847,1846,1845,1844,1843,1842,1841,1841,1840,1839,1838,1837,1836,1835,1835,1834,1833,1832,1831,1831,1830,1829,1828,1828,1827,1826,1825,1825,1824,1823,1821,1820,1819,1817,1816,1815,1813,1812,1811,1810,1808,1807,1806,1805,1803,1802,1801,1800,1799,1798,1797,1796,1795,1794,1793,1792,1791,1790,1789,1788,1787,1786,1785,1784,1783,1782,1781,1780,1779,1778,1777,1776,1775,1774,1773,1772,1771,1770,1770,1769,1768,1767,1766,1765,1764,1763,1762,1762,1761,1760,1759,1758,1757,1756,1755,1755,1754,1753,1752,1751,1750,1750,1749,1748,1747,1746,1746,1745,1744,1743,1742,1742,1741,1740,1739,1739,1738,1737,1736,1736,1735,1734,1733,1733,1732,1731,1730,1730,1729,1728,1727,1726,1725,1723,1722,1721,1719,1718,1716,1715,1714,1712,1711,1710,1708,1707,1706,1705,1703,1702,1701,1700,1698,1697,1696,1695,1693,1692,1691,1690,1689,1687,1686,1685,1684,1683,1682,1681,1679,1678,1677,1676,1675,1674,1673,1672,1671,1670,1669,1668,1667,1666,1665,1664,1663,1662,1661,1660,1659,1658,1657,1656,1655,1654,1653,1652,1651,1650,1649,1648,1647,1646,1645,1644,1643,1642,1642,1641,1640,1639,1638,1637,1636,1635,1634,1634,1633,1632,1631,1630,1629,1628,1627,1627,1626,1625,1624,1623,1622,1622,1621,1620,1619,1618,1618,1617,1616,1615,1614,1614,1613,1612,1611,1611,1610,1609,1608,1608,1607,1606,1605,1605,1604,1603,1602,1602,1601,1600,1599,1598,1597,1595,1594,1593,1591,1590,1588,1587,1586,1584,1583,1582,1580,1579,1578,1577,1575,1574,1573,1572,1570,1569,1568,1567,1565,1564,1563,1562,1561,1559,1558,1557,1556,1555,1554,1553,1551,1550,1549,1548,1547,1546,1545,1544,1543,1542,1541,1540,1539,1538,1537,1536,1534,1532,1530,1528,1526,1524,1522,1520,1518,1516,1514,1512,1510,1508,1506,1505,1503,1501,1499,1497,1495,1493,1492,1490,1488,1486,1484,1483,1481,1479,1477,1476,1474,1472,1470,1469,1467,1465,1463,1462,1460,1458,1457,1455,1453,1452,1450,1449,1447,1445,1444,1442,1440,1439,1437,1436,1434,1433,1431,1430,1428,1427,1425,1424,1422,1421,1419,1418,1416,1415,1413,1412,1410,1409,1407,1405,1402,1399,1396,1394,1391,1388,1385,1383,1380,1377,1375,1372,1369,1367,1364,1362,1359,1357,1354,1352,1349,1347,1344,1342,1339,1337,1334,1332,1330,1327,1325,1323,1320,1318,1316,1314,1311,1309,1307,1305,1302,1300,1298,1296,1294,1292,1290,1288,1286,1284,1282,1280,1278,1276,1274,1272,1270,1268,1266,1264,1262,1260,1258,1256,1254,1252,1250,1249,1247,1245,1243,1241,1239,1237,1236,1234,1232,1230,1228,1227,1225,1223,1221,1220,1218,1216,1214,1213,1211,1209,1207,1206,1204,1202,1201,1199,1197,1196,1194,1193,1191,1189,1188,1186,1184,1183,1181,1180,1178,1177,1175,1174,1172,1171,1169,1168,1166,1165,1163,1162,1160,1159,1157,1156,1154,1153,1151,1149,1146,1143,1140,1138,1135,1132,1129,1127,1124,1121,1119,1116,1113,1111,1108,1106,1103,1101,1098,1096,1093,1091,1088,1086,1083,1081,1078,1076,1074,1071,1069,1067,1064,1062,1060,1058,1055,1053,1051,1049,1046,1044,1042,1040,1038,1036,1034,1032,1030,1028,1026,1024,1022,1020,1018,1016,1014,1012,1010,1008,1006,1004,1002,1000,998,996,994,993,991,989,987,985,983,981,980,978,976,974,972,971,969,967,965,964,962,960,958,957,955,953,951,950,948,946,945,943,941,940,938,937,935,933,932,930,928,927,925,924,922,921,919,918,916,915,913,912,910,909,907,906,904,903,901,900,898,897,895,893,890,887,884,882,879,876,873,871,868,865,863,860,857,855,852,850,847,845,842,840,837,835,832,830,827,825,822,820,818,815,813,811,808,806,804,802,799,797,795,793,790,788,786,784,782,780,778,776,774,772,770,768,766,764,762,760,758,756,754,752,750,748,746,744,742,740,738,737,735,733,731,729,727,725,724,722,720,718,716,715,713,711,709,708,706,704,702,701,699,697,695,694,692,690,689,687,685,684,682,681,679,677,676,674,672,671,669,668,666,665,663,662,660,659,657,656,654,653,651,650,648,647,645,644,642,641,639,637,634,631,628,626,623,620,617,615,612,609,607,604,601,599,596,594,591,589,586,584,581,579,576,574,571,569,566,564,562,559,557,555,552,550,548,546,543,541,539,537,534,532,530,528,526,524,522,520,518,516,514,512,511,510,509,508,507,506,505,504,503,502,501,500,499,498,497,496,495,494,493,492,491,490,490,489,488,487,486,485,484,483,482,482,481,480,479,478,477,476,475,475,474,473,472,471,470,470,469,468,467,466,466,465,464,463,462,462,461,460,459,459,458,457,456,456,455,454,453,453,452,451,450,450,449,448,447,446,445,443,442,441,439,438,436,435,434,432,431,430,428,427,426,425,423,422,421,420,418,417,416,415,413,412,411,410,409,407,406,405,404,403,402,401,399,398,397,396,395,394,393,392,391,390,389,388,387,386,385,384,383,382,381,380,379,378,377,376,375,374,373,372,371,370,369,368,367,366,365,364,363,362,362,361,360,359,358,357,356,355,354,354,353,352,351,350,349,348,347,347,346,345,344,343,342,342,341,340,339,338,338,337,336,335,334,334,333,332,331,331,330,329,328,328,327,326,325,325,324,323,322,322,321,320,319,318,317,315,314,313,311,310,308,307,306,304,303,302,300,299,298,297,295,294,293,292,290,289,288,287,285,284,283,282,281,279,278,277,276,275,274,273,271,270,269,268,267,266,265,264,263,262,261,260,259,258,257,256,255,254,253,252,251,250,249,248,247,246,245,244,243,242,241,241,240,239,238,237,236,235,235,234,233,232,231,231,230,229,228,228,227,226,225,225,224,223,221,220,219,217,216,215,213,212,211,210,208,207,206,205,203,202,201,200,199,198,197,196,195,194,193,192,191,190,189,188,187,186,185,184,183,182,181,180,179,178,177,177,176,175,174,173,172,171,171,170,169,168,167,167,166,165,164,164,163,162,161,161,160,159,157,156,155,153,152,151,149,148,147,146,144,143,142,141,139,138,137,136,135,134,133,132,131,130,129,128,127,127,126,126,125,125,124,124,123,123,122,122,121,121,120,120,120,119,119,118,118,117,117,117,116,116,115,115,115,114,114,114,113,113,112,112,112,111,110,110,109,108,108,107,106,106,105,105,104,103,103,102,101,101,100,100,99,99,98,98,97,97,96,96,95,95,94,94,93,93,92,92,91,91,90,90,89,89,88,88,88,87,87,86,86,85,85,85,84,84,83,83,83,82,82,82,81,81,80,80,80,79,78,78,77,76,76,75,74,74,73,73,72,71,71,70,69,69,68,68,67,67,66,66,65,65,64,64,63,63,62,62,61,61,60,60,59,59,58,58,58,57,57,57,56,56,55,55,54,53,53,52,51,51,50,50,49,49,48,48,47,47,46,46,45,45,44,44,43,43,42,42,42,41,41,41,40,40,39,39,38,37,37,36,35,35,34,34,33,33,32,32,31,31,31,31,30,30,30,30,29,29,29,29,29,28,28,28,28,28,27,27,27,26,26,26,25,25,25,25,24,24,24,24,23,23,23,23,22,22,22,22,21,21,21,21,21,20,20,20,20,20,19,19,19,18,18,18,17,17,17,17,16,16,16,16,15,15,15,15,14,14,14,14,14,13,13,13,12,12,12,12,11,11,11,11,10,10,10,10,10,9,9,9,8,8,8,8,7,7,7,7,7,7,7,7,7,6,6,6,6,6,6,6,5,5,5,5,5,5,5,5,5,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,}; 
 int16_t opexp2[] = {
-1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1036,1036,1036,1036,1036,1036,1036,1036,1036,1036,1037,1037,1037,1037,1037,1037,1037,1037,1037,1037,1037,1038,1038,1038,1038,1038,1038,1038,1038,1038,1038,1039,1039,1039,1039,1039,1039,1039,1039,1039,1039,1039,1040,1040,1040,1040,1040,1040,1040,1040,1040,1040,1041,1041,1041,1041,1041,1041,1041,1041,1041,1041,1042,1042,1042,1042,1042,1042,1042,1042,1042,1042,1043,1043,1043,1043,1043,1043,1043,1043,1043,1043,1044,1044,1044,1044,1044,1044,1044,1044,1044,1044,1045,1045,1045,1045,1045,1045,1045,1045,1045,1045,1046,1046,1046,1046,1046,1046,1046,1046,1046,1046,1047,1047,1047,1047,1047,1047,1047,1047,1047,1048,1048,1048,1048,1048,1048,1049,1049,1049,1049,1049,1050,1050,1050,1050,1050,1051,1051,1051,1051,1051,1052,1052,1052,1052,1053,1053,1053,1053,1053,1054,1054,1054,1054,1054,1055,1055,1055,1055,1056,1056,1056,1056,1056,1057,1057,1057,1057,1057,1058,1058,1058,1058,1059,1059,1059,1059,1059,1060,1060,1060,1060,1061,1061,1061,1061,1061,1062,1062,1062,1062,1063,1063,1063,1063,1064,1064,1064,1064,1064,1065,1065,1065,1065,1066,1066,1066,1066,1067,1067,1067,1067,1067,1068,1068,1068,1068,1069,1069,1069,1069,1070,1070,1070,1070,1070,1071,1071,1071,1071,1072,1072,1072,1072,1073,1073,1073,1073,1074,1074,1074,1074,1075,1075,1075,1075,1076,1076,1076,1076,1077,1077,1078,1078,1078,1079,1079,1080,1080,1081,1081,1082,1082,1083,1084,1084,1085,1085,1086,1086,1087,1087,1088,1088,1089,1089,1090,1090,1091,1091,1092,1092,1093,1093,1094,1095,1095,1096,1096,1097,1097,1098,1098,1099,1099,1100,1101,1101,1102,1102,1103,1103,1104,1104,1105,1106,1106,1107,1107,1108,1108,1109,1110,1110,1111,1111,1112,1113,1113,1114,1114,1115,1115,1116,1117,1117,1118,1118,1119,1120,1120,1121,1122,1122,1123,1123,1124,1125,1125,1126,1126,1127,1128,1128,1129,1130,1130,1131,1132,1132,1133,1133,1134,1135,1135,1136,1137,1137,1138,1139,1139,1140,1141,1141,1142,1143,1143,1144,1145,1145,1146,1147,1147,1148,1149,1149,1150,1151,1152,1152,1153,1154,1154,1155,1156,1156,1157,1158,1159,1159,1160,1161,1162,1162,1163,1164,1165,1165,1166,1167,1168,1168,1169,1170,1171,1172,1172,1173,1174,1175,1176,1177,1177,1178,1179,1180,1181,1182,1182,1183,1184,1185,1186,1187,1188,1189,1189,1190,1191,1192,1193,1194,1195,1196,1197,1198,1199,1200,1201,1202,1203,1204,1205,1206,1206,1207,1208,1209,1210,1212,1213,1214,1215,1216,1217,1218,1219,1220,1221,1222,1223,1224,1225,1226,1227,1229,1230,1231,1232,1233,1234,1235,1236,1238,1239,1240,1241,1242,1243,1245,1246,1247,1248,1250,1251,1252,1253,1254,1256,1257,1258,1260,1261,1262,1263,1265,1266,1267,1269,1270,1271,1273,1274,1275,1277,1278,1280,1281,1282,1284,1285,1287,1288,1290,1291,1293,1294,1296,1297,1299,1300,1302,1304,1305,1307,1309,1310,1312,1314,1316,1317,1319,1321,1323,1325,1327,1329,1331,1333,1334,1336,1338,1341,1343,1345,1347,1349,1351,1353,1355,1358,1360,1362,1364,1367,1369,1371,1374,1376,1379,1381,1384,1386,1389,1391,1394,1397,1399,1402,1405,1408,1409,1410,1412,1413,1415,1416,1418,1419,1421,1422,1424,1425,1427,1428,1430,1432,1433,1435,1437,1438,1440,1442,1444,1445,1447,1449,1451,1453,1455,1457,1459,1461,1462,1464,1466,1469,1471,1473,1475,1477,1479,1481,1483,1486,1488,1490,1492,1495,1497,1499,1502,1504,1507,1509,1512,1514,1517,1519,1522,1525,1527,1530,1533,1536,1537,1538,1540,1541,1543,1544,1546,1548,1549,1551,1553,1554,1556,1558,1560,1562,1564,1566,1568,1570,1572,1575,1577,1579,1581,1584,1586,1589,1591,1594,1597,1600,1601,1602,1604,1605,1607,1608,1610,1612,1613,1615,1617,1618,1620,1622,1624,1626,1628,1630,1632,1634,1636,1639,1641,1643,1645,1648,1650,1653,1655,1658,1661,1664,1665,1666,1668,1669,1671,1672,1674,1676,1677,1679,1681,1682,1684,1686,1688,1690,1692,1694,1696,1698,1700,1703,1705,1707,1709,1712,1714,1717,1719,1722,1725,1728,1729,1730,1732,1733,1735,1736,1738,1740,1741,1743,1745,1746,1748,1750,1752,1754,1756,1758,1760,1762,1764,1767,1769,1771,1773,1776,1778,1781,1783,1786,1789,1792,1793,1794,1796,1798,1799,1801,1803,1805,1807,1809,1811,1813,1816,1818,1821,1824,1825,1826,1828,1830,1831,1833,1835,1837,1839,1841,1843,1845,1848,1850,1853,1856,1857,1858,1860,1862,1863,1865,1867,1869,1871,1873,1875,1877,1880,1882,1885,1888,1889,1890,1892,1894,1895,1897,1899,1901,1903,1905,1907,1909,1912,1914,1917,1920,1920,1921,1922,1923,1923,1924,1925,1926,1927,1928,1929,1930,1932,1933,1934,1936,1936,1937,1938,1939,1939,1940,1941,1942,1943,1944,1945,1946,1948,1949,1950,1952,1952,1953,1954,1955,1955,1956,1957,1958,1959,1960,1961,1962,1964,1965,1966,1968,1968,1969,1970,1971,1971,1972,1973,1974,1975,1976,1977,1978,1980,1981,1982,1984,1985,1987,1989,1992,1993,1995,1997,2000,2001,2003,2005,2008,2009,2011,2013,2016,2016,2017,2018,2020,2020,2021,2022,2024,2024,2025,2026,2028,2028,2029,2030,2032,2032,2032,2033,2034,2034,2034,2035,2036,2036,2036,2037,2038,2038,2038,2039,2040,2040,2040,2040,2041,2041,2041,2041,2042,2042,2042,2042,2043,2043,2043,2043,2044,2044,2044,2044,2045,2045,2045,2045,2046,2046,2046,2046,2046,2046,2046,2046,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,6,6,6,6,7,7,7,7,8,8,8,9,10,10,10,11,12,12,12,13,14,14,14,15,16,16,17,18,20,20,21,22,24,24,25,26,28,28,29,30,32,33,35,37,40,41,43,45,48,49,51,53,56,57,59,61,64,64,65,66,67,67,68,69,70,71,72,73,74,76,77,78,80,80,81,82,83,83,84,85,86,87,88,89,90,92,93,94,96,96,97,98,99,99,100,101,102,103,104,105,106,108,109,110,112,112,113,114,115,115,116,117,118,119,120,121,122,124,125,126,128,129,130,132,134,135,137,139,141,143,145,147,149,152,154,157,160,161,162,164,166,167,169,171,173,175,177,179,181,184,186,189,192,193,194,196,198,199,201,203,205,207,209,211,213,216,218,221,224,225,226,228,230,231,233,235,237,239,241,243,245,248,250,253,256,257,258,260,261,263,264,266,268,269,271,273,274,276,278,280,282,284,286,288,290,292,295,297,299,301,304,306,309,311,314,317,320,321,322,324,325,327,328,330,332,333,335,337,338,340,342,344,346,348,350,352,354,356,359,361,363,365,368,370,373,375,378,381,384,385,386,388,389,391,392,394,396,397,399,401,402,404,406,408,410,412,414,416,418,420,423,425,427,429,432,434,437,439,442,445,448,449,450,452,453,455,456,458,460,461,463,465,466,468,470,472,474,476,478,480,482,484,487,489,491,493,496,498,501,503,506,509,512,513,514,516,517,519,520,522,523,525,526,528,529,531,532,534,536,537,539,541,542,544,546,548,549,551,553,555,557,559,561,563,565,566,568,570,573,575,577,579,581,583,585,587,590,592,594,596,599,601,603,606,608,611,613,616,618,621,623,626,629,631,634,637,640,641,642,644,645,647,648,650,651,653,654,656,657,659,660,662,664,665,667,669,670,672,674,676,677,679,681,683,685,687,689,691,693,694,696,698,701,703,705,707,709,711,713,715,718,720,722,724,727,729,731,734,736,739,741,744,746,749,751,754,757,759,762,765,768,768,769,770,770,771,772,772,773,774,775,775,776,777,778,778,779,780,781,781,782,783,784,784,785,786,787,788,788,789,790,791,792,793,793,794,795,796,797,798,798,799,800,801,802,803,804,805,805,806,807,808,809,810,811,812,813,814,815,816,817,818,819,820,821,822,822,823,824,825,826,828,829,830,831,832,833,834,835,836,837,838,839,840,841,842,843,845,846,847,848,849,850,851,852,854,855,856,857,858,859,861,862,863,864,866,867,868,869,870,872,873,874,876,877,878,879,881,882,883,885,886,887,889,890,891,893,894,896,896,896,897,897,897,898,898,898,899,899,899,900,900,900,901,901,902,902,902,903,903,903,904,904,904,905,905,906,906,906,907,907,907,908,908,909,909,909,910,910,911,911,911,912,912,912,913,913,914,914,914,915,915,916,916,916,917,917,918,918,918,919,919,920,920,921,921,921,922,922,923,923,923,924,924,925,925,926,926,926,927,927,928,928,929,929,929,930,930,931,931,932,932,933,933,933,934,934,935,935,936,936,937,937,938,938,939,939,939,940,940,941,941,942,942,943,943,944,944,945,945,946,946,947,947,948,948,949,949,949,949,950,950,950,950,950,951,951,951,951,952,952,952,952,953,953,953,953,954,954,954,954,955,955,955,956,956,956,956,957,957,957,957,958,958,958,958,959,959,959,959,960,960,960,960,961,961,961,961,962,962,962,963,963,963,963,964,964,964,964,965,965,965,965,966,966,966,967,967,967,967,968,968,968,968,969,969,969,969,970,970,970,971,971,971,971,972,972,972,973,973,973,973,974,974,974,974,975,975,975,976,976,976,976,977,977,977,978,978,978,978,979,979,979,980,980,980,980,981,981,981,982,982,982,982,983,983,983,983,983,983,984,984,984,984,984,984,985,985,985,985,985,985,985,986,986,986,986,986,986,986,987,987,987,987,987,987,987,988,988,988,988,988,988,989,989,989,989,989,989,989,990,990,990,990,990,990,990,991,991,991,991,991,991,992,992,992,992,992,992,992,993,993,993,993,993,993,994,994,994,994,994,994,994,995,995,995,995,995,995,996,996,996,996,996,996,996,997,997,997,997,997,997,998,998,998,998,998,998,998,999,999,999,999,999,999,1000,1000,1000,1000,1000,1000,1001,1001,1001,1001,1001,1001,1001,1002,1002,1002,1002,1002,1002,1002,1002,1003,1003,1003,1003,1003,1003,1003,1003,1003,1003,1003,1003,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1005,1005,1005,1005,1005,1005,1005,1005,1005,1005,1005,1005,1006,1006,1006,1006,1006,1006,1006,1006,1006,1006,1006,1006,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1008,1008,1008,1008,1008,1008,1008,1008,1008,1008,1008,1008,1009,1009,1009,1009,1009,1009,1009,1009,1009,1009,1009,1009,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1011,1011,1011,1011,1011,1011,1011,1011,1011,1011,1011,1011,1012,1012,1012,1012,1012,1012,1012,1012,1012,1012,1012,1012,1013,1013,1013,1013,1013,1013,1013,1013,1013,1013,1013,1013,1014,1014,1014,1014,1014,1014,1014,1014,1014,1014,1014,1014,1015,1015,1015,1015,1015,1015,1015,1015,1015,1015,1015,1015,1016,1016,1016,1016,1016,1016,1016,1016,1016,1016,1016,1016,1017,1017,1017,1017,1017,1017,1017,1017,1017,1017,1017,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,}; 
+1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1025,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1026,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1027,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1028,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1029,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1030,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1031,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1032,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1033,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1034,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1035,1036,1036,1036,1036,1036,1036,1036,1036,1036,1036,1037,1037,1037,1037,1037,1037,1037,1037,1037,1037,1037,1038,1038,1038,1038,1038,1038,1038,1038,1038,1038,1039,1039,1039,1039,1039,1039,1039,1039,1039,1039,1039,1040,1040,1040,1040,1040,1040,1040,1040,1040,1040,1041,1041,1041,1041,1041,1041,1041,1041,1041,1041,1042,1042,1042,1042,1042,1042,1042,1042,1042,1042,1043,1043,1043,1043,1043,1043,1043,1043,1043,1043,1044,1044,1044,1044,1044,1044,1044,1044,1044,1044,1045,1045,1045,1045,1045,1045,1045,1045,1045,1045,1046,1046,1046,1046,1046,1046,1046,1046,1046,1046,1047,1047,1047,1047,1047,1047,1047,1047,1047,1048,1048,1048,1048,1048,1048,1049,1049,1049,1049,1049,1050,1050,1050,1050,1050,1051,1051,1051,1051,1051,1052,1052,1052,1052,1053,1053,1053,1053,1053,1054,1054,1054,1054,1054,1055,1055,1055,1055,1056,1056,1056,1056,1056,1057,1057,1057,1057,1057,1058,1058,1058,1058,1059,1059,1059,1059,1059,1060,1060,1060,1060,1061,1061,1061,1061,1061,1062,1062,1062,1062,1063,1063,1063,1063,1064,1064,1064,1064,1064,1065,1065,1065,1065,1066,1066,1066,1066,1067,1067,1067,1067,1067,1068,1068,1068,1068,1069,1069,1069,1069,1070,1070,1070,1070,1070,1071,1071,1071,1071,1072,1072,1072,1072,1073,1073,1073,1073,1074,1074,1074,1074,1075,1075,1075,1075,1076,1076,1076,1076,1077,1077,1078,1078,1078,1079,1079,1080,1080,1081,1081,1082,1082,1083,1084,1084,1085,1085,1086,1086,1087,1087,1088,1088,1089,1089,1090,1090,1091,1091,1092,1092,1093,1093,1094,1095,1095,1096,1096,1097,1097,1098,1098,1099,1099,1100,1101,1101,1102,1102,1103,1103,1104,1104,1105,1106,1106,1107,1107,1108,1108,1109,1110,1110,1111,1111,1112,1113,1113,1114,1114,1115,1115,1116,1117,1117,1118,1118,1119,1120,1120,1121,1122,1122,1123,1123,1124,1125,1125,1126,1126,1127,1128,1128,1129,1130,1130,1131,1132,1132,1133,1133,1134,1135,1135,1136,1137,1137,1138,1139,1139,1140,1141,1141,1142,1143,1143,1144,1145,1145,1146,1147,1147,1148,1149,1149,1150,1151,1152,1152,1153,1154,1154,1155,1156,1156,1157,1158,1159,1159,1160,1161,1162,1162,1163,1164,1165,1165,1166,1167,1168,1168,1169,1170,1171,1172,1172,1173,1174,1175,1176,1177,1177,1178,1179,1180,1181,1182,1182,1183,1184,1185,1186,1187,1188,1189,1189,1190,1191,1192,1193,1194,1195,1196,1197,1198,1199,1200,1201,1202,1203,1204,1205,1206,1206,1207,1208,1209,1210,1212,1213,1214,1215,1216,1217,1218,1219,1220,1221,1222,1223,1224,1225,1226,1227,1229,1230,1231,1232,1233,1234,1235,1236,1238,1239,1240,1241,1242,1243,1245,1246,1247,1248,1250,1251,1252,1253,1254,1256,1257,1258,1260,1261,1262,1263,1265,1266,1267,1269,1270,1271,1273,1274,1275,1277,1278,1280,1281,1282,1284,1285,1287,1288,1290,1291,1293,1294,1296,1297,1299,1300,1302,1304,1305,1307,1309,1310,1312,1314,1316,1317,1319,1321,1323,1325,1327,1329,1331,1333,1334,1336,1338,1341,1343,1345,1347,1349,1351,1353,1355,1358,1360,1362,1364,1367,1369,1371,1374,1376,1379,1381,1384,1386,1389,1391,1394,1397,1399,1402,1405,1408,1409,1410,1412,1413,1415,1416,1418,1419,1421,1422,1424,1425,1427,1428,1430,1432,1433,1435,1437,1438,1440,1442,1444,1445,1447,1449,1451,1453,1455,1457,1459,1461,1462,1464,1466,1469,1471,1473,1475,1477,1479,1481,1483,1486,1488,1490,1492,1495,1497,1499,1502,1504,1507,1509,1512,1514,1517,1519,1522,1525,1527,1530,1533,1536,1537,1538,1540,1541,1543,1544,1546,1548,1549,1551,1553,1554,1556,1558,1560,1562,1564,1566,1568,1570,1572,1575,1577,1579,1581,1584,1586,1589,1591,1594,1597,1600,1601,1602,1604,1605,1607,1608,1610,1612,1613,1615,1617,1618,1620,1622,1624,1626,1628,1630,1632,1634,1636,1639,1641,1643,1645,1648,1650,1653,1655,1658,1661,1664,1665,1666,1668,1669,1671,1672,1674,1676,1677,1679,1681,1682,1684,1686,1688,1690,1692,1694,1696,1698,1700,1703,1705,1707,1709,1712,1714,1717,1719,1722,1725,1728,1729,1730,1732,1733,1735,1736,1738,1740,1741,1743,1745,1746,1748,1750,1752,1754,1756,1758,1760,1762,1764,1767,1769,1771,1773,1776,1778,1781,1783,1786,1789,1792,1793,1794,1796,1798,1799,1801,1803,1805,1807,1809,1811,1813,1816,1818,1821,1824,1825,1826,1828,1830,1831,1833,1835,1837,1839,1841,1843,1845,1848,1850,1853,1856,1857,1858,1860,1862,1863,1865,1867,1869,1871,1873,1875,1877,1880,1882,1885,1888,1889,1890,1892,1894,1895,1897,1899,1901,1903,1905,1907,1909,1912,1914,1917,1920,1920,1921,1922,1923,1923,1924,1925,1926,1927,1928,1929,1930,1932,1933,1934,1936,1936,1937,1938,1939,1939,1940,1941,1942,1943,1944,1945,1946,1948,1949,1950,1952,1952,1953,1954,1955,1955,1956,1957,1958,1959,1960,1961,1962,1964,1965,1966,1968,1968,1969,1970,1971,1971,1972,1973,1974,1975,1976,1977,1978,1980,1981,1982,1984,1985,1987,1989,1992,1993,1995,1997,2000,2001,2003,2005,2008,2009,2011,2013,2016,2016,2017,2018,2020,2020,2021,2022,2024,2024,2025,2026,2028,2028,2029,2030,2032,2032,2032,2033,2034,2034,2034,2035,2036,2036,2036,2037,2038,2038,2038,2039,2040,2040,2040,2040,2041,2041,2041,2041,2042,2042,2042,2042,2043,2043,2043,2043,2044,2044,2044,2044,2045,2045,2045,2045,2046,2046,2046,2046,2046,2046,2046,2046,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,2047,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,-2048,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,6,6,6,6,7,7,7,7,8,8,8,9,10,10,10,11,12,12,12,13,14,14,14,15,16,16,17,18,20,20,21,22,24,24,25,26,28,28,29,30,32,33,35,37,40,41,43,45,48,49,51,53,56,57,59,61,64,64,65,66,67,67,68,69,70,71,72,73,74,76,77,78,80,80,81,82,83,83,84,85,86,87,88,89,90,92,93,94,96,96,97,98,99,99,100,101,102,103,104,105,106,108,109,110,112,112,113,114,115,115,116,117,118,119,120,121,122,124,125,126,128,129,130,132,134,135,137,139,141,143,145,147,149,152,154,157,160,161,162,164,166,167,169,171,173,175,177,179,181,184,186,189,192,193,194,196,198,199,201,203,205,207,209,211,213,216,218,221,224,225,226,228,230,231,233,235,237,239,241,243,245,248,250,253,256,257,258,260,261,263,264,266,268,269,271,273,274,276,278,280,282,284,286,288,290,292,295,297,299,301,304,306,309,311,314,317,320,321,322,324,325,327,328,330,332,333,335,337,338,340,342,344,346,348,350,352,354,356,359,361,363,365,368,370,373,375,378,381,384,385,386,388,389,391,392,394,396,397,399,401,402,404,406,408,410,412,414,416,418,420,423,425,427,429,432,434,437,439,442,445,448,449,450,452,453,455,456,458,460,461,463,465,466,468,470,472,474,476,478,480,482,484,487,489,491,493,496,498,501,503,506,509,512,513,514,516,517,519,520,522,523,525,526,528,529,531,532,534,536,537,539,541,542,544,546,548,549,551,553,555,557,559,561,563,565,566,568,570,573,575,577,579,581,583,585,587,590,592,594,596,599,601,603,606,608,611,613,616,618,621,623,626,629,631,634,637,640,641,642,644,645,647,648,650,651,653,654,656,657,659,660,662,664,665,667,669,670,672,674,676,677,679,681,683,685,687,689,691,693,694,696,698,701,703,705,707,709,711,713,715,718,720,722,724,727,729,731,734,736,739,741,744,746,749,751,754,757,759,762,765,768,768,769,770,770,771,772,772,773,774,775,775,776,777,778,778,779,780,781,781,782,783,784,784,785,786,787,788,788,789,790,791,792,793,793,794,795,796,797,798,798,799,800,801,802,803,804,805,805,806,807,808,809,810,811,812,813,814,815,816,817,818,819,820,821,822,822,823,824,825,826,828,829,830,831,832,833,834,835,836,837,838,839,840,841,842,843,845,846,847,848,849,850,851,852,854,855,856,857,858,859,861,862,863,864,866,867,868,869,870,872,873,874,876,877,878,879,881,882,883,885,886,887,889,890,891,893,894,896,896,896,897,897,897,898,898,898,899,899,899,900,900,900,901,901,902,902,902,903,903,903,904,904,904,905,905,906,906,906,907,907,907,908,908,909,909,909,910,910,911,911,911,912,912,912,913,913,914,914,914,915,915,916,916,916,917,917,918,918,918,919,919,920,920,921,921,921,922,922,923,923,923,924,924,925,925,926,926,926,927,927,928,928,929,929,929,930,930,931,931,932,932,933,933,933,934,934,935,935,936,936,937,937,938,938,939,939,939,940,940,941,941,942,942,943,943,944,944,945,945,946,946,947,947,948,948,949,949,949,949,950,950,950,950,950,951,951,951,951,952,952,952,952,953,953,953,953,954,954,954,954,955,955,955,956,956,956,956,957,957,957,957,958,958,958,958,959,959,959,959,960,960,960,960,961,961,961,961,962,962,962,963,963,963,963,964,964,964,964,965,965,965,965,966,966,966,967,967,967,967,968,968,968,968,969,969,969,969,970,970,970,971,971,971,971,972,972,972,973,973,973,973,974,974,974,974,975,975,975,976,976,976,976,977,977,977,978,978,978,978,979,979,979,980,980,980,980,981,981,981,982,982,982,982,983,983,983,983,983,983,984,984,984,984,984,984,985,985,985,985,985,985,985,986,986,986,986,986,986,986,987,987,987,987,987,987,987,988,988,988,988,988,988,989,989,989,989,989,989,989,990,990,990,990,990,990,990,991,991,991,991,991,991,992,992,992,992,992,992,992,993,993,993,993,993,993,994,994,994,994,994,994,994,995,995,995,995,995,995,996,996,996,996,996,996,996,997,997,997,997,997,997,998,998,998,998,998,998,998,999,999,999,999,999,999,1000,1000,1000,1000,1000,1000,1001,1001,1001,1001,1001,1001,1001,1002,1002,1002,1002,1002,1002,1002,1002,1003,1003,1003,1003,1003,1003,1003,1003,1003,1003,1003,1003,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1004,1005,1005,1005,1005,1005,1005,1005,1005,1005,1005,1005,1005,1006,1006,1006,1006,1006,1006,1006,1006,1006,1006,1006,1006,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1007,1008,1008,1008,1008,1008,1008,1008,1008,1008,1008,1008,1008,1009,1009,1009,1009,1009,1009,1009,1009,1009,1009,1009,1009,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1010,1011,1011,1011,1011,1011,1011,1011,1011,1011,1011,1011,1011,1012,1012,1012,1012,1012,1012,1012,1012,1012,1012,1012,1012,1013,1013,1013,1013,1013,1013,1013,1013,1013,1013,1013,1013,1014,1014,1014,1014,1014,1014,1014,1014,1014,1014,1014,1014,1015,1015,1015,1015,1015,1015,1015,1015,1015,1015,1015,1015,1016,1016,1016,1016,1016,1016,1016,1016,1016,1016,1016,1016,1017,1017,1017,1017,1017,1017,1017,1017,1017,1017,1017,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1018,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1019,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1020,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1021,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1022,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1023,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,1024,}; 
 uint32_t op2float[] = {
 0,729808896,763363328,780140544,796917760,805306368,813694976,822083584,830472192,834666496,838860800,843055104,847249408,851443712,855638016,859832320,864026624,866123776,868220928,870318080,872415232,874512384,876609536,878706688,880803840,882900992,884998144,887095296,889192448,891289600,893386752,895483904,897581056,898629632,899678208,900726784,901775360,902823936,903872512,904921088,905969664,907018240,908066816,909115392,910163968,911212544,912261120,913309696,914358272,915406848,916455424,917504000,918552576,919601152,920649728,921698304,922746880,923795456,924844032,925892608,926941184,927989760,929038336,930086912,931135488,931659776,932184064,932708352,933232640,933756928,934281216,934805504,935329792,935854080,936378368,936902656,937426944,937951232,938475520,938999808,939524096,940048384,940572672,941096960,941621248,942145536,942669824,943194112,943718400,944242688,944766976,945291264,945815552,946339840,946864128,947388416,947912704,948436992,948961280,949485568,950009856,950534144,951058432,951582720,952107008,952631296,953155584,953679872,954204160,954728448,955252736,955777024,956301312,956825600,957349888,957874176,958398464,958922752,959447040,959971328,960495616,961019904,961544192,962068480,962592768,963117056,963641344,964165632,964689920,964952064,965214208,965476352,965738496,966000640,966262784,966524928,966787072,967049216,967311360,967573504,967835648,968097792,968359936,968622080,968884224,969146368,969408512,969670656,969932800,970194944,970457088,970719232,970981376,971243520,971505664,971767808,972029952,972292096,972554240,972816384,973078528,973340672,973602816,973864960,974127104,974389248,974651392,974913536,975175680,975437824,975699968,975962112,976224256,976486400,976748544,977010688,977272832,977534976,977797120,978059264,978321408,978583552,978845696,979107840,979369984,979632128,979894272,980156416,980418560,980680704,980942848,981204992,981467136,981729280,981991424,982253568,982515712,982777856,983040000,983302144,983564288,983826432,984088576,984350720,984612864,984875008,985137152,985399296,985661440,985923584,986185728,986447872,986710016,986972160,987234304,987496448,987758592,988020736,988282880,988545024,988807168,989069312,989331456,989593600,989855744,990117888,990380032,990642176,990904320,991166464,991428608,991690752,991952896,992215040,992477184,992739328,993001472,993263616,993525760,993787904,994050048,994312192,994574336,994836480,995098624,995360768,995622912,995885056,996147200,996409344,996671488,996933632,997195776,997457920,997720064,997982208,998244352,998375424,998506496,998637568,998768640,998899712,999030784,999161856,999292928,999424000,999555072,999686144,999817216,999948288,1000079360,1000210432,1000341504,1000472576,1000603648,1000734720,1000865792,1000996864,1001127936,1001259008,1001390080,1001521152,1001652224,1001783296,1001914368,1002045440,1002176512,1002307584,1002438656,1002569728,1002700800,1002831872,1002962944,1003094016,1003225088,1003356160,1003487232,1003618304,1003749376,1003880448,1004011520,1004142592,1004273664,1004404736,1004535808,1004666880,1004797952,1004929024,1005060096,1005191168,1005322240,1005453312,1005584384,1005715456,1005846528,1005977600,1006108672,1006239744,1006370816,1006501888,1006632960,1006764032,1006895104,1007026176,1007157248,1007288320,1007419392,1007550464,1007681536,1007812608,1007943680,1008074752,1008205824,1008336896,1008467968,1008599040,1008730112,1008861184,1008992256,1009123328,1009254400,1009385472,1009516544,1009647616,1009778688,1009909760,1010040832,1010171904,1010302976,1010434048,1010565120,1010696192,1010827264,1010958336,1011089408,1011220480,1011351552,1011482624,1011613696,1011744768,1011875840,1012006912,1012137984,1012269056,1012400128,1012531200,1012662272,1012793344,1012924416,1013055488,1013186560,1013317632,1013448704,1013579776,1013710848,1013841920,1013972992,1014104064,1014235136,1014366208,1014497280,1014628352,1014759424,1014890496,1015021568,1015152640,1015283712,1015414784,1015545856,1015676928,1015808000,1015939072,1016070144,1016201216,1016332288,1016463360,1016594432,1016725504,1016856576,1016987648,1017118720,1017249792,1017380864,1017511936,1017643008,1017774080,1017905152,1018036224,1018167296,1018298368,1018429440,1018560512,1018691584,1018822656,1018953728,1019084800,1019215872,1019346944,1019478016,1019609088,1019740160,1019871232,1020002304,1020133376,1020264448,1020395520,1020526592,1020657664,1020788736,1020919808,1021050880,1021181952,1021313024,1021444096,1021575168,1021706240,1021837312,1021968384,1022099456,1022230528,1022361600,1022492672,1022623744,1022754816,1022885888,1023016960,1023148032,1023279104,1023410176,1023541248,1023672320,1023803392,1023934464,1024065536,1024196608,1024327680,1024458752,1024589824,1024720896,1024851968,1024983040,1025114112,1025245184,1025376256,1025507328,1025638400,1025769472,1025900544,1026031616,1026162688,1026293760,1026424832,1026555904,1026686976,1026818048,1026949120,1027080192,1027211264,1027342336,1027473408,1027604480,1027735552,1027866624,1027997696,1028128768,1028259840,1028390912,1028521984,1028653056,1028784128,1028915200,1029046272,1029177344,1029308416,1029439488,1029570560,1029701632,1029832704,1029963776,1030094848,1030225920,1030356992,1030488064,1030619136,1030750208,1030881280,1031012352,1031143424,1031274496,1031405568,1031536640,1031667712,1031798784,1031864320,1031929856,1031995392,1032060928,1032126464,1032192000,1032257536,1032323072,1032388608,1032454144,1032519680,1032585216,1032650752,1032716288,1032781824,1032847360,1032912896,1032978432,1033043968,1033109504,1033175040,1033240576,1033306112,1033371648,1033437184,1033502720,1033568256,1033633792,1033699328,1033764864,1033830400,1033895936,1033961472,1034027008,1034092544,1034158080,1034223616,1034289152,1034354688,1034420224,1034485760,1034551296,1034616832,1034682368,1034747904,1034813440,1034878976,1034944512,1035010048,1035075584,1035141120,1035206656,1035272192,1035337728,1035403264,1035468800,1035534336,1035599872,1035665408,1035730944,1035796480,1035862016,1035927552,1035993088,1036058624,1036124160,1036189696,1036255232,1036320768,1036386304,1036451840,1036517376,1036582912,1036648448,1036713984,1036779520,1036845056,1036910592,1036976128,1037041664,1037107200,1037172736,1037238272,1037303808,1037369344,1037434880,1037500416,1037565952,1037631488,1037697024,1037762560,1037828096,1037893632,1037959168,1038024704,1038090240,1038155776,1038221312,1038286848,1038352384,1038417920,1038483456,1038548992,1038614528,1038680064,1038745600,1038811136,1038876672,1038942208,1039007744,1039073280,1039138816,1039204352,1039269888,1039335424,1039400960,1039466496,1039532032,1039597568,1039663104,1039728640,1039794176,1039859712,1039925248,1039990784,1040056320,1040121856,1040187392,1040252928,1040318464,1040384000,1040449536,1040515072,1040580608,1040646144,1040711680,1040777216,1040842752,1040908288,1040973824,1041039360,1041104896,1041170432,1041235968,1041301504,1041367040,1041432576,1041498112,1041563648,1041629184,1041694720,1041760256,1041825792,1041891328,1041956864,1042022400,1042087936,1042153472,1042219008,1042284544,1042350080,1042415616,1042481152,1042546688,1042612224,1042677760,1042743296,1042808832,1042874368,1042939904,1043005440,1043070976,1043136512,1043202048,1043267584,1043333120,1043398656,1043464192,1043529728,1043595264,1043660800,1043726336,1043791872,1043857408,1043922944,1043988480,1044054016,1044119552,1044185088,1044250624,1044316160,1044381696,1044447232,1044512768,1044578304,1044643840,1044709376,1044774912,1044840448,1044905984,1044971520,1045037056,1045102592,1045168128,1045233664,1045299200,1045364736,1045430272,1045495808,1045561344,1045626880,1045692416,1045757952,1045823488,1045889024,1045954560,1046020096,1046085632,1046151168,1046216704,1046282240,1046347776,1046413312,1046478848,1046544384,1046609920,1046675456,1046740992,1046806528,1046872064,1046937600,1047003136,1047068672,1047134208,1047199744,1047265280,1047330816,1047396352,1047461888,1047527424,1047592960,1047658496,1047724032,1047789568,1047855104,1047920640,1047986176,1048051712,1048117248,1048182784,1048248320,1048313856,1048379392,1048444928,1048510464,1048576000,1048641536,1048707072,1048772608,1048838144,1048903680,1048969216,1049034752,1049100288,1049165824,1049231360,1049296896,1049362432,1049427968,1049493504,1049559040,1049624576,1049690112,1049755648,1049821184,1049886720,1049952256,1050017792,1050083328,1050148864,1050214400,1050279936,1050345472,1050411008,1050476544,1050542080,1050607616,1050673152,1050738688,1050804224,1050869760,1050935296,1051000832,1051066368,1051131904,1051197440,1051262976,1051328512,1051394048,1051459584,1051525120,1051590656,1051656192,1051721728,1051787264,1051852800,1051918336,1051983872,1052049408,1052114944,1052180480,1052246016,1052311552,1052377088,1052442624,1052508160,1052573696,1052639232,1052704768,1052770304,1052835840,1052901376,1052966912,1053032448,1053097984,1053163520,1053229056,1053294592,1053360128,1053425664,1053491200,1053556736,1053622272,1053687808,1053753344,1053818880,1053884416,1053949952,1054015488,1054081024,1054146560,1054212096,1054277632,1054343168,1054408704,1054474240,1054539776,1054605312,1054670848,1054736384,1054801920,1054867456,1054932992,1054998528,1055064064,1055129600,1055195136,1055260672,1055326208,1055391744,1055457280,1055522816,1055588352,1055653888,1055719424,1055784960,1055850496,1055916032,1055981568,1056047104,1056112640,1056178176,1056243712,1056309248,1056374784,1056440320,1056505856,1056571392,1056636928,1056702464,1056768000,1056833536,1056899072,1056964608,1057030144,1057095680,1057161216,1057226752,1057292288,1057357824,1057423360,1057488896,1057554432,1057619968,1057685504,1057751040,1057816576,1057882112,1057947648,1058013184,1058078720,1058144256,1058209792,1058275328,1058340864,1058406400,1058471936,1058537472,1058603008,1058668544,1058734080,1058799616,1058865152,1058930688,1058996224,1059061760,1059127296,1059192832,1059258368,1059323904,1059389440,1059454976,1059520512,1059586048,1059651584,1059717120,1059782656,1059848192,1059913728,1059979264,1060044800,1060110336,1060175872,1060241408,1060306944,1060372480,1060438016,1060503552,1060569088,1060634624,1060700160,1060765696,1060831232,1060896768,1060962304,1061027840,1061093376,1061158912,1061224448,1061289984,1061355520,1061421056,1061486592,1061552128,1061617664,1061683200,1061748736,1061814272,1061879808,1061945344,1062010880,1062076416,1062141952,1062207488,1062273024,1062338560,1062404096,1062469632,1062535168,1062600704,1062666240,1062731776,1062797312,1062862848,1062928384,1062993920,1063059456,1063124992,1063190528,1063256064,1063321600,1063387136,1063452672,1063518208,1063583744,1063649280,1063714816,1063780352,1063845888,1063911424,1063976960,1064042496,1064108032,1064173568,1064239104,1064304640,1064370176,1064435712,1064501248,1064566784,1064632320,1064697856,1064763392,1064828928,1064894464,1064960000,1065025536,1065091072,1065156608,1065222144,1065287680,1065353216,1065418752,1065484288,1065549824,1065615360,1065680896,1065746432,1065811968,1065877504,1065943040,1066008576,1066074112,1066139648,1066205184,1066270720,1066336256,1066401792,1066467328,1066532864,1066598400,1066663936,1066729472,1066795008,1066860544,1066926080,1066991616,1067057152,1067122688,1067188224,1067253760,1067319296,1067384832,1067450368,1067515904,1067581440,1067646976,1067712512,1067778048,1067843584,1067909120,1067974656,1068040192,1068105728,1068171264,1068236800,1068302336,1068367872,1068433408,1068498944,1068564480,1068630016,1068695552,1068761088,1068826624,1068892160,1068957696,1069023232,1069088768,1069154304,1069219840,1069285376,1069350912,1069416448,1069481984,1069547520,1069613056,1069678592,1069744128,1069809664,1069875200,1069940736,1070006272,1070071808,1070137344,1070202880,1070268416,1070333952,1070399488,1070465024,1070530560,1070596096,1070661632,1070727168,1070792704,1070858240,1070923776,1070989312,1071054848,1071120384,1071185920,1071251456,1071316992,1071382528,1071448064,1071513600,1071579136,1071644672,1071710208,1071775744,1071841280,1071906816,1071972352,1072037888,1072103424,1072168960,1072234496,1072300032,1072365568,1072431104,1072496640,1072562176,1072627712,1072693248,1072758784,1072824320,1072889856,1072955392,1073020928,1073086464,1073152000,1073217536,1073283072,1073348608,1073414144,1073479680,1073545216,1073610752,1073676288,1073741824,1073807360,1073872896,1073938432,1074003968,1074069504,1074135040,1074200576,1074266112,1074331648,1074397184,1074462720,1074528256,1074593792,1074659328,1074724864,1074790400,1074855936,1074921472,1074987008,1075052544,1075118080,1075183616,1075249152,1075314688,1075380224,1075445760,1075511296,1075576832,1075642368,1075707904,1075773440,1075838976,1075904512,1075970048,1076035584,1076101120,1076166656,1076232192,1076297728,1076363264,1076428800,1076494336,1076559872,1076625408,1076690944,1076756480,1076822016,1076887552,1076953088,1077018624,1077084160,1077149696,1077215232,1077280768,1077346304,1077411840,1077477376,1077542912,1077608448,1077673984,1077739520,1077805056,1077870592,1077936128,1078001664,1078067200,1078132736,1078198272,1078263808,1078329344,1078394880,1078460416,1078525952,1078591488,1078657024,1078722560,1078788096,1078853632,1078919168,1078984704,1079050240,1079115776,1079181312,1079246848,1079312384,1079377920,1079443456,1079508992,1079574528,1079640064,1079705600,1079771136,1079836672,1079902208,1079967744,1080033280,1080098816,1080164352,1080229888,1080295424,1080360960,1080426496,1080492032,1080557568,1080623104,1080688640,1080754176,1080819712,1080885248,1080950784,1081016320,1081081856,1081147392,1081212928,1081278464,1081344000,1081409536,1081475072,1081540608,1081606144,1081671680,1081737216,1081802752,1081868288,1081933824,1081999360,1082064896,1082130432,1082195968,1082261504,1082327040,1082392576,1082458112,1082523648,1082589184,1082654720,1082720256,1082785792,1082851328,1082916864,1082982400,1083047936,1083113472,1083179008,1083244544,1083310080,1083375616,1083441152,1083506688,1083572224,1083637760,1083703296,1083768832,1083834368,1083899904,1083965440,1084030976,1084096512,1084162048,1084227584,1084293120,1084358656,1084424192,1084489728,1084555264,1084620800,1084686336,1084751872,1084817408,1084882944,1084948480,1085014016,1085079552,1085145088,1085210624,1085276160,1085341696,1085407232,1085472768,1085538304,1085603840,1085669376,1085734912,1085800448,1085865984,1085931520,1085997056,1086062592,1086128128,1086193664,1086259200,1086324736,1086390272,1086455808,1086521344,1086586880,1086652416,1086717952,1086783488,1086849024,1086914560,1086980096,1087045632,1087111168,1087176704,1087242240,1087307776,1087373312,1087438848,1087504384,1087569920,1087635456,1087700992,1087766528,1087832064,1087897600,1087963136,1088028672,1088094208,1088159744,1088225280,1088290816,1088356352,1088421888,1088487424,1088552960,1088618496,1088684032,1088749568,1088815104,1088880640,1088946176,1089011712,1089077248,1089142784,1089208320,1089273856,1089339392,1089404928,1089470464,1089536000,1089601536,1089667072,1089732608,1089798144,1089863680,1089929216,1089994752,1090060288,1090125824,1090191360,1090256896,1090322432,1090387968,1090453504,1090519040,1090584576,1090650112,1090715648,1090781184,1090846720,1090912256,1090977792,1091043328,1091108864,1091174400,1091239936,1091305472,1091371008,1091436544,1091502080,1091567616,1091633152,1091698688,1091764224,1091829760,1091895296,1091960832,1092026368,1092091904,1092157440,1092222976,1092288512,1092354048,1092419584,1092485120,1092550656,1092616192,1092681728,1092747264,1092812800,1092878336,1092943872,1093009408,1093074944,1093140480,1093206016,1093271552,1093337088,1093402624,1093468160,1093533696,1093599232,1093664768,1093730304,1093795840,1093861376,1093926912,1093992448,1094057984,1094123520,1094189056,1094254592,1094320128,1094385664,1094451200,1094516736,1094582272,1094647808,1094713344,1094778880,1094844416,1094909952,1094975488,1095041024,1095106560,1095172096,1095237632,1095303168,1095368704,1095434240,1095499776,1095565312,1095630848,1095696384,1095761920,1095827456,1095892992,1095958528,1096024064,1096089600,1096155136,1096220672,1096286208,1096351744,1096417280,1096482816,1096548352,1096613888,1096679424,1096744960,1096810496,1096876032,1096941568,1097007104,1097072640,1097138176,1097203712,1097269248,1097334784,1097400320,1097465856,1097531392,1097596928,1097662464,1097728000,1097793536,1097859072,1097924608,1097990144,1098055680,1098121216,1098186752,1098252288,1098317824,1098383360,1098448896,1098514432,1098579968,1098645504,1098711040,1098776576,1098842112,1098907648,1099038720,1099169792,1099300864,1099431936,1099563008,1099694080,1099825152,1099956224,1100087296,1100218368,1100349440,1100480512,1100611584,1100742656,1100873728,1101004800,1101135872,1101266944,1101398016,1101529088,1101660160,1101791232,1101922304,1102053376,1102184448,1102315520,1102446592,1102577664,1102708736,1102839808,1102970880,1103101952,1103233024,1103364096,1103495168,1103626240,1103757312,1103888384,1104019456,1104150528,1104281600,1104412672,1104543744,1104674816,1104805888,1104936960,1105068032,1105199104,1105330176,1105461248,1105592320,1105723392,1105854464,1105985536,1106116608,1106247680,1106378752,1106509824,1106640896,1106771968,1106903040,1107034112,1107165184,1107296256,1107427328,1107558400,1107689472,1107820544,1107951616,1108082688,1108213760,1108344832,1108475904,1108606976,1108738048,1108869120,1109000192,1109131264,1109262336,1109393408,1109524480,1109655552,1109786624,1109917696,1110048768,1110179840,1110310912,1110441984,1110573056,1110704128,1110835200,1110966272,1111097344,1111228416,1111359488,1111490560,1111621632,1111752704,1111883776,1112014848,1112145920,1112276992,1112408064,1112539136,1112670208,1112801280,1112932352,1113063424,1113194496,1113325568,1113456640,1113587712,1113718784,1113849856,1113980928,1114112000,1114243072,1114374144,1114505216,1114636288,1114767360,1114898432,1115029504,1115160576,1115291648,1115422720,1115553792,1115684864,1115815936,1115947008,1116078080,1116209152,1116340224,1116471296,1116602368,1116733440,1116864512,1116995584,1117126656,1117257728,1117388800,1117519872,1117650944,1117782016,1117913088,1118044160,1118175232,1118306304,1118437376,1118568448,1118699520,1118830592,1118961664,1119092736,1119223808,1119354880,1119485952,1119617024,1119748096,1119879168,1120010240,1120141312,1120272384,1120403456,1120534528,1120665600,1120796672,1120927744,1121058816,1121189888,1121320960,1121452032,1121583104,1121714176,1121845248,1121976320,1122107392,1122238464,1122369536,1122500608,1122631680,1122762752,1122893824,1123024896,1123155968,1123287040,1123418112,1123549184,1123680256,1123811328,1123942400,1124073472,1124204544,1124335616,1124466688,1124597760,1124728832,1124859904,1124990976,1125122048,1125253120,1125384192,1125515264,1125646336,1125777408,1125908480,1126039552,1126170624,1126301696,1126432768,1126563840,1126694912,1126825984,1126957056,1127088128,1127219200,1127350272,1127481344,1127612416,1127743488,1127874560,1128005632,1128136704,1128267776,1128398848,1128529920,1128660992,1128792064,1128923136,1129054208,1129185280,1129316352,1129447424,1129578496,1129709568,1129840640,1129971712,1130102784,1130233856,1130364928,1130496000,1130627072,1130758144,1130889216,1131020288,1131151360,1131282432,1131413504,1131544576,1131675648,1131806720,1131937792,1132068864,1132199936,1132331008,1132462080,1132724224,1132986368,1133248512,1133510656,1133772800,1134034944,1134297088,1134559232,1134821376,1135083520,1135345664,1135607808,1135869952,1136132096,1136394240,1136656384,1136918528,1137180672,1137442816,1137704960,1137967104,1138229248,1138491392,1138753536,1139015680,1139277824,1139539968,1139802112,1140064256,1140326400,1140588544,1140850688,1141112832,1141374976,1141637120,1141899264,1142161408,1142423552,1142685696,1142947840,1143209984,1143472128,1143734272,1143996416,1144258560,1144520704,1144782848,1145044992,1145307136,1145569280,1145831424,1146093568,1146355712,1146617856,1146880000,1147142144,1147404288,1147666432,1147928576,1148190720,1148452864,1148715008,1148977152,1149239296,1149501440,1149763584,1150025728,1150287872,1150550016,1150812160,1151074304,1151336448,1151598592,1151860736,1152122880,1152385024,1152647168,1152909312,1153171456,1153433600,1153695744,1153957888,1154220032,1154482176,1154744320,1155006464,1155268608,1155530752,1155792896,1156055040,1156317184,1156579328,1156841472,1157103616,1157365760,1157627904,1157890048,1158152192,1158414336,1158676480,1158938624,1159200768,1159462912,1159725056,1159987200,1160249344,1160511488,1160773632,1161035776,1161297920,1161560064,1161822208,1162084352,1162346496,1162608640,1162870784,1163132928,1163395072,1163657216,1163919360,1164181504,1164443648,1164705792,1164967936,1165230080,1165492224,1165754368,1166016512,1166540800,1167065088,1167589376,1168113664,1168637952,1169162240,1169686528,1170210816,1170735104,1171259392,1171783680,1172307968,1172832256,1173356544,1173880832,1174405120,1174929408,1175453696,1175977984,1176502272,1177026560,1177550848,1178075136,1178599424,1179123712,1179648000,1180172288,1180696576,1181220864,1181745152,1182269440,1182793728,1183318016,1183842304,1184366592,1184890880,1185415168,1185939456,1186463744,1186988032,1187512320,1188036608,1188560896,1189085184,1189609472,1190133760,1190658048,1191182336,1191706624,1192230912,1192755200,1193279488,1193803776,1194328064,1194852352,1195376640,1195900928,1196425216,1196949504,1197473792,1197998080,1198522368,1199046656,1199570944,1200619520,1201668096,1202716672,1203765248,1204813824,1205862400,1206910976,1207959552,1209008128,1210056704,1211105280,1212153856,1213202432,1214251008,1215299584,1216348160,1217396736,1218445312,1219493888,1220542464,1221591040,1222639616,1223688192,1224736768,1225785344,1226833920,1227882496,1228931072,1229979648,1231028224,1232076800,1233125376,1235222528,1237319680,1239416832,1241513984,1243611136,1245708288,1247805440,1249902592,1251999744,1254096896,1256194048,1258291200,1260388352,1262485504,1264582656,1266679808,1270874112,1275068416,1279262720,1283457024,1287651328,1291845632,1296039936,1300234240,1308622848,1317011456,1325400064,1333788672,1350565888,1367343104,1400897536,2143289344,3548381184,3514826752,3498049536,3481272320,3472883712,3464495104,3456106496,3447717888,3443523584,3439329280,3435134976,3430940672,3426746368,3422552064,3418357760,3414163456,3412066304,3409969152,3407872000,3405774848,3403677696,3401580544,3399483392,3397386240,3395289088,3393191936,3391094784,3388997632,3386900480,3384803328,3382706176,3380609024,3379560448,3378511872,3377463296,3376414720,3375366144,3374317568,3373268992,3372220416,3371171840,3370123264,3369074688,3368026112,3366977536,3365928960,3364880384,3363831808,3362783232,3361734656,3360686080,3359637504,3358588928,3357540352,3356491776,3355443200,3354394624,3353346048,3352297472,3351248896,3350200320,3349151744,3348103168,3347054592,3346530304,3346006016,3345481728,3344957440,3344433152,3343908864,3343384576,3342860288,3342336000,3341811712,3341287424,3340763136,3340238848,3339714560,3339190272,3338665984,3338141696,3337617408,3337093120,3336568832,3336044544,3335520256,3334995968,3334471680,3333947392,3333423104,3332898816,3332374528,3331850240,3331325952,3330801664,3330277376,3329753088,3329228800,3328704512,3328180224,3327655936,3327131648,3326607360,3326083072,3325558784,3325034496,3324510208,3323985920,3323461632,3322937344,3322413056,3321888768,3321364480,3320840192,3320315904,3319791616,3319267328,3318743040,3318218752,3317694464,3317170176,3316645888,3316121600,3315597312,3315073024,3314548736,3314024448,3313500160,3313238016,3312975872,3312713728,3312451584,3312189440,3311927296,3311665152,3311403008,3311140864,3310878720,3310616576,3310354432,3310092288,3309830144,3309568000,3309305856,3309043712,3308781568,3308519424,3308257280,3307995136,3307732992,3307470848,3307208704,3306946560,3306684416,3306422272,3306160128,3305897984,3305635840,3305373696,3305111552,3304849408,3304587264,3304325120,3304062976,3303800832,3303538688,3303276544,3303014400,3302752256,3302490112,3302227968,3301965824,3301703680,3301441536,3301179392,3300917248,3300655104,3300392960,3300130816,3299868672,3299606528,3299344384,3299082240,3298820096,3298557952,3298295808,3298033664,3297771520,3297509376,3297247232,3296985088,3296722944,3296460800,3296198656,3295936512,3295674368,3295412224,3295150080,3294887936,3294625792,3294363648,3294101504,3293839360,3293577216,3293315072,3293052928,3292790784,3292528640,3292266496,3292004352,3291742208,3291480064,3291217920,3290955776,3290693632,3290431488,3290169344,3289907200,3289645056,3289382912,3289120768,3288858624,3288596480,3288334336,3288072192,3287810048,3287547904,3287285760,3287023616,3286761472,3286499328,3286237184,3285975040,3285712896,3285450752,3285188608,3284926464,3284664320,3284402176,3284140032,3283877888,3283615744,3283353600,3283091456,3282829312,3282567168,3282305024,3282042880,3281780736,3281518592,3281256448,3280994304,3280732160,3280470016,3280207872,3279945728,3279814656,3279683584,3279552512,3279421440,3279290368,3279159296,3279028224,3278897152,3278766080,3278635008,3278503936,3278372864,3278241792,3278110720,3277979648,3277848576,3277717504,3277586432,3277455360,3277324288,3277193216,3277062144,3276931072,3276800000,3276668928,3276537856,3276406784,3276275712,3276144640,3276013568,3275882496,3275751424,3275620352,3275489280,3275358208,3275227136,3275096064,3274964992,3274833920,3274702848,3274571776,3274440704,3274309632,3274178560,3274047488,3273916416,3273785344,3273654272,3273523200,3273392128,3273261056,3273129984,3272998912,3272867840,3272736768,3272605696,3272474624,3272343552,3272212480,3272081408,3271950336,3271819264,3271688192,3271557120,3271426048,3271294976,3271163904,3271032832,3270901760,3270770688,3270639616,3270508544,3270377472,3270246400,3270115328,3269984256,3269853184,3269722112,3269591040,3269459968,3269328896,3269197824,3269066752,3268935680,3268804608,3268673536,3268542464,3268411392,3268280320,3268149248,3268018176,3267887104,3267756032,3267624960,3267493888,3267362816,3267231744,3267100672,3266969600,3266838528,3266707456,3266576384,3266445312,3266314240,3266183168,3266052096,3265921024,3265789952,3265658880,3265527808,3265396736,3265265664,3265134592,3265003520,3264872448,3264741376,3264610304,3264479232,3264348160,3264217088,3264086016,3263954944,3263823872,3263692800,3263561728,3263430656,3263299584,3263168512,3263037440,3262906368,3262775296,3262644224,3262513152,3262382080,3262251008,3262119936,3261988864,3261857792,3261726720,3261595648,3261464576,3261333504,3261202432,3261071360,3260940288,3260809216,3260678144,3260547072,3260416000,3260284928,3260153856,3260022784,3259891712,3259760640,3259629568,3259498496,3259367424,3259236352,3259105280,3258974208,3258843136,3258712064,3258580992,3258449920,3258318848,3258187776,3258056704,3257925632,3257794560,3257663488,3257532416,3257401344,3257270272,3257139200,3257008128,3256877056,3256745984,3256614912,3256483840,3256352768,3256221696,3256090624,3255959552,3255828480,3255697408,3255566336,3255435264,3255304192,3255173120,3255042048,3254910976,3254779904,3254648832,3254517760,3254386688,3254255616,3254124544,3253993472,3253862400,3253731328,3253600256,3253469184,3253338112,3253207040,3253075968,3252944896,3252813824,3252682752,3252551680,3252420608,3252289536,3252158464,3252027392,3251896320,3251765248,3251634176,3251503104,3251372032,3251240960,3251109888,3250978816,3250847744,3250716672,3250585600,3250454528,3250323456,3250192384,3250061312,3249930240,3249799168,3249668096,3249537024,3249405952,3249274880,3249143808,3249012736,3248881664,3248750592,3248619520,3248488448,3248357376,3248226304,3248095232,3247964160,3247833088,3247702016,3247570944,3247439872,3247308800,3247177728,3247046656,3246915584,3246784512,3246653440,3246522368,3246391296,3246325760,3246260224,3246194688,3246129152,3246063616,3245998080,3245932544,3245867008,3245801472,3245735936,3245670400,3245604864,3245539328,3245473792,3245408256,3245342720,3245277184,3245211648,3245146112,3245080576,3245015040,3244949504,3244883968,3244818432,3244752896,3244687360,3244621824,3244556288,3244490752,3244425216,3244359680,3244294144,3244228608,3244163072,3244097536,3244032000,3243966464,3243900928,3243835392,3243769856,3243704320,3243638784,3243573248,3243507712,3243442176,3243376640,3243311104,3243245568,3243180032,3243114496,3243048960,3242983424,3242917888,3242852352,3242786816,3242721280,3242655744,3242590208,3242524672,3242459136,3242393600,3242328064,3242262528,3242196992,3242131456,3242065920,3242000384,3241934848,3241869312,3241803776,3241738240,3241672704,3241607168,3241541632,3241476096,3241410560,3241345024,3241279488,3241213952,3241148416,3241082880,3241017344,3240951808,3240886272,3240820736,3240755200,3240689664,3240624128,3240558592,3240493056,3240427520,3240361984,3240296448,3240230912,3240165376,3240099840,3240034304,3239968768,3239903232,3239837696,3239772160,3239706624,3239641088,3239575552,3239510016,3239444480,3239378944,3239313408,3239247872,3239182336,3239116800,3239051264,3238985728,3238920192,3238854656,3238789120,3238723584,3238658048,3238592512,3238526976,3238461440,3238395904,3238330368,3238264832,3238199296,3238133760,3238068224,3238002688,3237937152,3237871616,3237806080,3237740544,3237675008,3237609472,3237543936,3237478400,3237412864,3237347328,3237281792,3237216256,3237150720,3237085184,3237019648,3236954112,3236888576,3236823040,3236757504,3236691968,3236626432,3236560896,3236495360,3236429824,3236364288,3236298752,3236233216,3236167680,3236102144,3236036608,3235971072,3235905536,3235840000,3235774464,3235708928,3235643392,3235577856,3235512320,3235446784,3235381248,3235315712,3235250176,3235184640,3235119104,3235053568,3234988032,3234922496,3234856960,3234791424,3234725888,3234660352,3234594816,3234529280,3234463744,3234398208,3234332672,3234267136,3234201600,3234136064,3234070528,3234004992,3233939456,3233873920,3233808384,3233742848,3233677312,3233611776,3233546240,3233480704,3233415168,3233349632,3233284096,3233218560,3233153024,3233087488,3233021952,3232956416,3232890880,3232825344,3232759808,3232694272,3232628736,3232563200,3232497664,3232432128,3232366592,3232301056,3232235520,3232169984,3232104448,3232038912,3231973376,3231907840,3231842304,3231776768,3231711232,3231645696,3231580160,3231514624,3231449088,3231383552,3231318016,3231252480,3231186944,3231121408,3231055872,3230990336,3230924800,3230859264,3230793728,3230728192,3230662656,3230597120,3230531584,3230466048,3230400512,3230334976,3230269440,3230203904,3230138368,3230072832,3230007296,3229941760,3229876224,3229810688,3229745152,3229679616,3229614080,3229548544,3229483008,3229417472,3229351936,3229286400,3229220864,3229155328,3229089792,3229024256,3228958720,3228893184,3228827648,3228762112,3228696576,3228631040,3228565504,3228499968,3228434432,3228368896,3228303360,3228237824,3228172288,3228106752,3228041216,3227975680,3227910144,3227844608,3227779072,3227713536,3227648000,3227582464,3227516928,3227451392,3227385856,3227320320,3227254784,3227189248,3227123712,3227058176,3226992640,3226927104,3226861568,3226796032,3226730496,3226664960,3226599424,3226533888,3226468352,3226402816,3226337280,3226271744,3226206208,3226140672,3226075136,3226009600,3225944064,3225878528,3225812992,3225747456,3225681920,3225616384,3225550848,3225485312,3225419776,3225354240,3225288704,3225223168,3225157632,3225092096,3225026560,3224961024,3224895488,3224829952,3224764416,3224698880,3224633344,3224567808,3224502272,3224436736,3224371200,3224305664,3224240128,3224174592,3224109056,3224043520,3223977984,3223912448,3223846912,3223781376,3223715840,3223650304,3223584768,3223519232,3223453696,3223388160,3223322624,3223257088,3223191552,3223126016,3223060480,3222994944,3222929408,3222863872,3222798336,3222732800,3222667264,3222601728,3222536192,3222470656,3222405120,3222339584,3222274048,3222208512,3222142976,3222077440,3222011904,3221946368,3221880832,3221815296,3221749760,3221684224,3221618688,3221553152,3221487616,3221422080,3221356544,3221291008,3221225472,3221159936,3221094400,3221028864,3220963328,3220897792,3220832256,3220766720,3220701184,3220635648,3220570112,3220504576,3220439040,3220373504,3220307968,3220242432,3220176896,3220111360,3220045824,3219980288,3219914752,3219849216,3219783680,3219718144,3219652608,3219587072,3219521536,3219456000,3219390464,3219324928,3219259392,3219193856,3219128320,3219062784,3218997248,3218931712,3218866176,3218800640,3218735104,3218669568,3218604032,3218538496,3218472960,3218407424,3218341888,3218276352,3218210816,3218145280,3218079744,3218014208,3217948672,3217883136,3217817600,3217752064,3217686528,3217620992,3217555456,3217489920,3217424384,3217358848,3217293312,3217227776,3217162240,3217096704,3217031168,3216965632,3216900096,3216834560,3216769024,3216703488,3216637952,3216572416,3216506880,3216441344,3216375808,3216310272,3216244736,3216179200,3216113664,3216048128,3215982592,3215917056,3215851520,3215785984,3215720448,3215654912,3215589376,3215523840,3215458304,3215392768,3215327232,3215261696,3215196160,3215130624,3215065088,3214999552,3214934016,3214868480,3214802944,3214737408,3214671872,3214606336,3214540800,3214475264,3214409728,3214344192,3214278656,3214213120,3214147584,3214082048,3214016512,3213950976,3213885440,3213819904,3213754368,3213688832,3213623296,3213557760,3213492224,3213426688,3213361152,3213295616,3213230080,3213164544,3213099008,3213033472,3212967936,3212902400,3212836864,3212771328,3212705792,3212640256,3212574720,3212509184,3212443648,3212378112,3212312576,3212247040,3212181504,3212115968,3212050432,3211984896,3211919360,3211853824,3211788288,3211722752,3211657216,3211591680,3211526144,3211460608,3211395072,3211329536,3211264000,3211198464,3211132928,3211067392,3211001856,3210936320,3210870784,3210805248,3210739712,3210674176,3210608640,3210543104,3210477568,3210412032,3210346496,3210280960,3210215424,3210149888,3210084352,3210018816,3209953280,3209887744,3209822208,3209756672,3209691136,3209625600,3209560064,3209494528,3209428992,3209363456,3209297920,3209232384,3209166848,3209101312,3209035776,3208970240,3208904704,3208839168,3208773632,3208708096,3208642560,3208577024,3208511488,3208445952,3208380416,3208314880,3208249344,3208183808,3208118272,3208052736,3207987200,3207921664,3207856128,3207790592,3207725056,3207659520,3207593984,3207528448,3207462912,3207397376,3207331840,3207266304,3207200768,3207135232,3207069696,3207004160,3206938624,3206873088,3206807552,3206742016,3206676480,3206610944,3206545408,3206479872,3206414336,3206348800,3206283264,3206217728,3206152192,3206086656,3206021120,3205955584,3205890048,3205824512,3205758976,3205693440,3205627904,3205562368,3205496832,3205431296,3205365760,3205300224,3205234688,3205169152,3205103616,3205038080,3204972544,3204907008,3204841472,3204775936,3204710400,3204644864,3204579328,3204513792,3204448256,3204382720,3204317184,3204251648,3204186112,3204120576,3204055040,3203989504,3203923968,3203858432,3203792896,3203727360,3203661824,3203596288,3203530752,3203465216,3203399680,3203334144,3203268608,3203203072,3203137536,3203072000,3203006464,3202940928,3202875392,3202809856,3202744320,3202678784,3202613248,3202547712,3202482176,3202416640,3202351104,3202285568,3202220032,3202154496,3202088960,3202023424,3201957888,3201892352,3201826816,3201761280,3201695744,3201630208,3201564672,3201499136,3201433600,3201368064,3201302528,3201236992,3201171456,3201105920,3201040384,3200974848,3200909312,3200843776,3200778240,3200712704,3200647168,3200581632,3200516096,3200450560,3200385024,3200319488,3200253952,3200188416,3200122880,3200057344,3199991808,3199926272,3199860736,3199795200,3199729664,3199664128,3199598592,3199533056,3199467520,3199401984,3199336448,3199270912,3199205376,3199139840,3199074304,3199008768,3198943232,3198877696,3198812160,3198746624,3198681088,3198615552,3198550016,3198484480,3198418944,3198353408,3198287872,3198222336,3198156800,3198091264,3198025728,3197960192,3197894656,3197829120,3197763584,3197698048,3197632512,3197566976,3197501440,3197435904,3197370368,3197304832,3197239296,3197173760,3197108224,3197042688,3196977152,3196911616,3196846080,3196780544,3196715008,3196649472,3196583936,3196518400,3196452864,3196387328,3196321792,3196256256,3196190720,3196125184,3196059648,3195994112,3195928576,3195863040,3195797504,3195731968,3195666432,3195600896,3195535360,3195469824,3195404288,3195338752,3195273216,3195207680,3195142144,3195076608,3195011072,3194945536,3194880000,3194814464,3194748928,3194683392,3194617856,3194552320,3194486784,3194421248,3194355712,3194290176,3194224640,3194159104,3194093568,3194028032,3193962496,3193896960,3193831424,3193765888,3193700352,3193634816,3193569280,3193503744,3193438208,3193372672,3193307136,3193241600,3193176064,3193110528,3193044992,3192979456,3192913920,3192848384,3192782848,3192717312,3192651776,3192586240,3192520704,3192455168,3192389632,3192324096,3192258560,3192193024,3192127488,3192061952,3191996416,3191930880,3191865344,3191799808,3191734272,3191668736,3191603200,3191537664,3191472128,3191406592,3191341056,3191275520,3191209984,3191144448,3191078912,3191013376,3190947840,3190882304,3190816768,3190751232,3190685696,3190620160,3190554624,3190489088,3190423552,3190358016,3190292480,3190226944,3190161408,3190095872,3190030336,3189964800,3189899264,3189833728,3189768192,3189702656,3189637120,3189571584,3189506048,3189440512,3189374976,3189309440,3189243904,3189178368,3189112832,3189047296,3188981760,3188916224,3188850688,3188785152,3188719616,3188654080,3188588544,3188523008,3188457472,3188391936,3188326400,3188260864,3188195328,3188129792,3188064256,3187998720,3187933184,3187867648,3187802112,3187736576,3187671040,3187605504,3187539968,3187474432,3187408896,3187343360,3187277824,3187212288,3187146752,3187081216,3187015680,3186950144,3186884608,3186819072,3186753536,3186688000,3186622464,3186556928,3186491392,3186425856,3186360320,3186294784,3186229248,3186163712,3186098176,3186032640,3185967104,3185901568,3185836032,3185770496,3185704960,3185639424,3185573888,3185508352,3185442816,3185377280,3185311744,3185246208,3185180672,3185115136,3185049600,3184984064,3184918528,3184852992,3184787456,3184721920,3184656384,3184590848,3184525312,3184459776,3184394240,3184328704,3184263168,3184197632,3184132096,3184066560,3184001024,3183935488,3183869952,3183804416,3183738880,3183673344,3183607808,3183542272,3183476736,3183411200,3183345664,3183280128,3183214592,3183149056,3183083520,3183017984,3182952448,3182886912,3182821376,3182755840,3182690304,3182624768,3182559232,3182493696,3182428160,3182362624,3182297088,3182231552,3182166016,3182100480,3182034944,3181969408,3181903872,3181838336,3181772800,3181707264,3181641728,3181576192,3181510656,3181445120,3181379584,3181314048,3181248512,3181182976,3181117440,3181051904,3180986368,3180920832,3180855296,3180789760,3180724224,3180658688,3180593152,3180527616,3180462080,3180396544,3180331008,3180265472,3180199936,3180134400,3180068864,3180003328,3179937792,3179872256,3179806720,3179741184,3179675648,3179610112,3179544576,3179479040,3179413504,3179347968,3179282432,3179151360,3179020288,3178889216,3178758144,3178627072,3178496000,3178364928,3178233856,3178102784,3177971712,3177840640,3177709568,3177578496,3177447424,3177316352,3177185280,3177054208,3176923136,3176792064,3176660992,3176529920,3176398848,3176267776,3176136704,3176005632,3175874560,3175743488,3175612416,3175481344,3175350272,3175219200,3175088128,3174957056,3174825984,3174694912,3174563840,3174432768,3174301696,3174170624,3174039552,3173908480,3173777408,3173646336,3173515264,3173384192,3173253120,3173122048,3172990976,3172859904,3172728832,3172597760,3172466688,3172335616,3172204544,3172073472,3171942400,3171811328,3171680256,3171549184,3171418112,3171287040,3171155968,3171024896,3170893824,3170762752,3170631680,3170500608,3170369536,3170238464,3170107392,3169976320,3169845248,3169714176,3169583104,3169452032,3169320960,3169189888,3169058816,3168927744,3168796672,3168665600,3168534528,3168403456,3168272384,3168141312,3168010240,3167879168,3167748096,3167617024,3167485952,3167354880,3167223808,3167092736,3166961664,3166830592,3166699520,3166568448,3166437376,3166306304,3166175232,3166044160,3165913088,3165782016,3165650944,3165519872,3165388800,3165257728,3165126656,3164995584,3164864512,3164733440,3164602368,3164471296,3164340224,3164209152,3164078080,3163947008,3163815936,3163684864,3163553792,3163422720,3163291648,3163160576,3163029504,3162898432,3162767360,3162636288,3162505216,3162374144,3162243072,3162112000,3161980928,3161849856,3161718784,3161587712,3161456640,3161325568,3161194496,3161063424,3160932352,3160801280,3160670208,3160539136,3160408064,3160276992,3160145920,3160014848,3159883776,3159752704,3159621632,3159490560,3159359488,3159228416,3159097344,3158966272,3158835200,3158704128,3158573056,3158441984,3158310912,3158179840,3158048768,3157917696,3157786624,3157655552,3157524480,3157393408,3157262336,3157131264,3157000192,3156869120,3156738048,3156606976,3156475904,3156344832,3156213760,3156082688,3155951616,3155820544,3155689472,3155558400,3155427328,3155296256,3155165184,3155034112,3154903040,3154771968,3154640896,3154509824,3154378752,3154247680,3154116608,3153985536,3153854464,3153723392,3153592320,3153461248,3153330176,3153199104,3153068032,3152936960,3152805888,3152674816,3152543744,3152412672,3152281600,3152150528,3152019456,3151888384,3151757312,3151626240,3151495168,3151364096,3151233024,3151101952,3150970880,3150839808,3150708736,3150577664,3150446592,3150315520,3150184448,3150053376,3149922304,3149791232,3149660160,3149529088,3149398016,3149266944,3149135872,3149004800,3148873728,3148742656,3148611584,3148480512,3148349440,3148218368,3148087296,3147956224,3147825152,3147694080,3147563008,3147431936,3147300864,3147169792,3147038720,3146907648,3146776576,3146645504,3146514432,3146383360,3146252288,3146121216,3145990144,3145859072,3145728000,3145465856,3145203712,3144941568,3144679424,3144417280,3144155136,3143892992,3143630848,3143368704,3143106560,3142844416,3142582272,3142320128,3142057984,3141795840,3141533696,3141271552,3141009408,3140747264,3140485120,3140222976,3139960832,3139698688,3139436544,3139174400,3138912256,3138650112,3138387968,3138125824,3137863680,3137601536,3137339392,3137077248,3136815104,3136552960,3136290816,3136028672,3135766528,3135504384,3135242240,3134980096,3134717952,3134455808,3134193664,3133931520,3133669376,3133407232,3133145088,3132882944,3132620800,3132358656,3132096512,3131834368,3131572224,3131310080,3131047936,3130785792,3130523648,3130261504,3129999360,3129737216,3129475072,3129212928,3128950784,3128688640,3128426496,3128164352,3127902208,3127640064,3127377920,3127115776,3126853632,3126591488,3126329344,3126067200,3125805056,3125542912,3125280768,3125018624,3124756480,3124494336,3124232192,3123970048,3123707904,3123445760,3123183616,3122921472,3122659328,3122397184,3122135040,3121872896,3121610752,3121348608,3121086464,3120824320,3120562176,3120300032,3120037888,3119775744,3119513600,3119251456,3118989312,3118727168,3118465024,3118202880,3117940736,3117678592,3117416448,3117154304,3116892160,3116630016,3116367872,3116105728,3115843584,3115581440,3115319296,3115057152,3114795008,3114532864,3114270720,3114008576,3113746432,3113484288,3113222144,3112960000,3112697856,3112435712,3112173568,3111649280,3111124992,3110600704,3110076416,3109552128,3109027840,3108503552,3107979264,3107454976,3106930688,3106406400,3105882112,3105357824,3104833536,3104309248,3103784960,3103260672,3102736384,3102212096,3101687808,3101163520,3100639232,3100114944,3099590656,3099066368,3098542080,3098017792,3097493504,3096969216,3096444928,3095920640,3095396352,3094872064,3094347776,3093823488,3093299200,3092774912,3092250624,3091726336,3091202048,3090677760,3090153472,3089629184,3089104896,3088580608,3088056320,3087532032,3087007744,3086483456,3085959168,3085434880,3084910592,3084386304,3083862016,3083337728,3082813440,3082289152,3081764864,3081240576,3080716288,3080192000,3079667712,3079143424,3078619136,3077570560,3076521984,3075473408,3074424832,3073376256,3072327680,3071279104,3070230528,3069181952,3068133376,3067084800,3066036224,3064987648,3063939072,3062890496,3061841920,3060793344,3059744768,3058696192,3057647616,3056599040,3055550464,3054501888,3053453312,3052404736,3051356160,3050307584,3049259008,3048210432,3047161856,3046113280,3045064704,3042967552,3040870400,3038773248,3036676096,3034578944,3032481792,3030384640,3028287488,3026190336,3024093184,3021996032,3019898880,3017801728,3015704576,3013607424,3011510272,3007315968,3003121664,2998927360,2994733056,2990538752,2986344448,2982150144,2977955840,2969567232,2961178624,2952790016,2944401408,2927624192,2910846976,2877292544,};} 
diff --git a/src/posit8_tbl.cpp b/src/posit8_tbl.cpp
index 82e986a..3fd851a 100644
--- a/src/posit8_tbl.cpp
+++ b/src/posit8_tbl.cpp
@@ -8,7 +8,7 @@ int8_t opmul[] = {
 int8_t opdiv[] = {
 -128,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,-128,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,-128,64,32,21,16,12,10,9,8,7,6,5,5,4,4,4,4,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-4,-4,-4,-4,-5,-5,-6,-7,-8,-9,-10,-12,-16,-21,-32,-64,-128,96,64,42,32,25,21,18,16,14,12,11,10,9,9,8,8,7,7,6,6,6,5,5,5,5,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-6,-6,-6,-7,-7,-8,-8,-9,-9,-10,-11,-12,-14,-16,-18,-21,-25,-32,-42,-64,-96,-128,104,80,64,48,38,32,27,24,21,19,17,16,14,13,12,12,11,10,10,9,9,8,8,8,7,7,7,6,6,6,6,6,5,5,5,5,5,5,4,4,4,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-10,-10,-11,-12,-12,-13,-14,-16,-17,-19,-21,-24,-27,-32,-38,-48,-64,-80,-104,-128,112,96,74,64,51,42,36,32,28,25,23,21,19,18,17,16,15,14,13,12,12,11,11,10,10,9,9,9,8,8,8,8,7,7,7,7,6,6,6,6,6,6,5,5,5,5,5,5,5,5,5,4,4,4,4,4,4,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-8,-8,-8,-8,-9,-9,-9,-10,-10,-11,-11,-12,-12,-13,-14,-15,-16,-17,-18,-19,-21,-23,-25,-28,-32,-36,-42,-51,-64,-74,-96,-112,-128,114,100,85,72,64,53,45,40,35,32,29,26,24,22,21,20,18,17,16,16,15,14,13,13,12,12,11,11,11,10,10,10,9,9,9,8,8,8,8,8,7,7,7,7,7,6,6,6,6,6,6,6,6,5,5,5,5,5,5,5,5,5,5,5,4,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-9,-9,-9,-10,-10,-10,-11,-11,-11,-12,-12,-13,-13,-14,-15,-16,-16,-17,-18,-20,-21,-22,-24,-26,-29,-32,-35,-40,-45,-53,-64,-72,-85,-100,-114,-128,116,104,96,80,70,64,54,48,42,38,34,32,29,27,25,24,22,21,20,19,18,17,16,16,15,14,14,13,13,12,12,12,11,11,10,10,10,10,9,9,9,9,8,8,8,8,8,8,7,7,7,7,7,7,6,6,6,6,6,6,6,6,6,6,5,5,5,5,5,5,4,4,4,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-10,-10,-10,-10,-11,-11,-12,-12,-12,-13,-13,-14,-14,-15,-16,-16,-17,-18,-19,-20,-21,-22,-24,-25,-27,-29,-32,-34,-38,-42,-48,-54,-64,-70,-80,-96,-104,-116,-128,118,108,98,88,76,69,64,56,49,44,40,37,34,32,29,28,26,24,23,22,21,20,19,18,17,17,16,16,15,14,14,14,13,13,12,12,12,11,11,11,10,10,10,10,9,9,9,9,9,8,8,8,8,8,8,8,7,7,7,7,7,7,7,7,6,6,6,6,6,5,5,5,5,5,5,5,4,4,4,4,4,4,4,4,4,4,4,4,3,3,3,3,3,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-10,-10,-10,-10,-11,-11,-11,-12,-12,-12,-13,-13,-14,-14,-14,-15,-16,-16,-17,-17,-18,-19,-20,-21,-22,-23,-24,-26,-28,-29,-32,-34,-37,-40,-44,-49,-56,-64,-69,-76,-88,-98,-108,-118,-128,120,112,101,96,83,74,68,64,56,51,46,42,39,36,34,32,30,28,26,25,24,23,22,21,20,19,18,18,17,17,16,16,15,15,14,14,13,13,13,12,12,12,11,11,11,11,10,10,10,10,10,9,9,9,9,9,8,8,8,8,8,8,8,8,7,7,7,7,6,6,6,6,6,6,5,5,5,5,5,5,5,5,5,4,4,4,4,4,4,4,4,4,4,4,4,4,3,3,3,3,3,2,2,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-11,-12,-12,-12,-13,-13,-13,-14,-14,-15,-15,-16,-16,-17,-17,-18,-18,-19,-20,-21,-22,-23,-24,-25,-26,-28,-30,-32,-34,-36,-39,-42,-46,-51,-56,-64,-68,-74,-83,-96,-101,-112,-120,-128,120,113,104,98,89,80,73,68,64,57,52,48,44,41,38,36,33,32,30,28,27,26,25,24,23,22,21,20,19,19,18,18,17,16,16,16,15,15,14,14,14,13,13,13,12,12,12,12,11,11,11,11,10,10,10,10,10,9,9,9,9,9,9,9,8,8,8,8,7,7,7,7,7,6,6,6,6,6,6,6,5,5,5,5,5,5,5,5,5,4,4,4,4,4,4,4,4,4,3,3,3,3,3,3,2,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-8,-8,-8,-8,-9,-9,-9,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-14,-14,-14,-15,-15,-16,-16,-16,-17,-18,-18,-19,-19,-20,-21,-22,-23,-24,-25,-26,-27,-28,-30,-32,-33,-36,-38,-41,-44,-48,-52,-57,-64,-68,-73,-80,-89,-98,-104,-113,-120,-128,121,114,106,100,96,85,77,72,67,64,58,53,49,45,42,40,37,35,33,32,30,29,27,26,25,24,23,22,22,21,20,20,19,18,18,17,17,16,16,16,15,15,14,14,14,13,13,13,13,12,12,12,12,11,11,11,11,11,10,10,10,10,10,10,9,9,9,8,8,8,8,8,7,7,7,7,7,6,6,6,6,6,6,6,6,5,5,5,5,5,5,5,5,5,5,5,4,4,4,4,3,3,3,3,3,3,2,2,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-9,-9,-9,-10,-10,-10,-10,-10,-10,-11,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-13,-14,-14,-14,-15,-15,-16,-16,-16,-17,-17,-18,-18,-19,-20,-20,-21,-22,-22,-23,-24,-25,-26,-27,-29,-30,-32,-33,-35,-37,-40,-42,-45,-49,-53,-58,-64,-67,-72,-77,-85,-96,-100,-106,-114,-121,-128,121,115,109,102,97,90,82,76,71,67,64,58,54,50,46,44,41,39,37,35,33,32,30,29,28,27,26,25,24,23,22,22,21,20,20,19,19,18,18,17,17,16,16,16,15,15,14,14,14,14,13,13,13,13,12,12,12,12,11,11,11,11,11,11,10,10,10,9,9,9,9,8,8,8,8,8,7,7,7,7,7,7,6,6,6,6,6,6,6,6,5,5,5,5,5,5,5,4,4,4,4,4,3,3,3,3,3,3,3,2,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-9,-9,-9,-9,-10,-10,-10,-11,-11,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-13,-14,-14,-14,-14,-15,-15,-16,-16,-16,-17,-17,-18,-18,-19,-19,-20,-20,-21,-22,-22,-23,-24,-25,-26,-27,-28,-29,-30,-32,-33,-35,-37,-39,-41,-44,-46,-50,-54,-58,-64,-67,-71,-76,-82,-90,-97,-102,-109,-115,-121,-128,122,116,112,104,99,96,86,80,74,70,66,64,59,54,51,48,45,42,40,38,36,34,33,32,30,29,28,27,26,25,24,24,23,22,21,21,20,20,19,19,18,18,17,17,17,16,16,16,15,15,15,14,14,14,13,13,13,13,13,12,12,12,12,12,11,11,10,10,10,10,9,9,9,9,8,8,8,8,8,8,7,7,7,7,7,7,6,6,6,6,6,6,6,6,6,6,5,5,5,4,4,4,4,4,3,3,3,3,3,3,3,3,2,2,2,2,1,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-5,-5,-5,-6,-6,-6,-6,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-10,-10,-10,-10,-11,-11,-12,-12,-12,-12,-12,-13,-13,-13,-13,-13,-14,-14,-14,-15,-15,-15,-16,-16,-16,-17,-17,-17,-18,-18,-19,-19,-20,-20,-21,-21,-22,-23,-24,-24,-25,-26,-27,-28,-29,-30,-32,-33,-34,-36,-38,-40,-42,-45,-48,-51,-54,-59,-64,-66,-70,-74,-80,-86,-96,-99,-104,-112,-116,-122,-128,122,117,112,106,100,97,91,84,78,73,69,66,64,59,55,52,48,46,43,41,39,37,36,34,33,32,30,29,28,27,26,26,25,24,23,23,22,21,21,20,20,19,19,18,18,18,17,17,16,16,16,16,15,15,15,14,14,14,14,13,13,13,13,13,12,12,11,11,11,10,10,10,10,9,9,9,9,9,8,8,8,8,8,8,7,7,7,7,7,7,7,6,6,6,6,6,6,5,5,5,4,4,4,4,4,4,3,3,3,3,3,3,2,2,2,2,2,1,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-5,-5,-5,-6,-6,-6,-6,-6,-6,-7,-7,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-10,-10,-10,-10,-11,-11,-11,-12,-12,-13,-13,-13,-13,-13,-14,-14,-14,-14,-15,-15,-15,-16,-16,-16,-16,-17,-17,-18,-18,-18,-19,-19,-20,-20,-21,-21,-22,-23,-23,-24,-25,-26,-26,-27,-28,-29,-30,-32,-33,-34,-36,-37,-39,-41,-43,-46,-48,-52,-55,-59,-64,-66,-69,-73,-78,-84,-91,-97,-100,-106,-112,-117,-122,-128,123,118,113,108,102,98,96,88,81,76,72,69,66,64,59,56,52,49,47,44,42,40,38,37,35,34,33,32,30,29,28,28,27,26,25,24,24,23,22,22,21,21,20,20,19,19,19,18,18,17,17,17,16,16,16,16,15,15,15,14,14,14,14,14,13,13,12,12,12,11,11,11,10,10,10,10,9,9,9,9,9,8,8,8,8,8,8,8,7,7,7,7,7,7,7,7,6,6,5,5,5,5,4,4,4,4,4,4,3,3,3,3,3,2,2,2,2,2,1,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-3,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-6,-6,-7,-7,-7,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-10,-10,-10,-10,-11,-11,-11,-12,-12,-12,-13,-13,-14,-14,-14,-14,-14,-15,-15,-15,-16,-16,-16,-16,-17,-17,-17,-18,-18,-19,-19,-19,-20,-20,-21,-21,-22,-22,-23,-24,-24,-25,-26,-27,-28,-28,-29,-30,-32,-33,-34,-35,-37,-38,-40,-42,-44,-47,-49,-52,-56,-59,-64,-66,-69,-72,-76,-81,-88,-96,-98,-102,-108,-113,-118,-123,-128,123,119,114,110,104,100,97,92,85,80,75,72,68,66,64,60,56,53,50,48,45,43,41,40,38,36,35,34,33,32,30,30,29,28,27,26,25,25,24,24,23,22,22,21,21,20,20,20,19,19,18,18,18,17,17,17,16,16,16,16,15,15,15,15,14,14,13,13,12,12,12,12,11,11,11,10,10,10,10,10,9,9,9,9,9,8,8,8,8,8,8,8,7,7,7,7,7,6,6,6,5,5,5,5,4,4,4,4,4,4,3,3,3,3,2,2,2,2,2,1,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-3,-3,-3,-3,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-6,-6,-6,-7,-7,-7,-7,-7,-8,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-12,-12,-12,-12,-13,-13,-14,-14,-15,-15,-15,-15,-16,-16,-16,-16,-17,-17,-17,-18,-18,-18,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-24,-24,-25,-25,-26,-27,-28,-29,-30,-30,-32,-33,-34,-35,-36,-38,-40,-41,-43,-45,-48,-50,-53,-56,-60,-64,-66,-68,-72,-75,-80,-85,-92,-97,-100,-104,-110,-114,-119,-123,-128,124,120,114,112,105,101,98,96,88,83,78,74,71,68,66,64,60,56,53,51,48,46,44,42,40,39,37,36,35,34,33,32,31,30,29,28,27,26,26,25,24,24,23,23,22,22,21,21,20,20,20,19,19,18,18,18,17,17,17,17,16,16,16,16,15,15,14,14,13,13,13,12,12,12,11,11,11,11,10,10,10,10,10,9,9,9,9,9,8,8,8,8,8,8,8,8,7,7,6,6,6,5,5,5,5,4,4,4,4,4,4,4,3,3,2,2,2,2,2,2,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-2,-3,-3,-4,-4,-4,-4,-4,-4,-4,-5,-5,-5,-5,-6,-6,-6,-7,-7,-8,-8,-8,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-11,-12,-12,-12,-13,-13,-13,-14,-14,-15,-15,-16,-16,-16,-16,-17,-17,-17,-17,-18,-18,-18,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-26,-26,-27,-28,-29,-30,-31,-32,-33,-34,-35,-36,-37,-39,-40,-42,-44,-46,-48,-51,-53,-56,-60,-64,-66,-68,-71,-74,-78,-83,-88,-96,-98,-101,-105,-112,-114,-120,-124,-128,124,120,115,112,107,102,99,97,92,86,81,77,73,70,68,66,64,60,57,54,51,49,47,45,43,41,40,38,37,36,35,34,32,32,31,30,29,28,27,27,26,25,25,24,24,23,23,22,22,21,21,20,20,20,19,19,19,18,18,18,17,17,17,17,16,16,15,15,14,14,13,13,13,12,12,12,12,11,11,11,11,10,10,10,10,10,9,9,9,9,9,9,8,8,8,8,8,7,7,6,6,6,5,5,5,5,5,4,4,4,4,4,3,3,3,2,2,2,2,2,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-2,-3,-3,-3,-4,-4,-4,-4,-4,-5,-5,-5,-5,-5,-6,-6,-6,-7,-7,-8,-8,-8,-8,-8,-9,-9,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-14,-14,-15,-15,-16,-16,-17,-17,-17,-17,-18,-18,-18,-19,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-25,-26,-27,-27,-28,-29,-30,-31,-32,-32,-34,-35,-36,-37,-38,-40,-41,-43,-45,-47,-49,-51,-54,-57,-60,-64,-66,-68,-70,-73,-77,-81,-86,-92,-97,-99,-102,-107,-112,-115,-120,-124,-128,124,120,116,113,108,104,100,98,96,89,84,80,76,73,70,68,65,64,60,57,54,52,50,48,46,44,42,41,39,38,37,36,34,33,32,32,31,30,29,28,28,27,26,26,25,25,24,24,23,23,22,22,21,21,20,20,20,19,19,19,18,18,18,18,17,16,16,16,15,15,14,14,14,13,13,13,12,12,12,12,11,11,11,11,10,10,10,10,10,9,9,9,9,9,9,9,8,8,7,7,6,6,6,6,5,5,5,5,4,4,4,4,4,3,3,3,2,2,2,2,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-3,-3,-3,-4,-4,-4,-4,-4,-5,-5,-5,-5,-6,-6,-6,-6,-7,-7,-8,-8,-9,-9,-9,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-14,-14,-14,-15,-15,-16,-16,-16,-17,-18,-18,-18,-18,-19,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-25,-26,-26,-27,-28,-28,-29,-30,-31,-32,-32,-33,-34,-36,-37,-38,-39,-41,-42,-44,-46,-48,-50,-52,-54,-57,-60,-64,-65,-68,-70,-73,-76,-80,-84,-89,-96,-98,-100,-104,-108,-113,-116,-120,-124,-128,124,120,116,113,110,105,101,99,96,92,87,82,78,75,72,70,67,65,64,60,57,55,52,50,48,46,45,43,41,40,39,38,36,35,34,33,32,32,31,30,29,28,28,27,27,26,25,25,24,24,23,23,22,22,22,21,21,20,20,20,19,19,19,19,18,17,17,16,16,16,15,15,14,14,14,13,13,13,12,12,12,12,11,11,11,11,11,10,10,10,10,10,9,9,9,9,8,8,8,7,7,6,6,6,6,5,5,5,5,5,4,4,4,3,3,3,2,2,2,2,1,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-3,-3,-3,-4,-4,-4,-5,-5,-5,-5,-5,-6,-6,-6,-6,-7,-7,-8,-8,-8,-9,-9,-9,-9,-10,-10,-10,-10,-10,-11,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-14,-14,-14,-15,-15,-16,-16,-16,-17,-17,-18,-19,-19,-19,-19,-20,-20,-20,-21,-21,-22,-22,-22,-23,-23,-24,-24,-25,-25,-26,-27,-27,-28,-28,-29,-30,-31,-32,-32,-33,-34,-35,-36,-38,-39,-40,-41,-43,-45,-46,-48,-50,-52,-55,-57,-60,-64,-65,-67,-70,-72,-75,-78,-82,-87,-92,-96,-99,-101,-105,-110,-113,-116,-120,-124,-128,124,121,117,114,112,106,102,100,97,96,90,85,81,77,74,72,69,67,65,64,60,58,55,53,51,49,47,45,44,42,41,40,38,37,36,35,34,33,32,32,31,30,29,29,28,27,27,26,26,25,25,24,24,23,23,22,22,22,21,21,20,20,20,20,19,18,18,17,17,16,16,16,15,15,14,14,14,13,13,13,13,12,12,12,12,11,11,11,11,11,10,10,10,10,10,10,9,8,8,8,7,7,6,6,6,6,5,5,5,5,5,5,4,4,3,3,3,2,2,2,2,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-2,-2,-2,-2,-3,-3,-3,-4,-4,-5,-5,-5,-5,-5,-5,-6,-6,-6,-6,-7,-7,-8,-8,-8,-9,-10,-10,-10,-10,-10,-10,-11,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-13,-14,-14,-14,-15,-15,-16,-16,-16,-17,-17,-18,-18,-19,-20,-20,-20,-20,-21,-21,-22,-22,-22,-23,-23,-24,-24,-25,-25,-26,-26,-27,-27,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-40,-41,-42,-44,-45,-47,-49,-51,-53,-55,-58,-60,-64,-65,-67,-69,-72,-74,-77,-81,-85,-90,-96,-97,-100,-102,-106,-112,-114,-117,-121,-124,-128,124,121,118,114,112,108,104,101,98,96,93,88,83,80,76,74,71,69,67,65,64,61,58,56,53,51,49,48,46,44,43,42,40,39,38,37,36,35,34,33,32,32,31,30,29,29,28,28,27,26,26,25,25,24,24,24,23,23,22,22,22,21,21,21,20,19,19,18,18,17,17,16,16,16,15,15,14,14,14,14,13,13,13,12,12,12,12,12,11,11,11,11,11,10,10,10,9,9,8,8,8,7,7,7,6,6,6,6,5,5,5,5,4,4,3,3,3,3,2,2,2,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-2,-2,-2,-3,-3,-3,-3,-4,-4,-5,-5,-5,-5,-6,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-10,-10,-10,-11,-11,-11,-11,-11,-12,-12,-12,-12,-12,-13,-13,-13,-14,-14,-14,-14,-15,-15,-16,-16,-16,-17,-17,-18,-18,-19,-19,-20,-21,-21,-21,-22,-22,-22,-23,-23,-24,-24,-24,-25,-25,-26,-26,-27,-28,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-39,-40,-42,-43,-44,-46,-48,-49,-51,-53,-56,-58,-61,-64,-65,-67,-69,-71,-74,-76,-80,-83,-88,-93,-96,-98,-101,-104,-108,-112,-114,-118,-121,-124,-128,124,121,118,115,112,109,105,102,99,97,96,90,86,82,78,76,73,71,69,67,65,64,61,58,56,54,52,50,48,46,45,44,42,41,40,39,38,37,36,35,34,33,32,32,31,30,29,29,28,28,27,27,26,26,25,25,24,24,23,23,23,22,22,22,21,20,20,19,19,18,18,17,17,16,16,16,15,15,14,14,14,14,13,13,13,13,12,12,12,12,11,11,11,11,11,11,10,9,9,8,8,8,7,7,7,6,6,6,6,5,5,5,4,4,4,3,3,3,2,2,2,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-2,-2,-2,-3,-3,-3,-4,-4,-4,-5,-5,-5,-6,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-10,-11,-11,-11,-11,-11,-11,-12,-12,-12,-12,-13,-13,-13,-13,-14,-14,-14,-14,-15,-15,-16,-16,-16,-17,-17,-18,-18,-19,-19,-20,-20,-21,-22,-22,-22,-23,-23,-23,-24,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-39,-40,-41,-42,-44,-45,-46,-48,-50,-52,-54,-56,-58,-61,-64,-65,-67,-69,-71,-73,-76,-78,-82,-86,-90,-96,-97,-99,-102,-105,-109,-112,-115,-118,-121,-124,-128,124,121,119,115,113,110,106,103,100,98,96,93,88,84,81,78,75,72,70,68,67,65,64,61,58,56,54,52,50,49,47,46,44,43,42,40,39,38,37,36,35,35,34,33,32,32,31,30,30,29,28,28,27,27,26,26,25,25,24,24,24,23,23,23,22,21,21,20,19,19,18,18,17,17,17,16,16,16,15,15,15,14,14,14,13,13,13,13,12,12,12,12,12,11,11,11,10,10,9,9,8,8,8,7,7,7,6,6,6,6,5,5,5,4,4,3,3,3,3,2,2,1,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-1,-2,-2,-3,-3,-3,-3,-4,-4,-5,-5,-5,-6,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-10,-10,-11,-11,-11,-12,-12,-12,-12,-12,-13,-13,-13,-13,-14,-14,-14,-15,-15,-15,-16,-16,-16,-17,-17,-17,-18,-18,-19,-19,-20,-21,-21,-22,-23,-23,-23,-24,-24,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-30,-30,-31,-32,-32,-33,-34,-35,-35,-36,-37,-38,-39,-40,-42,-43,-44,-46,-47,-49,-50,-52,-54,-56,-58,-61,-64,-65,-67,-68,-70,-72,-75,-78,-81,-84,-88,-93,-96,-98,-100,-103,-106,-110,-113,-115,-119,-121,-124,-128,125,122,120,116,113,112,107,104,101,99,97,96,91,86,83,80,77,74,72,70,68,66,65,64,61,59,56,54,52,51,49,48,46,45,43,42,41,40,39,38,37,36,35,34,34,33,32,32,31,30,30,29,28,28,27,27,26,26,26,25,25,24,24,24,23,22,21,21,20,20,19,19,18,18,17,17,17,16,16,16,15,15,15,14,14,14,13,13,13,13,13,12,12,12,12,12,11,10,10,9,9,8,8,8,7,7,7,6,6,6,6,6,5,4,4,4,3,3,3,3,2,2,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-2,-2,-3,-3,-3,-3,-4,-4,-4,-5,-6,-6,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-10,-10,-11,-12,-12,-12,-12,-12,-13,-13,-13,-13,-13,-14,-14,-14,-15,-15,-15,-16,-16,-16,-17,-17,-17,-18,-18,-19,-19,-20,-20,-21,-21,-22,-23,-24,-24,-24,-25,-25,-26,-26,-26,-27,-27,-28,-28,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-38,-39,-40,-41,-42,-43,-45,-46,-48,-49,-51,-52,-54,-56,-59,-61,-64,-65,-66,-68,-70,-72,-74,-77,-80,-83,-86,-91,-96,-97,-99,-101,-104,-107,-112,-113,-116,-120,-122,-125,-128,125,122,120,116,114,112,108,105,102,100,98,96,93,89,85,82,79,76,74,72,70,68,66,65,64,61,59,57,55,53,51,50,48,47,45,44,43,42,41,40,39,38,37,36,35,34,34,33,32,32,31,30,30,29,29,28,28,27,27,26,26,25,25,25,24,23,22,22,21,21,20,20,19,19,18,18,17,17,17,16,16,16,15,15,15,14,14,14,14,13,13,13,13,12,12,12,11,11,10,10,9,9,8,8,8,7,7,7,6,6,6,6,5,5,4,4,3,3,3,3,2,2,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-2,-2,-3,-3,-3,-3,-4,-4,-5,-5,-6,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-10,-10,-11,-11,-12,-12,-12,-13,-13,-13,-13,-14,-14,-14,-14,-15,-15,-15,-16,-16,-16,-17,-17,-17,-18,-18,-19,-19,-20,-20,-21,-21,-22,-22,-23,-24,-25,-25,-25,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-38,-39,-40,-41,-42,-43,-44,-45,-47,-48,-50,-51,-53,-55,-57,-59,-61,-64,-65,-66,-68,-70,-72,-74,-76,-79,-82,-85,-89,-93,-96,-98,-100,-102,-105,-108,-112,-114,-116,-120,-122,-125,-128,125,122,120,117,114,112,109,106,103,100,98,97,96,91,87,84,80,78,75,73,71,69,68,66,65,64,61,59,57,55,53,52,50,48,47,46,44,43,42,41,40,39,38,37,36,36,35,34,33,33,32,32,31,30,30,29,29,28,28,27,27,26,26,26,25,24,23,23,22,21,21,20,20,19,19,18,18,18,17,17,16,16,16,16,15,15,15,14,14,14,14,13,13,13,13,13,12,11,10,10,9,9,9,8,8,8,7,7,7,6,6,6,5,5,4,4,4,3,3,3,2,2,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-2,-2,-3,-3,-3,-4,-4,-4,-5,-5,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-9,-10,-10,-11,-12,-13,-13,-13,-13,-13,-14,-14,-14,-14,-15,-15,-15,-16,-16,-16,-16,-17,-17,-18,-18,-18,-19,-19,-20,-20,-21,-21,-22,-23,-23,-24,-25,-26,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-36,-36,-37,-38,-39,-40,-41,-42,-43,-44,-46,-47,-48,-50,-52,-53,-55,-57,-59,-61,-64,-65,-66,-68,-69,-71,-73,-75,-78,-80,-84,-87,-91,-96,-97,-98,-100,-103,-106,-109,-112,-114,-117,-120,-122,-125,-128,125,122,120,117,114,113,110,107,104,101,99,98,96,93,89,86,82,80,77,75,73,71,69,68,66,65,64,61,59,57,55,54,52,50,49,48,46,45,44,43,42,41,40,39,38,37,36,36,35,34,33,33,32,32,31,30,30,29,29,28,28,27,27,27,26,25,24,24,23,22,22,21,21,20,20,19,19,18,18,18,17,17,16,16,16,16,15,15,15,14,14,14,14,13,13,13,12,12,11,10,10,9,9,9,8,8,8,7,7,7,6,6,6,5,4,4,4,3,3,3,2,2,1,1,1,1,1,-128,-1,-1,-1,-1,-1,-2,-2,-3,-3,-3,-4,-4,-4,-5,-6,-6,-6,-7,-7,-7,-8,-8,-8,-9,-9,-9,-10,-10,-11,-12,-12,-13,-13,-13,-14,-14,-14,-14,-15,-15,-15,-16,-16,-16,-16,-17,-17,-18,-18,-18,-19,-19,-20,-20,-21,-21,-22,-22,-23,-24,-24,-25,-26,-27,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-36,-36,-37,-38,-39,-40,-41,-42,-43,-44,-45,-46,-48,-49,-50,-52,-54,-55,-57,-59,-61,-64,-65,-66,-68,-69,-71,-73,-75,-77,-80,-82,-86,-89,-93,-96,-98,-99,-101,-104,-107,-110,-113,-114,-117,-120,-122,-125,-128,125,123,120,118,115,113,112,108,104,102,100,98,97,96,91,88,84,81,79,76,74,72,70,69,67,66,65,64,61,59,57,56,54,52,51,49,48,47,45,44,43,42,41,40,39,38,38,37,36,35,35,34,33,33,32,32,31,30,30,29,29,28,28,28,27,26,25,24,24,23,22,22,21,21,20,20,19,19,19,18,18,17,17,17,16,16,16,16,15,15,15,14,14,14,14,14,13,12,11,11,10,10,9,9,8,8,8,8,7,7,7,7,6,5,5,4,4,4,3,3,2,2,2,1,1,1,1,-128,-1,-1,-1,-1,-2,-2,-2,-3,-3,-4,-4,-4,-5,-5,-6,-7,-7,-7,-7,-8,-8,-8,-8,-9,-9,-10,-10,-11,-11,-12,-13,-14,-14,-14,-14,-14,-15,-15,-15,-16,-16,-16,-16,-17,-17,-17,-18,-18,-19,-19,-19,-20,-20,-21,-21,-22,-22,-23,-24,-24,-25,-26,-27,-28,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-35,-36,-37,-38,-38,-39,-40,-41,-42,-43,-44,-45,-47,-48,-49,-51,-52,-54,-56,-57,-59,-61,-64,-65,-66,-67,-69,-70,-72,-74,-76,-79,-81,-84,-88,-91,-96,-97,-98,-100,-102,-104,-108,-112,-113,-115,-118,-120,-123,-125,-128,125,123,120,118,115,113,112,109,105,103,101,99,97,96,93,90,86,83,80,78,76,74,72,70,69,67,66,65,64,61,59,58,56,54,53,51,50,48,47,46,45,44,43,42,41,40,39,38,37,37,36,35,35,34,33,33,32,32,31,30,30,29,29,29,28,27,26,25,25,24,23,23,22,22,21,21,20,20,19,19,18,18,18,17,17,17,16,16,16,16,15,15,15,14,14,14,13,12,12,11,11,10,10,9,9,8,8,8,8,7,7,7,6,5,5,4,4,4,3,3,2,2,2,1,1,1,1,-128,-1,-1,-1,-1,-2,-2,-2,-3,-3,-4,-4,-4,-5,-5,-6,-7,-7,-7,-8,-8,-8,-8,-9,-9,-10,-10,-11,-11,-12,-12,-13,-14,-14,-14,-15,-15,-15,-16,-16,-16,-16,-17,-17,-17,-18,-18,-18,-19,-19,-20,-20,-21,-21,-22,-22,-23,-23,-24,-25,-25,-26,-27,-28,-29,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-35,-36,-37,-37,-38,-39,-40,-41,-42,-43,-44,-45,-46,-47,-48,-50,-51,-53,-54,-56,-58,-59,-61,-64,-65,-66,-67,-69,-70,-72,-74,-76,-78,-80,-83,-86,-90,-93,-96,-97,-99,-101,-103,-105,-109,-112,-113,-115,-118,-120,-123,-125,-128,125,123,121,119,116,114,112,110,106,104,101,100,98,97,96,92,88,85,82,80,77,75,73,72,70,68,67,66,65,64,61,60,58,56,54,53,51,50,49,48,46,45,44,43,42,41,40,40,39,38,37,36,36,35,34,34,33,33,32,32,31,30,30,30,29,28,27,26,25,25,24,24,23,22,22,21,21,20,20,20,19,19,18,18,18,17,17,17,16,16,16,16,15,15,15,15,14,13,12,12,11,10,10,10,9,9,8,8,8,8,7,7,6,6,5,5,4,4,4,3,3,2,2,1,1,1,1,-128,-1,-1,-1,-1,-2,-2,-3,-3,-4,-4,-4,-5,-5,-6,-6,-7,-7,-8,-8,-8,-8,-9,-9,-10,-10,-10,-11,-12,-12,-13,-14,-15,-15,-15,-15,-16,-16,-16,-16,-17,-17,-17,-18,-18,-18,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-24,-24,-25,-25,-26,-27,-28,-29,-30,-30,-30,-31,-32,-32,-33,-33,-34,-34,-35,-36,-36,-37,-38,-39,-40,-40,-41,-42,-43,-44,-45,-46,-48,-49,-50,-51,-53,-54,-56,-58,-60,-61,-64,-65,-66,-67,-68,-70,-72,-73,-75,-77,-80,-82,-85,-88,-92,-96,-97,-98,-100,-101,-104,-106,-110,-112,-114,-116,-119,-121,-123,-125,-128,125,123,121,119,116,114,112,111,107,104,102,100,99,97,96,94,90,87,84,81,79,77,75,73,71,70,68,67,66,65,64,62,60,58,56,55,53,52,50,49,48,47,46,45,44,43,42,41,40,39,38,38,37,36,36,35,34,34,33,33,32,32,31,31,30,29,28,27,26,26,25,24,24,23,23,22,22,21,21,20,20,19,19,19,18,18,18,17,17,17,16,16,16,16,15,15,14,13,13,12,11,11,10,10,9,9,9,8,8,8,8,7,6,6,5,5,4,4,4,3,3,2,2,1,1,1,1,-128,-1,-1,-1,-1,-2,-2,-3,-3,-4,-4,-4,-5,-5,-6,-6,-7,-8,-8,-8,-8,-9,-9,-9,-10,-10,-11,-11,-12,-13,-13,-14,-15,-15,-16,-16,-16,-16,-17,-17,-17,-18,-18,-18,-19,-19,-19,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-26,-26,-27,-28,-29,-30,-31,-31,-32,-32,-33,-33,-34,-34,-35,-36,-36,-37,-38,-38,-39,-40,-41,-42,-43,-44,-45,-46,-47,-48,-49,-50,-52,-53,-55,-56,-58,-60,-62,-64,-65,-66,-67,-68,-70,-71,-73,-75,-77,-79,-81,-84,-87,-90,-94,-96,-97,-99,-100,-102,-104,-107,-111,-112,-114,-116,-119,-121,-123,-125,-128,126,124,121,120,116,114,113,112,108,105,103,101,99,98,97,96,92,88,85,83,80,78,76,74,72,71,69,68,67,66,65,64,62,60,58,56,55,53,52,51,49,48,47,46,45,44,43,42,41,40,40,39,38,37,37,36,35,35,34,34,33,33,32,32,31,30,29,28,27,26,26,25,24,24,23,23,22,22,21,21,20,20,20,19,19,18,18,18,17,17,17,17,16,16,16,16,15,14,13,12,12,11,11,10,10,9,9,9,8,8,8,8,7,6,5,5,4,4,4,4,3,2,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-2,-3,-4,-4,-4,-4,-5,-5,-6,-7,-8,-8,-8,-8,-9,-9,-9,-10,-10,-11,-11,-12,-12,-13,-14,-15,-16,-16,-16,-16,-17,-17,-17,-17,-18,-18,-18,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-26,-26,-27,-28,-29,-30,-31,-32,-32,-33,-33,-34,-34,-35,-35,-36,-37,-37,-38,-39,-40,-40,-41,-42,-43,-44,-45,-46,-47,-48,-49,-51,-52,-53,-55,-56,-58,-60,-62,-64,-65,-66,-67,-68,-69,-71,-72,-74,-76,-78,-80,-83,-85,-88,-92,-96,-97,-98,-99,-101,-103,-105,-108,-112,-113,-114,-116,-120,-121,-124,-126,-128,126,124,121,120,117,115,113,112,109,106,104,102,100,98,97,96,94,90,87,84,82,80,77,76,74,72,71,69,68,67,66,65,64,62,60,58,57,55,54,52,51,50,49,48,46,45,44,44,43,42,41,40,39,39,38,37,37,36,35,35,34,34,33,33,32,31,30,29,28,27,27,26,25,25,24,24,23,22,22,22,21,21,20,20,19,19,19,18,18,18,17,17,17,17,16,16,15,14,13,13,12,12,11,11,10,10,9,9,9,8,8,8,7,6,6,5,5,4,4,4,3,2,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-2,-3,-4,-4,-4,-5,-5,-6,-6,-7,-8,-8,-8,-9,-9,-9,-10,-10,-11,-11,-12,-12,-13,-13,-14,-15,-16,-16,-17,-17,-17,-17,-18,-18,-18,-19,-19,-19,-20,-20,-21,-21,-22,-22,-22,-23,-24,-24,-25,-25,-26,-27,-27,-28,-29,-30,-31,-32,-33,-33,-34,-34,-35,-35,-36,-37,-37,-38,-39,-39,-40,-41,-42,-43,-44,-44,-45,-46,-48,-49,-50,-51,-52,-54,-55,-57,-58,-60,-62,-64,-65,-66,-67,-68,-69,-71,-72,-74,-76,-77,-80,-82,-84,-87,-90,-94,-96,-97,-98,-100,-102,-104,-106,-109,-112,-113,-115,-117,-120,-121,-124,-126,-128,126,124,121,120,117,115,113,112,110,107,104,102,100,99,98,97,96,92,89,86,83,81,79,77,75,73,72,70,69,68,67,66,64,64,62,60,58,57,55,54,53,51,50,49,48,47,46,45,44,43,42,41,41,40,39,38,38,37,36,36,35,35,34,34,32,32,31,30,29,28,27,27,26,25,25,24,24,23,23,22,22,21,21,20,20,20,19,19,19,18,18,18,17,17,17,17,16,15,14,13,12,12,11,11,10,10,10,9,9,9,8,8,7,6,6,5,5,4,4,4,3,2,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-2,-3,-4,-4,-4,-5,-5,-6,-6,-7,-8,-8,-9,-9,-9,-10,-10,-10,-11,-11,-12,-12,-13,-14,-15,-16,-17,-17,-17,-17,-18,-18,-18,-19,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-25,-26,-27,-27,-28,-29,-30,-31,-32,-32,-34,-34,-35,-35,-36,-36,-37,-38,-38,-39,-40,-41,-41,-42,-43,-44,-45,-46,-47,-48,-49,-50,-51,-53,-54,-55,-57,-58,-60,-62,-64,-64,-66,-67,-68,-69,-70,-72,-73,-75,-77,-79,-81,-83,-86,-89,-92,-96,-97,-98,-99,-100,-102,-104,-107,-110,-112,-113,-115,-117,-120,-121,-124,-126,-128,126,124,121,120,118,115,114,112,111,108,105,103,101,100,98,97,96,94,90,88,85,82,80,78,76,75,73,72,70,69,68,67,65,64,64,62,60,58,57,56,54,53,52,50,49,48,47,46,45,44,43,43,42,41,40,40,39,38,37,37,36,36,35,35,33,32,32,31,30,29,28,28,27,26,26,25,24,24,23,23,22,22,21,21,21,20,20,20,19,19,18,18,18,18,17,17,16,15,14,14,13,12,12,11,11,10,10,10,9,9,9,8,7,7,6,5,5,5,4,4,3,2,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-2,-3,-4,-4,-5,-5,-5,-6,-7,-7,-8,-9,-9,-9,-10,-10,-10,-11,-11,-12,-12,-13,-14,-14,-15,-16,-17,-17,-18,-18,-18,-18,-19,-19,-20,-20,-20,-21,-21,-21,-22,-22,-23,-23,-24,-24,-25,-26,-26,-27,-28,-28,-29,-30,-31,-32,-32,-33,-35,-35,-36,-36,-37,-37,-38,-39,-40,-40,-41,-42,-43,-43,-44,-45,-46,-47,-48,-49,-50,-52,-53,-54,-56,-57,-58,-60,-62,-64,-64,-65,-67,-68,-69,-70,-72,-73,-75,-76,-78,-80,-82,-85,-88,-90,-94,-96,-97,-98,-100,-101,-103,-105,-108,-111,-112,-114,-115,-118,-120,-121,-124,-126,-128,126,124,122,120,118,116,114,113,112,108,106,104,102,100,99,98,96,96,92,89,86,84,82,80,78,76,74,73,71,70,69,68,66,65,64,64,62,60,59,57,56,54,53,52,51,50,49,48,47,46,45,44,43,42,41,41,40,39,39,38,37,37,36,36,34,33,32,32,31,30,29,28,28,27,26,26,25,25,24,24,23,23,22,22,21,21,20,20,20,19,19,19,18,18,18,18,16,16,15,14,13,13,12,12,11,11,10,10,9,9,9,9,8,7,6,6,5,5,4,4,3,3,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-3,-3,-4,-4,-5,-5,-6,-6,-7,-8,-9,-9,-9,-9,-10,-10,-11,-11,-12,-12,-13,-13,-14,-15,-16,-16,-18,-18,-18,-18,-19,-19,-19,-20,-20,-20,-21,-21,-22,-22,-23,-23,-24,-24,-25,-25,-26,-26,-27,-28,-28,-29,-30,-31,-32,-32,-33,-34,-36,-36,-37,-37,-38,-39,-39,-40,-41,-41,-42,-43,-44,-45,-46,-47,-48,-49,-50,-51,-52,-53,-54,-56,-57,-59,-60,-62,-64,-64,-65,-66,-68,-69,-70,-71,-73,-74,-76,-78,-80,-82,-84,-86,-89,-92,-96,-96,-98,-99,-100,-102,-104,-106,-108,-112,-113,-114,-116,-118,-120,-122,-124,-126,-128,126,124,122,120,118,116,114,113,112,109,106,104,102,101,99,98,97,96,94,91,88,85,83,81,79,77,75,74,72,71,70,69,67,66,65,64,64,62,60,59,57,56,55,53,52,51,50,49,48,47,46,45,44,43,43,42,41,40,40,39,38,38,37,37,35,34,33,32,32,31,30,29,28,28,27,26,26,25,25,24,24,23,23,22,22,21,21,21,20,20,20,19,19,19,18,18,17,16,15,14,14,13,12,12,11,11,10,10,10,9,9,9,8,7,6,6,5,5,4,4,3,3,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-3,-3,-4,-4,-5,-5,-6,-6,-7,-8,-9,-9,-9,-10,-10,-10,-11,-11,-12,-12,-13,-14,-14,-15,-16,-17,-18,-18,-19,-19,-19,-20,-20,-20,-21,-21,-21,-22,-22,-23,-23,-24,-24,-25,-25,-26,-26,-27,-28,-28,-29,-30,-31,-32,-32,-33,-34,-35,-37,-37,-38,-38,-39,-40,-40,-41,-42,-43,-43,-44,-45,-46,-47,-48,-49,-50,-51,-52,-53,-55,-56,-57,-59,-60,-62,-64,-64,-65,-66,-67,-69,-70,-71,-72,-74,-75,-77,-79,-81,-83,-85,-88,-91,-94,-96,-97,-98,-99,-101,-102,-104,-106,-109,-112,-113,-114,-116,-118,-120,-122,-124,-126,-128,126,124,122,120,119,116,114,113,112,110,107,105,103,101,100,99,97,96,96,92,89,87,84,82,80,78,77,75,73,72,71,70,68,67,66,65,64,64,62,60,59,57,56,55,54,52,51,50,49,48,47,46,45,45,44,43,42,41,41,40,39,39,38,38,36,35,34,33,32,32,31,30,29,28,28,27,27,26,25,25,24,24,23,23,22,22,22,21,21,20,20,20,19,19,19,19,17,16,16,15,14,13,13,12,12,11,11,10,10,10,9,9,8,7,6,6,5,5,5,4,3,3,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-3,-3,-4,-5,-5,-5,-6,-6,-7,-8,-9,-9,-10,-10,-10,-11,-11,-12,-12,-13,-13,-14,-15,-16,-16,-17,-19,-19,-19,-19,-20,-20,-20,-21,-21,-22,-22,-22,-23,-23,-24,-24,-25,-25,-26,-27,-27,-28,-28,-29,-30,-31,-32,-32,-33,-34,-35,-36,-38,-38,-39,-39,-40,-41,-41,-42,-43,-44,-45,-45,-46,-47,-48,-49,-50,-51,-52,-54,-55,-56,-57,-59,-60,-62,-64,-64,-65,-66,-67,-68,-70,-71,-72,-73,-75,-77,-78,-80,-82,-84,-87,-89,-92,-96,-96,-97,-99,-100,-101,-103,-105,-107,-110,-112,-113,-114,-116,-119,-120,-122,-124,-126,-128,126,124,122,120,119,117,115,113,112,111,108,106,104,102,100,99,98,97,96,94,91,88,86,84,81,80,78,76,75,73,72,71,69,68,67,66,65,64,64,62,60,59,58,56,55,54,53,52,50,49,48,48,47,46,45,44,43,43,42,41,40,40,39,39,37,36,35,34,33,32,32,31,30,29,29,28,27,27,26,26,25,24,24,24,23,23,22,22,21,21,21,20,20,20,19,19,18,17,16,15,14,14,13,13,12,12,11,11,10,10,10,9,8,7,7,6,6,5,5,4,3,3,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-3,-3,-4,-5,-5,-6,-6,-7,-7,-8,-9,-10,-10,-10,-11,-11,-12,-12,-13,-13,-14,-14,-15,-16,-17,-18,-19,-19,-20,-20,-20,-21,-21,-21,-22,-22,-23,-23,-24,-24,-24,-25,-26,-26,-27,-27,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-39,-39,-40,-40,-41,-42,-43,-43,-44,-45,-46,-47,-48,-48,-49,-50,-52,-53,-54,-55,-56,-58,-59,-60,-62,-64,-64,-65,-66,-67,-68,-69,-71,-72,-73,-75,-76,-78,-80,-81,-84,-86,-88,-91,-94,-96,-97,-98,-99,-100,-102,-104,-106,-108,-111,-112,-113,-115,-117,-119,-120,-122,-124,-126,-128,126,124,122,121,120,117,115,114,112,112,109,106,104,102,101,100,98,97,96,96,92,90,87,85,83,81,79,77,76,74,73,72,70,69,68,67,66,65,64,64,62,60,59,58,56,55,54,53,52,51,50,49,48,47,46,45,44,44,43,42,41,41,40,40,38,37,36,35,34,33,32,32,31,30,29,29,28,27,27,26,26,25,25,24,24,23,23,22,22,22,21,21,20,20,20,20,18,17,16,16,15,14,13,13,12,12,11,11,11,10,10,10,8,8,7,6,6,5,5,5,4,3,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-3,-4,-5,-5,-5,-6,-6,-7,-8,-8,-10,-10,-10,-11,-11,-11,-12,-12,-13,-13,-14,-15,-16,-16,-17,-18,-20,-20,-20,-20,-21,-21,-22,-22,-22,-23,-23,-24,-24,-25,-25,-26,-26,-27,-27,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-40,-40,-41,-41,-42,-43,-44,-44,-45,-46,-47,-48,-49,-50,-51,-52,-53,-54,-55,-56,-58,-59,-60,-62,-64,-64,-65,-66,-67,-68,-69,-70,-72,-73,-74,-76,-77,-79,-81,-83,-85,-87,-90,-92,-96,-96,-97,-98,-100,-101,-102,-104,-106,-109,-112,-112,-114,-115,-117,-120,-121,-122,-124,-126,-128,126,124,122,121,120,117,115,114,113,112,109,107,105,103,101,100,99,98,97,96,94,91,89,86,84,82,80,78,77,75,74,73,71,70,69,68,67,66,65,64,64,62,61,59,58,57,55,54,53,52,51,50,49,48,47,46,46,45,44,43,43,42,41,41,39,38,37,36,35,34,33,32,32,31,30,29,29,28,27,27,26,26,25,25,24,24,23,23,23,22,22,21,21,21,20,20,19,18,17,16,15,14,14,13,13,12,12,11,11,10,10,10,9,8,7,6,6,5,5,5,4,3,2,2,1,1,1,-128,-1,-1,-1,-2,-2,-3,-4,-5,-5,-5,-6,-6,-7,-8,-9,-10,-10,-10,-11,-11,-12,-12,-13,-13,-14,-14,-15,-16,-17,-18,-19,-20,-20,-21,-21,-21,-22,-22,-23,-23,-23,-24,-24,-25,-25,-26,-26,-27,-27,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-39,-41,-41,-42,-43,-43,-44,-45,-46,-46,-47,-48,-49,-50,-51,-52,-53,-54,-55,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-73,-74,-75,-77,-78,-80,-82,-84,-86,-89,-91,-94,-96,-97,-98,-99,-100,-101,-103,-105,-107,-109,-112,-113,-114,-115,-117,-120,-121,-122,-124,-126,-128,126,124,123,121,120,118,116,114,113,112,110,108,105,104,102,101,99,98,97,96,96,93,90,88,85,83,81,80,78,76,75,74,72,71,70,69,68,67,66,65,64,64,62,61,59,58,57,56,54,53,52,51,50,49,48,48,47,46,45,44,44,43,42,42,40,39,38,37,36,35,34,33,32,32,31,30,29,29,28,28,27,26,26,25,25,24,24,24,23,23,22,22,22,21,21,21,19,18,17,16,16,15,14,14,13,12,12,12,11,11,10,10,9,8,7,7,6,6,5,5,4,3,3,2,1,1,1,-128,-1,-1,-1,-2,-3,-3,-4,-5,-5,-6,-6,-7,-7,-8,-9,-10,-10,-11,-11,-12,-12,-12,-13,-14,-14,-15,-16,-16,-17,-18,-19,-21,-21,-21,-22,-22,-22,-23,-23,-24,-24,-24,-25,-25,-26,-26,-27,-28,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-39,-40,-42,-42,-43,-44,-44,-45,-46,-47,-48,-48,-49,-50,-51,-52,-53,-54,-56,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-72,-74,-75,-76,-78,-80,-81,-83,-85,-88,-90,-93,-96,-96,-97,-98,-99,-101,-102,-104,-105,-108,-110,-112,-113,-114,-116,-118,-120,-121,-123,-124,-126,-128,126,124,123,121,120,118,116,114,113,112,111,108,106,104,102,101,100,99,98,97,96,94,91,89,87,84,82,81,79,77,76,75,73,72,71,70,69,68,67,66,65,64,64,62,61,59,58,57,56,55,53,52,51,50,50,49,48,47,46,45,45,44,43,43,41,40,39,38,37,36,35,34,33,32,32,31,30,29,29,28,28,27,26,26,25,25,25,24,24,23,23,22,22,22,21,21,20,19,18,17,16,15,14,14,13,13,12,12,11,11,11,10,9,8,7,7,6,6,5,5,4,3,3,2,1,1,1,-128,-1,-1,-1,-2,-3,-3,-4,-5,-5,-6,-6,-7,-7,-8,-9,-10,-11,-11,-11,-12,-12,-13,-13,-14,-14,-15,-16,-17,-18,-19,-20,-21,-21,-22,-22,-22,-23,-23,-24,-24,-25,-25,-25,-26,-26,-27,-28,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-39,-40,-41,-43,-43,-44,-45,-45,-46,-47,-48,-49,-50,-50,-51,-52,-53,-55,-56,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-72,-73,-75,-76,-77,-79,-81,-82,-84,-87,-89,-91,-94,-96,-97,-98,-99,-100,-101,-102,-104,-106,-108,-111,-112,-113,-114,-116,-118,-120,-121,-123,-124,-126,-128,126,124,123,121,120,118,116,115,113,112,112,109,107,105,103,102,100,99,98,97,96,96,93,90,88,86,84,82,80,78,77,76,74,73,72,71,70,69,68,67,66,65,64,64,62,61,59,58,57,56,55,54,53,52,51,50,49,48,47,46,46,45,44,44,42,41,40,39,38,37,36,35,34,33,32,32,31,30,29,29,28,28,27,27,26,26,25,25,24,24,23,23,23,22,22,22,20,19,18,17,16,16,15,14,14,13,13,12,12,11,11,11,9,8,8,7,6,6,5,5,4,3,3,2,1,1,1,-128,-1,-1,-1,-2,-3,-3,-4,-5,-5,-6,-6,-7,-8,-8,-9,-11,-11,-11,-12,-12,-13,-13,-14,-14,-15,-16,-16,-17,-18,-19,-20,-22,-22,-22,-23,-23,-23,-24,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-29,-30,-31,-32,-32,-33,-34,-35,-36,-37,-38,-39,-40,-41,-42,-44,-44,-45,-46,-46,-47,-48,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-72,-73,-74,-76,-77,-78,-80,-82,-84,-86,-88,-90,-93,-96,-96,-97,-98,-99,-100,-102,-103,-105,-107,-109,-112,-112,-113,-115,-116,-118,-120,-121,-123,-124,-126,-128,126,124,123,121,120,119,116,115,114,113,112,110,107,105,104,102,101,100,98,98,97,96,94,92,89,87,85,83,81,80,78,77,75,74,73,72,70,69,68,68,67,66,65,64,64,62,61,60,58,57,56,55,54,53,52,51,50,49,48,48,47,46,45,45,43,42,41,40,38,37,36,36,35,34,33,32,32,31,30,30,29,28,28,27,27,26,26,25,25,24,24,24,23,23,22,22,21,20,18,18,17,16,15,15,14,13,13,12,12,12,11,11,10,9,8,7,6,6,6,5,4,3,3,2,1,1,1,-128,-1,-1,-1,-2,-3,-3,-4,-5,-6,-6,-6,-7,-8,-9,-10,-11,-11,-12,-12,-12,-13,-13,-14,-15,-15,-16,-17,-18,-18,-20,-21,-22,-22,-23,-23,-24,-24,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-30,-30,-31,-32,-32,-33,-34,-35,-36,-36,-37,-38,-40,-41,-42,-43,-45,-45,-46,-47,-48,-48,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-60,-61,-62,-64,-64,-65,-66,-67,-68,-68,-69,-70,-72,-73,-74,-75,-77,-78,-80,-81,-83,-85,-87,-89,-92,-94,-96,-97,-98,-98,-100,-101,-102,-104,-105,-107,-110,-112,-113,-114,-115,-116,-119,-120,-121,-123,-124,-126,-128,126,124,123,121,120,119,117,115,114,113,112,110,108,106,104,103,101,100,99,98,97,96,96,93,90,88,86,84,82,81,79,78,76,75,74,72,71,70,69,68,67,67,66,65,64,64,62,61,60,58,57,56,55,54,53,52,51,50,49,49,48,47,46,46,44,43,42,40,39,38,37,36,35,35,34,33,32,32,31,30,30,29,28,28,27,27,26,26,25,25,24,24,24,23,23,23,21,20,19,18,17,16,16,15,14,14,13,13,12,12,11,11,10,9,8,7,7,6,6,5,4,3,3,2,1,1,1,-128,-1,-1,-1,-2,-3,-3,-4,-5,-6,-6,-7,-7,-8,-9,-10,-11,-11,-12,-12,-13,-13,-14,-14,-15,-16,-16,-17,-18,-19,-20,-21,-23,-23,-23,-24,-24,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-30,-30,-31,-32,-32,-33,-34,-35,-35,-36,-37,-38,-39,-40,-42,-43,-44,-46,-46,-47,-48,-49,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-60,-61,-62,-64,-64,-65,-66,-67,-67,-68,-69,-70,-71,-72,-74,-75,-76,-78,-79,-81,-82,-84,-86,-88,-90,-93,-96,-96,-97,-98,-99,-100,-101,-103,-104,-106,-108,-110,-112,-113,-114,-115,-117,-119,-120,-121,-123,-124,-126,-128,126,124,123,121,120,119,117,115,114,113,112,111,108,106,105,103,102,100,99,98,97,97,96,94,92,89,87,85,83,82,80,79,77,76,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,58,57,56,55,54,53,52,51,50,50,49,48,47,47,45,44,42,41,40,39,38,37,36,35,34,34,33,32,32,31,30,30,29,28,28,27,27,26,26,25,25,25,24,24,23,23,22,20,19,18,17,17,16,15,15,14,13,13,12,12,12,11,10,9,8,7,7,6,6,5,4,3,3,2,1,1,1,-128,-1,-1,-1,-2,-3,-3,-4,-5,-6,-6,-7,-7,-8,-9,-10,-11,-12,-12,-12,-13,-13,-14,-15,-15,-16,-17,-17,-18,-19,-20,-22,-23,-23,-24,-24,-25,-25,-25,-26,-26,-27,-27,-28,-28,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-38,-39,-40,-41,-42,-44,-45,-47,-47,-48,-49,-50,-50,-51,-52,-53,-54,-55,-56,-57,-58,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-76,-77,-79,-80,-82,-83,-85,-87,-89,-92,-94,-96,-97,-97,-98,-99,-100,-102,-103,-105,-106,-108,-111,-112,-113,-114,-115,-117,-119,-120,-121,-123,-124,-126,-128,126,125,124,122,120,120,117,116,114,113,112,112,109,107,105,104,102,101,100,99,98,97,96,96,93,91,88,86,84,83,81,80,78,77,75,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,59,57,56,55,54,53,52,52,51,50,49,48,48,46,45,43,42,41,40,39,38,37,36,35,34,34,33,32,32,31,30,30,29,28,28,27,27,26,26,26,25,25,24,24,24,22,21,20,19,18,17,16,16,15,14,14,13,13,12,12,12,10,9,8,8,7,6,6,6,4,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-4,-6,-6,-6,-7,-8,-8,-9,-10,-12,-12,-12,-13,-13,-14,-14,-15,-16,-16,-17,-18,-19,-20,-21,-22,-24,-24,-24,-25,-25,-26,-26,-26,-27,-27,-28,-28,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-38,-39,-40,-41,-42,-43,-45,-46,-48,-48,-49,-50,-51,-52,-52,-53,-54,-55,-56,-57,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-75,-77,-78,-80,-81,-83,-84,-86,-88,-91,-93,-96,-96,-97,-98,-99,-100,-101,-102,-104,-105,-107,-109,-112,-112,-113,-114,-116,-117,-120,-120,-122,-124,-125,-126,-128,126,125,124,122,120,120,118,116,114,113,112,112,110,108,106,104,103,101,100,99,98,97,97,96,94,92,90,88,86,84,82,81,79,78,76,75,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,59,58,57,56,55,54,53,52,51,50,49,49,47,46,44,43,42,41,40,39,38,37,36,35,34,34,33,32,32,31,30,30,29,29,28,28,27,27,26,26,25,25,24,24,23,21,20,19,18,17,17,16,15,15,14,14,13,13,12,12,10,9,8,8,7,7,6,6,4,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-4,-6,-6,-7,-7,-8,-8,-9,-10,-12,-12,-13,-13,-14,-14,-15,-15,-16,-17,-17,-18,-19,-20,-21,-23,-24,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-38,-39,-40,-41,-42,-43,-44,-46,-47,-49,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-75,-76,-78,-79,-81,-82,-84,-86,-88,-90,-92,-94,-96,-97,-97,-98,-99,-100,-101,-103,-104,-106,-108,-110,-112,-112,-113,-114,-116,-118,-120,-120,-122,-124,-125,-126,-128,126,125,124,122,121,120,118,116,115,114,113,112,110,108,106,105,103,102,101,100,99,98,97,96,96,93,91,89,87,85,83,82,80,79,77,76,75,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,59,58,57,56,55,54,53,52,51,50,50,48,47,45,44,43,42,41,40,39,38,37,36,35,34,34,33,32,32,31,30,30,29,29,28,28,27,27,26,26,25,25,25,23,22,21,20,19,18,17,16,16,15,14,14,13,13,12,12,11,10,9,8,7,7,6,6,5,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-5,-6,-6,-7,-7,-8,-9,-10,-11,-12,-12,-13,-13,-14,-14,-15,-16,-16,-17,-18,-19,-20,-21,-22,-23,-25,-25,-25,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-38,-39,-40,-41,-42,-43,-44,-45,-47,-48,-50,-50,-51,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-75,-76,-77,-79,-80,-82,-83,-85,-87,-89,-91,-93,-96,-96,-97,-98,-99,-100,-101,-102,-103,-105,-106,-108,-110,-112,-113,-114,-115,-116,-118,-120,-121,-122,-124,-125,-126,-128,126,125,124,122,121,120,118,116,115,114,113,112,111,109,107,105,104,102,101,100,99,98,97,97,96,94,92,90,88,86,84,83,81,80,78,77,76,74,73,72,71,70,69,69,68,67,66,66,65,64,64,62,61,60,59,58,57,56,55,54,53,52,51,51,49,48,46,45,44,42,41,40,39,38,37,37,36,35,34,34,33,32,32,31,30,30,29,29,28,28,27,27,26,26,25,25,24,22,21,20,19,18,17,17,16,15,15,14,14,13,13,12,11,10,9,8,7,7,6,6,5,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-5,-6,-6,-7,-7,-8,-9,-10,-11,-12,-13,-13,-14,-14,-15,-15,-16,-17,-17,-18,-19,-20,-21,-22,-24,-25,-25,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-34,-34,-35,-36,-37,-37,-38,-39,-40,-41,-42,-44,-45,-46,-48,-49,-51,-51,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-69,-70,-71,-72,-73,-74,-76,-77,-78,-80,-81,-83,-84,-86,-88,-90,-92,-94,-96,-97,-97,-98,-99,-100,-101,-102,-104,-105,-107,-109,-111,-112,-113,-114,-115,-116,-118,-120,-121,-122,-124,-125,-126,-128,126,125,124,122,121,120,118,117,115,114,113,112,112,109,107,106,104,103,101,100,99,98,98,97,96,96,93,91,89,87,85,84,82,80,79,78,76,75,74,73,72,71,70,69,68,68,67,66,65,65,64,64,62,61,60,59,58,57,56,55,54,53,52,52,50,48,47,46,44,43,42,41,40,39,38,37,36,36,35,34,33,33,32,32,31,30,30,29,29,28,28,27,27,26,26,26,24,23,21,20,19,18,18,17,16,16,15,14,14,13,13,13,11,10,9,8,8,7,6,6,5,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-5,-6,-6,-7,-8,-8,-9,-10,-11,-13,-13,-13,-14,-14,-15,-16,-16,-17,-18,-18,-19,-20,-21,-23,-24,-26,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-36,-36,-37,-38,-39,-40,-41,-42,-43,-44,-46,-47,-48,-50,-52,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-68,-68,-69,-70,-71,-72,-73,-74,-75,-76,-78,-79,-80,-82,-84,-85,-87,-89,-91,-93,-96,-96,-97,-98,-98,-99,-100,-101,-103,-104,-106,-107,-109,-112,-112,-113,-114,-115,-117,-118,-120,-121,-122,-124,-125,-126,-128,126,125,124,122,121,120,119,117,115,114,113,112,112,110,108,106,104,103,102,101,100,99,98,97,96,96,94,92,90,88,86,85,83,81,80,79,77,76,75,74,73,72,71,70,69,68,68,67,66,65,65,64,64,62,61,60,59,58,57,56,55,54,53,53,51,49,48,47,45,44,43,42,41,40,39,38,37,36,36,35,34,33,33,32,32,31,30,30,29,29,28,28,27,27,26,26,24,23,22,21,20,19,18,17,16,16,15,15,14,14,13,13,11,10,9,8,8,7,7,6,5,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-5,-6,-7,-7,-8,-8,-9,-10,-11,-13,-13,-14,-14,-15,-15,-16,-16,-17,-18,-19,-20,-21,-22,-23,-24,-26,-26,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-36,-36,-37,-38,-39,-40,-41,-42,-43,-44,-45,-47,-48,-49,-51,-53,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-68,-68,-69,-70,-71,-72,-73,-74,-75,-76,-77,-79,-80,-81,-83,-85,-86,-88,-90,-92,-94,-96,-96,-97,-98,-99,-100,-101,-102,-103,-104,-106,-108,-110,-112,-112,-113,-114,-115,-117,-119,-120,-121,-122,-124,-125,-126,-128,126,125,124,122,121,120,119,117,116,114,113,113,112,110,108,107,105,104,102,101,100,99,98,98,97,96,96,93,91,89,87,86,84,82,81,80,78,77,76,75,74,73,72,71,70,69,68,68,67,66,65,65,64,64,62,61,60,59,58,57,56,55,54,54,52,50,49,48,46,45,44,43,42,41,40,39,38,37,36,36,35,34,33,33,32,32,31,30,30,29,29,28,28,27,27,27,25,24,22,21,20,19,18,18,17,16,16,15,14,14,13,13,12,10,9,9,8,7,7,6,5,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-5,-6,-7,-7,-8,-9,-9,-10,-12,-13,-13,-14,-14,-15,-16,-16,-17,-18,-18,-19,-20,-21,-22,-24,-25,-27,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-36,-36,-37,-38,-39,-40,-41,-42,-43,-44,-45,-46,-48,-49,-50,-52,-54,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-68,-68,-69,-70,-71,-72,-73,-74,-75,-76,-77,-78,-80,-81,-82,-84,-86,-87,-89,-91,-93,-96,-96,-97,-98,-98,-99,-100,-101,-102,-104,-105,-107,-108,-110,-112,-113,-113,-114,-116,-117,-119,-120,-121,-122,-124,-125,-126,-128,126,125,124,122,121,120,119,117,116,115,114,113,112,111,109,107,105,104,103,102,100,100,99,98,97,96,96,94,92,90,88,87,85,83,82,80,79,78,77,76,74,73,72,72,71,70,69,68,67,67,66,65,65,64,64,62,61,60,59,58,57,56,55,55,53,51,50,48,47,46,45,44,42,41,40,40,39,38,37,36,35,35,34,33,33,32,32,31,30,30,29,29,28,28,27,27,25,24,23,22,20,20,19,18,17,16,16,15,15,14,14,13,12,11,10,9,8,7,7,6,5,4,3,3,2,1,1,-128,-1,-1,-2,-3,-3,-4,-5,-6,-7,-7,-8,-9,-10,-11,-12,-13,-14,-14,-15,-15,-16,-16,-17,-18,-19,-20,-20,-22,-23,-24,-25,-27,-27,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-35,-36,-37,-38,-39,-40,-40,-41,-42,-44,-45,-46,-47,-48,-50,-51,-53,-55,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-70,-71,-72,-72,-73,-74,-76,-77,-78,-79,-80,-82,-83,-85,-87,-88,-90,-92,-94,-96,-96,-97,-98,-99,-100,-100,-102,-103,-104,-105,-107,-109,-111,-112,-113,-114,-115,-116,-117,-119,-120,-121,-122,-124,-125,-126,-128,126,125,124,123,121,120,120,118,116,115,114,113,112,112,109,108,106,104,103,102,101,100,99,98,97,97,96,96,93,91,89,88,86,84,83,81,80,79,77,76,75,74,73,72,71,70,70,69,68,67,67,66,65,65,64,64,62,61,60,59,58,57,56,56,54,52,51,49,48,47,45,44,43,42,41,40,39,38,38,37,36,35,35,34,33,33,32,32,31,30,30,29,29,28,28,28,26,24,23,22,21,20,19,18,17,17,16,16,15,14,14,14,12,11,10,9,8,8,7,7,5,4,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-4,-5,-7,-7,-8,-8,-9,-10,-11,-12,-14,-14,-14,-15,-16,-16,-17,-17,-18,-19,-20,-21,-22,-23,-24,-26,-28,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-35,-36,-37,-38,-38,-39,-40,-41,-42,-43,-44,-45,-47,-48,-49,-51,-52,-54,-56,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-70,-70,-71,-72,-73,-74,-75,-76,-77,-79,-80,-81,-83,-84,-86,-88,-89,-91,-93,-96,-96,-97,-97,-98,-99,-100,-101,-102,-103,-104,-106,-108,-109,-112,-112,-113,-114,-115,-116,-118,-120,-120,-121,-123,-124,-125,-126,-128,126,125,124,123,121,120,120,118,116,115,114,113,112,112,110,108,106,105,104,102,101,100,99,99,98,97,96,96,94,92,90,89,87,85,84,82,81,80,78,77,76,75,74,73,72,71,70,70,69,68,67,67,66,65,65,64,64,62,61,60,59,58,57,57,55,53,52,50,49,48,46,45,44,43,42,41,40,39,38,38,37,36,35,35,34,33,33,32,32,31,30,30,29,29,28,28,26,25,24,22,21,20,19,19,18,17,16,16,15,15,14,14,12,11,10,9,8,8,7,7,5,4,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-4,-5,-7,-7,-8,-8,-9,-10,-11,-12,-14,-14,-15,-15,-16,-16,-17,-18,-19,-19,-20,-21,-22,-24,-25,-26,-28,-28,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-35,-36,-37,-38,-38,-39,-40,-41,-42,-43,-44,-45,-46,-48,-49,-50,-52,-53,-55,-57,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-70,-70,-71,-72,-73,-74,-75,-76,-77,-78,-80,-81,-82,-84,-85,-87,-89,-90,-92,-94,-96,-96,-97,-98,-99,-99,-100,-101,-102,-104,-105,-106,-108,-110,-112,-112,-113,-114,-115,-116,-118,-120,-120,-121,-123,-124,-125,-126,-128,126,125,124,123,121,120,120,118,116,115,114,113,112,112,110,109,107,105,104,103,102,101,100,99,98,97,97,96,96,93,91,90,88,86,85,83,82,80,79,78,77,76,75,74,73,72,71,70,69,69,68,67,67,66,65,65,64,64,62,61,60,59,58,58,56,54,53,51,50,48,47,46,45,44,43,42,41,40,39,38,37,37,36,35,35,34,33,33,32,32,31,30,30,29,29,29,27,25,24,23,22,21,20,19,18,17,17,16,16,15,14,14,12,11,10,9,8,8,7,7,5,4,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-4,-5,-7,-7,-8,-8,-9,-10,-11,-12,-14,-14,-15,-16,-16,-17,-17,-18,-19,-20,-21,-22,-23,-24,-25,-27,-29,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-35,-35,-36,-37,-37,-38,-39,-40,-41,-42,-43,-44,-45,-46,-47,-48,-50,-51,-53,-54,-56,-58,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-69,-70,-71,-72,-73,-74,-75,-76,-77,-78,-79,-80,-82,-83,-85,-86,-88,-90,-91,-93,-96,-96,-97,-97,-98,-99,-100,-101,-102,-103,-104,-105,-107,-109,-110,-112,-112,-113,-114,-115,-116,-118,-120,-120,-121,-123,-124,-125,-126,-128,126,125,124,123,121,120,120,118,117,115,114,113,113,112,111,109,107,106,104,103,102,101,100,99,98,98,97,96,96,94,92,91,89,87,85,84,83,81,80,79,78,76,75,74,73,73,72,71,70,69,69,68,67,66,66,65,65,64,64,62,61,60,59,59,57,55,53,52,51,49,48,47,46,44,43,42,41,41,40,39,38,37,37,36,35,34,34,33,33,32,32,31,30,30,29,29,27,26,24,23,22,21,20,19,18,18,17,16,16,15,15,14,13,11,10,9,9,8,7,7,5,4,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-4,-5,-7,-7,-8,-9,-9,-10,-11,-13,-14,-15,-15,-16,-16,-17,-18,-18,-19,-20,-21,-22,-23,-24,-26,-27,-29,-29,-30,-30,-31,-32,-32,-33,-33,-34,-34,-35,-36,-37,-37,-38,-39,-40,-41,-41,-42,-43,-44,-46,-47,-48,-49,-51,-52,-53,-55,-57,-59,-59,-60,-61,-62,-64,-64,-65,-65,-66,-66,-67,-68,-69,-69,-70,-71,-72,-73,-73,-74,-75,-76,-78,-79,-80,-81,-83,-84,-85,-87,-89,-91,-92,-94,-96,-96,-97,-98,-98,-99,-100,-101,-102,-103,-104,-106,-107,-109,-111,-112,-113,-113,-114,-115,-117,-118,-120,-120,-121,-123,-124,-125,-126,-128,126,125,124,123,122,121,120,119,117,116,114,114,113,112,112,110,108,106,105,104,102,101,100,100,99,98,97,97,96,96,93,92,90,88,86,85,83,82,81,80,78,77,76,75,74,73,72,72,71,70,69,68,68,67,66,66,65,65,64,64,62,61,60,60,58,56,54,53,51,50,49,48,46,45,44,43,42,41,40,40,39,38,37,36,36,35,34,34,33,33,32,32,31,30,30,30,28,26,25,24,22,21,20,20,19,18,17,17,16,16,15,15,13,12,10,10,9,8,8,7,6,5,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-5,-6,-7,-8,-8,-9,-10,-10,-12,-13,-15,-15,-16,-16,-17,-17,-18,-19,-20,-20,-21,-22,-24,-25,-26,-28,-30,-30,-30,-31,-32,-32,-33,-33,-34,-34,-35,-36,-36,-37,-38,-39,-40,-40,-41,-42,-43,-44,-45,-46,-48,-49,-50,-51,-53,-54,-56,-58,-60,-60,-61,-62,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-71,-72,-72,-73,-74,-75,-76,-77,-78,-80,-81,-82,-83,-85,-86,-88,-90,-92,-93,-96,-96,-97,-97,-98,-99,-100,-100,-101,-102,-104,-105,-106,-108,-110,-112,-112,-113,-114,-114,-116,-117,-119,-120,-121,-122,-123,-124,-125,-126,-128,126,125,124,123,122,121,120,119,117,116,115,114,113,112,112,110,108,107,105,104,103,102,101,100,99,98,98,97,96,96,94,93,91,89,87,86,84,83,82,80,79,78,77,76,75,74,73,72,71,71,70,69,68,68,67,66,66,65,65,64,64,62,61,61,59,57,55,54,52,51,50,48,47,46,45,44,43,42,41,40,39,39,38,37,36,36,35,34,34,33,33,32,32,31,30,30,28,27,25,24,23,22,21,20,19,18,18,17,16,16,15,15,13,12,11,10,9,8,8,7,6,5,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-5,-6,-7,-8,-8,-9,-10,-11,-12,-13,-15,-15,-16,-16,-17,-18,-18,-19,-20,-21,-22,-23,-24,-25,-27,-28,-30,-30,-31,-32,-32,-33,-33,-34,-34,-35,-36,-36,-37,-38,-39,-39,-40,-41,-42,-43,-44,-45,-46,-47,-48,-50,-51,-52,-54,-55,-57,-59,-61,-61,-62,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-71,-71,-72,-73,-74,-75,-76,-77,-78,-79,-80,-82,-83,-84,-86,-87,-89,-91,-93,-94,-96,-96,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-107,-108,-110,-112,-112,-113,-114,-115,-116,-117,-119,-120,-121,-122,-123,-124,-125,-126,-128,126,125,124,123,122,121,120,119,117,116,115,114,113,112,112,111,109,107,106,104,103,102,101,100,99,99,98,97,97,96,96,94,92,90,88,87,85,84,82,81,80,79,78,77,76,75,74,73,72,71,70,70,69,68,68,67,66,66,65,65,64,64,62,62,60,58,56,55,53,52,50,49,48,47,46,45,44,43,42,41,40,39,38,38,37,36,36,35,34,34,33,33,32,32,31,31,29,27,26,24,23,22,21,20,19,19,18,17,17,16,16,15,13,12,11,10,9,8,8,7,6,5,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-5,-6,-7,-8,-8,-9,-10,-11,-12,-13,-15,-16,-16,-17,-17,-18,-19,-19,-20,-21,-22,-23,-24,-26,-27,-29,-31,-31,-32,-32,-33,-33,-34,-34,-35,-36,-36,-37,-38,-38,-39,-40,-41,-42,-43,-44,-45,-46,-47,-48,-49,-50,-52,-53,-55,-56,-58,-60,-62,-62,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-70,-71,-72,-73,-74,-75,-76,-77,-78,-79,-80,-81,-82,-84,-85,-87,-88,-90,-92,-94,-96,-96,-97,-97,-98,-99,-99,-100,-101,-102,-103,-104,-106,-107,-109,-111,-112,-112,-113,-114,-115,-116,-117,-119,-120,-121,-122,-123,-124,-125,-126,-128,126,125,124,123,122,121,120,119,118,116,115,114,113,113,112,111,109,108,106,105,104,102,101,101,100,99,98,98,97,96,96,95,93,91,89,88,86,85,83,82,81,80,78,77,76,75,74,74,73,72,71,70,70,69,68,68,67,66,66,65,65,64,64,63,61,59,57,56,54,53,51,50,49,48,46,45,44,43,42,42,41,40,39,38,38,37,36,36,35,34,34,33,33,32,32,31,29,28,26,25,24,22,21,21,20,19,18,18,17,16,16,15,14,12,11,10,9,9,8,7,6,5,4,3,2,1,1,-128,-1,-1,-2,-3,-4,-5,-6,-7,-8,-9,-9,-10,-11,-12,-14,-15,-16,-16,-17,-18,-18,-19,-20,-21,-21,-22,-24,-25,-26,-28,-29,-31,-32,-32,-33,-33,-34,-34,-35,-36,-36,-37,-38,-38,-39,-40,-41,-42,-42,-43,-44,-45,-46,-48,-49,-50,-51,-53,-54,-56,-57,-59,-61,-63,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-70,-71,-72,-73,-74,-74,-75,-76,-77,-78,-80,-81,-82,-83,-85,-86,-88,-89,-91,-93,-95,-96,-96,-97,-98,-98,-99,-100,-101,-101,-102,-104,-105,-106,-108,-109,-111,-112,-113,-113,-114,-115,-116,-118,-119,-120,-121,-122,-123,-124,-125,-126,-128,127,126,124,124,122,121,120,120,118,116,115,114,113,113,112,112,110,108,106,105,104,103,102,101,100,99,98,98,97,97,96,96,94,92,90,88,87,85,84,83,81,80,79,78,77,76,75,74,73,72,72,71,70,69,69,68,67,67,66,66,65,65,64,64,62,60,58,56,55,53,52,51,49,48,47,46,45,44,43,42,41,40,40,39,38,37,37,36,35,35,34,34,33,33,32,32,30,28,26,25,24,23,22,21,20,19,18,18,17,17,16,16,14,12,11,10,9,9,8,8,6,5,4,4,2,2,1,-128,-1,-2,-2,-4,-4,-5,-6,-8,-8,-9,-9,-10,-11,-12,-14,-16,-16,-17,-17,-18,-18,-19,-20,-21,-22,-23,-24,-25,-26,-28,-30,-32,-32,-33,-33,-34,-34,-35,-35,-36,-37,-37,-38,-39,-40,-40,-41,-42,-43,-44,-45,-46,-47,-48,-49,-51,-52,-53,-55,-56,-58,-60,-62,-64,-64,-65,-65,-66,-66,-67,-67,-68,-69,-69,-70,-71,-72,-72,-73,-74,-75,-76,-77,-78,-79,-80,-81,-83,-84,-85,-87,-88,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-106,-108,-110,-112,-112,-113,-113,-114,-115,-116,-118,-120,-120,-121,-122,-124,-124,-126,-127,-128,127,126,124,124,122,121,120,120,118,117,116,115,114,113,112,112,111,109,107,106,105,104,102,102,101,100,99,98,98,97,97,96,96,94,92,90,89,87,86,84,83,82,81,80,78,77,76,76,75,74,73,72,71,71,70,69,69,68,67,67,66,66,65,65,64,62,60,58,57,55,54,52,51,50,49,48,46,45,44,44,43,42,41,40,39,39,38,37,37,36,35,35,34,34,33,33,31,29,27,26,25,24,22,22,21,20,19,18,18,17,17,16,14,13,12,11,10,9,8,8,6,5,4,4,2,2,1,-128,-1,-2,-2,-4,-4,-5,-6,-8,-8,-9,-10,-11,-12,-13,-14,-16,-17,-17,-18,-18,-19,-20,-21,-22,-22,-24,-25,-26,-27,-29,-31,-33,-33,-34,-34,-35,-35,-36,-37,-37,-38,-39,-39,-40,-41,-42,-43,-44,-44,-45,-46,-48,-49,-50,-51,-52,-54,-55,-57,-58,-60,-62,-64,-65,-65,-66,-66,-67,-67,-68,-69,-69,-70,-71,-71,-72,-73,-74,-75,-76,-76,-77,-78,-80,-81,-82,-83,-84,-86,-87,-89,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-102,-104,-105,-106,-107,-109,-111,-112,-112,-113,-114,-115,-116,-117,-118,-120,-120,-121,-122,-124,-124,-126,-127,-128,127,126,124,124,122,121,120,120,119,117,116,115,114,113,113,112,112,110,108,107,105,104,103,102,101,100,100,99,98,98,97,97,96,96,94,92,90,89,87,86,85,83,82,81,80,79,78,77,76,75,74,73,73,72,71,70,70,69,68,68,67,67,66,66,64,64,62,60,58,57,55,54,53,51,50,49,48,47,46,45,44,43,42,41,41,40,39,38,38,37,36,36,35,35,34,34,32,30,28,27,25,24,23,22,21,20,20,19,18,18,17,17,15,13,12,11,10,9,9,8,6,5,4,4,2,2,1,-128,-1,-2,-2,-4,-4,-5,-6,-8,-9,-9,-10,-11,-12,-13,-15,-17,-17,-18,-18,-19,-20,-20,-21,-22,-23,-24,-25,-27,-28,-30,-32,-34,-34,-35,-35,-36,-36,-37,-38,-38,-39,-40,-41,-41,-42,-43,-44,-45,-46,-47,-48,-49,-50,-51,-53,-54,-55,-57,-58,-60,-62,-64,-64,-66,-66,-67,-67,-68,-68,-69,-70,-70,-71,-72,-73,-73,-74,-75,-76,-77,-78,-79,-80,-81,-82,-83,-85,-86,-87,-89,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-100,-101,-102,-103,-104,-105,-107,-108,-110,-112,-112,-113,-113,-114,-115,-116,-117,-119,-120,-120,-121,-122,-124,-124,-126,-127,-128,127,126,124,124,123,121,121,120,119,118,116,115,114,114,113,112,112,111,109,108,106,105,104,103,102,101,100,100,99,98,98,97,96,96,96,94,92,90,89,88,86,85,84,82,81,80,79,78,77,76,75,75,74,73,72,72,71,70,69,69,68,68,67,67,65,64,64,62,60,58,57,56,54,53,52,50,49,48,47,46,45,44,43,43,42,41,40,40,39,38,37,37,36,36,35,35,32,31,29,28,26,25,24,23,22,21,20,20,19,18,18,17,15,14,12,11,10,10,9,8,7,5,5,4,2,2,1,-128,-1,-2,-2,-4,-5,-5,-7,-8,-9,-10,-10,-11,-12,-14,-15,-17,-18,-18,-19,-20,-20,-21,-22,-23,-24,-25,-26,-28,-29,-31,-32,-35,-35,-36,-36,-37,-37,-38,-39,-40,-40,-41,-42,-43,-43,-44,-45,-46,-47,-48,-49,-50,-52,-53,-54,-56,-57,-58,-60,-62,-64,-64,-65,-67,-67,-68,-68,-69,-69,-70,-71,-72,-72,-73,-74,-75,-75,-76,-77,-78,-79,-80,-81,-82,-84,-85,-86,-88,-89,-90,-92,-94,-96,-96,-96,-97,-98,-98,-99,-100,-100,-101,-102,-103,-104,-105,-106,-108,-109,-111,-112,-112,-113,-114,-114,-115,-116,-118,-119,-120,-121,-121,-123,-124,-124,-126,-127,-128,127,126,125,124,123,122,121,120,120,118,117,116,115,114,113,113,112,112,110,108,107,106,105,104,103,102,101,100,99,99,98,98,97,96,96,96,94,92,91,89,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,73,72,71,71,70,69,69,68,68,66,65,64,64,62,60,59,57,56,54,53,52,51,50,49,48,47,46,45,44,43,42,41,41,40,39,39,38,37,37,36,36,33,32,30,28,27,26,25,24,23,22,21,20,19,19,18,18,16,14,13,12,11,10,9,9,7,6,5,4,3,2,1,-128,-1,-2,-3,-4,-5,-6,-7,-9,-9,-10,-11,-12,-13,-14,-16,-18,-18,-19,-19,-20,-21,-22,-23,-24,-25,-26,-27,-28,-30,-32,-33,-36,-36,-37,-37,-38,-39,-39,-40,-41,-41,-42,-43,-44,-45,-46,-47,-48,-49,-50,-51,-52,-53,-54,-56,-57,-59,-60,-62,-64,-64,-65,-66,-68,-68,-69,-69,-70,-71,-71,-72,-73,-73,-74,-75,-76,-77,-78,-79,-80,-81,-82,-83,-84,-85,-86,-88,-89,-91,-92,-94,-96,-96,-96,-97,-98,-98,-99,-99,-100,-101,-102,-103,-104,-105,-106,-107,-108,-110,-112,-112,-113,-113,-114,-115,-116,-117,-118,-120,-120,-121,-122,-123,-124,-125,-126,-127,-128,127,126,125,124,123,122,121,120,120,118,117,116,115,114,113,113,112,112,111,109,108,106,105,104,103,102,101,101,100,99,99,98,97,97,96,96,96,94,92,91,89,88,87,85,84,83,82,81,80,79,78,77,76,75,75,74,73,72,72,71,70,70,69,69,67,66,65,64,64,62,60,59,57,56,55,53,52,51,50,49,48,47,46,45,44,43,43,42,41,40,40,39,38,38,37,37,34,32,31,29,28,26,25,24,23,22,21,21,20,19,19,18,16,14,13,12,11,10,9,9,7,6,5,4,3,2,1,-128,-1,-2,-3,-4,-5,-6,-7,-9,-9,-10,-11,-12,-13,-14,-16,-18,-19,-19,-20,-21,-21,-22,-23,-24,-25,-26,-28,-29,-31,-32,-34,-37,-37,-38,-38,-39,-40,-40,-41,-42,-43,-43,-44,-45,-46,-47,-48,-49,-50,-51,-52,-53,-55,-56,-57,-59,-60,-62,-64,-64,-65,-66,-67,-69,-69,-70,-70,-71,-72,-72,-73,-74,-75,-75,-76,-77,-78,-79,-80,-81,-82,-83,-84,-85,-87,-88,-89,-91,-92,-94,-96,-96,-96,-97,-97,-98,-99,-99,-100,-101,-101,-102,-103,-104,-105,-106,-108,-109,-111,-112,-112,-113,-113,-114,-115,-116,-117,-118,-120,-120,-121,-122,-123,-124,-125,-126,-127,-128,127,126,125,124,123,122,121,120,120,119,117,116,115,114,114,113,112,112,112,110,108,107,106,105,104,103,102,101,100,100,99,99,98,97,97,96,96,96,94,92,91,89,88,87,86,84,83,82,81,80,79,78,77,77,76,75,74,73,73,72,71,71,70,70,68,67,66,65,64,64,62,60,59,57,56,55,54,52,51,50,49,48,47,46,45,45,44,43,42,41,41,40,39,39,38,38,35,33,32,30,28,27,26,25,24,23,22,21,20,20,19,19,16,15,13,12,11,10,10,9,7,6,5,4,3,2,1,-128,-1,-2,-3,-4,-5,-6,-7,-9,-10,-10,-11,-12,-13,-15,-16,-19,-19,-20,-20,-21,-22,-23,-24,-25,-26,-27,-28,-30,-32,-33,-35,-38,-38,-39,-39,-40,-41,-41,-42,-43,-44,-45,-45,-46,-47,-48,-49,-50,-51,-52,-54,-55,-56,-57,-59,-60,-62,-64,-64,-65,-66,-67,-68,-70,-70,-71,-71,-72,-73,-73,-74,-75,-76,-77,-77,-78,-79,-80,-81,-82,-83,-84,-86,-87,-88,-89,-91,-92,-94,-96,-96,-96,-97,-97,-98,-99,-99,-100,-100,-101,-102,-103,-104,-105,-106,-107,-108,-110,-112,-112,-112,-113,-114,-114,-115,-116,-117,-119,-120,-120,-121,-122,-123,-124,-125,-126,-127,-128,127,126,125,124,123,122,121,120,120,119,118,117,116,115,114,113,113,112,112,111,109,108,107,106,104,104,103,102,101,100,100,99,98,98,97,97,96,96,96,94,92,91,90,88,87,86,85,84,82,81,80,80,79,78,77,76,75,75,74,73,72,72,71,71,69,68,67,66,65,64,64,62,60,59,58,56,55,54,53,52,50,49,48,48,47,46,45,44,43,43,42,41,40,40,39,39,36,34,32,31,29,28,27,26,24,24,23,22,21,20,20,19,17,15,14,13,12,11,10,9,7,6,5,4,3,2,1,-128,-1,-2,-3,-4,-5,-6,-7,-9,-10,-11,-12,-13,-14,-15,-17,-19,-20,-20,-21,-22,-23,-24,-24,-26,-27,-28,-29,-31,-32,-34,-36,-39,-39,-40,-40,-41,-42,-43,-43,-44,-45,-46,-47,-48,-48,-49,-50,-52,-53,-54,-55,-56,-58,-59,-60,-62,-64,-64,-65,-66,-67,-68,-69,-71,-71,-72,-72,-73,-74,-75,-75,-76,-77,-78,-79,-80,-80,-81,-82,-84,-85,-86,-87,-88,-90,-91,-92,-94,-96,-96,-96,-97,-97,-98,-98,-99,-100,-100,-101,-102,-103,-104,-104,-106,-107,-108,-109,-111,-112,-112,-113,-113,-114,-115,-116,-117,-118,-119,-120,-120,-121,-122,-123,-124,-125,-126,-127,-128,127,126,125,124,124,122,121,121,120,120,118,117,116,115,114,114,113,112,112,112,110,109,107,106,105,104,103,102,102,101,100,100,99,98,98,97,97,96,96,96,94,92,91,90,88,87,86,85,84,83,82,81,80,79,78,77,76,76,75,74,73,73,72,72,70,69,68,67,66,65,64,64,62,60,59,58,56,55,54,53,52,51,50,49,48,47,46,45,44,44,43,42,41,41,40,40,37,35,33,32,30,29,27,26,25,24,23,22,22,21,20,20,17,16,14,13,12,11,10,10,8,6,5,5,3,2,1,-128,-1,-2,-3,-5,-5,-6,-8,-10,-10,-11,-12,-13,-14,-16,-17,-20,-20,-21,-22,-22,-23,-24,-25,-26,-27,-29,-30,-32,-33,-35,-37,-40,-40,-41,-41,-42,-43,-44,-44,-45,-46,-47,-48,-49,-50,-51,-52,-53,-54,-55,-56,-58,-59,-60,-62,-64,-64,-65,-66,-67,-68,-69,-70,-72,-72,-73,-73,-74,-75,-76,-76,-77,-78,-79,-80,-81,-82,-83,-84,-85,-86,-87,-88,-90,-91,-92,-94,-96,-96,-96,-97,-97,-98,-98,-99,-100,-100,-101,-102,-102,-103,-104,-105,-106,-107,-109,-110,-112,-112,-112,-113,-114,-114,-115,-116,-117,-118,-120,-120,-121,-121,-122,-124,-124,-125,-126,-127,-128,127,126,125,124,124,122,121,121,120,120,118,117,116,115,114,114,113,113,112,112,111,109,108,107,106,105,104,103,102,101,101,100,99,99,98,98,97,97,96,96,96,94,93,91,90,89,87,86,85,84,83,82,81,80,79,78,78,77,76,75,75,74,73,73,71,70,69,68,67,66,65,64,64,62,61,59,58,57,55,54,53,52,51,50,49,48,47,46,46,45,44,43,43,42,41,41,38,36,34,32,31,29,28,27,26,25,24,23,22,21,21,20,18,16,14,13,12,11,10,10,8,6,5,5,3,2,1,-128,-1,-2,-3,-5,-5,-6,-8,-10,-10,-11,-12,-13,-14,-16,-18,-20,-21,-21,-22,-23,-24,-25,-26,-27,-28,-29,-31,-32,-34,-36,-38,-41,-41,-42,-43,-43,-44,-45,-46,-46,-47,-48,-49,-50,-51,-52,-53,-54,-55,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-73,-73,-74,-75,-75,-76,-77,-78,-78,-79,-80,-81,-82,-83,-84,-85,-86,-87,-89,-90,-91,-93,-94,-96,-96,-96,-97,-97,-98,-98,-99,-99,-100,-101,-101,-102,-103,-104,-105,-106,-107,-108,-109,-111,-112,-112,-113,-113,-114,-114,-115,-116,-117,-118,-120,-120,-121,-121,-122,-124,-124,-125,-126,-127,-128,127,126,125,124,124,123,122,121,120,120,119,118,116,116,115,114,113,113,112,112,112,110,109,108,106,105,104,104,103,102,101,101,100,99,99,98,98,97,97,96,96,96,94,93,91,90,89,88,86,85,84,83,82,81,80,80,79,78,77,76,76,75,74,74,72,71,70,69,68,67,66,65,64,64,62,61,59,58,57,56,54,53,52,51,50,49,48,48,47,46,45,44,44,43,42,42,39,37,35,33,32,30,29,28,26,25,24,24,23,22,21,21,18,16,15,14,12,12,11,10,8,7,6,5,3,2,1,-128,-1,-2,-3,-5,-6,-7,-8,-10,-11,-12,-12,-14,-15,-16,-18,-21,-21,-22,-23,-24,-24,-25,-26,-28,-29,-30,-32,-33,-35,-37,-39,-42,-42,-43,-44,-44,-45,-46,-47,-48,-48,-49,-50,-51,-52,-53,-54,-56,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-72,-74,-74,-75,-76,-76,-77,-78,-79,-80,-80,-81,-82,-83,-84,-85,-86,-88,-89,-90,-91,-93,-94,-96,-96,-96,-97,-97,-98,-98,-99,-99,-100,-101,-101,-102,-103,-104,-104,-105,-106,-108,-109,-110,-112,-112,-112,-113,-113,-114,-115,-116,-116,-118,-119,-120,-120,-121,-122,-123,-124,-124,-125,-126,-127,-128,127,126,125,124,124,123,122,121,120,120,119,118,117,116,115,114,114,113,113,112,112,111,109,108,107,106,105,104,103,102,102,101,100,100,99,99,98,98,97,97,96,96,96,94,93,91,90,89,88,87,85,84,83,82,82,81,80,79,78,77,77,76,75,75,73,72,71,70,69,68,67,66,65,64,64,62,61,59,58,57,56,55,53,52,51,50,50,49,48,47,46,45,45,44,43,43,40,38,36,34,32,31,29,28,27,26,25,24,23,22,22,21,19,17,15,14,13,12,11,10,8,7,6,5,3,2,1,-128,-1,-2,-3,-5,-6,-7,-8,-10,-11,-12,-13,-14,-15,-17,-19,-21,-22,-22,-23,-24,-25,-26,-27,-28,-29,-31,-32,-34,-36,-38,-40,-43,-43,-44,-45,-45,-46,-47,-48,-49,-50,-50,-51,-52,-53,-55,-56,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-72,-73,-75,-75,-76,-77,-77,-78,-79,-80,-81,-82,-82,-83,-84,-85,-87,-88,-89,-90,-91,-93,-94,-96,-96,-96,-97,-97,-98,-98,-99,-99,-100,-100,-101,-102,-102,-103,-104,-105,-106,-107,-108,-109,-111,-112,-112,-113,-113,-114,-114,-115,-116,-117,-118,-119,-120,-120,-121,-122,-123,-124,-124,-125,-126,-127,-128,127,126,125,124,124,123,122,121,120,120,120,118,117,116,115,115,114,113,113,112,112,112,110,109,108,107,106,105,104,103,102,102,101,100,100,99,99,98,98,97,97,96,96,96,94,93,91,90,89,88,87,86,85,84,83,82,81,80,79,78,78,77,76,76,74,73,72,71,70,69,68,67,66,65,64,64,62,61,59,58,57,56,55,54,53,52,51,50,49,48,47,46,46,45,44,44,41,39,37,35,33,32,30,29,28,27,26,25,24,23,22,22,19,17,16,14,13,12,11,11,8,7,6,5,3,2,1,-128,-1,-2,-3,-5,-6,-7,-8,-11,-11,-12,-13,-14,-16,-17,-19,-22,-22,-23,-24,-25,-26,-27,-28,-29,-30,-32,-33,-35,-37,-39,-41,-44,-44,-45,-46,-46,-47,-48,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-59,-61,-62,-64,-64,-65,-66,-67,-68,-69,-70,-71,-72,-73,-74,-76,-76,-77,-78,-78,-79,-80,-81,-82,-83,-84,-85,-86,-87,-88,-89,-90,-91,-93,-94,-96,-96,-96,-97,-97,-98,-98,-99,-99,-100,-100,-101,-102,-102,-103,-104,-105,-106,-107,-108,-109,-110,-112,-112,-112,-113,-113,-114,-115,-115,-116,-117,-118,-120,-120,-120,-121,-122,-123,-124,-124,-125,-126,-127,-128,127,126,125,124,124,123,122,121,121,120,120,119,117,116,116,115,114,114,113,113,112,112,111,110,108,107,106,105,104,104,103,102,101,101,100,100,99,98,98,98,97,97,96,96,96,94,93,92,90,89,88,87,86,85,84,83,82,81,80,80,79,78,77,77,75,74,73,72,70,69,68,68,67,66,65,64,64,62,61,60,58,57,56,55,54,53,52,51,50,49,48,48,47,46,45,45,42,40,37,36,34,32,31,30,28,27,26,25,24,24,23,22,20,18,16,15,13,12,12,11,9,7,6,5,3,2,1,-128,-1,-2,-3,-5,-6,-7,-9,-11,-12,-12,-13,-15,-16,-18,-20,-22,-23,-24,-24,-25,-26,-27,-28,-30,-31,-32,-34,-36,-37,-40,-42,-45,-45,-46,-47,-48,-48,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-60,-61,-62,-64,-64,-65,-66,-67,-68,-68,-69,-70,-72,-73,-74,-75,-77,-77,-78,-79,-80,-80,-81,-82,-83,-84,-85,-86,-87,-88,-89,-90,-92,-93,-94,-96,-96,-96,-97,-97,-98,-98,-98,-99,-100,-100,-101,-101,-102,-103,-104,-104,-105,-106,-107,-108,-110,-111,-112,-112,-113,-113,-114,-114,-115,-116,-116,-117,-119,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-127,-128,127,126,125,124,124,123,122,121,121,120,120,119,118,117,116,115,114,114,113,113,112,112,112,110,109,108,107,106,105,104,103,103,102,101,101,100,99,99,98,98,97,97,97,96,96,96,94,93,92,90,89,88,87,86,85,84,83,82,81,81,80,79,78,78,76,75,74,72,71,70,69,68,67,67,66,65,64,64,62,61,60,58,57,56,55,54,53,52,51,50,49,49,48,47,46,46,43,40,38,36,35,33,32,30,29,28,27,26,25,24,23,23,20,18,16,15,14,13,12,11,9,7,6,5,3,2,1,-128,-1,-2,-3,-5,-6,-7,-9,-11,-12,-13,-14,-15,-16,-18,-20,-23,-23,-24,-25,-26,-27,-28,-29,-30,-32,-33,-35,-36,-38,-40,-43,-46,-46,-47,-48,-49,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-60,-61,-62,-64,-64,-65,-66,-67,-67,-68,-69,-70,-71,-72,-74,-75,-76,-78,-78,-79,-80,-81,-81,-82,-83,-84,-85,-86,-87,-88,-89,-90,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-101,-101,-102,-103,-103,-104,-105,-106,-107,-108,-109,-110,-112,-112,-112,-113,-113,-114,-114,-115,-116,-117,-118,-119,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-127,-128,127,126,125,124,124,123,122,121,121,120,120,119,118,117,116,115,115,114,113,113,112,112,112,111,110,108,107,106,105,105,104,103,102,102,101,100,100,99,99,98,98,97,97,97,96,96,96,94,93,92,90,89,88,87,86,85,84,83,82,82,81,80,79,79,77,76,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,58,57,56,55,54,53,52,51,50,50,49,48,47,47,44,41,39,37,35,34,32,31,30,28,27,26,25,25,24,23,20,18,17,15,14,13,12,11,9,7,6,5,3,2,1,-128,-1,-2,-3,-5,-6,-7,-9,-11,-12,-13,-14,-15,-17,-18,-20,-23,-24,-25,-25,-26,-27,-28,-30,-31,-32,-34,-35,-37,-39,-41,-44,-47,-47,-48,-49,-50,-50,-51,-52,-53,-54,-55,-56,-57,-58,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-76,-77,-79,-79,-80,-81,-82,-82,-83,-84,-85,-86,-87,-88,-89,-90,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-101,-102,-102,-103,-104,-105,-105,-106,-107,-108,-110,-111,-112,-112,-112,-113,-113,-114,-115,-115,-116,-117,-118,-119,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-127,-128,127,126,126,125,124,124,122,122,121,120,120,120,118,117,116,116,115,114,114,113,113,112,112,112,110,109,108,107,106,105,104,104,103,102,101,101,100,100,99,99,98,98,97,97,97,96,96,96,94,93,92,91,89,88,87,86,85,84,84,83,82,81,80,80,78,77,75,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,59,57,56,55,54,53,52,52,51,50,49,48,48,45,42,40,38,36,34,33,32,30,29,28,27,26,25,24,24,21,19,17,16,14,13,12,12,9,8,6,6,4,3,1,-128,-1,-3,-4,-6,-6,-8,-9,-12,-12,-13,-14,-16,-17,-19,-21,-24,-24,-25,-26,-27,-28,-29,-30,-32,-33,-34,-36,-38,-40,-42,-45,-48,-48,-49,-50,-51,-52,-52,-53,-54,-55,-56,-57,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-75,-77,-78,-80,-80,-81,-82,-83,-84,-84,-85,-86,-87,-88,-89,-91,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-101,-101,-102,-103,-104,-104,-105,-106,-107,-108,-109,-110,-112,-112,-112,-113,-113,-114,-114,-115,-116,-116,-117,-118,-120,-120,-120,-121,-122,-122,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,121,120,120,120,119,118,117,116,115,114,114,113,113,112,112,112,111,110,109,108,107,106,105,104,103,103,102,101,101,100,100,99,99,98,98,97,97,97,96,96,96,94,93,92,91,90,89,88,87,86,85,84,83,82,81,81,79,78,76,75,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,59,58,57,56,55,54,53,52,51,50,49,49,46,43,41,39,37,35,34,32,31,30,29,28,27,26,25,24,21,19,17,16,15,14,13,12,9,8,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-8,-9,-12,-13,-14,-15,-16,-17,-19,-21,-24,-25,-26,-27,-28,-29,-30,-31,-32,-34,-35,-37,-39,-41,-43,-46,-49,-49,-50,-51,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-75,-76,-78,-79,-81,-81,-82,-83,-84,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-101,-101,-102,-103,-103,-104,-105,-106,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-114,-114,-115,-116,-117,-118,-119,-120,-120,-120,-121,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,121,121,120,120,119,118,117,116,115,115,114,114,113,113,112,112,112,110,109,108,107,106,105,105,104,103,102,102,101,101,100,100,99,99,98,98,97,97,97,96,96,96,94,93,92,91,90,89,88,87,86,85,84,83,82,82,80,79,77,76,75,74,73,72,71,70,69,68,67,66,66,65,64,64,62,61,60,59,58,57,56,55,54,53,52,51,50,50,47,44,42,40,38,36,34,33,32,30,29,28,27,26,25,25,22,20,18,16,15,14,13,12,10,8,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-8,-10,-12,-13,-14,-15,-16,-18,-20,-22,-25,-25,-26,-27,-28,-29,-30,-32,-33,-34,-36,-38,-40,-42,-44,-47,-50,-50,-51,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-70,-71,-72,-73,-74,-75,-76,-77,-79,-80,-82,-82,-83,-84,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-105,-105,-106,-107,-108,-109,-110,-112,-112,-112,-113,-113,-114,-114,-115,-115,-116,-117,-118,-119,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,121,121,120,120,119,118,117,116,116,115,114,114,113,113,112,112,112,111,110,109,108,107,106,105,104,104,103,102,102,101,100,100,99,99,98,98,98,97,97,97,96,96,96,94,93,92,91,90,89,88,87,86,85,84,83,83,81,80,78,77,76,74,73,72,71,70,69,69,68,67,66,66,65,64,64,62,61,60,59,58,57,56,55,54,53,52,51,51,48,45,42,40,38,37,35,34,32,31,30,29,28,27,26,25,22,20,18,17,15,14,13,12,10,8,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-8,-10,-12,-13,-14,-15,-17,-18,-20,-22,-25,-26,-27,-28,-29,-30,-31,-32,-34,-35,-37,-38,-40,-42,-45,-48,-51,-51,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-66,-66,-67,-68,-69,-69,-70,-71,-72,-73,-74,-76,-77,-78,-80,-81,-83,-83,-84,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-102,-102,-103,-104,-104,-105,-106,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-114,-114,-115,-116,-116,-117,-118,-119,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,121,121,120,120,120,118,117,117,116,115,114,114,113,113,113,112,112,112,110,109,108,107,106,106,105,104,103,103,102,101,101,100,100,99,99,98,98,98,97,97,96,96,96,96,94,93,92,91,90,89,88,87,86,85,84,84,82,80,79,78,76,75,74,73,72,71,70,69,68,68,67,66,65,65,64,64,62,61,60,59,58,57,56,55,54,53,52,52,48,46,43,41,39,37,36,34,33,32,30,29,28,27,26,26,23,20,18,17,16,14,13,13,10,8,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-8,-10,-13,-13,-14,-16,-17,-18,-20,-23,-26,-26,-27,-28,-29,-30,-32,-33,-34,-36,-37,-39,-41,-43,-46,-48,-52,-52,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-68,-68,-69,-70,-71,-72,-73,-74,-75,-76,-78,-79,-80,-82,-84,-84,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-103,-103,-104,-105,-106,-106,-107,-108,-109,-110,-112,-112,-112,-113,-113,-113,-114,-114,-115,-116,-117,-117,-118,-120,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,121,121,120,120,120,119,118,117,116,115,115,114,114,113,113,112,112,112,111,110,109,108,107,106,105,104,104,103,102,102,101,101,100,100,99,99,98,98,98,97,97,96,96,96,96,94,93,92,91,90,89,88,87,86,85,85,83,81,80,79,77,76,75,74,73,72,71,70,69,68,68,67,66,65,65,64,64,62,61,60,59,58,57,56,55,54,53,53,49,47,44,42,40,38,36,35,33,32,31,30,29,28,27,26,23,21,19,17,16,15,14,13,10,8,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-8,-10,-13,-14,-15,-16,-17,-19,-21,-23,-26,-27,-28,-29,-30,-31,-32,-33,-35,-36,-38,-40,-42,-44,-47,-49,-53,-53,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-68,-68,-69,-70,-71,-72,-73,-74,-75,-76,-77,-79,-80,-81,-83,-85,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-106,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-114,-114,-115,-115,-116,-117,-118,-119,-120,-120,-120,-121,-121,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,122,121,120,120,120,119,118,117,116,116,115,114,114,113,113,113,112,112,112,110,109,108,107,107,106,105,104,104,103,102,102,101,101,100,100,99,99,98,98,98,97,97,96,96,96,96,94,93,92,91,90,89,88,87,86,86,84,82,81,80,78,77,76,75,74,73,72,71,70,69,68,68,67,66,65,65,64,64,62,61,60,59,58,57,56,55,54,54,50,48,45,43,41,39,37,36,34,33,32,30,29,28,27,27,24,21,19,18,16,15,14,13,10,9,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-9,-10,-13,-14,-15,-16,-18,-19,-21,-24,-27,-27,-28,-29,-30,-32,-33,-34,-36,-37,-39,-41,-43,-45,-48,-50,-54,-54,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-68,-68,-69,-70,-71,-72,-73,-74,-75,-76,-77,-78,-80,-81,-82,-84,-86,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-106,-107,-107,-108,-109,-110,-112,-112,-112,-113,-113,-113,-114,-114,-115,-116,-116,-117,-118,-119,-120,-120,-120,-121,-122,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,123,122,122,121,121,120,120,119,118,117,116,116,115,115,114,114,113,113,112,112,112,111,110,109,108,107,106,105,105,104,103,103,102,102,101,100,100,100,99,99,98,98,97,97,97,96,96,96,96,94,93,92,91,90,89,88,87,87,85,83,82,80,79,78,77,76,74,73,72,72,71,70,69,68,67,67,66,65,65,64,64,62,61,60,59,58,57,56,55,55,51,48,46,44,41,40,38,36,35,33,32,31,30,29,28,27,24,22,20,18,16,15,14,13,11,9,7,6,4,3,1,-128,-1,-3,-4,-6,-7,-9,-11,-13,-14,-15,-16,-18,-20,-22,-24,-27,-28,-29,-30,-31,-32,-33,-35,-36,-38,-40,-41,-44,-46,-48,-51,-55,-55,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-70,-71,-72,-72,-73,-74,-76,-77,-78,-79,-80,-82,-83,-85,-87,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-100,-101,-102,-102,-103,-103,-104,-105,-105,-106,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-114,-114,-115,-115,-116,-116,-117,-118,-119,-120,-120,-121,-121,-122,-122,-123,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,124,123,122,121,121,120,120,120,118,118,117,116,115,115,114,114,113,113,112,112,112,112,110,109,108,108,107,106,105,104,104,103,102,102,101,101,100,100,99,99,99,98,98,97,97,97,96,96,96,96,94,93,92,91,90,89,88,88,86,84,83,81,80,79,77,76,75,74,73,72,71,70,70,69,68,67,67,66,65,65,64,64,62,61,60,59,58,57,56,56,52,49,47,44,42,40,38,37,35,34,33,32,30,29,28,28,24,22,20,18,17,16,14,14,11,9,8,7,4,3,1,-128,-1,-3,-4,-7,-8,-9,-11,-14,-14,-16,-17,-18,-20,-22,-24,-28,-28,-29,-30,-32,-33,-34,-35,-37,-38,-40,-42,-44,-47,-49,-52,-56,-56,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-70,-70,-71,-72,-73,-74,-75,-76,-77,-79,-80,-81,-83,-84,-86,-88,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-106,-107,-108,-108,-109,-110,-112,-112,-112,-112,-113,-113,-114,-114,-115,-115,-116,-117,-118,-118,-120,-120,-120,-121,-121,-122,-123,-124,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,124,123,122,121,121,120,120,120,119,118,117,116,116,115,114,114,113,113,113,112,112,112,111,110,109,108,107,106,106,105,104,104,103,102,102,101,101,100,100,99,99,99,98,98,97,97,97,96,96,96,96,94,93,92,91,90,89,89,87,85,84,82,81,80,78,77,76,75,74,73,72,71,70,70,69,68,67,67,66,65,65,64,64,62,61,60,59,58,57,57,53,50,48,45,43,41,39,38,36,35,33,32,31,30,29,28,25,22,20,19,17,16,15,14,11,9,8,7,4,3,1,-128,-1,-3,-4,-7,-8,-9,-11,-14,-15,-16,-17,-19,-20,-22,-25,-28,-29,-30,-31,-32,-33,-35,-36,-38,-39,-41,-43,-45,-48,-50,-53,-57,-57,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-70,-70,-71,-72,-73,-74,-75,-76,-77,-78,-80,-81,-82,-84,-85,-87,-89,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-106,-106,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-113,-114,-114,-115,-116,-116,-117,-118,-119,-120,-120,-120,-121,-121,-122,-123,-124,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,124,123,122,121,121,120,120,120,119,118,117,116,116,115,115,114,114,113,113,112,112,112,112,110,109,109,108,107,106,105,105,104,103,103,102,102,101,101,100,100,99,99,98,98,98,97,97,97,96,96,96,96,94,93,92,91,90,90,88,86,85,83,82,80,79,78,77,76,75,74,73,72,71,70,69,69,68,67,67,66,65,65,64,64,62,61,60,59,58,58,54,51,48,46,44,42,40,38,37,35,34,33,32,30,29,29,25,23,21,19,17,16,15,14,11,9,8,7,4,3,1,-128,-1,-3,-4,-7,-8,-9,-11,-14,-15,-16,-17,-19,-21,-23,-25,-29,-29,-30,-32,-33,-34,-35,-37,-38,-40,-42,-44,-46,-48,-51,-54,-58,-58,-59,-60,-61,-62,-64,-64,-65,-65,-66,-67,-67,-68,-69,-69,-70,-71,-72,-73,-74,-75,-76,-77,-78,-79,-80,-82,-83,-85,-86,-88,-90,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-103,-104,-105,-105,-106,-107,-108,-109,-109,-110,-112,-112,-112,-112,-113,-113,-114,-114,-115,-115,-116,-116,-117,-118,-119,-120,-120,-120,-121,-121,-122,-123,-124,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,124,124,124,123,122,121,121,120,120,120,119,118,117,117,116,115,115,114,114,113,113,113,112,112,112,111,110,109,108,107,106,106,105,104,104,103,103,102,101,101,100,100,100,99,99,98,98,98,97,97,97,96,96,96,96,94,93,92,91,91,89,87,85,84,83,81,80,79,78,76,75,74,73,73,72,71,70,69,69,68,67,66,66,65,65,64,64,62,61,60,59,59,55,52,49,47,44,42,41,39,37,36,34,33,32,31,30,29,26,23,21,19,18,16,15,14,11,9,8,7,4,3,1,-128,-1,-3,-4,-7,-8,-9,-11,-14,-15,-16,-18,-19,-21,-23,-26,-29,-30,-31,-32,-33,-34,-36,-37,-39,-41,-42,-44,-47,-49,-52,-55,-59,-59,-60,-61,-62,-64,-64,-65,-65,-66,-66,-67,-68,-69,-69,-70,-71,-72,-73,-73,-74,-75,-76,-78,-79,-80,-81,-83,-84,-85,-87,-89,-91,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-100,-101,-101,-102,-103,-103,-104,-104,-105,-106,-106,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-113,-114,-114,-115,-115,-116,-117,-117,-118,-119,-120,-120,-120,-121,-121,-122,-123,-124,-124,-124,-125,-126,-126,-127,-128,127,126,126,125,125,124,124,123,122,122,121,121,120,120,120,119,118,117,116,116,115,114,114,114,113,113,112,112,112,112,110,110,109,108,107,106,105,105,104,104,103,102,102,101,101,100,100,100,99,99,98,98,98,97,97,97,96,96,96,96,94,93,92,92,90,88,86,85,83,82,81,80,78,77,76,75,74,73,72,72,71,70,69,68,68,67,66,66,65,65,64,64,62,61,60,60,56,53,50,48,45,43,41,40,38,36,35,34,33,32,30,30,26,24,21,20,18,17,16,15,12,10,8,7,5,3,1,-128,-1,-3,-5,-7,-8,-10,-12,-15,-16,-17,-18,-20,-21,-24,-26,-30,-30,-32,-33,-34,-35,-36,-38,-40,-41,-43,-45,-48,-50,-53,-56,-60,-60,-61,-62,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-71,-72,-72,-73,-74,-75,-76,-77,-78,-80,-81,-82,-83,-85,-86,-88,-90,-92,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-105,-106,-107,-108,-109,-110,-110,-112,-112,-112,-112,-113,-113,-114,-114,-114,-115,-116,-116,-117,-118,-119,-120,-120,-120,-121,-121,-122,-122,-123,-124,-124,-125,-125,-126,-126,-127,-128,127,126,126,125,125,124,124,123,122,122,121,121,120,120,120,119,118,117,116,116,115,115,114,114,113,113,113,112,112,112,111,110,109,108,107,107,106,105,105,104,103,103,102,102,101,101,100,100,99,99,99,98,98,98,97,97,97,96,96,96,96,94,93,93,91,89,87,86,84,83,82,80,79,78,77,76,75,74,73,72,71,71,70,69,68,68,67,66,66,65,65,64,64,62,61,61,57,54,51,48,46,44,42,40,39,37,36,34,33,32,31,30,27,24,22,20,18,17,16,15,12,10,8,7,5,3,1,-128,-1,-3,-5,-7,-8,-10,-12,-15,-16,-17,-18,-20,-22,-24,-27,-30,-31,-32,-33,-34,-36,-37,-39,-40,-42,-44,-46,-48,-51,-54,-57,-61,-61,-62,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-71,-71,-72,-73,-74,-75,-76,-77,-78,-79,-80,-82,-83,-84,-86,-87,-89,-91,-93,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-99,-100,-100,-101,-101,-102,-102,-103,-103,-104,-105,-105,-106,-107,-107,-108,-109,-110,-111,-112,-112,-112,-113,-113,-113,-114,-114,-115,-115,-116,-116,-117,-118,-119,-120,-120,-120,-121,-121,-122,-122,-123,-124,-124,-125,-125,-126,-126,-127,-128,127,126,126,125,125,124,124,123,122,122,121,121,120,120,120,119,118,117,117,116,115,115,114,114,113,113,113,112,112,112,112,111,110,109,108,107,106,106,105,104,104,103,103,102,102,101,101,100,100,99,99,99,98,98,98,97,97,97,96,96,96,96,94,94,92,90,88,87,85,84,82,81,80,79,78,77,76,75,74,73,72,71,70,70,69,68,68,67,66,66,65,65,64,64,62,62,58,55,52,49,47,45,43,41,39,38,36,35,34,33,32,31,27,24,22,20,19,17,16,15,12,10,8,7,5,3,1,-128,-1,-3,-5,-7,-8,-10,-12,-15,-16,-17,-19,-20,-22,-24,-27,-31,-32,-33,-34,-35,-36,-38,-39,-41,-43,-45,-47,-49,-52,-55,-58,-62,-62,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-70,-71,-72,-73,-74,-75,-76,-77,-78,-79,-80,-81,-82,-84,-85,-87,-88,-90,-92,-94,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-99,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-106,-106,-107,-108,-109,-110,-111,-112,-112,-112,-112,-113,-113,-113,-114,-114,-115,-115,-116,-117,-117,-118,-119,-120,-120,-120,-121,-121,-122,-122,-123,-124,-124,-125,-125,-126,-126,-127,-128,127,126,126,125,125,124,124,123,123,122,121,121,120,120,120,119,118,118,117,116,116,115,114,114,114,113,113,113,112,112,112,111,110,109,108,108,107,106,105,105,104,104,103,102,102,101,101,101,100,100,99,99,99,98,98,98,97,97,97,96,96,96,96,95,93,91,89,88,86,85,83,82,81,80,78,77,76,75,74,74,73,72,71,70,70,69,68,68,67,66,66,65,65,64,64,63,59,56,53,50,48,45,43,42,40,38,37,36,34,33,32,31,28,25,22,21,19,18,16,15,12,10,9,7,5,3,1,-128,-1,-3,-5,-7,-9,-10,-12,-15,-16,-18,-19,-21,-22,-25,-28,-31,-32,-33,-34,-36,-37,-38,-40,-42,-43,-45,-48,-50,-53,-56,-59,-63,-64,-64,-65,-65,-66,-66,-67,-68,-68,-69,-70,-70,-71,-72,-73,-74,-74,-75,-76,-77,-78,-80,-81,-82,-83,-85,-86,-88,-89,-91,-93,-95,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-99,-100,-100,-101,-101,-101,-102,-102,-103,-104,-104,-105,-105,-106,-107,-108,-108,-109,-110,-111,-112,-112,-112,-113,-113,-113,-114,-114,-114,-115,-116,-116,-117,-118,-118,-119,-120,-120,-120,-121,-121,-122,-123,-123,-124,-124,-125,-125,-126,-126,-127,-128,127,127,126,126,125,124,124,124,123,122,121,121,120,120,120,120,119,118,117,116,116,115,115,114,114,113,113,113,112,112,112,112,111,110,109,108,107,106,106,105,104,104,103,103,102,102,101,101,100,100,100,99,99,98,98,98,97,97,97,97,96,96,96,96,94,92,90,88,87,85,84,83,81,80,79,78,77,76,75,74,73,72,72,71,70,69,69,68,67,67,66,66,65,65,64,64,60,56,53,51,48,46,44,42,40,39,37,36,35,34,33,32,28,25,23,21,19,18,17,16,12,10,9,8,5,4,2,-128,-2,-4,-5,-8,-9,-10,-12,-16,-17,-18,-19,-21,-23,-25,-28,-32,-33,-34,-35,-36,-37,-39,-40,-42,-44,-46,-48,-51,-53,-56,-60,-64,-64,-65,-65,-66,-66,-67,-67,-68,-69,-69,-70,-71,-72,-72,-73,-74,-75,-76,-77,-78,-79,-80,-81,-83,-84,-85,-87,-88,-90,-92,-94,-96,-96,-96,-96,-97,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-106,-106,-107,-108,-109,-110,-111,-112,-112,-112,-112,-113,-113,-113,-114,-114,-115,-115,-116,-116,-117,-118,-119,-120,-120,-120,-120,-121,-121,-122,-123,-124,-124,-124,-125,-126,-126,-127,-127,-128,127,127,126,126,125,124,124,124,123,122,122,121,121,120,120,120,120,119,118,117,116,116,115,115,114,114,114,113,113,113,112,112,112,112,111,110,109,108,107,107,106,105,105,104,104,103,103,102,102,101,101,100,100,100,99,99,99,98,98,98,97,97,97,97,96,96,94,92,90,89,87,86,85,83,82,81,80,79,78,77,76,75,74,73,73,72,71,70,70,69,68,68,67,67,66,66,64,60,57,54,51,49,47,45,43,41,40,38,37,36,35,34,30,27,24,22,20,19,18,17,13,11,9,8,5,4,2,-128,-2,-4,-5,-8,-9,-11,-13,-17,-18,-19,-20,-22,-24,-27,-30,-34,-35,-36,-37,-38,-40,-41,-43,-45,-47,-49,-51,-54,-57,-60,-64,-66,-66,-67,-67,-68,-68,-69,-70,-70,-71,-72,-73,-73,-74,-75,-76,-77,-78,-79,-80,-81,-82,-83,-85,-86,-87,-89,-90,-92,-94,-96,-96,-97,-97,-97,-97,-98,-98,-98,-99,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-105,-106,-107,-107,-108,-109,-110,-111,-112,-112,-112,-112,-113,-113,-113,-114,-114,-114,-115,-115,-116,-116,-117,-118,-119,-120,-120,-120,-120,-121,-121,-122,-122,-123,-124,-124,-124,-125,-126,-126,-127,-127,-128,127,127,126,126,125,125,124,124,124,123,122,122,121,121,120,120,120,120,119,118,117,117,116,116,115,115,114,114,113,113,113,113,112,112,112,112,111,110,109,108,108,107,106,106,105,105,104,104,103,103,102,102,101,101,100,100,100,99,99,99,98,98,98,98,97,96,96,96,94,92,91,89,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,73,72,71,71,70,69,69,68,68,65,64,60,57,54,52,50,48,46,44,42,41,39,38,37,36,32,28,26,24,22,20,19,18,14,12,10,9,6,4,2,-128,-2,-4,-6,-9,-10,-12,-14,-18,-19,-20,-22,-24,-26,-28,-32,-36,-37,-38,-39,-41,-42,-44,-46,-48,-50,-52,-54,-57,-60,-64,-65,-68,-68,-69,-69,-70,-71,-71,-72,-73,-73,-74,-75,-76,-77,-78,-79,-80,-81,-82,-83,-84,-85,-86,-88,-89,-91,-92,-94,-96,-96,-96,-97,-98,-98,-98,-98,-99,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-105,-106,-106,-107,-108,-108,-109,-110,-111,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-115,-115,-116,-116,-117,-117,-118,-119,-120,-120,-120,-120,-121,-121,-122,-122,-123,-124,-124,-124,-125,-125,-126,-126,-127,-127,-128,127,127,126,126,125,125,124,124,124,123,122,122,121,121,121,120,120,120,120,119,118,117,117,116,116,115,115,114,114,114,113,113,113,112,112,112,112,112,111,110,109,108,108,107,107,106,105,105,104,104,103,103,102,102,102,101,101,100,100,100,99,99,99,99,98,97,97,96,96,96,94,92,91,89,88,87,86,84,83,82,81,80,79,78,77,77,76,75,74,73,73,72,71,71,70,70,67,65,64,60,57,55,52,50,48,46,45,43,41,40,39,38,33,30,27,25,23,21,20,19,15,12,10,9,6,4,2,-128,-2,-4,-6,-9,-10,-12,-15,-19,-20,-21,-23,-25,-27,-30,-33,-38,-39,-40,-41,-43,-45,-46,-48,-50,-52,-55,-57,-60,-64,-65,-67,-70,-70,-71,-71,-72,-73,-73,-74,-75,-76,-77,-77,-78,-79,-80,-81,-82,-83,-84,-86,-87,-88,-89,-91,-92,-94,-96,-96,-96,-97,-97,-98,-99,-99,-99,-99,-100,-100,-100,-101,-101,-102,-102,-102,-103,-103,-104,-104,-105,-105,-106,-107,-107,-108,-108,-109,-110,-111,-112,-112,-112,-112,-112,-113,-113,-113,-114,-114,-114,-115,-115,-116,-116,-117,-117,-118,-119,-120,-120,-120,-120,-121,-121,-121,-122,-122,-123,-124,-124,-124,-125,-125,-126,-126,-127,-127,-128,127,127,126,126,126,125,124,124,124,124,123,122,122,121,121,121,120,120,120,120,119,118,117,117,116,116,115,115,115,114,114,114,113,113,113,112,112,112,112,112,111,110,109,109,108,107,107,106,106,105,105,104,104,103,103,102,102,102,101,101,100,100,100,100,99,98,98,97,97,96,96,96,94,92,91,90,88,87,86,85,84,83,82,81,80,79,78,77,76,76,75,74,73,73,72,72,69,67,65,64,60,58,55,53,51,49,47,45,44,42,41,40,35,32,29,26,24,22,21,20,16,13,11,10,6,5,2,-128,-2,-5,-6,-10,-11,-13,-16,-20,-21,-22,-24,-26,-29,-32,-35,-40,-41,-42,-44,-45,-47,-49,-51,-53,-55,-58,-60,-64,-65,-67,-69,-72,-72,-73,-73,-74,-75,-76,-76,-77,-78,-79,-80,-81,-82,-83,-84,-85,-86,-87,-88,-90,-91,-92,-94,-96,-96,-96,-97,-97,-98,-98,-99,-100,-100,-100,-100,-101,-101,-102,-102,-102,-103,-103,-104,-104,-105,-105,-106,-106,-107,-107,-108,-109,-109,-110,-111,-112,-112,-112,-112,-112,-113,-113,-113,-114,-114,-114,-115,-115,-115,-116,-116,-117,-117,-118,-119,-120,-120,-120,-120,-121,-121,-121,-122,-122,-123,-124,-124,-124,-124,-125,-126,-126,-126,-127,-127,-128,127,127,126,126,126,125,125,124,124,124,123,123,122,122,121,121,120,120,120,120,120,119,118,118,117,116,116,116,115,115,114,114,114,113,113,113,113,112,112,112,112,112,111,110,109,109,108,108,107,106,106,105,105,104,104,104,103,103,102,102,102,101,101,101,100,99,99,98,98,97,97,96,96,96,94,93,91,90,89,88,86,85,84,83,82,81,80,80,79,78,77,76,76,75,74,74,71,69,67,65,64,61,58,56,53,51,49,48,46,44,43,42,37,33,30,28,25,24,22,21,16,14,12,10,7,5,2,-128,-2,-5,-7,-10,-12,-14,-16,-21,-22,-24,-25,-28,-30,-33,-37,-42,-43,-44,-46,-48,-49,-51,-53,-56,-58,-61,-64,-65,-67,-69,-71,-74,-74,-75,-76,-76,-77,-78,-79,-80,-80,-81,-82,-83,-84,-85,-86,-88,-89,-90,-91,-93,-94,-96,-96,-96,-97,-97,-98,-98,-99,-99,-100,-101,-101,-101,-102,-102,-102,-103,-103,-104,-104,-104,-105,-105,-106,-106,-107,-108,-108,-109,-109,-110,-111,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-115,-115,-116,-116,-116,-117,-118,-118,-119,-120,-120,-120,-120,-120,-121,-121,-122,-122,-123,-123,-124,-124,-124,-125,-125,-126,-126,-126,-127,-127,-128,127,127,126,126,126,125,125,124,124,124,124,123,122,122,121,121,121,120,120,120,120,120,119,118,118,117,117,116,116,115,115,115,114,114,114,113,113,113,113,112,112,112,112,112,111,110,109,109,108,108,107,107,106,106,105,105,104,104,103,103,103,102,102,102,101,100,100,99,99,98,98,97,97,96,96,96,94,93,91,90,89,88,87,86,85,84,83,82,81,80,79,78,78,77,76,76,73,71,69,67,65,64,61,58,56,54,52,50,48,46,45,44,39,35,32,29,27,25,23,22,17,14,12,11,7,5,2,-128,-2,-5,-7,-11,-12,-14,-17,-22,-23,-25,-27,-29,-32,-35,-39,-44,-45,-46,-48,-50,-52,-54,-56,-58,-61,-64,-65,-67,-69,-71,-73,-76,-76,-77,-78,-78,-79,-80,-81,-82,-83,-84,-85,-86,-87,-88,-89,-90,-91,-93,-94,-96,-96,-96,-97,-97,-98,-98,-99,-99,-100,-100,-101,-102,-102,-102,-103,-103,-103,-104,-104,-105,-105,-106,-106,-107,-107,-108,-108,-109,-109,-110,-111,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-115,-115,-115,-116,-116,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-121,-121,-121,-122,-122,-123,-124,-124,-124,-124,-125,-125,-126,-126,-126,-127,-127,-128,127,127,126,126,126,125,125,124,124,124,124,123,123,122,122,121,121,121,120,120,120,120,120,119,118,118,117,117,116,116,115,115,115,114,114,114,113,113,113,113,112,112,112,112,112,112,111,110,110,109,108,108,107,107,106,106,105,105,104,104,104,103,103,103,102,101,101,100,99,99,98,98,97,97,97,96,96,96,94,93,92,90,89,88,87,86,85,84,83,82,81,81,80,79,78,78,75,72,70,68,67,65,64,61,58,56,54,52,50,49,47,46,40,36,33,30,28,26,24,23,18,15,13,11,7,5,2,-128,-2,-5,-7,-11,-13,-15,-18,-23,-24,-26,-28,-30,-33,-36,-40,-46,-47,-49,-50,-52,-54,-56,-58,-61,-64,-65,-67,-68,-70,-72,-75,-78,-78,-79,-80,-81,-81,-82,-83,-84,-85,-86,-87,-88,-89,-90,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-101,-101,-102,-103,-103,-103,-104,-104,-104,-105,-105,-106,-106,-107,-107,-108,-108,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-115,-115,-115,-116,-116,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-121,-121,-121,-122,-122,-123,-123,-124,-124,-124,-124,-125,-125,-126,-126,-126,-127,-127,-128,127,127,127,126,126,126,125,125,124,124,124,124,123,122,122,122,121,121,121,120,120,120,120,120,119,118,118,117,117,116,116,116,115,115,114,114,114,114,113,113,113,113,112,112,112,112,112,112,111,110,110,109,108,108,107,107,106,106,106,105,105,104,104,104,103,102,101,101,100,100,99,99,98,98,97,97,97,96,96,96,94,93,92,91,89,88,87,86,85,84,84,83,82,81,80,80,77,74,72,70,68,66,65,64,61,59,56,54,52,51,49,48,42,38,34,32,29,27,25,24,19,16,13,12,8,6,3,-128,-3,-6,-8,-12,-13,-16,-19,-24,-25,-27,-29,-32,-34,-38,-42,-48,-49,-51,-52,-54,-56,-59,-61,-64,-65,-66,-68,-70,-72,-74,-77,-80,-80,-81,-82,-83,-84,-84,-85,-86,-87,-88,-89,-91,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-101,-101,-102,-103,-104,-104,-104,-105,-105,-106,-106,-106,-107,-107,-108,-108,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-116,-116,-116,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-121,-121,-121,-122,-122,-122,-123,-124,-124,-124,-124,-125,-125,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,125,125,124,124,124,124,123,123,122,122,121,121,121,121,120,120,120,120,120,119,118,118,117,117,116,116,116,115,115,115,114,114,114,114,113,113,113,113,112,112,112,112,112,112,111,110,110,109,109,108,108,107,107,106,106,105,105,105,104,103,102,102,101,101,100,100,99,99,98,98,97,97,97,96,96,96,94,93,92,91,90,89,88,87,86,85,84,83,82,82,79,76,74,72,70,68,66,65,64,61,59,57,55,53,51,50,44,40,36,33,30,28,26,25,20,16,14,12,8,6,3,-128,-3,-6,-8,-12,-14,-16,-20,-25,-26,-28,-30,-33,-36,-40,-44,-50,-51,-53,-55,-57,-59,-61,-64,-65,-66,-68,-70,-72,-74,-76,-79,-82,-82,-83,-84,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-105,-105,-105,-106,-106,-107,-107,-108,-108,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-116,-116,-116,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-123,-123,-124,-124,-124,-124,-125,-125,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,125,125,124,124,124,124,124,123,122,122,122,121,121,121,120,120,120,120,120,120,119,118,118,117,117,117,116,116,115,115,115,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,111,110,110,109,109,108,108,107,107,106,106,106,105,104,103,103,102,101,101,100,100,99,99,98,98,98,97,97,96,96,96,96,94,93,92,91,90,89,88,87,86,85,84,84,80,78,75,73,71,69,68,66,65,64,61,59,57,55,53,52,46,41,37,34,32,29,27,26,20,17,14,13,8,6,3,-128,-3,-6,-8,-13,-14,-17,-20,-26,-27,-29,-32,-34,-37,-41,-46,-52,-53,-55,-57,-59,-61,-64,-65,-66,-68,-69,-71,-73,-75,-78,-80,-84,-84,-85,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-103,-103,-104,-105,-106,-106,-106,-107,-107,-108,-108,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-116,-116,-117,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-120,-121,-121,-121,-122,-122,-122,-123,-124,-124,-124,-124,-124,-125,-125,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,125,125,125,124,124,124,124,123,123,122,122,122,121,121,121,120,120,120,120,120,120,119,118,118,117,117,117,116,116,116,115,115,115,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,111,110,110,109,109,108,108,107,107,107,106,105,104,104,103,102,102,101,101,100,100,99,99,98,98,98,97,97,96,96,96,96,94,93,92,91,90,89,88,87,86,86,82,80,77,75,73,71,69,68,66,65,64,61,59,57,55,54,48,43,39,36,33,30,28,27,21,18,15,13,9,6,3,-128,-3,-6,-9,-13,-15,-18,-21,-27,-28,-30,-33,-36,-39,-43,-48,-54,-55,-57,-59,-61,-64,-65,-66,-68,-69,-71,-73,-75,-77,-80,-82,-86,-86,-87,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-106,-107,-107,-107,-108,-108,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-116,-116,-116,-117,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-120,-121,-121,-121,-122,-122,-122,-123,-123,-124,-124,-124,-124,-125,-125,-125,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,126,125,125,124,124,124,124,124,123,123,122,122,121,121,121,121,120,120,120,120,120,120,119,118,118,118,117,117,116,116,116,115,115,115,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,111,110,110,109,109,108,108,108,107,106,105,104,104,103,102,102,101,101,100,100,99,99,99,98,98,97,97,97,96,96,96,96,94,93,92,91,90,89,88,88,84,81,79,76,74,72,70,69,67,66,65,64,61,59,57,56,49,44,40,37,34,32,29,28,22,18,16,14,9,7,3,-128,-3,-7,-9,-14,-16,-18,-22,-28,-29,-32,-34,-37,-40,-44,-49,-56,-57,-59,-61,-64,-65,-66,-67,-69,-70,-72,-74,-76,-79,-81,-84,-88,-88,-89,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-99,-99,-99,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-106,-107,-108,-108,-108,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-116,-116,-116,-117,-117,-118,-118,-118,-119,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-123,-123,-124,-124,-124,-124,-124,-125,-125,-126,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,126,125,125,124,124,124,124,124,123,123,122,122,122,121,121,121,121,120,120,120,120,120,120,119,118,118,118,117,117,116,116,116,115,115,115,115,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,111,110,110,109,109,109,108,107,106,105,105,104,103,103,102,102,101,101,100,100,99,99,98,98,98,97,97,97,96,96,96,96,94,93,92,91,90,90,86,83,80,78,76,74,72,70,69,67,66,65,64,61,59,58,51,46,42,38,35,33,30,29,23,19,16,14,9,7,3,-128,-3,-7,-9,-14,-16,-19,-23,-29,-30,-33,-35,-38,-42,-46,-51,-58,-59,-61,-64,-65,-66,-67,-69,-70,-72,-74,-76,-78,-80,-83,-86,-90,-90,-91,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-101,-101,-102,-102,-103,-103,-104,-105,-105,-106,-107,-108,-109,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-115,-116,-116,-116,-117,-117,-118,-118,-118,-119,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-125,-125,-126,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,126,125,125,125,124,124,124,124,124,123,123,122,122,122,121,121,121,121,120,120,120,120,120,120,119,119,118,118,117,117,116,116,116,116,115,115,115,114,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,111,110,110,110,109,108,107,106,105,105,104,104,103,102,102,101,101,100,100,100,99,99,98,98,98,97,97,97,96,96,96,96,94,93,92,92,88,85,82,80,77,75,73,72,70,68,67,66,65,64,61,60,53,48,43,40,36,34,32,30,24,20,17,15,10,7,3,-128,-3,-7,-10,-15,-17,-20,-24,-30,-32,-34,-36,-40,-43,-48,-53,-60,-61,-64,-65,-66,-67,-68,-70,-72,-73,-75,-77,-80,-82,-85,-88,-92,-92,-93,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-104,-104,-105,-105,-106,-107,-108,-109,-110,-110,-110,-111,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-114,-115,-115,-115,-116,-116,-116,-116,-117,-117,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-125,-125,-125,-126,-126,-126,-126,-127,-127,-127,-128,127,127,127,126,126,126,126,125,125,125,124,124,124,124,124,123,123,122,122,122,121,121,121,121,120,120,120,120,120,120,120,119,119,118,118,117,117,117,116,116,116,115,115,115,115,114,114,114,114,113,113,113,113,113,113,112,112,112,112,112,112,112,111,111,110,109,108,107,106,106,105,104,104,103,103,102,102,101,101,100,100,99,99,99,98,98,98,97,97,97,96,96,96,96,94,94,90,87,84,81,79,77,75,73,71,70,68,67,66,65,64,62,55,49,45,41,38,35,33,31,24,20,17,15,10,7,3,-128,-3,-7,-10,-15,-17,-20,-24,-31,-33,-35,-38,-41,-45,-49,-55,-62,-64,-65,-66,-67,-68,-70,-71,-73,-75,-77,-79,-81,-84,-87,-90,-94,-94,-96,-96,-96,-96,-97,-97,-97,-98,-98,-98,-99,-99,-99,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-106,-106,-107,-108,-109,-110,-111,-111,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-115,-116,-116,-116,-117,-117,-117,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-125,-125,-125,-126,-126,-126,-126,-127,-127,-127,-128,127,127,127,127,126,126,126,126,125,125,124,124,124,124,124,124,123,123,122,122,122,121,121,121,121,120,120,120,120,120,120,120,119,119,118,118,117,117,117,116,116,116,115,115,115,115,114,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,112,111,110,109,108,107,106,106,105,104,104,103,103,102,102,101,101,100,100,100,99,99,98,98,98,97,97,97,97,96,96,96,96,92,88,85,83,80,78,76,74,72,71,69,68,67,66,65,64,56,51,46,42,39,36,34,32,25,21,18,16,10,8,4,-128,-4,-8,-10,-16,-18,-21,-25,-32,-34,-36,-39,-42,-46,-51,-56,-64,-65,-66,-67,-68,-69,-71,-72,-74,-76,-78,-80,-83,-85,-88,-92,-96,-96,-96,-96,-97,-97,-97,-97,-98,-98,-98,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-106,-106,-107,-108,-109,-110,-111,-112,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-114,-115,-115,-115,-115,-116,-116,-116,-117,-117,-117,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-124,-125,-125,-126,-126,-126,-126,-127,-127,-127,-127,-128,127,127,127,127,126,126,126,126,126,125,125,125,124,124,124,124,124,124,123,123,122,122,122,122,121,121,121,121,120,120,120,120,120,120,120,120,119,119,118,118,118,117,117,117,116,116,116,116,115,115,115,115,114,114,114,114,114,113,113,113,113,113,113,113,112,112,112,112,111,110,109,108,108,107,106,106,105,105,104,104,103,103,102,102,101,101,100,100,100,99,99,99,98,98,98,98,96,96,92,89,86,84,82,80,78,76,74,73,71,70,69,68,64,57,52,48,44,41,38,36,28,24,20,18,12,9,4,-128,-4,-9,-12,-18,-20,-24,-28,-36,-38,-41,-44,-48,-52,-57,-64,-68,-69,-70,-71,-73,-74,-76,-78,-80,-82,-84,-86,-89,-92,-96,-96,-98,-98,-98,-98,-99,-99,-99,-100,-100,-100,-101,-101,-102,-102,-103,-103,-104,-104,-105,-105,-106,-106,-107,-108,-108,-109,-110,-111,-112,-112,-112,-112,-113,-113,-113,-113,-113,-113,-113,-114,-114,-114,-114,-114,-115,-115,-115,-115,-116,-116,-116,-116,-117,-117,-117,-118,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-124,-125,-125,-125,-126,-126,-126,-126,-126,-127,-127,-127,-127,-128,127,127,127,127,127,126,126,126,126,126,125,125,125,124,124,124,124,124,124,124,123,123,122,122,122,122,121,121,121,121,121,121,120,120,120,120,120,120,120,120,119,119,118,118,118,117,117,117,117,116,116,116,116,115,115,115,115,115,114,114,114,114,114,114,113,113,113,112,112,112,112,112,111,110,109,109,108,107,107,106,106,105,105,104,104,103,103,102,102,102,101,101,100,100,100,100,98,97,96,96,92,90,87,85,83,81,79,77,76,74,73,72,67,64,58,53,49,45,42,40,32,26,22,20,13,10,5,-128,-5,-10,-13,-20,-22,-26,-32,-40,-42,-45,-49,-53,-58,-64,-67,-72,-73,-74,-76,-77,-79,-81,-83,-85,-87,-90,-92,-96,-96,-97,-98,-100,-100,-100,-100,-101,-101,-102,-102,-102,-103,-103,-104,-104,-105,-105,-106,-106,-107,-107,-108,-109,-109,-110,-111,-112,-112,-112,-112,-112,-113,-113,-113,-114,-114,-114,-114,-114,-114,-115,-115,-115,-115,-115,-116,-116,-116,-116,-117,-117,-117,-117,-118,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-128,127,127,127,127,127,126,126,126,126,126,126,125,125,125,124,124,124,124,124,124,124,124,123,123,123,122,122,122,122,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,119,119,118,118,118,118,117,117,117,117,116,116,116,116,115,115,115,115,115,115,114,114,114,113,113,113,113,112,112,112,112,112,111,110,109,109,108,108,107,107,106,106,105,105,104,104,103,103,103,102,102,102,100,99,98,97,96,96,93,90,88,86,84,82,80,78,77,76,71,67,64,58,54,50,46,44,35,29,25,22,14,11,5,-128,-5,-11,-14,-22,-25,-29,-35,-44,-46,-50,-54,-58,-64,-67,-71,-76,-77,-78,-80,-82,-84,-86,-88,-90,-93,-96,-96,-97,-98,-99,-100,-102,-102,-102,-103,-103,-103,-104,-104,-105,-105,-106,-106,-107,-107,-108,-108,-109,-109,-110,-111,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-115,-115,-115,-115,-115,-115,-116,-116,-116,-116,-117,-117,-117,-117,-118,-118,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,126,126,126,126,126,126,125,125,125,125,124,124,124,124,124,124,124,124,123,123,123,122,122,122,122,122,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,119,119,119,118,118,118,117,117,117,117,117,116,116,116,116,116,115,115,114,114,114,114,113,113,113,113,112,112,112,112,112,112,111,110,110,109,108,108,107,107,106,106,106,105,105,104,104,104,102,101,100,99,98,97,96,96,93,91,88,86,84,83,81,80,74,70,66,64,59,54,51,48,38,32,27,24,16,12,6,-128,-6,-12,-16,-24,-27,-32,-38,-48,-51,-54,-59,-64,-66,-70,-74,-80,-81,-83,-84,-86,-88,-91,-93,-96,-96,-97,-98,-99,-100,-101,-102,-104,-104,-104,-105,-105,-106,-106,-106,-107,-107,-108,-108,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-116,-116,-116,-116,-116,-117,-117,-117,-117,-117,-118,-118,-118,-119,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,126,126,126,126,126,126,126,125,125,125,125,124,124,124,124,124,124,124,124,124,123,123,123,122,122,122,122,122,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,120,119,119,119,118,118,118,118,117,117,117,117,117,116,116,115,115,115,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,111,110,110,109,109,108,108,107,107,106,106,106,104,103,101,100,99,98,98,97,96,96,93,91,89,87,85,84,78,73,69,66,64,59,55,52,41,34,29,26,17,13,6,-128,-6,-13,-17,-26,-29,-34,-41,-52,-55,-59,-64,-66,-69,-73,-78,-84,-85,-87,-89,-91,-93,-96,-96,-97,-98,-98,-99,-100,-101,-103,-104,-106,-106,-106,-107,-107,-108,-108,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-116,-116,-117,-117,-117,-117,-117,-118,-118,-118,-118,-119,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,126,126,126,126,126,126,126,125,125,125,125,124,124,124,124,124,124,124,124,124,124,123,123,123,123,122,122,122,122,122,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,120,120,119,119,119,118,118,118,118,118,117,117,116,116,116,115,115,115,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,111,110,110,109,109,108,108,108,106,104,103,102,101,100,99,98,97,97,96,96,93,91,89,88,81,76,72,69,66,64,59,56,44,37,32,28,18,14,7,-128,-7,-14,-18,-28,-32,-37,-44,-56,-59,-64,-66,-69,-72,-76,-81,-88,-89,-91,-93,-96,-96,-97,-97,-98,-99,-100,-101,-102,-103,-104,-106,-108,-108,-108,-109,-109,-110,-110,-111,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-115,-115,-115,-116,-116,-116,-117,-117,-118,-118,-118,-118,-118,-119,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,123,123,123,123,122,122,122,122,122,122,121,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,120,120,119,119,119,119,118,118,117,117,116,116,116,116,115,115,115,114,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,111,110,110,110,108,106,105,104,102,101,100,100,99,98,97,97,96,96,93,92,85,80,75,72,68,66,64,60,48,40,34,30,20,15,7,-128,-7,-15,-20,-30,-34,-40,-48,-60,-64,-66,-68,-72,-75,-80,-85,-92,-93,-96,-96,-97,-97,-98,-99,-100,-100,-101,-102,-104,-105,-106,-108,-110,-110,-110,-111,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-114,-115,-115,-115,-116,-116,-116,-116,-117,-117,-118,-118,-119,-119,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-122,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,123,123,123,123,122,122,122,122,122,122,121,121,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,120,120,120,119,119,118,118,117,117,117,116,116,116,115,115,115,115,114,114,114,114,114,113,113,113,113,113,112,112,112,112,112,112,112,112,110,108,106,105,104,103,102,101,100,99,98,98,97,97,96,96,88,83,78,74,71,68,66,64,51,42,36,32,21,16,8,-128,-8,-16,-21,-32,-36,-42,-51,-64,-66,-68,-71,-74,-78,-83,-88,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-106,-108,-110,-112,-112,-112,-112,-112,-112,-112,-112,-113,-113,-113,-113,-113,-114,-114,-114,-114,-114,-115,-115,-115,-115,-116,-116,-116,-117,-117,-117,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-122,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,124,124,124,123,123,123,123,123,122,122,122,122,122,122,122,122,121,121,121,121,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,119,119,118,118,118,117,117,117,117,116,116,116,116,115,115,115,115,115,114,114,114,114,114,114,113,112,112,112,110,109,107,106,105,104,103,102,102,101,100,100,97,96,90,85,81,77,74,72,64,53,45,40,26,20,10,-128,-10,-20,-26,-40,-45,-53,-64,-72,-74,-77,-81,-85,-90,-96,-97,-100,-100,-101,-102,-102,-103,-104,-105,-106,-107,-109,-110,-112,-112,-112,-113,-114,-114,-114,-114,-114,-114,-115,-115,-115,-115,-115,-116,-116,-116,-116,-117,-117,-117,-117,-118,-118,-118,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-122,-122,-122,-123,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,123,123,123,123,123,123,122,122,122,122,122,122,122,122,122,122,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,119,119,119,118,118,118,117,117,117,117,117,116,116,116,116,116,115,114,114,113,113,112,112,112,110,109,108,107,106,105,104,104,101,99,97,96,91,86,83,80,70,64,54,48,32,24,12,-128,-12,-24,-32,-48,-54,-64,-70,-80,-83,-86,-91,-96,-97,-99,-101,-104,-104,-105,-106,-107,-108,-109,-110,-112,-112,-112,-113,-113,-114,-114,-115,-116,-116,-116,-116,-116,-117,-117,-117,-117,-117,-118,-118,-118,-119,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-122,-122,-122,-122,-122,-123,-123,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,123,123,123,123,123,123,123,123,122,122,122,122,122,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,120,120,119,119,119,118,118,118,118,118,117,116,115,115,114,114,113,113,112,112,112,112,110,109,108,108,104,102,100,98,97,96,91,88,76,69,64,56,37,28,14,-128,-14,-28,-37,-56,-64,-69,-76,-88,-91,-96,-97,-98,-100,-102,-104,-108,-108,-109,-110,-112,-112,-112,-112,-113,-113,-114,-114,-115,-115,-116,-117,-118,-118,-118,-118,-118,-119,-119,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-123,-123,-123,-123,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,123,123,123,123,122,122,122,122,122,122,121,121,121,121,121,121,121,121,121,120,120,120,120,120,120,120,120,120,120,120,120,120,119,118,117,116,116,115,115,114,114,113,113,113,112,112,112,112,108,105,103,101,99,98,97,96,83,74,68,64,42,32,16,-128,-16,-32,-42,-64,-68,-74,-83,-96,-97,-98,-99,-101,-103,-105,-108,-112,-112,-112,-112,-113,-113,-113,-114,-114,-115,-115,-116,-116,-117,-118,-119,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-121,-121,-121,-121,-121,-122,-122,-122,-122,-122,-122,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,125,125,125,125,125,125,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,123,123,123,123,123,123,122,122,122,122,122,122,122,122,122,122,121,121,121,120,120,120,120,120,119,118,118,117,117,116,116,116,114,113,112,112,109,107,105,104,99,96,86,80,64,48,24,-128,-24,-48,-64,-80,-86,-96,-99,-104,-105,-107,-109,-112,-112,-113,-114,-116,-116,-116,-117,-117,-118,-118,-119,-120,-120,-120,-120,-120,-121,-121,-121,-122,-122,-122,-122,-122,-122,-122,-122,-122,-122,-123,-123,-123,-123,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,123,123,122,122,122,121,121,121,121,120,120,120,120,120,120,120,118,116,115,114,113,113,112,112,105,101,98,96,74,64,32,-128,-32,-64,-74,-96,-98,-101,-105,-112,-112,-113,-113,-114,-115,-116,-118,-120,-120,-120,-120,-120,-120,-120,-121,-121,-121,-121,-122,-122,-122,-123,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,125,125,125,125,125,124,124,124,124,124,124,124,124,124,124,124,123,122,121,121,120,120,120,120,116,114,113,112,101,96,64,-128,-64,-96,-101,-112,-113,-114,-116,-120,-120,-120,-120,-121,-121,-122,-123,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-125,-125,-125,-125,-125,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-122,-121,-121,-120,-120,-120,-120,-116,-114,-113,-112,-101,-96,-64,-128,64,96,101,112,113,114,116,120,120,120,120,121,121,122,123,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-118,-116,-115,-114,-113,-113,-112,-112,-105,-101,-98,-96,-74,-64,-32,-128,32,64,74,96,98,101,105,112,112,113,113,114,115,116,118,120,120,120,120,120,120,120,121,121,121,121,122,122,122,123,123,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-123,-123,-122,-122,-122,-122,-122,-122,-122,-122,-122,-122,-121,-121,-121,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-116,-116,-116,-114,-113,-112,-112,-109,-107,-105,-104,-99,-96,-86,-80,-64,-48,-24,-128,24,48,64,80,86,96,99,104,105,107,109,112,112,113,114,116,116,116,117,117,118,118,119,120,120,120,120,120,121,121,121,122,122,122,122,122,122,122,122,122,122,123,123,123,123,123,123,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,125,125,125,125,125,125,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-122,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-118,-117,-116,-116,-115,-115,-114,-114,-113,-113,-113,-112,-112,-112,-112,-108,-105,-103,-101,-99,-98,-97,-96,-83,-74,-68,-64,-42,-32,-16,-128,16,32,42,64,68,74,83,96,97,98,99,101,103,105,108,112,112,112,112,113,113,113,114,114,115,115,116,116,117,118,119,120,120,120,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,121,121,122,122,122,122,122,122,123,123,123,123,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-123,-123,-123,-123,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-119,-118,-118,-118,-118,-118,-117,-116,-115,-115,-114,-114,-113,-113,-112,-112,-112,-112,-110,-109,-108,-108,-104,-102,-100,-98,-97,-96,-91,-88,-76,-69,-64,-56,-37,-28,-14,-128,14,28,37,56,64,69,76,88,91,96,97,98,100,102,104,108,108,109,110,112,112,112,112,113,113,114,114,115,115,116,117,118,118,118,118,118,119,119,119,120,120,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,122,122,122,122,122,123,123,123,123,123,123,123,123,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-123,-123,-122,-122,-122,-122,-122,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-119,-118,-118,-118,-117,-117,-117,-117,-117,-116,-116,-116,-116,-116,-115,-114,-114,-113,-113,-112,-112,-112,-110,-109,-108,-107,-106,-105,-104,-104,-101,-99,-97,-96,-91,-86,-83,-80,-70,-64,-54,-48,-32,-24,-12,-128,12,24,32,48,54,64,70,80,83,86,91,96,97,99,101,104,104,105,106,107,108,109,110,112,112,112,113,113,114,114,115,116,116,116,116,116,117,117,117,117,117,118,118,118,119,119,119,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,122,122,122,122,122,122,122,122,122,122,123,123,123,123,123,123,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-123,-122,-122,-122,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-118,-117,-117,-117,-117,-116,-116,-116,-116,-115,-115,-115,-115,-115,-114,-114,-114,-114,-114,-114,-113,-112,-112,-112,-110,-109,-107,-106,-105,-104,-103,-102,-102,-101,-100,-100,-97,-96,-90,-85,-81,-77,-74,-72,-64,-53,-45,-40,-26,-20,-10,-128,10,20,26,40,45,53,64,72,74,77,81,85,90,96,97,100,100,101,102,102,103,104,105,106,107,109,110,112,112,112,113,114,114,114,114,114,114,115,115,115,115,115,116,116,116,116,117,117,117,117,118,118,118,119,119,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,121,121,121,121,122,122,122,122,122,122,122,122,123,123,123,123,123,124,124,124,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,125,126,126,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-122,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-117,-117,-117,-116,-116,-116,-115,-115,-115,-115,-114,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-112,-110,-108,-106,-105,-104,-103,-102,-101,-100,-99,-98,-98,-97,-97,-96,-96,-88,-83,-78,-74,-71,-68,-66,-64,-51,-42,-36,-32,-21,-16,-8,-128,8,16,21,32,36,42,51,64,66,68,71,74,78,83,88,96,96,97,97,98,98,99,100,101,102,103,104,105,106,108,110,112,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,114,115,115,115,115,116,116,116,117,117,117,118,118,119,119,120,120,120,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,121,121,122,122,122,122,122,122,123,123,123,123,124,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-122,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-119,-119,-118,-118,-117,-117,-116,-116,-116,-116,-115,-115,-115,-114,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-111,-110,-110,-110,-108,-106,-105,-104,-102,-101,-100,-100,-99,-98,-97,-97,-96,-96,-93,-92,-85,-80,-75,-72,-68,-66,-64,-60,-48,-40,-34,-30,-20,-15,-7,-128,7,15,20,30,34,40,48,60,64,66,68,72,75,80,85,92,93,96,96,97,97,98,99,100,100,101,102,104,105,106,108,110,110,110,111,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,114,115,115,115,116,116,116,116,117,117,118,118,119,119,119,119,120,120,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,121,122,122,122,122,122,122,123,123,123,123,124,124,124,124,124,124,124,124,124,124,125,125,125,125,125,126,126,126,126,126,126,126,126,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-123,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-119,-118,-118,-118,-118,-118,-117,-117,-116,-116,-116,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-108,-108,-108,-106,-104,-103,-102,-101,-100,-99,-98,-97,-97,-96,-96,-93,-91,-89,-88,-81,-76,-72,-69,-66,-64,-59,-56,-44,-37,-32,-28,-18,-14,-7,-128,7,14,18,28,32,37,44,56,59,64,66,69,72,76,81,88,89,91,93,96,96,97,97,98,99,100,101,102,103,104,106,108,108,108,109,109,110,110,111,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,115,115,115,116,116,116,117,117,118,118,118,118,118,119,119,119,120,120,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,122,122,122,122,122,123,123,123,123,124,124,124,124,124,124,124,124,124,124,125,125,125,125,126,126,126,126,126,126,126,127,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-119,-118,-118,-118,-118,-117,-117,-117,-117,-117,-116,-116,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-108,-108,-107,-107,-106,-106,-106,-104,-103,-101,-100,-99,-98,-98,-97,-96,-96,-93,-91,-89,-87,-85,-84,-78,-73,-69,-66,-64,-59,-55,-52,-41,-34,-29,-26,-17,-13,-6,-128,6,13,17,26,29,34,41,52,55,59,64,66,69,73,78,84,85,87,89,91,93,96,96,97,98,98,99,100,101,103,104,106,106,106,107,107,108,108,109,109,110,110,111,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,115,115,115,116,116,117,117,117,117,117,118,118,118,118,119,119,119,120,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,121,122,122,122,122,122,123,123,123,124,124,124,124,124,124,124,124,124,125,125,125,125,126,126,126,126,126,126,126,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-125,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-122,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-119,-118,-118,-118,-117,-117,-117,-117,-117,-116,-116,-116,-116,-116,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-108,-108,-107,-107,-106,-106,-106,-105,-105,-104,-104,-104,-102,-101,-100,-99,-98,-97,-96,-96,-93,-91,-88,-86,-84,-83,-81,-80,-74,-70,-66,-64,-59,-54,-51,-48,-38,-32,-27,-24,-16,-12,-6,-128,6,12,16,24,27,32,38,48,51,54,59,64,66,70,74,80,81,83,84,86,88,91,93,96,96,97,98,99,100,101,102,104,104,104,105,105,106,106,106,107,107,108,108,109,110,110,111,112,112,112,112,112,112,113,113,113,113,114,114,114,114,115,115,116,116,116,116,116,117,117,117,117,117,118,118,118,119,119,119,120,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,122,122,122,122,122,123,123,123,124,124,124,124,124,124,124,124,125,125,125,125,126,126,126,126,126,126,127,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-126,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-124,-123,-123,-123,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-118,-118,-117,-117,-117,-117,-116,-116,-116,-116,-115,-115,-115,-115,-115,-115,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-111,-110,-109,-109,-108,-108,-107,-107,-106,-106,-105,-105,-104,-104,-103,-103,-103,-102,-102,-102,-100,-99,-98,-97,-96,-96,-93,-90,-88,-86,-84,-82,-80,-78,-77,-76,-71,-67,-64,-58,-54,-50,-46,-44,-35,-29,-25,-22,-14,-11,-5,-128,5,11,14,22,25,29,35,44,46,50,54,58,64,67,71,76,77,78,80,82,84,86,88,90,93,96,96,97,98,99,100,102,102,102,103,103,103,104,104,105,105,106,106,107,107,108,108,109,109,110,111,112,112,112,112,112,113,113,113,113,114,114,114,115,115,115,115,115,115,116,116,116,116,117,117,117,117,118,118,118,118,119,119,120,120,120,120,120,120,120,120,120,121,121,121,121,121,121,122,122,122,122,123,123,123,124,124,124,124,124,124,124,124,125,125,125,126,126,126,126,126,126,127,127,127,127,127,-128,-127,-127,-127,-127,-127,-126,-126,-126,-126,-126,-125,-125,-125,-124,-124,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-122,-121,-121,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-118,-117,-117,-117,-117,-116,-116,-116,-116,-115,-115,-115,-115,-115,-114,-114,-114,-114,-114,-114,-113,-113,-113,-112,-112,-112,-112,-112,-111,-110,-109,-109,-108,-107,-107,-106,-106,-105,-105,-104,-104,-103,-103,-102,-102,-102,-101,-101,-100,-100,-100,-100,-98,-97,-96,-96,-92,-90,-87,-85,-83,-81,-79,-77,-76,-74,-73,-72,-67,-64,-58,-53,-49,-45,-42,-40,-32,-26,-22,-20,-13,-10,-5,-128,5,10,13,20,22,26,32,40,42,45,49,53,58,64,67,72,73,74,76,77,79,81,83,85,87,90,92,96,96,97,98,100,100,100,100,101,101,102,102,102,103,103,104,104,105,105,106,106,107,107,108,109,109,110,111,112,112,112,112,112,113,113,113,114,114,114,114,114,114,115,115,115,115,115,116,116,116,116,117,117,117,117,118,118,118,119,119,120,120,120,120,120,120,120,120,121,121,121,121,121,121,122,122,122,122,123,123,124,124,124,124,124,124,124,125,125,125,126,126,126,126,126,127,127,127,127,127,-128,-127,-127,-127,-127,-126,-126,-126,-126,-126,-125,-125,-125,-124,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-118,-117,-117,-117,-116,-116,-116,-116,-115,-115,-115,-115,-114,-114,-114,-114,-114,-113,-113,-113,-113,-113,-113,-113,-112,-112,-112,-112,-111,-110,-109,-108,-108,-107,-106,-106,-105,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-99,-98,-98,-98,-98,-96,-96,-92,-89,-86,-84,-82,-80,-78,-76,-74,-73,-71,-70,-69,-68,-64,-57,-52,-48,-44,-41,-38,-36,-28,-24,-20,-18,-12,-9,-4,-128,4,9,12,18,20,24,28,36,38,41,44,48,52,57,64,68,69,70,71,73,74,76,78,80,82,84,86,89,92,96,96,98,98,98,98,99,99,99,100,100,100,101,101,102,102,103,103,104,104,105,105,106,106,107,108,108,109,110,111,112,112,112,112,113,113,113,113,113,113,113,114,114,114,114,114,115,115,115,115,116,116,116,116,117,117,117,118,118,118,119,119,120,120,120,120,120,120,120,120,121,121,121,121,122,122,122,122,123,123,124,124,124,124,124,124,125,125,125,126,126,126,126,126,127,127,127,127,-128,-127,-127,-127,-127,-126,-126,-126,-126,-125,-125,-124,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-117,-117,-117,-116,-116,-116,-115,-115,-115,-115,-114,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-112,-111,-110,-109,-108,-107,-106,-106,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-97,-96,-96,-96,-96,-92,-88,-85,-83,-80,-78,-76,-74,-72,-71,-69,-68,-67,-66,-65,-64,-56,-51,-46,-42,-39,-36,-34,-32,-25,-21,-18,-16,-10,-8,-4,-128,4,8,10,16,18,21,25,32,34,36,39,42,46,51,56,64,65,66,67,68,69,71,72,74,76,78,80,83,85,88,92,96,96,96,96,97,97,97,97,98,98,98,99,99,100,100,100,101,101,102,102,103,103,104,104,105,106,106,107,108,109,110,111,112,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,114,115,115,115,115,116,116,116,117,117,117,118,118,119,119,120,120,120,120,120,120,120,121,121,121,121,122,122,122,123,123,124,124,124,124,124,124,125,125,126,126,126,126,127,127,127,127,-128,-127,-127,-127,-126,-126,-126,-126,-125,-125,-125,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-117,-117,-117,-116,-116,-116,-115,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-111,-111,-110,-109,-108,-107,-106,-106,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-99,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-94,-90,-87,-84,-81,-79,-77,-75,-73,-71,-70,-68,-67,-66,-65,-64,-62,-55,-49,-45,-41,-38,-35,-33,-31,-24,-20,-17,-15,-10,-7,-3,-128,3,7,10,15,17,20,24,31,33,35,38,41,45,49,55,62,64,65,66,67,68,70,71,73,75,77,79,81,84,87,90,94,94,96,96,96,96,97,97,97,98,98,98,99,99,99,100,100,101,101,102,102,103,103,104,104,105,106,106,107,108,109,110,111,111,112,112,112,112,112,112,112,113,113,113,113,113,113,114,114,114,114,115,115,115,115,116,116,116,117,117,117,118,118,119,119,120,120,120,120,120,120,120,121,121,121,121,122,122,122,123,123,124,124,124,124,124,125,125,125,126,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-126,-125,-125,-125,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-119,-119,-118,-118,-117,-117,-116,-116,-116,-116,-115,-115,-115,-114,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-111,-110,-110,-110,-109,-108,-107,-106,-105,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-92,-88,-85,-82,-80,-77,-75,-73,-72,-70,-68,-67,-66,-65,-64,-61,-60,-53,-48,-43,-40,-36,-34,-32,-30,-24,-20,-17,-15,-10,-7,-3,-128,3,7,10,15,17,20,24,30,32,34,36,40,43,48,53,60,61,64,65,66,67,68,70,72,73,75,77,80,82,85,88,92,92,93,94,96,96,96,96,97,97,97,98,98,98,99,99,100,100,100,101,101,102,102,103,104,104,105,105,106,107,108,109,110,110,110,111,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,114,115,115,115,116,116,116,116,117,117,118,118,119,119,120,120,120,120,120,120,121,121,121,121,122,122,122,123,123,124,124,124,124,124,125,125,125,126,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-126,-125,-125,-124,-124,-124,-124,-124,-123,-123,-122,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-119,-118,-118,-118,-117,-117,-116,-116,-116,-115,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-109,-108,-107,-106,-105,-105,-104,-103,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-90,-86,-83,-80,-78,-76,-74,-72,-70,-69,-67,-66,-65,-64,-61,-59,-58,-51,-46,-42,-38,-35,-33,-30,-29,-23,-19,-16,-14,-9,-7,-3,-128,3,7,9,14,16,19,23,29,30,33,35,38,42,46,51,58,59,61,64,65,66,67,69,70,72,74,76,78,80,83,86,90,90,91,92,93,94,96,96,96,96,97,97,97,98,98,98,99,99,100,100,101,101,102,102,103,103,104,105,105,106,107,108,109,109,109,110,110,111,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,115,115,115,115,116,116,116,117,117,118,118,118,119,120,120,120,120,120,120,121,121,121,121,122,122,122,123,123,124,124,124,124,124,125,125,126,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-126,-125,-125,-124,-124,-124,-124,-124,-123,-123,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-120,-119,-118,-118,-118,-117,-117,-116,-116,-116,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-108,-108,-108,-107,-106,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-88,-84,-81,-79,-76,-74,-72,-70,-69,-67,-66,-65,-64,-61,-59,-57,-56,-49,-44,-40,-37,-34,-32,-29,-28,-22,-18,-16,-14,-9,-7,-3,-128,3,7,9,14,16,18,22,28,29,32,34,37,40,44,49,56,57,59,61,64,65,66,67,69,70,72,74,76,79,81,84,88,88,89,90,91,92,93,94,96,96,96,96,97,97,97,98,98,99,99,99,100,100,101,101,102,102,103,104,104,105,106,107,108,108,108,109,109,110,110,111,112,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,115,115,115,116,116,116,117,117,118,118,118,119,120,120,120,120,120,120,121,121,121,121,122,122,123,123,124,124,124,124,124,125,125,126,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-125,-125,-125,-124,-124,-124,-124,-123,-123,-122,-122,-122,-121,-121,-121,-120,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-117,-116,-116,-116,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-108,-108,-107,-107,-107,-106,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-86,-82,-80,-77,-75,-73,-71,-69,-68,-66,-65,-64,-61,-59,-57,-55,-54,-48,-43,-39,-36,-33,-30,-28,-27,-21,-18,-15,-13,-9,-6,-3,-128,3,6,9,13,15,18,21,27,28,30,33,36,39,43,48,54,55,57,59,61,64,65,66,68,69,71,73,75,77,80,82,86,86,87,88,89,90,91,92,93,94,96,96,96,96,97,97,98,98,98,99,99,100,100,101,101,102,102,103,104,104,105,106,107,107,107,108,108,109,109,110,110,111,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,115,115,115,116,116,116,117,117,117,118,118,119,120,120,120,120,120,120,121,121,121,122,122,122,123,123,124,124,124,124,125,125,125,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-125,-125,-124,-124,-124,-124,-124,-123,-122,-122,-122,-121,-121,-121,-120,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-117,-116,-116,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-108,-108,-107,-107,-106,-106,-106,-105,-104,-103,-103,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-84,-80,-78,-75,-73,-71,-69,-68,-66,-65,-64,-61,-59,-57,-55,-53,-52,-46,-41,-37,-34,-32,-29,-27,-26,-20,-17,-14,-13,-8,-6,-3,-128,3,6,8,13,14,17,20,26,27,29,32,34,37,41,46,52,53,55,57,59,61,64,65,66,68,69,71,73,75,78,80,84,84,85,86,87,88,89,90,91,92,93,94,96,96,96,96,97,97,98,98,98,99,99,100,100,101,101,102,103,103,104,105,106,106,106,107,107,108,108,109,109,110,110,111,112,112,112,112,112,112,113,113,113,113,113,114,114,114,114,115,115,115,116,116,117,117,117,118,118,119,120,120,120,120,120,120,121,121,121,122,122,122,123,124,124,124,124,124,125,125,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-125,-125,-124,-124,-124,-124,-123,-123,-122,-122,-121,-121,-121,-121,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-116,-116,-116,-115,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-109,-108,-108,-107,-107,-106,-106,-105,-105,-105,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-82,-79,-76,-74,-72,-70,-68,-66,-65,-64,-61,-59,-57,-55,-53,-51,-50,-44,-40,-36,-33,-30,-28,-26,-25,-20,-16,-14,-12,-8,-6,-3,-128,3,6,8,12,14,16,20,25,26,28,30,33,36,40,44,50,51,53,55,57,59,61,64,65,66,68,70,72,74,76,79,82,82,83,84,85,86,87,88,89,90,91,92,93,94,96,96,96,97,97,97,98,98,99,99,100,100,101,101,102,102,103,104,105,105,105,106,106,107,107,108,108,109,109,110,110,111,112,112,112,112,112,112,113,113,113,113,114,114,114,114,115,115,115,116,116,116,117,117,118,118,119,120,120,120,120,120,121,121,121,121,122,122,123,123,124,124,124,124,125,125,126,126,126,127,127,127,-128,-127,-127,-127,-126,-126,-126,-125,-125,-124,-124,-124,-124,-123,-122,-122,-122,-121,-121,-121,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-116,-116,-116,-115,-115,-114,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-108,-108,-107,-107,-106,-106,-106,-105,-105,-104,-104,-104,-103,-102,-101,-101,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-91,-89,-88,-87,-86,-85,-84,-84,-83,-82,-81,-80,-80,-77,-74,-72,-70,-68,-66,-65,-64,-61,-59,-56,-54,-52,-51,-49,-48,-42,-38,-34,-32,-29,-27,-25,-24,-19,-16,-13,-12,-8,-6,-3,-128,3,6,8,12,13,16,19,24,25,27,29,32,34,38,42,48,49,51,52,54,56,59,61,64,65,66,68,70,72,74,77,80,80,81,82,83,84,84,85,86,87,88,89,91,92,93,94,96,96,96,97,97,97,98,98,99,99,100,100,101,101,102,103,104,104,104,105,105,106,106,106,107,107,108,108,109,110,110,111,112,112,112,112,112,112,113,113,113,113,114,114,114,114,115,115,116,116,116,117,117,118,118,119,120,120,120,120,120,121,121,121,122,122,122,123,124,124,124,124,125,125,126,126,126,127,127,127,-128,-127,-127,-126,-126,-126,-125,-125,-124,-124,-124,-124,-123,-123,-122,-122,-121,-121,-121,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-116,-116,-115,-115,-115,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-112,-111,-110,-110,-109,-108,-108,-107,-107,-106,-106,-105,-105,-104,-104,-104,-103,-103,-103,-102,-101,-101,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-81,-80,-79,-78,-78,-75,-72,-70,-68,-67,-65,-64,-61,-58,-56,-54,-52,-50,-49,-47,-46,-40,-36,-33,-30,-28,-26,-24,-23,-18,-15,-13,-11,-7,-5,-2,-128,2,5,7,11,13,15,18,23,24,26,28,30,33,36,40,46,47,49,50,52,54,56,58,61,64,65,67,68,70,72,75,78,78,79,80,81,81,82,83,84,85,86,87,88,89,90,92,93,94,96,96,96,97,97,97,98,98,99,99,100,101,101,102,103,103,103,104,104,104,105,105,106,106,107,107,108,108,109,110,110,111,112,112,112,112,112,112,113,113,113,113,114,114,114,115,115,115,116,116,117,117,118,118,119,120,120,120,120,120,121,121,121,122,122,123,123,124,124,124,124,125,125,126,126,126,127,127,-128,-127,-127,-126,-126,-126,-125,-125,-124,-124,-124,-124,-123,-122,-122,-121,-121,-121,-120,-120,-120,-120,-120,-119,-118,-118,-117,-117,-116,-116,-115,-115,-115,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-111,-110,-109,-109,-108,-108,-107,-107,-106,-106,-105,-105,-104,-104,-103,-103,-103,-102,-102,-102,-101,-100,-100,-99,-99,-98,-98,-97,-97,-96,-96,-96,-94,-93,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-78,-77,-76,-76,-73,-71,-69,-67,-65,-64,-61,-58,-56,-54,-52,-50,-48,-46,-45,-44,-39,-35,-32,-29,-27,-25,-23,-22,-17,-14,-12,-11,-7,-5,-2,-128,2,5,7,11,12,14,17,22,23,25,27,29,32,35,39,44,45,46,48,50,52,54,56,58,61,64,65,67,69,71,73,76,76,77,78,78,79,80,81,82,83,84,85,86,87,88,89,90,91,93,94,96,96,96,97,97,98,98,99,99,100,100,101,102,102,102,103,103,103,104,104,105,105,106,106,107,107,108,108,109,109,110,111,112,112,112,112,112,113,113,113,113,114,114,114,115,115,115,116,116,117,117,118,118,119,120,120,120,120,120,121,121,121,122,122,123,124,124,124,124,125,125,126,126,126,127,127,-128,-127,-127,-126,-126,-126,-125,-125,-124,-124,-124,-123,-123,-122,-122,-121,-121,-120,-120,-120,-120,-120,-119,-118,-118,-117,-116,-116,-116,-115,-115,-114,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-112,-111,-110,-109,-109,-108,-108,-107,-106,-106,-105,-105,-104,-104,-104,-103,-103,-102,-102,-102,-101,-101,-101,-100,-99,-99,-98,-98,-97,-97,-96,-96,-96,-94,-93,-91,-90,-89,-88,-86,-85,-84,-83,-82,-81,-80,-80,-79,-78,-77,-76,-76,-75,-74,-74,-71,-69,-67,-65,-64,-61,-58,-56,-53,-51,-49,-48,-46,-44,-43,-42,-37,-33,-30,-28,-25,-24,-22,-21,-16,-14,-12,-10,-7,-5,-2,-128,2,5,7,10,12,14,16,21,22,24,25,28,30,33,37,42,43,44,46,48,49,51,53,56,58,61,64,65,67,69,71,74,74,75,76,76,77,78,79,80,80,81,82,83,84,85,86,88,89,90,91,93,94,96,96,96,97,97,98,98,99,99,100,101,101,101,102,102,102,103,103,104,104,104,105,105,106,106,107,108,108,109,109,110,111,112,112,112,112,112,113,113,113,113,114,114,114,115,115,116,116,116,117,118,118,119,120,120,120,120,120,121,121,122,122,123,123,124,124,124,125,125,126,126,126,127,127,-128,-127,-127,-126,-126,-126,-125,-124,-124,-124,-124,-123,-122,-122,-121,-121,-121,-120,-120,-120,-120,-119,-118,-117,-117,-116,-116,-115,-115,-115,-114,-114,-114,-113,-113,-113,-112,-112,-112,-112,-112,-111,-110,-109,-109,-108,-107,-107,-106,-106,-105,-105,-104,-104,-103,-103,-102,-102,-102,-101,-101,-100,-100,-100,-100,-99,-98,-98,-97,-97,-96,-96,-96,-94,-92,-91,-90,-88,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-76,-75,-74,-73,-73,-72,-72,-69,-67,-65,-64,-60,-58,-55,-53,-51,-49,-47,-45,-44,-42,-41,-40,-35,-32,-29,-26,-24,-22,-21,-20,-16,-13,-11,-10,-6,-5,-2,-128,2,5,6,10,11,13,16,20,21,22,24,26,29,32,35,40,41,42,44,45,47,49,51,53,55,58,60,64,65,67,69,72,72,73,73,74,75,76,76,77,78,79,80,81,82,83,84,85,86,87,88,90,91,92,94,96,96,96,97,97,98,98,99,100,100,100,100,101,101,102,102,102,103,103,104,104,105,105,106,106,107,107,108,109,109,110,111,112,112,112,112,112,113,113,113,114,114,114,115,115,115,116,116,117,117,118,119,120,120,120,120,121,121,121,122,122,123,124,124,124,124,125,126,126,126,127,127,-128,-127,-127,-126,-126,-125,-125,-124,-124,-124,-123,-122,-122,-121,-121,-121,-120,-120,-120,-120,-119,-118,-117,-117,-116,-116,-115,-115,-114,-114,-114,-113,-113,-113,-112,-112,-112,-112,-112,-111,-110,-109,-108,-108,-107,-107,-106,-105,-105,-104,-104,-103,-103,-102,-102,-102,-101,-101,-100,-100,-100,-99,-99,-99,-99,-98,-97,-97,-96,-96,-96,-94,-92,-91,-89,-88,-87,-86,-84,-83,-82,-81,-80,-79,-78,-77,-77,-76,-75,-74,-73,-73,-72,-71,-71,-70,-70,-67,-65,-64,-60,-57,-55,-52,-50,-48,-46,-45,-43,-41,-40,-39,-38,-33,-30,-27,-25,-23,-21,-20,-19,-15,-12,-10,-9,-6,-4,-2,-128,2,4,6,9,10,12,15,19,20,21,23,25,27,30,33,38,39,40,41,43,45,46,48,50,52,55,57,60,64,65,67,70,70,71,71,72,73,73,74,75,76,77,77,78,79,80,81,82,83,84,86,87,88,89,91,92,94,96,96,96,97,97,98,99,99,99,99,100,100,100,101,101,102,102,102,103,103,104,104,105,105,106,107,107,108,108,109,110,111,112,112,112,112,112,113,113,113,114,114,114,115,115,116,116,117,117,118,119,120,120,120,120,121,121,121,122,122,123,124,124,124,125,125,126,126,127,127,-128,-127,-127,-126,-126,-125,-125,-124,-124,-124,-123,-122,-122,-121,-121,-120,-120,-120,-120,-119,-118,-117,-117,-116,-116,-115,-115,-114,-114,-113,-113,-113,-113,-112,-112,-112,-112,-111,-110,-109,-108,-108,-107,-106,-106,-105,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-99,-98,-98,-98,-98,-97,-96,-96,-96,-94,-92,-91,-89,-88,-86,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-73,-72,-71,-71,-70,-69,-69,-68,-68,-65,-64,-60,-57,-54,-52,-50,-48,-46,-44,-42,-41,-39,-38,-37,-36,-32,-28,-26,-24,-22,-20,-19,-18,-14,-12,-10,-9,-6,-4,-2,-128,2,4,6,9,10,12,14,18,19,20,22,24,26,28,32,36,37,38,39,41,42,44,46,48,50,52,54,57,60,64,65,68,68,69,69,70,71,71,72,73,73,74,75,76,77,78,79,80,81,82,83,84,85,86,88,89,91,92,94,96,96,96,97,98,98,98,98,99,99,99,100,100,100,101,101,102,102,103,103,104,104,105,105,106,106,107,108,108,109,110,111,112,112,112,112,113,113,113,113,114,114,115,115,116,116,117,117,118,119,120,120,120,120,121,121,122,122,123,124,124,124,125,125,126,126,127,127,-128,-127,-127,-126,-126,-125,-124,-124,-124,-123,-122,-122,-121,-121,-120,-120,-120,-120,-119,-118,-117,-116,-116,-115,-115,-114,-114,-114,-113,-113,-113,-112,-112,-112,-112,-111,-110,-109,-108,-107,-107,-106,-105,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-99,-98,-98,-98,-97,-97,-97,-97,-96,-96,-94,-92,-90,-89,-87,-86,-85,-83,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-73,-72,-71,-70,-70,-69,-68,-68,-67,-67,-66,-66,-64,-60,-57,-54,-51,-49,-47,-45,-43,-41,-40,-38,-37,-36,-35,-34,-30,-27,-24,-22,-20,-19,-18,-17,-13,-11,-9,-8,-5,-4,-2,-128,2,4,5,8,9,11,13,17,18,19,20,22,24,27,30,34,35,36,37,38,40,41,43,45,47,49,51,54,57,60,64,66,66,67,67,68,68,69,70,70,71,72,73,73,74,75,76,77,78,79,80,81,82,83,85,86,87,89,90,92,94,96,96,97,97,97,97,98,98,98,99,99,99,100,100,100,101,101,102,102,103,103,104,104,105,105,106,107,107,108,109,110,111,112,112,112,112,113,113,113,114,114,114,115,115,116,116,117,118,119,120,120,120,120,121,121,122,122,123,124,124,124,125,126,126,127,127,-128,-127,-127,-126,-126,-125,-124,-124,-124,-123,-122,-121,-121,-120,-120,-120,-120,-119,-118,-117,-116,-116,-115,-115,-114,-114,-113,-113,-113,-112,-112,-112,-112,-111,-110,-109,-108,-107,-106,-106,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-97,-96,-96,-96,-96,-94,-92,-90,-88,-87,-85,-84,-83,-81,-80,-79,-78,-77,-76,-75,-74,-73,-72,-72,-71,-70,-69,-69,-68,-67,-67,-66,-66,-65,-65,-64,-64,-60,-56,-53,-51,-48,-46,-44,-42,-40,-39,-37,-36,-35,-34,-33,-32,-28,-25,-23,-21,-19,-18,-17,-16,-12,-10,-9,-8,-5,-4,-2,-128,2,4,5,8,9,10,12,16,17,18,19,21,23,25,28,32,33,34,35,36,37,39,40,42,44,46,48,51,53,56,60,64,64,65,65,66,66,67,67,68,69,69,70,71,72,72,73,74,75,76,77,78,79,80,81,83,84,85,87,88,90,92,94,96,96,96,96,97,97,97,97,98,98,98,99,99,100,100,100,101,101,102,102,103,103,104,104,105,106,106,107,108,109,110,111,112,112,112,112,113,113,113,114,114,115,115,116,116,117,118,119,120,120,120,120,121,121,122,123,124,124,124,125,126,126,127,127,-128,-127,-126,-126,-125,-125,-124,-124,-123,-123,-122,-121,-121,-120,-120,-120,-119,-118,-118,-117,-116,-116,-115,-114,-114,-114,-113,-113,-113,-112,-112,-112,-111,-110,-109,-108,-108,-107,-106,-105,-105,-104,-104,-103,-102,-102,-101,-101,-101,-100,-100,-99,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-95,-93,-91,-89,-88,-86,-85,-83,-82,-81,-80,-78,-77,-76,-75,-74,-74,-73,-72,-71,-70,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-63,-59,-56,-53,-50,-48,-45,-43,-42,-40,-38,-37,-36,-34,-33,-32,-31,-28,-25,-22,-21,-19,-18,-16,-15,-12,-10,-9,-7,-5,-3,-1,-128,1,3,5,7,9,10,12,15,16,18,19,21,22,25,28,31,32,33,34,36,37,38,40,42,43,45,48,50,53,56,59,63,64,64,65,65,66,66,67,68,68,69,70,70,71,72,73,74,74,75,76,77,78,80,81,82,83,85,86,88,89,91,93,95,96,96,96,96,97,97,97,98,98,98,99,99,99,100,100,101,101,101,102,102,103,104,104,105,105,106,107,108,108,109,110,111,112,112,112,113,113,113,114,114,114,115,116,116,117,118,118,119,120,120,120,121,121,122,123,123,124,124,125,125,126,126,127,-128,-127,-126,-126,-125,-125,-124,-124,-123,-122,-122,-121,-121,-120,-120,-120,-119,-118,-117,-117,-116,-115,-115,-114,-114,-113,-113,-113,-112,-112,-112,-112,-111,-110,-109,-108,-107,-106,-106,-105,-104,-104,-103,-103,-102,-102,-101,-101,-100,-100,-99,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-94,-92,-90,-88,-87,-85,-84,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-62,-62,-58,-55,-52,-49,-47,-45,-43,-41,-39,-38,-36,-35,-34,-33,-32,-31,-27,-24,-22,-20,-19,-17,-16,-15,-12,-10,-8,-7,-5,-3,-1,-128,1,3,5,7,8,10,12,15,16,17,19,20,22,24,27,31,32,33,34,35,36,38,39,41,43,45,47,49,52,55,58,62,62,64,64,65,65,66,66,67,68,68,69,70,70,71,72,73,74,75,76,77,78,79,80,81,82,84,85,87,88,90,92,94,94,96,96,96,96,97,97,97,98,98,98,99,99,99,100,100,101,101,102,102,103,103,104,104,105,106,106,107,108,109,110,111,112,112,112,112,113,113,113,114,114,115,115,116,117,117,118,119,120,120,120,121,121,122,122,123,124,124,125,125,126,126,127,-128,-127,-126,-126,-125,-125,-124,-124,-123,-122,-122,-121,-121,-120,-120,-120,-119,-118,-117,-116,-116,-115,-115,-114,-114,-113,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-107,-106,-105,-105,-104,-103,-103,-102,-102,-101,-101,-100,-100,-99,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-93,-91,-89,-87,-86,-84,-83,-82,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-71,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-62,-61,-61,-57,-54,-51,-48,-46,-44,-42,-40,-39,-37,-36,-34,-33,-32,-31,-30,-27,-24,-22,-20,-18,-17,-16,-15,-12,-10,-8,-7,-5,-3,-1,-128,1,3,5,7,8,10,12,15,16,17,18,20,22,24,27,30,31,32,33,34,36,37,39,40,42,44,46,48,51,54,57,61,61,62,64,64,65,65,66,66,67,68,68,69,70,71,71,72,73,74,75,76,77,78,79,80,82,83,84,86,87,89,91,93,93,94,96,96,96,96,97,97,97,98,98,98,99,99,99,100,100,101,101,102,102,103,103,104,105,105,106,107,107,108,109,110,111,112,112,112,113,113,113,114,114,115,115,116,116,117,118,119,120,120,120,121,121,122,122,123,124,124,125,125,126,126,127,-128,-127,-126,-126,-125,-125,-124,-124,-123,-122,-122,-121,-121,-120,-120,-120,-119,-118,-117,-116,-116,-115,-114,-114,-114,-113,-113,-112,-112,-112,-112,-110,-110,-109,-108,-107,-106,-105,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-92,-90,-88,-86,-85,-83,-82,-81,-80,-78,-77,-76,-75,-74,-73,-72,-72,-71,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-62,-61,-60,-60,-56,-53,-50,-48,-45,-43,-41,-40,-38,-36,-35,-34,-33,-32,-30,-30,-26,-24,-21,-20,-18,-17,-16,-15,-12,-10,-8,-7,-5,-3,-1,-128,1,3,5,7,8,10,12,15,16,17,18,20,21,24,26,30,30,32,33,34,35,36,38,40,41,43,45,48,50,53,56,60,60,61,62,64,64,65,65,66,66,67,68,68,69,70,71,72,72,73,74,75,76,77,78,80,81,82,83,85,86,88,90,92,92,93,94,96,96,96,96,97,97,97,98,98,98,99,99,100,100,100,101,101,102,102,103,104,104,105,105,106,107,108,109,110,110,112,112,112,112,113,113,114,114,114,115,116,116,117,118,119,120,120,120,121,121,122,122,123,124,124,125,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-124,-123,-122,-121,-121,-120,-120,-120,-119,-118,-117,-117,-116,-115,-115,-114,-114,-113,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-106,-106,-105,-104,-104,-103,-103,-102,-101,-101,-100,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-91,-89,-87,-85,-84,-83,-81,-80,-79,-78,-76,-75,-74,-73,-73,-72,-71,-70,-69,-69,-68,-67,-66,-66,-65,-65,-64,-64,-62,-61,-60,-59,-59,-55,-52,-49,-47,-44,-42,-41,-39,-37,-36,-34,-33,-32,-31,-30,-29,-26,-23,-21,-19,-18,-16,-15,-14,-11,-9,-8,-7,-4,-3,-1,-128,1,3,4,7,8,9,11,14,15,16,18,19,21,23,26,29,30,31,32,33,34,36,37,39,41,42,44,47,49,52,55,59,59,60,61,62,64,64,65,65,66,66,67,68,69,69,70,71,72,73,73,74,75,76,78,79,80,81,83,84,85,87,89,91,91,92,93,94,96,96,96,96,97,97,97,98,98,98,99,99,100,100,100,101,101,102,103,103,104,104,105,106,106,107,108,109,110,111,112,112,112,113,113,113,114,114,115,115,116,117,117,118,119,120,120,120,121,121,122,123,124,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-124,-123,-122,-121,-121,-120,-120,-120,-119,-118,-117,-116,-116,-115,-115,-114,-114,-113,-113,-112,-112,-112,-112,-110,-109,-109,-108,-107,-106,-105,-105,-104,-103,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-90,-88,-86,-85,-83,-82,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-58,-54,-51,-48,-46,-44,-42,-40,-38,-37,-35,-34,-33,-32,-30,-29,-29,-25,-23,-21,-19,-17,-16,-15,-14,-11,-9,-8,-7,-4,-3,-1,-128,1,3,4,7,8,9,11,14,15,16,17,19,21,23,25,29,29,30,32,33,34,35,37,38,40,42,44,46,48,51,54,58,58,59,60,61,62,64,64,65,65,66,67,67,68,69,69,70,71,72,73,74,75,76,77,78,79,80,82,83,85,86,88,90,90,91,92,93,94,96,96,96,96,97,97,97,98,98,98,99,99,100,100,101,101,102,102,103,103,104,105,105,106,107,108,109,109,110,112,112,112,112,113,113,114,114,115,115,116,116,117,118,119,120,120,120,121,121,122,123,124,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-124,-123,-122,-121,-121,-120,-120,-120,-119,-118,-117,-116,-116,-115,-114,-114,-113,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-106,-106,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-89,-87,-85,-84,-82,-81,-80,-78,-77,-76,-75,-74,-73,-72,-71,-70,-70,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-57,-53,-50,-48,-45,-43,-41,-39,-38,-36,-35,-33,-32,-31,-30,-29,-28,-25,-22,-20,-19,-17,-16,-15,-14,-11,-9,-8,-7,-4,-3,-1,-128,1,3,4,7,8,9,11,14,15,16,17,19,20,22,25,28,29,30,31,32,33,35,36,38,39,41,43,45,48,50,53,57,57,58,59,60,61,62,64,64,65,65,66,67,67,68,69,70,70,71,72,73,74,75,76,77,78,80,81,82,84,85,87,89,89,90,91,92,93,94,96,96,96,96,97,97,97,98,98,99,99,99,100,100,101,101,102,102,103,104,104,105,106,106,107,108,109,110,111,112,112,112,113,113,113,114,114,115,116,116,117,118,119,120,120,120,121,121,122,123,124,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-124,-123,-122,-121,-121,-120,-120,-120,-118,-118,-117,-116,-115,-115,-114,-114,-113,-113,-112,-112,-112,-112,-110,-109,-108,-108,-107,-106,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-88,-86,-84,-83,-81,-80,-79,-77,-76,-75,-74,-73,-72,-71,-70,-70,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-56,-52,-49,-47,-44,-42,-40,-38,-37,-35,-34,-33,-32,-30,-29,-28,-28,-24,-22,-20,-18,-17,-16,-14,-14,-11,-9,-8,-7,-4,-3,-1,-128,1,3,4,7,8,9,11,14,14,16,17,18,20,22,24,28,28,29,30,32,33,34,35,37,38,40,42,44,47,49,52,56,56,57,58,59,60,61,62,64,64,65,65,66,67,67,68,69,70,70,71,72,73,74,75,76,77,79,80,81,83,84,86,88,88,89,90,91,92,93,94,96,96,96,96,97,97,97,98,98,99,99,99,100,100,101,101,102,102,103,104,104,105,106,107,108,108,109,110,112,112,112,112,113,113,114,114,115,115,116,117,118,118,120,120,120,121,121,122,123,124,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-122,-121,-121,-120,-120,-119,-118,-117,-116,-116,-115,-115,-114,-114,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-106,-105,-105,-104,-103,-103,-102,-102,-101,-100,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-87,-85,-83,-82,-80,-79,-78,-77,-76,-74,-73,-72,-72,-71,-70,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-55,-51,-48,-46,-44,-41,-40,-38,-36,-35,-33,-32,-31,-30,-29,-28,-27,-24,-22,-20,-18,-16,-15,-14,-13,-11,-9,-7,-6,-4,-3,-1,-128,1,3,4,6,7,9,11,13,14,15,16,18,20,22,24,27,28,29,30,31,32,33,35,36,38,40,41,44,46,48,51,55,55,56,57,58,59,60,61,62,64,64,65,65,66,67,67,68,69,70,71,72,72,73,74,76,77,78,79,80,82,83,85,87,87,88,89,90,91,92,93,94,96,96,96,96,97,97,97,98,98,99,99,100,100,100,101,102,102,103,103,104,105,105,106,107,108,109,110,111,112,112,112,113,113,114,114,115,115,116,116,117,118,119,120,120,121,121,122,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-122,-121,-120,-120,-120,-119,-118,-117,-116,-116,-115,-114,-114,-113,-113,-113,-112,-112,-112,-110,-109,-108,-107,-107,-106,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-86,-84,-82,-81,-80,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-68,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-54,-50,-48,-45,-43,-41,-39,-37,-36,-34,-33,-32,-30,-29,-28,-27,-27,-24,-21,-19,-18,-16,-15,-14,-13,-10,-9,-7,-6,-4,-3,-1,-128,1,3,4,6,7,9,10,13,14,15,16,18,19,21,24,27,27,28,29,30,32,33,34,36,37,39,41,43,45,48,50,54,54,55,56,57,58,59,60,61,62,64,64,65,65,66,67,68,68,69,70,71,72,73,74,75,76,77,78,80,81,82,84,86,86,87,88,89,90,91,92,93,94,96,96,96,96,97,97,98,98,98,99,99,100,100,101,101,102,102,103,104,104,105,106,107,107,108,109,110,112,112,112,113,113,113,114,114,115,116,116,117,118,119,120,120,120,121,122,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-120,-119,-118,-117,-116,-115,-115,-114,-114,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-106,-105,-104,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-85,-83,-81,-80,-79,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-68,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-53,-49,-47,-44,-42,-40,-38,-36,-35,-33,-32,-31,-30,-29,-28,-27,-26,-23,-21,-19,-17,-16,-15,-14,-13,-10,-8,-7,-6,-4,-3,-1,-128,1,3,4,6,7,8,10,13,14,15,16,17,19,21,23,26,27,28,29,30,31,32,33,35,36,38,40,42,44,47,49,53,53,54,55,56,57,58,59,60,61,62,64,64,65,65,66,67,68,68,69,70,71,72,73,74,75,76,77,79,80,81,83,85,85,86,87,88,89,90,91,92,93,94,96,96,96,96,97,97,98,98,98,99,99,100,100,101,101,102,102,103,104,104,105,106,107,108,109,110,111,112,112,112,113,113,114,114,115,115,116,117,118,119,120,120,120,121,121,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-120,-118,-117,-117,-116,-115,-114,-114,-113,-113,-113,-112,-112,-112,-110,-109,-108,-107,-106,-106,-105,-104,-103,-103,-102,-101,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-96,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-84,-82,-80,-79,-78,-76,-75,-74,-73,-72,-71,-70,-69,-68,-68,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-52,-48,-46,-43,-41,-39,-37,-36,-34,-33,-32,-30,-29,-28,-27,-26,-26,-23,-20,-18,-17,-16,-14,-13,-13,-10,-8,-7,-6,-4,-3,-1,-128,1,3,4,6,7,8,10,13,13,14,16,17,18,20,23,26,26,27,28,29,30,32,33,34,36,37,39,41,43,46,48,52,52,53,54,55,56,57,58,59,60,61,62,64,64,65,65,66,67,68,68,69,70,71,72,73,74,75,76,78,79,80,82,84,84,85,86,87,88,89,90,91,92,93,94,96,96,96,96,97,97,98,98,98,99,99,100,100,101,101,102,103,103,104,105,106,106,107,108,109,110,112,112,112,113,113,113,114,114,115,116,117,117,118,120,120,120,121,121,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-119,-118,-117,-116,-116,-115,-114,-114,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-106,-105,-104,-104,-103,-102,-102,-101,-100,-100,-99,-99,-98,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-83,-81,-80,-78,-77,-76,-74,-73,-72,-71,-70,-69,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-51,-48,-45,-42,-40,-38,-37,-35,-34,-32,-31,-30,-29,-28,-27,-26,-25,-22,-20,-18,-17,-15,-14,-13,-12,-10,-8,-7,-6,-4,-3,-1,-128,1,3,4,6,7,8,10,12,13,14,15,17,18,20,22,25,26,27,28,29,30,31,32,34,35,37,38,40,42,45,48,51,51,52,53,54,55,56,57,58,59,60,61,62,64,64,65,66,66,67,68,69,69,70,71,72,73,74,76,77,78,80,81,83,83,84,85,86,87,88,89,90,91,92,93,94,96,96,96,97,97,97,98,98,98,99,99,100,100,101,102,102,103,104,104,105,106,107,108,109,110,111,112,112,112,113,113,114,114,115,116,116,117,118,119,120,120,121,121,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-119,-118,-117,-116,-115,-115,-114,-114,-113,-113,-112,-112,-112,-110,-109,-108,-107,-106,-105,-105,-104,-103,-102,-102,-101,-101,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-82,-80,-79,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-50,-47,-44,-42,-40,-38,-36,-34,-33,-32,-30,-29,-28,-27,-26,-25,-25,-22,-20,-18,-16,-15,-14,-13,-12,-10,-8,-7,-6,-4,-3,-1,-128,1,3,4,6,7,8,10,12,13,14,15,16,18,20,22,25,25,26,27,28,29,30,32,33,34,36,38,40,42,44,47,50,50,51,52,53,54,55,56,57,58,59,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,75,76,77,79,80,82,82,83,84,85,86,87,88,89,90,91,92,93,94,96,96,96,97,97,97,98,98,99,99,100,100,101,101,102,102,103,104,105,105,106,107,108,109,110,112,112,112,113,113,114,114,115,115,116,117,118,119,120,120,121,121,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-123,-122,-121,-120,-120,-120,-119,-118,-117,-116,-115,-114,-114,-113,-113,-112,-112,-112,-111,-110,-109,-108,-107,-106,-105,-104,-103,-103,-102,-101,-101,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-81,-79,-78,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-49,-46,-43,-41,-39,-37,-35,-34,-32,-31,-30,-29,-28,-27,-26,-25,-24,-21,-19,-17,-16,-15,-14,-13,-12,-9,-8,-7,-6,-4,-3,-1,-128,1,3,4,6,7,8,9,12,13,14,15,16,17,19,21,24,25,26,27,28,29,30,31,32,34,35,37,39,41,43,46,49,49,50,51,52,53,54,55,56,57,58,59,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,75,76,78,79,81,81,82,83,84,85,86,87,88,89,90,91,92,93,94,96,96,96,97,97,97,98,98,99,99,100,100,101,101,102,103,103,104,105,106,107,108,109,110,111,112,112,112,113,113,114,114,115,116,117,118,119,120,120,120,121,122,123,124,124,125,126,126,127,-128,-127,-126,-126,-125,-124,-124,-122,-122,-121,-120,-120,-120,-118,-117,-116,-116,-115,-114,-114,-113,-113,-112,-112,-112,-110,-109,-108,-107,-106,-105,-104,-104,-103,-102,-101,-101,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-91,-89,-88,-87,-86,-85,-84,-84,-83,-82,-81,-80,-80,-78,-77,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-57,-56,-55,-54,-53,-52,-52,-51,-50,-49,-48,-48,-45,-42,-40,-38,-36,-34,-33,-32,-30,-29,-28,-27,-26,-25,-24,-24,-21,-19,-17,-16,-14,-13,-12,-12,-9,-8,-6,-6,-4,-3,-1,-128,1,3,4,6,6,8,9,12,12,13,14,16,17,19,21,24,24,25,26,27,28,29,30,32,33,34,36,38,40,42,45,48,48,49,50,51,52,52,53,54,55,56,57,59,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,75,77,78,80,80,81,82,83,84,84,85,86,87,88,89,91,92,93,94,96,96,96,97,97,97,98,98,99,99,100,100,101,101,102,103,104,104,105,106,107,108,109,110,112,112,112,113,113,114,114,115,116,116,117,118,120,120,120,121,122,122,124,124,125,126,126,127,-128,-127,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-119,-118,-117,-116,-115,-115,-114,-113,-113,-112,-112,-112,-111,-110,-108,-107,-106,-105,-105,-104,-103,-102,-102,-101,-100,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-90,-89,-88,-87,-86,-85,-84,-83,-82,-82,-81,-80,-79,-79,-77,-76,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-58,-57,-56,-55,-54,-53,-52,-51,-50,-50,-49,-48,-47,-47,-44,-41,-39,-37,-35,-34,-32,-31,-30,-28,-27,-26,-25,-25,-24,-23,-20,-18,-17,-15,-14,-13,-12,-11,-9,-7,-6,-5,-3,-2,-1,-128,1,2,3,5,6,7,9,11,12,13,14,15,17,18,20,23,24,25,25,26,27,28,30,31,32,34,35,37,39,41,44,47,47,48,49,50,50,51,52,53,54,55,56,57,58,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,76,77,79,79,80,81,82,82,83,84,85,86,87,88,89,90,92,93,94,96,96,96,97,97,97,98,98,99,99,100,100,101,102,102,103,104,105,105,106,107,108,110,111,112,112,112,113,113,114,115,115,116,117,118,119,120,120,121,121,122,123,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-119,-118,-117,-116,-115,-114,-114,-113,-113,-112,-112,-112,-110,-109,-108,-107,-106,-105,-104,-103,-103,-102,-101,-101,-100,-99,-99,-98,-98,-97,-97,-97,-96,-96,-96,-94,-93,-92,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-81,-80,-79,-78,-78,-76,-75,-74,-72,-71,-70,-69,-68,-67,-67,-66,-65,-64,-64,-62,-61,-60,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-49,-48,-47,-46,-46,-43,-40,-38,-36,-35,-33,-32,-30,-29,-28,-27,-26,-25,-24,-23,-23,-20,-18,-16,-15,-14,-13,-12,-11,-9,-7,-6,-5,-3,-2,-1,-128,1,2,3,5,6,7,9,11,12,13,14,15,16,18,20,23,23,24,25,26,27,28,29,30,32,33,35,36,38,40,43,46,46,47,48,49,49,50,51,52,53,54,55,56,57,58,60,61,62,64,64,65,66,67,67,68,69,70,71,72,74,75,76,78,78,79,80,81,81,82,83,84,85,86,87,88,89,90,92,93,94,96,96,96,97,97,97,98,98,99,99,100,101,101,102,103,103,104,105,106,107,108,109,110,112,112,112,113,113,114,114,115,116,117,118,119,120,120,121,121,122,123,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-123,-122,-121,-121,-120,-120,-119,-117,-116,-116,-115,-114,-114,-113,-113,-112,-112,-111,-110,-108,-107,-106,-105,-104,-104,-103,-102,-101,-101,-100,-100,-99,-98,-98,-98,-97,-97,-96,-96,-96,-94,-93,-92,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-80,-80,-79,-78,-77,-77,-75,-74,-73,-72,-70,-69,-68,-68,-67,-66,-65,-64,-64,-62,-61,-60,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-48,-48,-47,-46,-45,-45,-42,-40,-37,-36,-34,-32,-31,-30,-28,-27,-26,-25,-24,-24,-23,-22,-20,-18,-16,-15,-13,-12,-12,-11,-9,-7,-6,-5,-3,-2,-1,-128,1,2,3,5,6,7,9,11,12,12,13,15,16,18,20,22,23,24,24,25,26,27,28,30,31,32,34,36,37,40,42,45,45,46,47,48,48,49,50,51,52,53,54,55,56,57,58,60,61,62,64,64,65,66,67,68,68,69,70,72,73,74,75,77,77,78,79,80,80,81,82,83,84,85,86,87,88,89,90,92,93,94,96,96,96,97,97,98,98,98,99,100,100,101,101,102,103,104,104,105,106,107,108,110,111,112,112,113,113,114,114,115,116,116,117,119,120,120,121,121,122,123,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-123,-122,-121,-120,-120,-120,-118,-117,-116,-115,-115,-114,-113,-113,-112,-112,-112,-110,-109,-108,-107,-106,-105,-104,-103,-102,-102,-101,-100,-100,-99,-99,-98,-98,-97,-97,-96,-96,-96,-94,-93,-91,-90,-89,-88,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-78,-77,-76,-76,-74,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-46,-45,-44,-44,-41,-39,-37,-35,-33,-32,-30,-29,-28,-27,-26,-25,-24,-23,-22,-22,-19,-17,-16,-14,-13,-12,-11,-11,-8,-7,-6,-5,-3,-2,-1,-128,1,2,3,5,6,7,8,11,11,12,13,14,16,17,19,22,22,23,24,25,26,27,28,29,30,32,33,35,37,39,41,44,44,45,46,46,47,48,49,50,51,52,53,54,55,56,57,58,59,61,62,64,64,65,66,67,68,69,70,71,72,73,74,76,76,77,78,78,79,80,81,82,83,84,85,86,87,88,89,90,91,93,94,96,96,96,97,97,98,98,99,99,100,100,101,102,102,103,104,105,106,107,108,109,110,112,112,112,113,113,114,115,115,116,117,118,120,120,120,121,122,123,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-123,-122,-121,-120,-120,-119,-118,-117,-116,-115,-114,-114,-113,-113,-112,-112,-111,-109,-108,-107,-106,-105,-104,-103,-102,-102,-101,-100,-100,-99,-99,-98,-98,-97,-97,-96,-96,-96,-94,-93,-91,-90,-89,-88,-87,-85,-84,-83,-82,-82,-81,-80,-79,-78,-77,-77,-76,-75,-75,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-56,-55,-53,-52,-51,-50,-50,-49,-48,-47,-46,-45,-45,-44,-43,-43,-40,-38,-36,-34,-32,-31,-29,-28,-27,-26,-25,-24,-23,-22,-22,-21,-19,-17,-15,-14,-13,-12,-11,-10,-8,-7,-6,-5,-3,-2,-1,-128,1,2,3,5,6,7,8,10,11,12,13,14,15,17,19,21,22,22,23,24,25,26,27,28,29,31,32,34,36,38,40,43,43,44,45,45,46,47,48,49,50,50,51,52,53,55,56,57,58,59,61,62,64,64,65,66,67,68,69,70,71,72,73,75,75,76,77,77,78,79,80,81,82,82,83,84,85,87,88,89,90,91,93,94,96,96,96,97,97,98,98,99,99,100,100,101,102,102,103,104,105,106,107,108,109,111,112,112,113,113,114,114,115,116,117,118,119,120,120,121,122,123,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-123,-122,-121,-120,-120,-119,-118,-116,-116,-115,-114,-113,-113,-112,-112,-112,-110,-109,-108,-106,-105,-104,-104,-103,-102,-101,-101,-100,-99,-99,-98,-98,-97,-97,-96,-96,-96,-94,-93,-91,-90,-89,-88,-86,-85,-84,-83,-82,-81,-80,-80,-79,-78,-77,-76,-76,-75,-74,-74,-72,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-56,-54,-53,-52,-51,-50,-49,-48,-48,-47,-46,-45,-44,-44,-43,-42,-42,-39,-37,-35,-33,-32,-30,-29,-28,-26,-25,-24,-24,-23,-22,-21,-21,-18,-16,-15,-14,-12,-12,-11,-10,-8,-7,-6,-5,-3,-2,-1,-128,1,2,3,5,6,7,8,10,11,12,12,14,15,16,18,21,21,22,23,24,24,25,26,28,29,30,32,33,35,37,39,42,42,43,44,44,45,46,47,48,48,49,50,51,52,53,54,56,57,58,59,61,62,64,64,65,66,67,68,69,70,71,72,74,74,75,76,76,77,78,79,80,80,81,82,83,84,85,86,88,89,90,91,93,94,96,96,96,97,97,98,98,99,99,100,101,101,102,103,104,104,105,106,108,109,110,112,112,112,113,113,114,115,116,116,118,119,120,120,121,122,123,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-122,-121,-121,-120,-120,-118,-117,-116,-115,-114,-114,-113,-113,-112,-112,-111,-109,-108,-107,-106,-105,-104,-103,-102,-101,-101,-100,-99,-99,-98,-98,-97,-97,-96,-96,-96,-94,-93,-91,-90,-89,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-78,-77,-76,-75,-75,-74,-73,-73,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-46,-45,-44,-43,-43,-42,-41,-41,-38,-36,-34,-32,-31,-29,-28,-27,-26,-25,-24,-23,-22,-21,-21,-20,-18,-16,-14,-13,-12,-11,-10,-10,-8,-6,-5,-5,-3,-2,-1,-128,1,2,3,5,5,6,8,10,10,11,12,13,14,16,18,20,21,21,22,23,24,25,26,27,28,29,31,32,34,36,38,41,41,42,43,43,44,45,46,46,47,48,49,50,51,52,53,54,55,57,58,59,61,62,64,64,65,66,67,68,69,70,71,73,73,74,75,75,76,77,78,78,79,80,81,82,83,84,85,86,87,89,90,91,93,94,96,96,96,97,97,98,98,99,99,100,101,101,102,103,104,105,106,107,108,109,111,112,112,113,113,114,114,115,116,117,118,120,120,121,121,122,124,124,125,126,127,-128,-127,-126,-125,-124,-124,-122,-121,-121,-120,-120,-118,-117,-116,-115,-114,-114,-113,-112,-112,-112,-110,-109,-107,-106,-105,-104,-103,-102,-102,-101,-100,-100,-99,-98,-98,-97,-97,-96,-96,-96,-94,-92,-91,-90,-88,-87,-86,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-76,-75,-74,-73,-73,-72,-72,-70,-69,-68,-67,-66,-65,-64,-64,-62,-60,-59,-58,-56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-44,-43,-42,-41,-41,-40,-40,-37,-35,-33,-32,-30,-29,-27,-26,-25,-24,-23,-22,-22,-21,-20,-20,-17,-16,-14,-13,-12,-11,-10,-10,-8,-6,-5,-5,-3,-2,-1,-128,1,2,3,5,5,6,8,10,10,11,12,13,14,16,17,20,20,21,22,22,23,24,25,26,27,29,30,32,33,35,37,40,40,41,41,42,43,44,44,45,46,47,48,49,50,51,52,53,54,55,56,58,59,60,62,64,64,65,66,67,68,69,70,72,72,73,73,74,75,76,76,77,78,79,80,81,82,83,84,85,86,87,88,90,91,92,94,96,96,96,97,97,98,98,99,100,100,101,102,102,103,104,105,106,107,109,110,112,112,112,113,114,114,115,116,117,118,120,120,121,121,122,124,124,125,126,127,-128,-127,-126,-125,-124,-123,-122,-121,-120,-120,-119,-118,-117,-116,-115,-114,-113,-113,-112,-112,-111,-109,-108,-107,-106,-104,-104,-103,-102,-101,-100,-100,-99,-98,-98,-97,-97,-96,-96,-96,-94,-92,-91,-90,-88,-87,-86,-85,-84,-82,-81,-80,-80,-79,-78,-77,-76,-75,-75,-74,-73,-72,-72,-71,-71,-69,-68,-67,-66,-65,-64,-64,-62,-60,-59,-58,-56,-55,-54,-53,-52,-50,-49,-48,-48,-47,-46,-45,-44,-43,-43,-42,-41,-40,-40,-39,-39,-36,-34,-32,-31,-29,-28,-27,-26,-24,-24,-23,-22,-21,-20,-20,-19,-17,-15,-14,-13,-12,-11,-10,-9,-7,-6,-5,-4,-3,-2,-1,-128,1,2,3,4,5,6,7,9,10,11,12,13,14,15,17,19,20,20,21,22,23,24,24,26,27,28,29,31,32,34,36,39,39,40,40,41,42,43,43,44,45,46,47,48,48,49,50,52,53,54,55,56,58,59,60,62,64,64,65,66,67,68,69,71,71,72,72,73,74,75,75,76,77,78,79,80,80,81,82,84,85,86,87,88,90,91,92,94,96,96,96,97,97,98,98,99,100,100,101,102,103,104,104,106,107,108,109,111,112,112,113,113,114,115,116,117,118,119,120,120,121,122,123,124,125,126,127,-128,-127,-126,-125,-124,-123,-122,-121,-120,-120,-119,-117,-116,-115,-114,-114,-113,-112,-112,-112,-110,-108,-107,-106,-105,-104,-103,-102,-101,-100,-100,-99,-99,-98,-97,-97,-96,-96,-96,-94,-92,-91,-89,-88,-87,-86,-84,-83,-82,-81,-80,-79,-78,-77,-77,-76,-75,-74,-73,-73,-72,-71,-71,-70,-70,-68,-67,-66,-65,-64,-64,-62,-60,-59,-57,-56,-55,-54,-52,-51,-50,-49,-48,-47,-46,-45,-45,-44,-43,-42,-41,-41,-40,-39,-39,-38,-38,-35,-33,-32,-30,-28,-27,-26,-25,-24,-23,-22,-21,-20,-20,-19,-19,-16,-15,-13,-12,-11,-10,-10,-9,-7,-6,-5,-4,-3,-2,-1,-128,1,2,3,4,5,6,7,9,10,10,11,12,13,15,16,19,19,20,20,21,22,23,24,25,26,27,28,30,32,33,35,38,38,39,39,40,41,41,42,43,44,45,45,46,47,48,49,50,51,52,54,55,56,57,59,60,62,64,64,65,66,67,68,70,70,71,71,72,73,73,74,75,76,77,77,78,79,80,81,82,83,84,86,87,88,89,91,92,94,96,96,96,97,97,98,99,99,100,100,101,102,103,104,105,106,107,108,110,112,112,112,113,114,114,115,116,117,119,120,120,121,122,123,124,125,126,127,-128,-127,-126,-125,-124,-123,-122,-121,-120,-120,-118,-117,-116,-115,-114,-113,-113,-112,-112,-111,-109,-108,-106,-105,-104,-103,-102,-101,-101,-100,-99,-99,-98,-97,-97,-96,-96,-96,-94,-92,-91,-89,-88,-87,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-75,-75,-74,-73,-72,-72,-71,-70,-70,-69,-69,-67,-66,-65,-64,-64,-62,-60,-59,-57,-56,-55,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-43,-42,-41,-40,-40,-39,-38,-38,-37,-37,-34,-32,-31,-29,-28,-26,-25,-24,-23,-22,-21,-21,-20,-19,-19,-18,-16,-14,-13,-12,-11,-10,-9,-9,-7,-6,-5,-4,-3,-2,-1,-128,1,2,3,4,5,6,7,9,9,10,11,12,13,14,16,18,19,19,20,21,21,22,23,24,25,26,28,29,31,32,34,37,37,38,38,39,40,40,41,42,43,43,44,45,46,47,48,49,50,51,52,53,55,56,57,59,60,62,64,64,65,66,67,69,69,70,70,71,72,72,73,74,75,75,76,77,78,79,80,81,82,83,84,85,87,88,89,91,92,94,96,96,96,97,97,98,99,99,100,101,101,102,103,104,105,106,108,109,111,112,112,113,113,114,115,116,117,118,120,120,121,122,123,124,125,126,127,-128,-127,-126,-125,-124,-123,-122,-121,-120,-120,-118,-117,-116,-115,-114,-113,-113,-112,-112,-110,-108,-107,-106,-105,-104,-103,-102,-101,-100,-99,-99,-98,-98,-97,-96,-96,-96,-94,-92,-91,-89,-88,-86,-85,-84,-83,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-73,-72,-71,-71,-70,-69,-69,-68,-68,-66,-65,-64,-64,-62,-60,-59,-57,-56,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-41,-40,-39,-39,-38,-37,-37,-36,-36,-33,-32,-30,-28,-27,-26,-25,-24,-23,-22,-21,-20,-19,-19,-18,-18,-16,-14,-13,-12,-11,-10,-9,-9,-7,-6,-5,-4,-3,-2,-1,-128,1,2,3,4,5,6,7,9,9,10,11,12,13,14,16,18,18,19,19,20,21,22,23,24,25,26,27,28,30,32,33,36,36,37,37,38,39,39,40,41,41,42,43,44,45,46,47,48,49,50,51,52,53,54,56,57,59,60,62,64,64,65,66,68,68,69,69,70,71,71,72,73,73,74,75,76,77,78,79,80,81,82,83,84,85,86,88,89,91,92,94,96,96,96,97,98,98,99,99,100,101,102,103,104,105,106,107,108,110,112,112,113,113,114,115,116,117,118,120,120,121,122,123,124,125,126,127,-128,-127,-126,-124,-124,-123,-121,-121,-120,-119,-118,-116,-115,-114,-114,-113,-112,-112,-111,-109,-108,-106,-105,-104,-103,-102,-101,-100,-100,-99,-98,-98,-97,-96,-96,-96,-94,-92,-90,-89,-88,-86,-85,-84,-82,-81,-80,-79,-78,-77,-76,-75,-75,-74,-73,-72,-72,-71,-70,-69,-69,-68,-68,-67,-67,-65,-64,-64,-62,-60,-58,-57,-56,-54,-53,-52,-50,-49,-48,-47,-46,-45,-44,-43,-43,-42,-41,-40,-40,-39,-38,-37,-37,-36,-36,-35,-35,-32,-31,-29,-28,-26,-25,-24,-23,-22,-21,-20,-20,-19,-18,-18,-17,-15,-14,-12,-11,-10,-10,-9,-8,-7,-5,-5,-4,-2,-2,-1,-128,1,2,2,4,5,5,7,8,9,10,10,11,12,14,15,17,18,18,19,20,20,21,22,23,24,25,26,28,29,31,32,35,35,36,36,37,37,38,39,40,40,41,42,43,43,44,45,46,47,48,49,50,52,53,54,56,57,58,60,62,64,64,65,67,67,68,68,69,69,70,71,72,72,73,74,75,75,76,77,78,79,80,81,82,84,85,86,88,89,90,92,94,96,96,96,97,98,98,99,100,100,101,102,103,104,105,106,108,109,111,112,112,113,114,114,115,116,118,119,120,121,121,123,124,124,126,127,-128,-127,-126,-124,-124,-122,-121,-120,-120,-119,-117,-116,-115,-114,-113,-113,-112,-112,-110,-108,-107,-105,-104,-103,-102,-101,-100,-100,-99,-98,-98,-97,-97,-96,-96,-94,-92,-90,-89,-87,-86,-85,-83,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-73,-72,-71,-70,-70,-69,-68,-68,-67,-67,-66,-66,-64,-64,-62,-60,-58,-57,-55,-54,-53,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-41,-40,-39,-38,-38,-37,-36,-36,-35,-35,-34,-34,-32,-30,-28,-27,-25,-24,-23,-22,-21,-20,-20,-19,-18,-18,-17,-17,-15,-13,-12,-11,-10,-9,-9,-8,-6,-5,-4,-4,-2,-2,-1,-128,1,2,2,4,4,5,6,8,9,9,10,11,12,13,15,17,17,18,18,19,20,20,21,22,23,24,25,27,28,30,32,34,34,35,35,36,36,37,38,38,39,40,41,41,42,43,44,45,46,47,48,49,50,51,53,54,55,57,58,60,62,64,64,66,66,67,67,68,68,69,70,70,71,72,73,73,74,75,76,77,78,79,80,81,82,83,85,86,87,89,90,92,94,96,96,97,97,98,98,99,100,100,101,102,103,104,105,107,108,110,112,112,113,113,114,115,116,117,119,120,120,121,122,124,124,126,127,-128,-127,-126,-124,-124,-122,-121,-120,-120,-118,-117,-116,-115,-114,-113,-112,-112,-111,-109,-107,-106,-105,-104,-102,-102,-101,-100,-99,-98,-98,-97,-97,-96,-96,-94,-92,-90,-89,-87,-86,-84,-83,-82,-81,-80,-78,-77,-76,-76,-75,-74,-73,-72,-71,-71,-70,-69,-69,-68,-67,-67,-66,-66,-65,-65,-64,-62,-60,-58,-57,-55,-54,-52,-51,-50,-49,-48,-46,-45,-44,-44,-43,-42,-41,-40,-39,-39,-38,-37,-37,-36,-35,-35,-34,-34,-33,-33,-31,-29,-27,-26,-25,-24,-22,-22,-21,-20,-19,-18,-18,-17,-17,-16,-14,-13,-12,-11,-10,-9,-8,-8,-6,-5,-4,-4,-2,-2,-1,-128,1,2,2,4,4,5,6,8,8,9,10,11,12,13,14,16,17,17,18,18,19,20,21,22,22,24,25,26,27,29,31,33,33,34,34,35,35,36,37,37,38,39,39,40,41,42,43,44,44,45,46,48,49,50,51,52,54,55,57,58,60,62,64,65,65,66,66,67,67,68,69,69,70,71,71,72,73,74,75,76,76,77,78,80,81,82,83,84,86,87,89,90,92,94,96,96,97,97,98,98,99,100,101,102,102,104,105,106,107,109,111,112,112,113,114,115,116,117,118,120,120,121,122,124,124,126,127,-128,-127,-126,-124,-124,-122,-121,-120,-120,-118,-116,-115,-114,-113,-113,-112,-112,-110,-108,-106,-105,-104,-103,-102,-101,-100,-99,-98,-98,-97,-97,-96,-96,-94,-92,-90,-88,-87,-85,-84,-83,-81,-80,-79,-78,-77,-76,-75,-74,-73,-72,-72,-71,-70,-69,-69,-68,-67,-67,-66,-66,-65,-65,-64,-64,-62,-60,-58,-56,-55,-53,-52,-51,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-40,-39,-38,-37,-37,-36,-35,-35,-34,-34,-33,-33,-32,-32,-30,-28,-26,-25,-24,-23,-22,-21,-20,-19,-18,-18,-17,-17,-16,-16,-14,-12,-11,-10,-9,-9,-8,-8,-6,-5,-4,-4,-2,-2,-1,-128,1,2,2,4,4,5,6,8,8,9,9,10,11,12,14,16,16,17,17,18,18,19,20,21,22,23,24,25,26,28,30,32,32,33,33,34,34,35,35,36,37,37,38,39,40,40,41,42,43,44,45,46,47,48,49,51,52,53,55,56,58,60,62,64,64,65,65,66,66,67,67,68,69,69,70,71,72,72,73,74,75,76,77,78,79,80,81,83,84,85,87,88,90,92,94,96,96,97,97,98,98,99,100,101,102,103,104,105,106,108,110,112,112,113,113,114,115,116,118,120,120,121,122,124,124,126,127,-128,-126,-125,-124,-123,-122,-121,-120,-119,-118,-116,-115,-114,-113,-113,-112,-111,-109,-108,-106,-105,-104,-102,-101,-101,-100,-99,-98,-98,-97,-96,-96,-95,-93,-91,-89,-88,-86,-85,-83,-82,-81,-80,-78,-77,-76,-75,-74,-74,-73,-72,-71,-70,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-63,-61,-59,-57,-56,-54,-53,-51,-50,-49,-48,-46,-45,-44,-43,-42,-42,-41,-40,-39,-38,-38,-37,-36,-36,-35,-34,-34,-33,-33,-32,-32,-31,-29,-28,-26,-25,-24,-22,-21,-21,-20,-19,-18,-18,-17,-16,-16,-15,-14,-12,-11,-10,-9,-9,-8,-7,-6,-5,-4,-3,-2,-1,-1,-128,1,1,2,3,4,5,6,7,8,9,9,10,11,12,14,15,16,16,17,18,18,19,20,21,21,22,24,25,26,28,29,31,32,32,33,33,34,34,35,36,36,37,38,38,39,40,41,42,42,43,44,45,46,48,49,50,51,53,54,56,57,59,61,63,64,64,65,65,66,66,67,68,68,69,70,70,71,72,73,74,74,75,76,77,78,80,81,82,83,85,86,88,89,91,93,95,96,96,97,98,98,99,100,101,101,102,104,105,106,108,109,111,112,113,113,114,115,116,118,119,120,121,122,123,124,125,126,-128,-126,-125,-124,-123,-122,-121,-120,-119,-117,-116,-115,-114,-113,-112,-112,-111,-109,-107,-106,-104,-103,-102,-101,-100,-99,-99,-98,-97,-97,-96,-96,-94,-92,-90,-88,-87,-85,-84,-82,-81,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-62,-62,-60,-58,-56,-55,-53,-52,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-38,-37,-36,-36,-35,-34,-34,-33,-33,-32,-32,-31,-31,-29,-27,-26,-24,-23,-22,-21,-20,-19,-19,-18,-17,-17,-16,-16,-15,-13,-12,-11,-10,-9,-8,-8,-7,-6,-5,-4,-3,-2,-1,-1,-128,1,1,2,3,4,5,6,7,8,8,9,10,11,12,13,15,16,16,17,17,18,19,19,20,21,22,23,24,26,27,29,31,31,32,32,33,33,34,34,35,36,36,37,38,38,39,40,41,42,43,44,45,46,47,48,49,50,52,53,55,56,58,60,62,62,64,64,65,65,66,66,67,68,68,69,70,70,71,72,73,74,75,76,77,78,79,80,81,82,84,85,87,88,90,92,94,96,96,97,97,98,99,99,100,101,102,103,104,106,107,109,111,112,112,113,114,115,116,117,119,120,121,122,123,124,125,126,-128,-126,-125,-124,-123,-122,-121,-120,-119,-117,-116,-115,-114,-113,-112,-112,-110,-108,-107,-105,-104,-103,-102,-101,-100,-99,-98,-98,-97,-96,-96,-94,-93,-91,-89,-87,-86,-84,-83,-82,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-71,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-62,-61,-61,-59,-57,-55,-54,-52,-51,-50,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-39,-38,-37,-36,-36,-35,-34,-34,-33,-33,-32,-32,-31,-30,-30,-28,-27,-25,-24,-23,-22,-21,-20,-19,-18,-18,-17,-16,-16,-15,-15,-13,-12,-11,-10,-9,-8,-8,-7,-6,-5,-4,-3,-2,-1,-1,-128,1,1,2,3,4,5,6,7,8,8,9,10,11,12,13,15,15,16,16,17,18,18,19,20,21,22,23,24,25,27,28,30,30,31,32,32,33,33,34,34,35,36,36,37,38,39,39,40,41,42,43,44,45,46,47,48,50,51,52,54,55,57,59,61,61,62,64,64,65,65,66,66,67,68,68,69,70,71,71,72,73,74,75,76,77,78,79,80,82,83,84,86,87,89,91,93,94,96,96,97,98,98,99,100,101,102,103,104,105,107,108,110,112,112,113,114,115,116,117,119,120,121,122,123,124,125,126,-128,-126,-125,-124,-123,-122,-121,-120,-119,-117,-116,-114,-114,-113,-112,-112,-110,-108,-106,-105,-104,-102,-101,-100,-100,-99,-98,-97,-97,-96,-96,-93,-92,-90,-88,-86,-85,-83,-82,-81,-80,-78,-77,-76,-75,-74,-73,-72,-72,-71,-70,-69,-68,-68,-67,-66,-66,-65,-65,-64,-64,-62,-61,-60,-60,-58,-56,-54,-53,-51,-50,-49,-48,-46,-45,-44,-43,-42,-41,-40,-40,-39,-38,-37,-36,-36,-35,-34,-34,-33,-33,-32,-32,-31,-30,-30,-30,-28,-26,-25,-24,-22,-21,-20,-20,-19,-18,-17,-17,-16,-16,-15,-15,-13,-12,-10,-10,-9,-8,-8,-7,-6,-5,-4,-3,-2,-1,-1,-128,1,1,2,3,4,5,6,7,8,8,9,10,10,12,13,15,15,16,16,17,17,18,19,20,20,21,22,24,25,26,28,30,30,30,31,32,32,33,33,34,34,35,36,36,37,38,39,40,40,41,42,43,44,45,46,48,49,50,51,53,54,56,58,60,60,61,62,64,64,65,65,66,66,67,68,68,69,70,71,72,72,73,74,75,76,77,78,80,81,82,83,85,86,88,90,92,93,96,96,97,97,98,99,100,100,101,102,104,105,106,108,110,112,112,113,114,114,116,117,119,120,121,122,123,124,125,126,-128,-126,-125,-124,-123,-121,-120,-120,-118,-117,-115,-114,-113,-113,-112,-111,-109,-107,-106,-104,-103,-102,-101,-100,-99,-98,-98,-97,-96,-96,-94,-92,-91,-89,-87,-85,-84,-83,-81,-80,-79,-78,-76,-75,-74,-73,-73,-72,-71,-70,-69,-69,-68,-67,-66,-66,-65,-65,-64,-64,-62,-61,-60,-59,-59,-57,-55,-53,-52,-51,-49,-48,-47,-46,-44,-43,-42,-41,-41,-40,-39,-38,-37,-37,-36,-35,-34,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-27,-26,-24,-23,-22,-21,-20,-19,-18,-18,-17,-16,-16,-15,-15,-14,-13,-11,-10,-9,-9,-8,-7,-7,-5,-4,-4,-3,-2,-1,-1,-128,1,1,2,3,4,4,5,7,7,8,9,9,10,11,13,14,15,15,16,16,17,18,18,19,20,21,22,23,24,26,27,29,29,30,30,31,32,32,33,33,34,34,35,36,37,37,38,39,40,41,41,42,43,44,46,47,48,49,51,52,53,55,57,59,59,60,61,62,64,64,65,65,66,66,67,68,69,69,70,71,72,73,73,74,75,76,78,79,80,81,83,84,85,87,89,91,92,94,96,96,97,98,98,99,100,101,102,103,104,106,107,109,111,112,113,113,114,115,117,118,120,120,121,123,124,125,126,-128,-126,-125,-124,-123,-121,-120,-120,-118,-116,-115,-114,-113,-112,-112,-110,-109,-107,-105,-104,-103,-102,-101,-100,-99,-98,-97,-97,-96,-96,-93,-91,-90,-88,-86,-85,-83,-82,-80,-79,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-58,-56,-54,-53,-51,-50,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-37,-36,-35,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-29,-27,-25,-24,-23,-22,-21,-20,-19,-18,-17,-17,-16,-16,-15,-14,-14,-12,-11,-10,-9,-8,-8,-7,-7,-5,-4,-4,-3,-2,-1,-1,-128,1,1,2,3,4,4,5,7,7,8,8,9,10,11,12,14,14,15,16,16,17,17,18,19,20,21,22,23,24,25,27,29,29,29,30,30,31,32,32,33,33,34,35,35,36,37,37,38,39,40,41,42,43,44,45,46,47,48,50,51,53,54,56,58,58,59,60,61,62,64,64,65,65,66,67,67,68,69,69,70,71,72,73,74,75,76,77,78,79,80,82,83,85,86,88,90,91,93,96,96,97,97,98,99,100,101,102,103,104,105,107,109,110,112,112,113,114,115,116,118,120,120,121,123,124,125,126,-128,-126,-125,-124,-123,-121,-120,-120,-118,-116,-115,-114,-113,-112,-112,-110,-108,-106,-105,-104,-102,-101,-100,-99,-99,-98,-97,-96,-96,-94,-92,-90,-89,-87,-85,-84,-82,-81,-80,-78,-77,-76,-75,-74,-73,-72,-71,-70,-70,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-57,-55,-53,-52,-50,-49,-48,-46,-45,-44,-43,-42,-41,-40,-39,-38,-38,-37,-36,-35,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-26,-25,-24,-22,-21,-20,-19,-19,-18,-17,-16,-16,-15,-15,-14,-14,-12,-11,-10,-9,-8,-8,-7,-7,-5,-4,-4,-3,-2,-1,-1,-128,1,1,2,3,4,4,5,7,7,8,8,9,10,11,12,14,14,15,15,16,16,17,18,19,19,20,21,22,24,25,26,28,28,29,29,30,30,31,32,32,33,33,34,35,35,36,37,38,38,39,40,41,42,43,44,45,46,48,49,50,52,53,55,57,57,58,59,60,61,62,64,64,65,65,66,67,67,68,69,70,70,71,72,73,74,75,76,77,78,80,81,82,84,85,87,89,90,92,94,96,96,97,98,99,99,100,101,102,104,105,106,108,110,112,112,113,114,115,116,118,120,120,121,123,124,125,126,-128,-126,-125,-124,-123,-121,-120,-120,-118,-116,-115,-114,-113,-112,-112,-109,-108,-106,-104,-103,-102,-101,-100,-99,-98,-97,-97,-96,-96,-93,-91,-89,-88,-86,-84,-83,-81,-80,-79,-77,-76,-75,-74,-73,-72,-71,-70,-70,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-56,-54,-52,-51,-49,-48,-47,-45,-44,-43,-42,-41,-40,-39,-38,-38,-37,-36,-35,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-28,-26,-24,-23,-22,-21,-20,-19,-18,-17,-17,-16,-16,-15,-14,-14,-14,-12,-11,-10,-9,-8,-8,-7,-7,-5,-4,-4,-3,-2,-1,-1,-128,1,1,2,3,4,4,5,7,7,8,8,9,10,11,12,14,14,14,15,16,16,17,17,18,19,20,21,22,23,24,26,28,28,28,29,29,30,30,31,32,32,33,33,34,35,35,36,37,38,38,39,40,41,42,43,44,45,47,48,49,51,52,54,56,56,57,58,59,60,61,62,64,64,65,65,66,67,67,68,69,70,70,71,72,73,74,75,76,77,79,80,81,83,84,86,88,89,91,93,96,96,97,97,98,99,100,101,102,103,104,106,108,109,112,112,113,114,115,116,118,120,120,121,123,124,125,126,-128,-126,-125,-124,-122,-121,-120,-119,-117,-116,-115,-114,-113,-112,-111,-109,-107,-105,-104,-103,-102,-100,-100,-99,-98,-97,-96,-96,-94,-92,-90,-88,-87,-85,-83,-82,-80,-79,-78,-77,-76,-74,-73,-72,-72,-71,-70,-69,-68,-67,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-55,-53,-51,-50,-48,-47,-46,-45,-44,-42,-41,-40,-40,-39,-38,-37,-36,-35,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-25,-24,-23,-22,-20,-20,-19,-18,-17,-16,-16,-15,-15,-14,-14,-13,-12,-11,-10,-9,-8,-7,-7,-6,-5,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,5,6,7,7,8,9,10,11,12,13,14,14,15,15,16,16,17,18,19,20,20,22,23,24,25,27,27,28,28,29,29,30,30,31,32,32,33,33,34,35,35,36,37,38,39,40,40,41,42,44,45,46,47,48,50,51,53,55,55,56,57,58,59,60,61,62,64,64,65,65,66,67,67,68,69,70,71,72,72,73,74,76,77,78,79,80,82,83,85,87,88,90,92,94,96,96,97,98,99,100,100,102,103,104,105,107,109,111,112,113,114,115,116,117,119,120,121,122,124,125,126,-128,-126,-125,-124,-122,-121,-120,-119,-117,-116,-114,-113,-113,-112,-110,-108,-107,-105,-104,-102,-101,-100,-99,-98,-98,-97,-96,-96,-93,-91,-89,-87,-86,-84,-82,-81,-80,-78,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-68,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-54,-52,-50,-49,-48,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-36,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-27,-25,-24,-22,-21,-20,-19,-18,-18,-17,-16,-16,-15,-14,-14,-13,-13,-12,-10,-9,-9,-8,-7,-7,-6,-5,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,5,6,7,7,8,9,9,10,12,13,13,14,14,15,16,16,17,18,18,19,20,21,22,24,25,27,27,27,28,28,29,29,30,30,31,32,32,33,33,34,35,36,36,37,38,39,40,41,42,43,44,45,46,48,49,50,52,54,54,55,56,57,58,59,60,61,62,64,64,65,65,66,67,68,68,69,70,71,72,73,74,75,76,77,78,80,81,82,84,86,87,89,91,93,96,96,97,98,98,99,100,101,102,104,105,107,108,110,112,113,113,114,116,117,119,120,121,122,124,125,126,-128,-126,-125,-124,-122,-121,-120,-119,-117,-115,-114,-113,-112,-112,-110,-108,-106,-104,-103,-102,-101,-100,-99,-98,-97,-96,-96,-94,-92,-90,-88,-86,-85,-83,-81,-80,-79,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-68,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-53,-51,-49,-48,-47,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-36,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-24,-23,-22,-21,-20,-19,-18,-17,-16,-16,-15,-15,-14,-14,-13,-13,-11,-10,-9,-8,-8,-7,-7,-6,-5,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,5,6,7,7,8,8,9,10,11,13,13,14,14,15,15,16,16,17,18,19,20,21,22,23,24,26,26,27,27,28,28,29,29,30,30,31,32,32,33,33,34,35,36,36,37,38,39,40,41,42,43,44,45,47,48,49,51,53,53,54,55,56,57,58,59,60,61,62,64,64,65,65,66,67,68,68,69,70,71,72,73,74,75,76,77,79,80,81,83,85,86,88,90,92,94,96,96,97,98,99,100,101,102,103,104,106,108,110,112,112,113,114,115,117,119,120,121,122,124,125,126,-128,-126,-125,-124,-122,-121,-120,-118,-117,-115,-114,-113,-112,-112,-109,-107,-106,-104,-103,-101,-100,-99,-98,-98,-97,-96,-96,-93,-91,-89,-87,-85,-84,-82,-80,-79,-78,-76,-75,-74,-73,-72,-71,-70,-69,-68,-68,-67,-66,-65,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-52,-50,-48,-47,-46,-44,-43,-42,-41,-40,-39,-38,-37,-36,-36,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-26,-24,-23,-21,-20,-19,-18,-18,-17,-16,-16,-15,-14,-14,-13,-13,-13,-11,-10,-9,-8,-8,-7,-6,-6,-5,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,5,6,6,7,8,8,9,10,11,13,13,13,14,14,15,16,16,17,18,18,19,20,21,23,24,26,26,26,27,27,28,28,29,29,30,30,31,32,32,33,33,34,35,36,36,37,38,39,40,41,42,43,44,46,47,48,50,52,52,53,54,55,56,57,58,59,60,61,62,64,64,65,65,66,67,68,68,69,70,71,72,73,74,75,76,78,79,80,82,84,85,87,89,91,93,96,96,97,98,98,99,100,101,103,104,106,107,109,112,112,113,114,115,117,118,120,121,122,124,125,126,-128,-126,-125,-124,-122,-121,-120,-118,-116,-115,-114,-113,-112,-111,-109,-107,-105,-104,-102,-101,-100,-99,-98,-97,-97,-96,-94,-92,-90,-88,-86,-84,-83,-81,-80,-78,-77,-76,-74,-73,-72,-71,-70,-69,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-51,-49,-48,-46,-45,-44,-42,-41,-40,-39,-38,-37,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-22,-21,-20,-19,-18,-17,-17,-16,-15,-15,-14,-14,-13,-13,-12,-11,-10,-9,-8,-7,-7,-6,-6,-5,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,5,6,6,7,7,8,9,10,11,12,13,13,14,14,15,15,16,17,17,18,19,20,21,22,24,25,25,26,26,27,27,28,28,29,29,30,30,31,32,32,33,34,34,35,36,37,37,38,39,40,41,42,44,45,46,48,49,51,51,52,53,54,55,56,57,58,59,60,61,62,64,64,65,66,66,67,68,69,69,70,71,72,73,74,76,77,78,80,81,83,84,86,88,90,92,94,96,97,97,98,99,100,101,102,104,105,107,109,111,112,113,114,115,116,118,120,121,122,124,125,126,-128,-126,-125,-124,-122,-121,-120,-118,-116,-115,-114,-113,-112,-110,-108,-106,-105,-103,-102,-101,-100,-99,-98,-97,-96,-96,-93,-91,-89,-87,-85,-83,-82,-80,-79,-77,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-50,-48,-47,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-25,-25,-25,-23,-22,-21,-20,-19,-18,-17,-16,-16,-15,-14,-14,-13,-13,-12,-12,-11,-10,-9,-8,-7,-7,-6,-6,-5,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,5,6,6,7,7,8,9,10,11,12,12,13,13,14,14,15,16,16,17,18,19,20,21,22,23,25,25,25,26,26,27,27,28,28,29,29,30,30,31,32,32,33,34,34,35,36,37,38,39,40,41,42,43,44,45,47,48,50,50,51,52,53,54,55,56,57,58,59,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,75,76,77,79,80,82,83,85,87,89,91,93,96,96,97,98,99,100,101,102,103,105,106,108,110,112,113,114,115,116,118,120,121,122,124,125,126,-128,-126,-125,-124,-122,-120,-120,-118,-116,-114,-113,-112,-112,-110,-108,-106,-104,-103,-101,-100,-99,-98,-97,-97,-96,-94,-92,-90,-88,-86,-84,-82,-81,-79,-78,-76,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-49,-47,-46,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-24,-23,-21,-20,-19,-18,-17,-17,-16,-15,-15,-14,-14,-13,-13,-12,-12,-10,-9,-8,-8,-7,-7,-6,-6,-4,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,4,6,6,7,7,8,8,9,10,12,12,13,13,14,14,15,15,16,17,17,18,19,20,21,23,24,24,25,25,26,26,27,27,28,28,29,29,30,30,31,32,32,33,34,34,35,36,37,38,39,40,41,42,43,44,46,47,49,49,50,51,52,53,54,55,56,57,58,59,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,75,76,78,79,81,82,84,86,88,90,92,94,96,97,97,98,99,100,101,103,104,106,108,110,112,112,113,114,116,118,120,120,122,124,125,126,-128,-126,-125,-124,-122,-120,-120,-117,-116,-114,-113,-112,-112,-109,-107,-105,-104,-102,-101,-100,-99,-98,-97,-96,-96,-93,-91,-88,-86,-84,-83,-81,-80,-78,-77,-75,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-59,-57,-56,-55,-54,-53,-52,-52,-51,-50,-49,-48,-48,-46,-45,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-28,-28,-27,-27,-26,-26,-26,-25,-25,-24,-24,-24,-22,-21,-20,-19,-18,-17,-16,-16,-15,-14,-14,-13,-13,-12,-12,-12,-10,-9,-8,-8,-7,-6,-6,-6,-4,-4,-3,-3,-2,-1,-1,-128,1,1,2,3,3,4,4,6,6,6,7,8,8,9,10,12,12,12,13,13,14,14,15,16,16,17,18,19,20,21,22,24,24,24,25,25,26,26,26,27,27,28,28,29,30,30,31,32,32,33,34,34,35,36,37,38,39,40,41,42,43,45,46,48,48,49,50,51,52,52,53,54,55,56,57,59,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,75,77,78,80,81,83,84,86,88,91,93,96,96,97,98,99,100,101,102,104,105,107,109,112,112,113,114,116,117,120,120,122,124,125,126,-128,-126,-124,-123,-121,-120,-119,-117,-115,-114,-113,-112,-111,-108,-106,-105,-103,-102,-100,-99,-98,-97,-97,-96,-94,-92,-89,-87,-85,-83,-82,-80,-79,-77,-76,-74,-73,-72,-71,-70,-69,-68,-67,-66,-66,-65,-64,-64,-62,-61,-60,-58,-57,-56,-55,-54,-53,-52,-51,-50,-50,-49,-48,-47,-47,-45,-44,-42,-41,-40,-39,-38,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-28,-28,-27,-27,-26,-26,-25,-25,-25,-24,-24,-23,-23,-22,-20,-19,-18,-17,-17,-16,-15,-15,-14,-13,-13,-12,-12,-12,-11,-10,-9,-8,-7,-7,-6,-6,-5,-4,-3,-3,-2,-1,-1,-1,-128,1,1,1,2,3,3,4,5,6,6,7,7,8,9,10,11,12,12,12,13,13,14,15,15,16,17,17,18,19,20,22,23,23,24,24,25,25,25,26,26,27,27,28,28,29,30,30,31,32,32,33,34,34,35,36,37,38,39,40,41,42,44,45,47,47,48,49,50,50,51,52,53,54,55,56,57,58,60,61,62,64,64,65,66,66,67,68,69,70,71,72,73,74,76,77,79,80,82,83,85,87,89,92,94,96,97,97,98,99,100,102,103,105,106,108,111,112,113,114,115,117,119,120,121,123,124,126,-128,-126,-124,-123,-121,-120,-119,-117,-115,-114,-113,-112,-110,-108,-106,-104,-103,-101,-100,-99,-98,-97,-96,-96,-93,-90,-88,-86,-84,-82,-81,-79,-78,-76,-75,-74,-72,-71,-70,-69,-68,-67,-67,-66,-65,-64,-64,-62,-61,-60,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-49,-48,-47,-46,-46,-44,-43,-42,-40,-39,-38,-37,-36,-35,-35,-34,-33,-32,-32,-31,-30,-30,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-24,-24,-23,-23,-23,-21,-20,-19,-18,-17,-16,-16,-15,-14,-14,-13,-13,-12,-12,-11,-11,-10,-9,-8,-7,-7,-6,-6,-5,-4,-3,-3,-2,-1,-1,-1,-128,1,1,1,2,3,3,4,5,6,6,7,7,8,9,10,11,11,12,12,13,13,14,14,15,16,16,17,18,19,20,21,23,23,23,24,24,24,25,25,26,26,27,27,28,28,29,30,30,31,32,32,33,34,35,35,36,37,38,39,40,42,43,44,46,46,47,48,49,49,50,51,52,53,54,55,56,57,58,60,61,62,64,64,65,66,67,67,68,69,70,71,72,74,75,76,78,79,81,82,84,86,88,90,93,96,96,97,98,99,100,101,103,104,106,108,110,112,113,114,115,117,119,120,121,123,124,126,-128,-126,-124,-123,-121,-120,-119,-116,-115,-114,-113,-112,-110,-107,-105,-104,-102,-101,-100,-98,-98,-97,-96,-94,-92,-89,-87,-85,-83,-81,-80,-78,-77,-75,-74,-73,-72,-70,-69,-68,-68,-67,-66,-65,-64,-64,-62,-61,-60,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-48,-48,-47,-46,-45,-45,-43,-42,-41,-40,-38,-37,-36,-36,-35,-34,-33,-32,-32,-31,-30,-30,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-24,-24,-23,-23,-22,-22,-21,-20,-18,-18,-17,-16,-15,-15,-14,-13,-13,-12,-12,-12,-11,-11,-10,-9,-8,-7,-6,-6,-6,-5,-4,-3,-3,-2,-1,-1,-1,-128,1,1,1,2,3,3,4,5,6,6,6,7,8,9,10,11,11,12,12,12,13,13,14,15,15,16,17,18,18,20,21,22,22,23,23,24,24,24,25,25,26,26,27,27,28,28,29,30,30,31,32,32,33,34,35,36,36,37,38,40,41,42,43,45,45,46,47,48,48,49,50,51,52,53,54,55,56,57,58,60,61,62,64,64,65,66,67,68,68,69,70,72,73,74,75,77,78,80,81,83,85,87,89,92,94,96,97,98,98,100,101,102,104,105,107,110,112,113,114,115,116,119,120,121,123,124,126,-128,-126,-124,-123,-121,-120,-118,-116,-115,-113,-112,-112,-109,-107,-105,-103,-102,-100,-99,-98,-97,-96,-96,-93,-90,-88,-86,-84,-82,-80,-78,-77,-76,-74,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-46,-45,-44,-44,-42,-41,-40,-39,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-24,-23,-23,-23,-22,-22,-22,-20,-19,-18,-17,-16,-16,-15,-14,-14,-13,-13,-12,-12,-11,-11,-11,-9,-8,-8,-7,-6,-6,-5,-5,-4,-3,-3,-2,-1,-1,-1,-128,1,1,1,2,3,3,4,5,5,6,6,7,8,8,9,11,11,11,12,12,13,13,14,14,15,16,16,17,18,19,20,22,22,22,23,23,23,24,24,25,25,26,26,27,27,28,28,29,29,30,31,32,32,33,34,35,36,37,38,39,40,41,42,44,44,45,46,46,47,48,49,50,51,52,53,54,55,56,57,58,59,61,62,64,64,65,66,67,68,69,70,71,72,73,74,76,77,78,80,82,84,86,88,90,93,96,96,97,98,99,100,102,103,105,107,109,112,112,113,115,116,118,120,121,123,124,126,-128,-126,-124,-123,-121,-120,-118,-116,-114,-113,-112,-111,-108,-106,-104,-102,-101,-100,-99,-98,-97,-96,-94,-91,-89,-87,-84,-82,-81,-79,-77,-76,-75,-73,-72,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-56,-55,-53,-52,-51,-50,-50,-49,-48,-47,-46,-45,-45,-44,-43,-43,-41,-40,-39,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-28,-27,-26,-26,-25,-25,-25,-24,-24,-23,-23,-22,-22,-22,-21,-21,-20,-19,-18,-17,-16,-15,-14,-14,-13,-13,-12,-12,-11,-11,-11,-10,-9,-8,-7,-7,-6,-6,-5,-5,-4,-3,-3,-2,-1,-1,-1,-128,1,1,1,2,3,3,4,5,5,6,6,7,7,8,9,10,11,11,11,12,12,13,13,14,14,15,16,17,18,19,20,21,21,22,22,22,23,23,24,24,25,25,25,26,26,27,28,28,29,29,30,31,32,32,33,34,35,36,37,38,39,40,41,43,43,44,45,45,46,47,48,49,50,50,51,52,53,55,56,57,58,59,61,62,64,64,65,66,67,68,69,70,71,72,73,75,76,77,79,81,82,84,87,89,91,94,96,97,98,99,100,101,102,104,106,108,111,112,113,114,116,118,120,121,123,124,126,-128,-126,-124,-123,-121,-120,-118,-116,-114,-113,-112,-110,-108,-105,-104,-102,-101,-99,-98,-97,-96,-96,-93,-90,-88,-85,-83,-81,-80,-78,-76,-75,-74,-72,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-56,-54,-53,-52,-51,-50,-49,-48,-48,-47,-46,-45,-44,-44,-43,-42,-42,-40,-39,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-28,-27,-26,-26,-25,-25,-24,-24,-24,-23,-23,-22,-22,-22,-21,-21,-21,-19,-18,-17,-16,-16,-15,-14,-14,-13,-12,-12,-12,-11,-11,-10,-10,-9,-8,-7,-7,-6,-6,-5,-5,-4,-3,-3,-2,-1,-1,-1,-128,1,1,1,2,3,3,4,5,5,6,6,7,7,8,9,10,10,11,11,12,12,12,13,14,14,15,16,16,17,18,19,21,21,21,22,22,22,23,23,24,24,24,25,25,26,26,27,28,28,29,29,30,31,32,32,33,34,35,36,37,38,39,40,42,42,43,44,44,45,46,47,48,48,49,50,51,52,53,54,56,57,58,59,61,62,64,64,65,66,67,68,69,70,71,72,74,75,76,78,80,81,83,85,88,90,93,96,96,97,98,99,101,102,104,105,108,110,112,113,114,116,118,120,121,123,124,126,-128,-126,-124,-122,-121,-120,-117,-115,-114,-113,-112,-109,-107,-105,-103,-101,-100,-99,-98,-97,-96,-94,-91,-89,-86,-84,-82,-80,-78,-77,-75,-74,-73,-71,-70,-69,-68,-67,-66,-65,-64,-64,-62,-61,-59,-58,-57,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-46,-45,-44,-43,-43,-42,-41,-41,-39,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-27,-27,-26,-26,-25,-25,-24,-24,-23,-23,-23,-22,-22,-21,-21,-21,-20,-20,-19,-18,-17,-16,-15,-14,-14,-13,-13,-12,-12,-11,-11,-10,-10,-10,-9,-8,-7,-6,-6,-5,-5,-5,-4,-3,-2,-2,-1,-1,-1,-128,1,1,1,2,2,3,4,5,5,5,6,6,7,8,9,10,10,10,11,11,12,12,13,13,14,14,15,16,17,18,19,20,20,21,21,21,22,22,23,23,23,24,24,25,25,26,26,27,27,28,29,29,30,31,32,32,33,34,35,36,37,38,39,41,41,42,43,43,44,45,46,46,47,48,49,50,51,52,53,54,55,57,58,59,61,62,64,64,65,66,67,68,69,70,71,73,74,75,77,78,80,82,84,86,89,91,94,96,97,98,99,100,101,103,105,107,109,112,113,114,115,117,120,121,122,124,126,-128,-126,-124,-122,-121,-120,-117,-115,-114,-112,-112,-109,-106,-104,-102,-101,-100,-98,-97,-96,-96,-92,-90,-87,-85,-83,-81,-79,-77,-76,-74,-73,-72,-70,-69,-68,-67,-66,-65,-64,-64,-62,-60,-59,-58,-56,-55,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-44,-43,-42,-41,-41,-40,-40,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-27,-27,-26,-26,-25,-25,-24,-24,-23,-23,-22,-22,-22,-21,-21,-20,-20,-20,-20,-18,-17,-16,-16,-15,-14,-13,-13,-12,-12,-11,-11,-11,-10,-10,-10,-8,-8,-7,-6,-6,-5,-5,-5,-4,-3,-2,-2,-1,-1,-1,-128,1,1,1,2,2,3,4,5,5,5,6,6,7,8,8,10,10,10,11,11,11,12,12,13,13,14,15,16,16,17,18,20,20,20,20,21,21,22,22,22,23,23,24,24,25,25,26,26,27,27,28,29,29,30,31,32,32,33,34,35,36,37,38,40,40,41,41,42,43,44,44,45,46,47,48,49,50,51,52,53,54,55,56,58,59,60,62,64,64,65,66,67,68,69,70,72,73,74,76,77,79,81,83,85,87,90,92,96,96,97,98,100,101,102,104,106,109,112,112,114,115,117,120,121,122,124,126,-128,-126,-124,-122,-120,-119,-117,-115,-113,-112,-111,-108,-106,-104,-102,-100,-99,-98,-97,-96,-94,-91,-88,-86,-84,-81,-80,-78,-76,-75,-73,-72,-71,-69,-68,-67,-66,-65,-64,-64,-62,-60,-59,-58,-56,-55,-54,-53,-52,-50,-49,-48,-48,-47,-46,-45,-44,-43,-43,-42,-41,-40,-40,-39,-39,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-27,-27,-26,-26,-25,-24,-24,-24,-23,-23,-22,-22,-21,-21,-21,-20,-20,-20,-19,-19,-18,-17,-16,-15,-14,-14,-13,-13,-12,-12,-11,-11,-10,-10,-10,-9,-8,-7,-7,-6,-6,-5,-5,-4,-3,-3,-2,-2,-1,-1,-1,-128,1,1,1,2,2,3,3,4,5,5,6,6,7,7,8,9,10,10,10,11,11,12,12,13,13,14,14,15,16,17,18,19,19,20,20,20,21,21,21,22,22,23,23,24,24,24,25,26,26,27,27,28,29,29,30,31,32,32,33,34,35,36,37,39,39,40,40,41,42,43,43,44,45,46,47,48,48,49,50,52,53,54,55,56,58,59,60,62,64,64,65,66,67,68,69,71,72,73,75,76,78,80,81,84,86,88,91,94,96,97,98,99,100,102,104,106,108,111,112,113,115,117,119,120,122,124,126,-128,-126,-124,-122,-120,-119,-116,-114,-113,-112,-110,-107,-105,-103,-101,-100,-99,-97,-96,-96,-92,-89,-87,-84,-82,-80,-78,-77,-75,-73,-72,-71,-70,-68,-67,-66,-65,-64,-64,-62,-60,-59,-57,-56,-55,-54,-52,-51,-50,-49,-48,-47,-46,-45,-45,-44,-43,-42,-41,-41,-40,-39,-39,-38,-38,-36,-35,-34,-33,-32,-32,-31,-30,-29,-28,-28,-27,-27,-26,-25,-25,-24,-24,-23,-23,-22,-22,-22,-21,-21,-20,-20,-20,-19,-19,-19,-19,-17,-16,-16,-15,-14,-13,-13,-12,-12,-11,-11,-10,-10,-10,-9,-9,-8,-7,-6,-6,-5,-5,-5,-4,-3,-3,-2,-2,-1,-1,-1,-128,1,1,1,2,2,3,3,4,5,5,5,6,6,7,8,9,9,10,10,10,11,11,12,12,13,13,14,15,16,16,17,19,19,19,19,20,20,20,21,21,22,22,22,23,23,24,24,25,25,26,27,27,28,28,29,30,31,32,32,33,34,35,36,38,38,39,39,40,41,41,42,43,44,45,45,46,47,48,49,50,51,52,54,55,56,57,59,60,62,64,64,65,66,67,68,70,71,72,73,75,77,78,80,82,84,87,89,92,96,96,97,99,100,101,103,105,107,110,112,113,114,116,119,120,122,124,126,-128,-126,-124,-122,-120,-118,-116,-114,-113,-112,-109,-106,-104,-102,-101,-99,-98,-97,-96,-94,-91,-88,-85,-83,-81,-79,-77,-75,-74,-72,-71,-70,-69,-67,-66,-65,-64,-64,-62,-60,-59,-57,-56,-55,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-43,-42,-41,-40,-40,-39,-38,-38,-37,-37,-35,-34,-33,-32,-32,-31,-30,-29,-28,-28,-27,-26,-26,-25,-25,-24,-24,-23,-23,-22,-22,-21,-21,-21,-20,-20,-20,-19,-19,-19,-18,-18,-17,-16,-15,-14,-14,-13,-12,-12,-11,-11,-10,-10,-10,-9,-9,-9,-8,-7,-6,-6,-5,-5,-4,-4,-3,-3,-2,-2,-1,-1,-1,-128,1,1,1,2,2,3,3,4,4,5,5,6,6,7,8,9,9,9,10,10,10,11,11,12,12,13,14,14,15,16,17,18,18,19,19,19,20,20,20,21,21,21,22,22,23,23,24,24,25,25,26,26,27,28,28,29,30,31,32,32,33,34,35,37,37,38,38,39,40,40,41,42,43,43,44,45,46,47,48,49,50,51,52,53,55,56,57,59,60,62,64,64,65,66,67,69,70,71,72,74,75,77,79,81,83,85,88,91,94,96,97,98,99,101,102,104,106,109,112,113,114,116,118,120,122,124,126,-128,-126,-124,-122,-120,-118,-116,-114,-113,-112,-108,-106,-104,-102,-100,-99,-98,-96,-96,-92,-89,-86,-84,-82,-80,-78,-76,-74,-73,-71,-70,-69,-68,-66,-65,-64,-64,-62,-60,-59,-57,-56,-54,-53,-52,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-41,-40,-39,-39,-38,-37,-37,-36,-36,-34,-33,-32,-32,-31,-30,-29,-28,-28,-27,-26,-26,-25,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-19,-18,-18,-18,-18,-16,-16,-15,-14,-13,-13,-12,-12,-11,-11,-10,-10,-9,-9,-9,-9,-8,-7,-6,-6,-5,-5,-4,-4,-3,-3,-2,-2,-1,-1,-1,-128,1,1,1,2,2,3,3,4,4,5,5,6,6,7,8,9,9,9,9,10,10,11,11,12,12,13,13,14,15,16,16,18,18,18,18,19,19,19,20,20,20,21,21,22,22,23,23,24,24,25,25,26,26,27,28,28,29,30,31,32,32,33,34,36,36,37,37,38,39,39,40,41,41,42,43,44,45,46,47,48,49,50,51,52,53,54,56,57,59,60,62,64,64,65,66,68,69,70,71,73,74,76,78,80,82,84,86,89,92,96,96,98,99,100,102,104,106,108,112,113,114,116,118,120,122,124,126,-128,-126,-124,-121,-120,-118,-115,-114,-112,-111,-108,-105,-103,-101,-100,-98,-97,-96,-94,-90,-88,-85,-82,-80,-78,-76,-75,-73,-72,-70,-69,-68,-67,-65,-64,-64,-62,-60,-58,-57,-56,-54,-53,-52,-50,-49,-48,-47,-46,-45,-44,-43,-43,-42,-41,-40,-40,-39,-38,-37,-37,-36,-36,-35,-35,-33,-32,-32,-31,-30,-29,-28,-28,-27,-26,-26,-25,-24,-24,-23,-23,-22,-22,-21,-21,-21,-20,-20,-20,-19,-19,-18,-18,-18,-18,-17,-17,-16,-15,-14,-14,-13,-12,-12,-11,-11,-10,-10,-10,-9,-9,-9,-8,-7,-7,-6,-5,-5,-5,-4,-4,-3,-2,-2,-2,-1,-1,-1,-128,1,1,1,2,2,2,3,4,4,5,5,5,6,7,7,8,9,9,9,10,10,10,11,11,12,12,13,14,14,15,16,17,17,18,18,18,18,19,19,20,20,20,21,21,21,22,22,23,23,24,24,25,26,26,27,28,28,29,30,31,32,32,33,35,35,36,36,37,37,38,39,40,40,41,42,43,43,44,45,46,47,48,49,50,52,53,54,56,57,58,60,62,64,64,65,67,68,69,70,72,73,75,76,78,80,82,85,88,90,94,96,97,98,100,101,103,105,108,111,112,114,115,118,120,121,124,126,-128,-126,-124,-121,-120,-117,-115,-113,-112,-110,-107,-104,-102,-100,-99,-98,-97,-96,-92,-89,-86,-83,-81,-79,-77,-75,-73,-72,-70,-69,-68,-67,-66,-64,-64,-62,-60,-58,-57,-55,-54,-53,-51,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-41,-40,-39,-38,-38,-37,-36,-36,-35,-35,-34,-34,-32,-32,-31,-30,-29,-28,-27,-27,-26,-25,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-19,-18,-18,-18,-17,-17,-17,-17,-16,-15,-14,-13,-12,-12,-11,-11,-10,-10,-10,-9,-9,-9,-8,-8,-7,-6,-6,-5,-5,-4,-4,-4,-3,-2,-2,-2,-1,-1,-1,-128,1,1,1,2,2,2,3,4,4,4,5,5,6,6,7,8,8,9,9,9,10,10,10,11,11,12,12,13,14,15,16,17,17,17,17,18,18,18,19,19,19,20,20,20,21,21,22,22,23,23,24,24,25,25,26,27,27,28,29,30,31,32,32,34,34,35,35,36,36,37,38,38,39,40,41,41,42,43,44,45,46,47,48,49,50,51,53,54,55,57,58,60,62,64,64,66,67,68,69,70,72,73,75,77,79,81,83,86,89,92,96,97,98,99,100,102,104,107,110,112,113,115,117,120,121,124,126,-128,-126,-124,-121,-120,-117,-115,-113,-112,-109,-106,-104,-102,-100,-98,-97,-96,-94,-90,-87,-84,-82,-80,-77,-76,-74,-72,-71,-69,-68,-67,-66,-65,-64,-62,-60,-58,-57,-55,-54,-52,-51,-50,-49,-48,-46,-45,-44,-44,-43,-42,-41,-40,-39,-39,-38,-37,-37,-36,-35,-35,-34,-34,-33,-33,-32,-31,-30,-29,-28,-27,-27,-26,-25,-25,-24,-24,-23,-22,-22,-22,-21,-21,-20,-20,-19,-19,-19,-18,-18,-18,-17,-17,-17,-17,-16,-16,-15,-14,-13,-13,-12,-12,-11,-11,-10,-10,-9,-9,-9,-8,-8,-8,-7,-6,-6,-5,-5,-4,-4,-4,-3,-2,-2,-2,-1,-1,-1,-128,1,1,1,2,2,2,3,4,4,4,5,5,6,6,7,8,8,8,9,9,9,10,10,11,11,12,12,13,13,14,15,16,16,17,17,17,17,18,18,18,19,19,19,20,20,21,21,22,22,22,23,24,24,25,25,26,27,27,28,29,30,31,32,33,33,34,34,35,35,36,37,37,38,39,39,40,41,42,43,44,44,45,46,48,49,50,51,52,54,55,57,58,60,62,64,65,66,67,68,69,71,72,74,76,77,80,82,84,87,90,94,96,97,98,100,102,104,106,109,112,113,115,117,120,121,124,126,-128,-126,-124,-121,-120,-116,-114,-113,-112,-108,-105,-103,-101,-99,-98,-97,-96,-92,-88,-85,-83,-80,-78,-76,-74,-72,-71,-69,-68,-67,-66,-65,-64,-62,-60,-58,-56,-55,-53,-52,-51,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-40,-39,-38,-37,-37,-36,-35,-35,-34,-34,-33,-33,-32,-32,-31,-30,-29,-28,-27,-26,-26,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-18,-18,-18,-17,-17,-17,-17,-16,-16,-16,-16,-15,-14,-13,-12,-12,-11,-11,-10,-10,-9,-9,-9,-8,-8,-8,-8,-7,-6,-5,-5,-4,-4,-4,-4,-3,-2,-2,-2,-1,-1,-1,-128,1,1,1,2,2,2,3,4,4,4,4,5,5,6,7,8,8,8,8,9,9,9,10,10,11,11,12,12,13,14,15,16,16,16,16,17,17,17,17,18,18,18,19,19,20,20,20,21,21,22,22,23,23,24,24,25,26,26,27,28,29,30,31,32,32,33,33,34,34,35,35,36,37,37,38,39,40,40,41,42,43,44,45,46,47,48,49,51,52,53,55,56,58,60,62,64,65,66,67,68,69,71,72,74,76,78,80,83,85,88,92,96,97,98,99,101,103,105,108,112,113,114,116,120,121,124,126,-128,-125,-123,-121,-119,-116,-114,-112,-111,-107,-104,-102,-100,-99,-97,-96,-94,-90,-87,-84,-81,-79,-77,-75,-73,-71,-70,-68,-67,-66,-65,-64,-62,-60,-58,-56,-55,-53,-52,-50,-49,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-38,-37,-36,-36,-35,-34,-34,-33,-33,-32,-32,-31,-31,-30,-29,-28,-27,-26,-26,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-19,-19,-19,-18,-18,-18,-17,-17,-17,-16,-16,-16,-16,-15,-15,-14,-13,-13,-12,-11,-11,-10,-10,-9,-9,-9,-8,-8,-8,-8,-7,-6,-6,-5,-5,-4,-4,-4,-3,-3,-2,-2,-1,-1,-1,-1,-128,1,1,1,1,2,2,3,3,4,4,4,5,5,6,6,7,8,8,8,8,9,9,9,10,10,11,11,12,13,13,14,15,15,16,16,16,16,17,17,17,18,18,18,19,19,19,20,20,21,21,22,22,23,23,24,24,25,26,26,27,28,29,30,31,31,32,32,33,33,34,34,35,36,36,37,38,38,39,40,41,42,43,44,45,46,47,48,49,50,52,53,55,56,58,60,62,64,65,66,67,68,70,71,73,75,77,79,81,84,87,90,94,96,97,99,100,102,104,107,111,112,114,116,119,121,123,125,-128,-125,-123,-121,-119,-116,-114,-112,-110,-106,-104,-101,-100,-98,-97,-96,-92,-88,-85,-82,-80,-77,-75,-73,-72,-70,-68,-67,-66,-65,-64,-61,-60,-58,-56,-54,-53,-51,-50,-49,-48,-46,-45,-44,-43,-42,-41,-40,-40,-39,-38,-37,-36,-36,-35,-34,-34,-33,-33,-32,-32,-31,-30,-30,-30,-29,-28,-27,-26,-25,-25,-24,-24,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-18,-18,-18,-17,-17,-17,-16,-16,-16,-16,-15,-15,-15,-15,-14,-13,-12,-12,-11,-10,-10,-10,-9,-9,-8,-8,-8,-8,-7,-7,-6,-6,-5,-5,-4,-4,-4,-3,-3,-2,-2,-1,-1,-1,-1,-128,1,1,1,1,2,2,3,3,4,4,4,5,5,6,6,7,7,8,8,8,8,9,9,10,10,10,11,12,12,13,14,15,15,15,15,16,16,16,16,17,17,17,18,18,18,19,19,20,20,20,21,21,22,22,23,24,24,25,25,26,27,28,29,30,30,30,31,32,32,33,33,34,34,35,36,36,37,38,39,40,40,41,42,43,44,45,46,48,49,50,51,53,54,56,58,60,61,64,65,66,67,68,70,72,73,75,77,80,82,85,88,92,96,97,98,100,101,104,106,110,112,114,116,119,121,123,125,-128,-125,-123,-120,-118,-115,-113,-112,-109,-105,-103,-101,-99,-97,-96,-93,-90,-86,-83,-80,-78,-76,-74,-72,-70,-69,-67,-66,-65,-64,-61,-59,-58,-56,-54,-53,-51,-50,-48,-47,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-37,-36,-35,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-29,-28,-27,-26,-25,-25,-24,-23,-23,-22,-22,-21,-21,-20,-20,-19,-19,-18,-18,-18,-17,-17,-17,-16,-16,-16,-16,-15,-15,-15,-14,-14,-14,-13,-12,-12,-11,-11,-10,-10,-9,-9,-8,-8,-8,-8,-7,-7,-7,-6,-5,-5,-4,-4,-4,-3,-3,-2,-2,-2,-1,-1,-1,-1,-128,1,1,1,1,2,2,2,3,3,4,4,4,5,5,6,7,7,7,8,8,8,8,9,9,10,10,11,11,12,12,13,14,14,14,15,15,15,16,16,16,16,17,17,17,18,18,18,19,19,20,20,21,21,22,22,23,23,24,25,25,26,27,28,29,29,29,30,30,31,32,32,33,33,34,35,35,36,37,37,38,39,40,41,42,43,44,45,46,47,48,50,51,53,54,56,58,59,61,64,65,66,67,69,70,72,74,76,78,80,83,86,90,93,96,97,99,101,103,105,109,112,113,115,118,120,123,125,-128,-125,-123,-120,-118,-115,-113,-112,-108,-104,-102,-100,-98,-97,-96,-91,-88,-84,-81,-79,-76,-74,-72,-70,-69,-67,-66,-65,-64,-61,-59,-57,-56,-54,-52,-51,-49,-48,-47,-45,-44,-43,-42,-41,-40,-39,-38,-38,-37,-36,-35,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-28,-27,-26,-25,-24,-24,-23,-22,-22,-21,-21,-20,-20,-19,-19,-19,-18,-18,-17,-17,-17,-16,-16,-16,-16,-15,-15,-15,-14,-14,-14,-14,-14,-13,-12,-11,-11,-10,-10,-9,-9,-8,-8,-8,-8,-7,-7,-7,-7,-6,-5,-5,-4,-4,-4,-3,-3,-2,-2,-2,-1,-1,-1,-1,-128,1,1,1,1,2,2,2,3,3,4,4,4,5,5,6,7,7,7,7,8,8,8,8,9,9,10,10,11,11,12,13,14,14,14,14,14,15,15,15,16,16,16,16,17,17,17,18,18,19,19,19,20,20,21,21,22,22,23,24,24,25,26,27,28,28,28,29,29,30,30,31,32,32,33,33,34,35,35,36,37,38,38,39,40,41,42,43,44,45,47,48,49,51,52,54,56,57,59,61,64,65,66,67,69,70,72,74,76,79,81,84,88,91,96,97,98,100,102,104,108,112,113,115,118,120,123,125,-128,-125,-122,-120,-117,-114,-113,-110,-107,-104,-101,-99,-98,-96,-93,-89,-86,-82,-80,-77,-75,-73,-71,-69,-68,-66,-65,-64,-61,-59,-57,-55,-54,-52,-50,-49,-48,-46,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-36,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-27,-26,-25,-24,-24,-23,-22,-22,-21,-21,-20,-20,-19,-19,-18,-18,-18,-17,-17,-16,-16,-16,-16,-15,-15,-15,-14,-14,-14,-14,-13,-13,-13,-12,-12,-11,-10,-10,-9,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-5,-4,-4,-4,-3,-3,-3,-2,-2,-1,-1,-1,-1,-1,-128,1,1,1,1,1,2,2,3,3,3,4,4,4,5,6,6,6,7,7,7,8,8,8,9,9,9,10,10,11,12,12,13,13,13,14,14,14,14,15,15,15,16,16,16,16,17,17,18,18,18,19,19,20,20,21,21,22,22,23,24,24,25,26,27,27,27,28,28,29,29,30,30,31,32,32,33,33,34,35,36,36,37,38,39,40,41,42,43,44,45,46,48,49,50,52,54,55,57,59,61,64,65,66,68,69,71,73,75,77,80,82,86,89,93,96,98,99,101,104,107,110,113,114,117,120,122,125,-128,-125,-122,-120,-117,-114,-112,-109,-106,-103,-100,-98,-97,-96,-91,-87,-84,-80,-78,-75,-73,-71,-69,-68,-66,-65,-64,-61,-59,-57,-55,-53,-52,-50,-48,-47,-46,-44,-43,-42,-41,-40,-39,-38,-37,-36,-36,-35,-34,-33,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-26,-25,-24,-23,-23,-22,-21,-21,-20,-20,-19,-19,-18,-18,-18,-17,-17,-16,-16,-16,-16,-15,-15,-15,-14,-14,-14,-14,-13,-13,-13,-13,-13,-12,-11,-10,-10,-9,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-5,-5,-4,-4,-4,-3,-3,-3,-2,-2,-1,-1,-1,-1,-1,-128,1,1,1,1,1,2,2,3,3,3,4,4,4,5,5,6,6,6,7,7,7,8,8,8,9,9,9,10,10,11,12,13,13,13,13,13,14,14,14,14,15,15,15,16,16,16,16,17,17,18,18,18,19,19,20,20,21,21,22,23,23,24,25,26,26,26,27,27,28,28,29,29,30,30,31,32,32,33,33,34,35,36,36,37,38,39,40,41,42,43,44,46,47,48,50,52,53,55,57,59,61,64,65,66,68,69,71,73,75,78,80,84,87,91,96,97,98,100,103,106,109,112,114,117,120,122,125,-128,-125,-122,-120,-116,-114,-112,-108,-105,-102,-100,-98,-96,-93,-89,-85,-82,-79,-76,-74,-72,-70,-68,-66,-65,-64,-61,-59,-57,-55,-53,-51,-50,-48,-47,-45,-44,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-29,-28,-28,-27,-27,-26,-26,-25,-25,-25,-24,-23,-22,-22,-21,-21,-20,-20,-19,-19,-18,-18,-17,-17,-17,-16,-16,-16,-15,-15,-15,-14,-14,-14,-14,-13,-13,-13,-13,-12,-12,-12,-11,-11,-10,-10,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-6,-5,-5,-4,-4,-3,-3,-3,-3,-2,-2,-1,-1,-1,-1,-1,-128,1,1,1,1,1,2,2,3,3,3,3,4,4,5,5,6,6,6,6,7,7,7,8,8,8,9,9,10,10,11,11,12,12,12,13,13,13,13,14,14,14,14,15,15,15,16,16,16,17,17,17,18,18,19,19,20,20,21,21,22,22,23,24,25,25,25,26,26,27,27,28,28,29,29,30,30,31,32,32,33,34,34,35,36,37,38,39,40,41,42,43,44,45,47,48,50,51,53,55,57,59,61,64,65,66,68,70,72,74,76,79,82,85,89,93,96,98,100,102,105,108,112,114,116,120,122,125,-128,-125,-122,-120,-116,-113,-112,-107,-104,-101,-99,-97,-96,-91,-86,-83,-80,-77,-74,-72,-70,-68,-66,-65,-64,-61,-59,-56,-54,-52,-51,-49,-48,-46,-45,-43,-42,-41,-40,-39,-38,-37,-36,-35,-34,-34,-33,-32,-32,-31,-30,-30,-29,-28,-28,-27,-27,-26,-26,-26,-25,-25,-24,-24,-24,-23,-22,-21,-21,-20,-20,-19,-19,-18,-18,-17,-17,-17,-16,-16,-16,-15,-15,-15,-14,-14,-14,-13,-13,-13,-13,-13,-12,-12,-12,-12,-12,-11,-10,-10,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-6,-6,-5,-4,-4,-4,-3,-3,-3,-3,-2,-2,-1,-1,-1,-1,-1,-128,1,1,1,1,1,2,2,3,3,3,3,4,4,4,5,6,6,6,6,6,7,7,7,8,8,8,9,9,10,10,11,12,12,12,12,12,13,13,13,13,13,14,14,14,15,15,15,16,16,16,17,17,17,18,18,19,19,20,20,21,21,22,23,24,24,24,25,25,26,26,26,27,27,28,28,29,30,30,31,32,32,33,34,34,35,36,37,38,39,40,41,42,43,45,46,48,49,51,52,54,56,59,61,64,65,66,68,70,72,74,77,80,83,86,91,96,97,99,101,104,107,112,113,116,120,122,125,-128,-124,-121,-119,-115,-113,-110,-106,-103,-100,-98,-96,-93,-88,-84,-81,-78,-75,-72,-70,-68,-67,-65,-64,-61,-58,-56,-54,-52,-50,-49,-47,-46,-44,-43,-42,-40,-39,-38,-37,-36,-35,-35,-34,-33,-32,-32,-31,-30,-30,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-24,-24,-23,-23,-23,-22,-21,-21,-20,-19,-19,-18,-18,-17,-17,-17,-16,-16,-16,-15,-15,-15,-14,-14,-14,-13,-13,-13,-13,-12,-12,-12,-12,-12,-11,-11,-11,-10,-10,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-6,-5,-5,-5,-4,-4,-3,-3,-3,-3,-2,-2,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,2,2,3,3,3,3,4,4,5,5,5,6,6,6,6,7,7,7,8,8,8,9,9,10,10,11,11,11,12,12,12,12,12,13,13,13,13,14,14,14,15,15,15,16,16,16,17,17,17,18,18,19,19,20,21,21,22,23,23,23,24,24,24,25,25,26,26,27,27,28,28,29,30,30,31,32,32,33,34,35,35,36,37,38,39,40,42,43,44,46,47,49,50,52,54,56,58,61,64,65,67,68,70,72,75,78,81,84,88,93,96,98,100,103,106,110,113,115,119,121,124,-128,-124,-121,-118,-115,-112,-109,-105,-102,-99,-97,-96,-90,-86,-82,-78,-76,-73,-71,-69,-67,-65,-64,-61,-58,-56,-54,-52,-50,-48,-46,-45,-44,-42,-41,-40,-39,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-28,-27,-27,-26,-26,-25,-25,-24,-24,-23,-23,-23,-22,-22,-22,-21,-20,-20,-19,-19,-18,-18,-17,-17,-16,-16,-16,-15,-15,-14,-14,-14,-14,-13,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-11,-11,-10,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-6,-5,-5,-5,-4,-4,-4,-3,-3,-3,-2,-2,-2,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,2,2,2,3,3,3,4,4,4,5,5,5,6,6,6,6,7,7,7,8,8,8,9,9,10,11,11,11,11,11,11,12,12,12,12,13,13,13,13,14,14,14,14,15,15,16,16,16,17,17,18,18,19,19,20,20,21,22,22,22,23,23,23,24,24,25,25,26,26,27,27,28,28,29,29,30,31,32,32,33,34,35,36,37,38,39,40,41,42,44,45,46,48,50,52,54,56,58,61,64,65,67,69,71,73,76,78,82,86,90,96,97,99,102,105,109,112,115,118,121,124,-128,-124,-121,-118,-114,-112,-108,-104,-101,-98,-96,-93,-88,-83,-80,-76,-74,-71,-69,-67,-65,-64,-61,-58,-56,-53,-51,-49,-48,-46,-44,-43,-42,-40,-39,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-28,-27,-26,-26,-25,-25,-24,-24,-24,-23,-23,-22,-22,-22,-21,-21,-21,-20,-19,-19,-18,-18,-17,-17,-16,-16,-16,-15,-15,-14,-14,-14,-14,-13,-13,-13,-12,-12,-12,-12,-12,-11,-11,-11,-11,-11,-10,-10,-10,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-6,-5,-5,-5,-5,-4,-4,-3,-3,-3,-3,-2,-2,-2,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,2,2,2,3,3,3,3,4,4,5,5,5,5,6,6,6,6,7,7,7,8,8,8,9,9,10,10,10,11,11,11,11,11,12,12,12,12,12,13,13,13,14,14,14,14,15,15,16,16,16,17,17,18,18,19,19,20,21,21,21,22,22,22,23,23,24,24,24,25,25,26,26,27,28,28,29,29,30,31,32,32,33,34,35,36,37,38,39,40,42,43,44,46,48,49,51,53,56,58,61,64,65,67,69,71,74,76,80,83,88,93,96,98,101,104,108,112,114,118,121,124,-128,-124,-121,-117,-114,-112,-106,-102,-100,-97,-96,-90,-85,-81,-77,-74,-72,-69,-67,-65,-64,-60,-58,-55,-53,-51,-49,-47,-45,-44,-42,-41,-40,-38,-37,-36,-35,-34,-33,-32,-32,-31,-30,-29,-29,-28,-27,-27,-26,-26,-25,-25,-24,-24,-23,-23,-22,-22,-22,-21,-21,-20,-20,-20,-20,-19,-18,-18,-17,-17,-16,-16,-16,-15,-15,-14,-14,-14,-13,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-11,-10,-10,-10,-10,-10,-10,-9,-8,-8,-8,-7,-7,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-4,-4,-3,-3,-3,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,2,2,2,2,3,3,3,4,4,5,5,5,5,5,5,6,6,6,6,7,7,8,8,8,9,10,10,10,10,10,10,11,11,11,11,11,12,12,12,12,13,13,13,13,14,14,14,15,15,16,16,16,17,17,18,18,19,20,20,20,20,21,21,22,22,22,23,23,24,24,25,25,26,26,27,27,28,29,29,30,31,32,32,33,34,35,36,37,38,40,41,42,44,45,47,49,51,53,55,58,60,64,65,67,69,72,74,77,81,85,90,96,97,100,102,106,112,114,117,121,124,-128,-124,-120,-116,-113,-110,-105,-101,-99,-96,-92,-87,-82,-78,-75,-72,-70,-67,-65,-64,-60,-57,-55,-52,-50,-48,-46,-45,-43,-41,-40,-39,-38,-36,-35,-34,-33,-32,-32,-31,-30,-29,-28,-28,-27,-27,-26,-25,-25,-24,-24,-23,-23,-22,-22,-22,-21,-21,-20,-20,-20,-19,-19,-19,-19,-18,-17,-17,-16,-16,-16,-15,-15,-14,-14,-14,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-8,-8,-8,-7,-7,-6,-6,-6,-6,-5,-5,-5,-5,-5,-4,-4,-4,-3,-3,-3,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,2,2,2,2,3,3,3,4,4,4,5,5,5,5,5,6,6,6,6,7,7,8,8,8,9,9,9,9,10,10,10,10,10,11,11,11,11,11,12,12,12,12,13,13,13,14,14,14,15,15,16,16,16,17,17,18,19,19,19,19,20,20,20,21,21,22,22,22,23,23,24,24,25,25,26,27,27,28,28,29,30,31,32,32,33,34,35,36,38,39,40,41,43,45,46,48,50,52,55,57,60,64,65,67,70,72,75,78,82,87,92,96,99,101,105,110,113,116,120,124,-128,-124,-120,-116,-113,-108,-104,-100,-98,-96,-89,-84,-80,-76,-73,-70,-68,-65,-64,-60,-57,-54,-52,-50,-48,-46,-44,-42,-41,-39,-38,-37,-36,-34,-33,-32,-32,-31,-30,-29,-28,-28,-27,-26,-26,-25,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-19,-18,-18,-18,-18,-17,-16,-16,-16,-15,-15,-14,-14,-14,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-9,-9,-9,-8,-8,-7,-7,-6,-6,-6,-6,-5,-5,-5,-5,-4,-4,-4,-4,-4,-3,-3,-3,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,2,2,2,2,3,3,3,4,4,4,4,4,5,5,5,5,6,6,6,6,7,7,8,8,9,9,9,9,9,9,9,10,10,10,10,10,11,11,11,11,12,12,12,12,13,13,13,14,14,14,15,15,16,16,16,17,18,18,18,18,19,19,19,20,20,20,21,21,22,22,23,23,24,24,25,25,26,26,27,28,28,29,30,31,32,32,33,34,36,37,38,39,41,42,44,46,48,50,52,54,57,60,64,65,68,70,73,76,80,84,89,96,98,100,104,108,113,116,120,124,-128,-124,-120,-115,-112,-107,-102,-99,-97,-92,-86,-81,-77,-73,-70,-68,-66,-64,-60,-57,-54,-51,-49,-47,-45,-43,-41,-40,-38,-37,-36,-35,-34,-32,-32,-31,-30,-29,-28,-27,-27,-26,-25,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-19,-18,-18,-18,-17,-17,-17,-17,-16,-16,-15,-15,-14,-14,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-7,-7,-6,-6,-6,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-3,-3,-3,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,2,2,2,2,2,3,3,3,4,4,4,4,4,5,5,5,5,5,6,6,6,7,7,8,8,8,8,8,9,9,9,9,9,9,10,10,10,10,10,11,11,11,11,12,12,12,12,13,13,13,14,14,15,15,16,16,17,17,17,17,18,18,18,19,19,19,20,20,20,21,21,22,22,23,23,24,24,25,25,26,27,27,28,29,30,31,32,32,34,35,36,37,38,40,41,43,45,47,49,51,54,57,60,64,66,68,70,73,77,81,86,92,97,99,102,107,112,115,120,124,-128,-124,-120,-114,-112,-105,-101,-98,-96,-88,-83,-78,-74,-71,-68,-66,-64,-60,-56,-53,-51,-48,-46,-44,-42,-40,-39,-37,-36,-35,-34,-33,-32,-31,-30,-29,-28,-27,-26,-26,-25,-24,-24,-23,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-18,-18,-18,-17,-17,-17,-17,-16,-16,-16,-16,-15,-15,-14,-14,-13,-13,-13,-12,-12,-12,-11,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-8,-8,-7,-7,-6,-6,-6,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-3,-3,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,2,2,2,2,2,2,3,3,4,4,4,4,4,4,4,5,5,5,5,6,6,6,7,7,8,8,8,8,8,8,8,8,9,9,9,9,9,10,10,10,10,10,11,11,11,11,12,12,12,13,13,13,14,14,15,15,16,16,16,16,17,17,17,17,18,18,18,19,19,20,20,20,21,21,22,22,23,23,24,24,25,26,26,27,28,29,30,31,32,33,34,35,36,37,39,40,42,44,46,48,51,53,56,60,64,66,68,71,74,78,83,88,96,98,101,105,112,114,120,124,-128,-123,-119,-114,-110,-104,-100,-97,-92,-85,-80,-75,-72,-68,-66,-64,-60,-56,-53,-50,-48,-45,-43,-41,-40,-38,-36,-35,-34,-33,-32,-30,-30,-29,-28,-27,-26,-25,-25,-24,-24,-23,-22,-22,-21,-21,-20,-20,-20,-19,-19,-18,-18,-18,-17,-17,-17,-16,-16,-16,-16,-15,-15,-15,-15,-14,-14,-13,-13,-12,-12,-12,-12,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-6,-6,-6,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,2,2,2,2,2,3,3,3,3,4,4,4,4,4,4,5,5,5,5,6,6,6,7,7,7,7,7,8,8,8,8,8,8,8,9,9,9,9,9,10,10,10,10,10,11,11,11,12,12,12,12,13,13,14,14,15,15,15,15,16,16,16,16,17,17,17,18,18,18,19,19,20,20,20,21,21,22,22,23,24,24,25,25,26,27,28,29,30,30,32,33,34,35,36,38,40,41,43,45,48,50,53,56,60,64,66,68,72,75,80,85,92,97,100,104,110,114,119,123,-128,-123,-118,-113,-108,-102,-98,-96,-88,-81,-76,-72,-69,-66,-64,-59,-56,-52,-49,-47,-44,-42,-40,-38,-37,-35,-34,-33,-32,-30,-29,-28,-28,-27,-26,-25,-24,-24,-23,-22,-22,-21,-21,-20,-20,-19,-19,-19,-18,-18,-17,-17,-17,-16,-16,-16,-16,-15,-15,-15,-14,-14,-14,-14,-14,-13,-13,-12,-12,-12,-11,-11,-11,-10,-10,-10,-10,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-7,-7,-7,-6,-6,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,2,2,2,2,2,3,3,3,3,3,4,4,4,4,4,4,5,5,5,5,6,6,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,9,9,9,9,9,10,10,10,10,11,11,11,12,12,12,13,13,14,14,14,14,14,15,15,15,16,16,16,16,17,17,17,18,18,19,19,19,20,20,21,21,22,22,23,24,24,25,26,27,28,28,29,30,32,33,34,35,37,38,40,42,44,47,49,52,56,59,64,66,69,72,76,81,88,96,98,102,108,113,118,123,-128,-122,-117,-112,-106,-100,-97,-91,-84,-78,-73,-69,-66,-64,-59,-55,-52,-48,-46,-43,-41,-39,-37,-36,-34,-33,-32,-30,-29,-28,-27,-26,-26,-25,-24,-23,-23,-22,-21,-21,-20,-20,-19,-19,-18,-18,-18,-17,-17,-16,-16,-16,-16,-15,-15,-15,-14,-14,-14,-14,-13,-13,-13,-13,-13,-12,-12,-11,-11,-11,-10,-10,-10,-10,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-5,-5,-5,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,3,3,3,3,3,3,4,4,4,4,4,4,5,5,5,6,6,6,6,6,6,7,7,7,7,7,7,7,8,8,8,8,8,8,9,9,9,9,9,10,10,10,10,11,11,11,12,12,13,13,13,13,13,14,14,14,14,15,15,15,16,16,16,16,17,17,18,18,18,19,19,20,20,21,21,22,23,23,24,25,26,26,27,28,29,30,32,33,34,36,37,39,41,43,46,48,52,55,59,64,66,69,73,78,84,91,97,100,106,112,117,122,-128,-122,-116,-112,-104,-99,-96,-86,-80,-74,-70,-66,-64,-59,-54,-51,-48,-45,-42,-40,-38,-36,-34,-33,-32,-30,-29,-28,-27,-26,-25,-24,-24,-23,-22,-21,-21,-20,-20,-19,-19,-18,-18,-17,-17,-17,-16,-16,-16,-15,-15,-15,-14,-14,-14,-13,-13,-13,-13,-13,-12,-12,-12,-12,-12,-11,-11,-10,-10,-10,-10,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-6,-6,-6,-6,-5,-5,-5,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,3,3,3,3,3,3,3,3,4,4,4,4,4,5,5,5,6,6,6,6,6,6,6,6,6,6,7,7,7,7,7,7,8,8,8,8,8,8,9,9,9,9,10,10,10,10,11,11,12,12,12,12,12,13,13,13,13,13,14,14,14,15,15,15,16,16,16,17,17,17,18,18,19,19,20,20,21,21,22,23,24,24,25,26,27,28,29,30,32,33,34,36,38,40,42,45,48,51,54,59,64,66,70,74,80,86,96,99,104,112,116,122,-128,-121,-115,-109,-102,-97,-90,-82,-76,-71,-67,-64,-58,-54,-50,-46,-44,-41,-39,-37,-35,-33,-32,-30,-29,-28,-27,-26,-25,-24,-23,-22,-22,-21,-20,-20,-19,-19,-18,-18,-17,-17,-16,-16,-16,-15,-15,-14,-14,-14,-14,-13,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-11,-11,-10,-10,-10,-9,-9,-9,-9,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,3,3,3,3,3,3,3,4,4,4,4,4,5,5,5,5,5,5,5,6,6,6,6,6,6,6,6,7,7,7,7,7,7,8,8,8,8,8,9,9,9,9,10,10,10,11,11,11,11,11,11,12,12,12,12,13,13,13,13,14,14,14,14,15,15,16,16,16,17,17,18,18,19,19,20,20,21,22,22,23,24,25,26,27,28,29,30,32,33,35,37,39,41,44,46,50,54,58,64,67,71,76,82,90,97,102,109,115,121,-128,-121,-114,-106,-100,-96,-85,-77,-72,-67,-64,-58,-53,-49,-45,-42,-40,-37,-35,-33,-32,-30,-29,-27,-26,-25,-24,-23,-22,-22,-21,-20,-20,-19,-18,-18,-17,-17,-16,-16,-16,-15,-15,-14,-14,-14,-13,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-11,-10,-10,-10,-10,-10,-10,-9,-9,-9,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,3,4,4,4,4,5,5,5,5,5,5,5,5,5,5,5,6,6,6,6,6,6,6,6,7,7,7,7,7,8,8,8,8,8,9,9,9,10,10,10,10,10,10,11,11,11,11,11,12,12,12,12,13,13,13,13,14,14,14,15,15,16,16,16,17,17,18,18,19,20,20,21,22,22,23,24,25,26,27,29,30,32,33,35,37,40,42,45,49,53,58,64,67,72,77,85,96,100,106,114,121,-128,-120,-113,-104,-98,-89,-80,-73,-68,-64,-57,-52,-48,-44,-41,-38,-36,-33,-32,-30,-28,-27,-26,-25,-24,-23,-22,-21,-20,-19,-19,-18,-18,-17,-16,-16,-16,-15,-15,-14,-14,-14,-13,-13,-13,-12,-12,-12,-12,-11,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-9,-9,-9,-8,-8,-8,-8,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,3,3,3,3,3,3,4,4,4,4,4,4,4,4,4,5,5,5,5,5,5,5,5,5,6,6,6,6,6,6,6,7,7,7,7,7,8,8,8,8,9,9,9,9,9,9,9,10,10,10,10,10,11,11,11,11,12,12,12,12,13,13,13,14,14,14,15,15,16,16,16,17,18,18,19,19,20,21,22,23,24,25,26,27,28,30,32,33,36,38,41,44,48,52,57,64,68,73,80,89,98,104,113,120,-128,-120,-112,-101,-96,-83,-74,-68,-64,-56,-51,-46,-42,-39,-36,-34,-32,-30,-28,-26,-25,-24,-23,-22,-21,-20,-19,-18,-18,-17,-17,-16,-16,-15,-15,-14,-14,-13,-13,-13,-12,-12,-12,-11,-11,-11,-11,-10,-10,-10,-10,-10,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,4,4,4,4,4,4,4,4,4,4,4,4,4,5,5,5,5,5,5,5,5,5,6,6,6,6,6,6,7,7,7,7,8,8,8,8,8,8,8,8,9,9,9,9,9,10,10,10,10,10,11,11,11,11,12,12,12,13,13,13,14,14,15,15,16,16,17,17,18,18,19,20,21,22,23,24,25,26,28,30,32,34,36,39,42,46,51,56,64,68,74,83,96,101,112,120,-128,-118,-108,-98,-88,-76,-69,-64,-56,-49,-44,-40,-37,-34,-32,-29,-28,-26,-24,-23,-22,-21,-20,-19,-18,-17,-17,-16,-16,-15,-14,-14,-14,-13,-13,-12,-12,-12,-11,-11,-11,-10,-10,-10,-10,-9,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,4,4,4,4,4,5,5,5,5,5,5,5,6,6,6,6,6,7,7,7,7,7,7,7,7,8,8,8,8,8,8,8,9,9,9,9,9,10,10,10,10,11,11,11,12,12,12,13,13,14,14,14,15,16,16,17,17,18,19,20,21,22,23,24,26,28,29,32,34,37,40,44,49,56,64,69,76,88,98,108,118,-128,-116,-104,-96,-80,-70,-64,-54,-48,-42,-38,-34,-32,-29,-27,-25,-24,-22,-21,-20,-19,-18,-17,-16,-16,-15,-14,-14,-13,-13,-12,-12,-12,-11,-11,-10,-10,-10,-10,-9,-9,-9,-9,-8,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,4,4,4,5,5,5,5,5,5,6,6,6,6,6,6,6,6,6,6,7,7,7,7,7,7,8,8,8,8,8,8,9,9,9,9,10,10,10,10,11,11,12,12,12,13,13,14,14,15,16,16,17,18,19,20,21,22,24,25,27,29,32,34,38,42,48,54,64,70,80,96,104,116,-128,-114,-100,-85,-72,-64,-53,-45,-40,-35,-32,-29,-26,-24,-22,-21,-20,-18,-17,-16,-16,-15,-14,-13,-13,-12,-12,-11,-11,-11,-10,-10,-10,-9,-9,-9,-8,-8,-8,-8,-8,-7,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,4,5,5,5,5,5,5,5,5,5,5,5,6,6,6,6,6,6,6,6,7,7,7,7,7,8,8,8,8,8,9,9,9,10,10,10,11,11,11,12,12,13,13,14,15,16,16,17,18,20,21,22,24,26,29,32,35,40,45,53,64,72,85,100,114,-128,-112,-96,-74,-64,-51,-42,-36,-32,-28,-25,-23,-21,-19,-18,-17,-16,-15,-14,-13,-12,-12,-11,-11,-10,-10,-9,-9,-9,-8,-8,-8,-8,-7,-7,-7,-7,-6,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,4,4,4,4,4,4,5,5,5,5,5,5,5,5,5,6,6,6,6,6,6,7,7,7,7,8,8,8,8,9,9,9,10,10,11,11,12,12,13,14,15,16,17,18,19,21,23,25,28,32,36,42,51,64,74,96,112,-128,-104,-80,-64,-48,-38,-32,-27,-24,-21,-19,-17,-16,-14,-13,-12,-12,-11,-10,-10,-9,-9,-8,-8,-8,-7,-7,-7,-6,-6,-6,-6,-6,-5,-5,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,4,4,4,5,5,5,5,5,5,6,6,6,6,6,7,7,7,8,8,8,9,9,10,10,11,12,12,13,14,16,17,19,21,24,27,32,38,48,64,80,104,-128,-96,-64,-42,-32,-25,-21,-18,-16,-14,-12,-11,-10,-9,-9,-8,-8,-7,-7,-6,-6,-6,-5,-5,-5,-5,-4,-4,-4,-4,-4,-4,-4,-3,-3,-3,-3,-3,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,3,3,3,3,3,4,4,4,4,4,4,4,5,5,5,5,6,6,6,7,7,8,8,9,9,10,11,12,14,16,18,21,25,32,42,64,96,-128,-64,-32,-21,-16,-12,-10,-9,-8,-7,-6,-5,-5,-4,-4,-4,-4,-3,-3,-3,-3,-3,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-2,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-128,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,3,3,3,3,3,4,4,4,4,5,5,6,7,8,9,10,12,16,21,32,64,}; 
 int8_t opinv[] = {
-0,127,126,124,124,122,121,120,120,118,116,115,114,113,113,112,112,110,108,106,105,104,103,102,101,100,99,98,98,97,97,96,96,94,92,90,88,87,85,84,83,81,80,79,78,77,76,75,74,73,72,72,71,70,69,69,68,67,67,66,66,65,65,64,64,62,60,58,56,55,53,52,51,49,48,47,46,45,44,43,42,41,40,40,39,38,37,37,36,35,35,34,34,33,33,32,32,30,28,26,25,24,23,22,21,20,19,18,18,17,17,16,16,14,12,11,10,9,9,8,8,6,5,4,4,2,2,1,-128,-1,-2,-2,-4,-4,-5,-6,-8,-8,-9,-9,-10,-11,-12,-14,-16,-16,-17,-17,-18,-18,-19,-20,-21,-22,-23,-24,-25,-26,-28,-30,-32,-32,-33,-33,-34,-34,-35,-35,-36,-37,-37,-38,-39,-40,-40,-41,-42,-43,-44,-45,-46,-47,-48,-49,-51,-52,-53,-55,-56,-58,-60,-62,-64,-64,-65,-65,-66,-66,-67,-67,-68,-69,-69,-70,-71,-72,-72,-73,-74,-75,-76,-77,-78,-79,-80,-81,-83,-84,-85,-87,-88,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-106,-108,-110,-112,-112,-113,-113,-114,-115,-116,-118,-120,-120,-121,-122,-124,-124,-126,-127,}; 
+-128,127,126,124,124,122,121,120,120,118,116,115,114,113,113,112,112,110,108,106,105,104,103,102,101,100,99,98,98,97,97,96,96,94,92,90,88,87,85,84,83,81,80,79,78,77,76,75,74,73,72,72,71,70,69,69,68,67,67,66,66,65,65,64,64,62,60,58,56,55,53,52,51,49,48,47,46,45,44,43,42,41,40,40,39,38,37,37,36,35,35,34,34,33,33,32,32,30,28,26,25,24,23,22,21,20,19,18,18,17,17,16,16,14,12,11,10,9,9,8,8,6,5,4,4,2,2,1,-128,-1,-2,-2,-4,-4,-5,-6,-8,-8,-9,-9,-10,-11,-12,-14,-16,-16,-17,-17,-18,-18,-19,-20,-21,-22,-23,-24,-25,-26,-28,-30,-32,-32,-33,-33,-34,-34,-35,-35,-36,-37,-37,-38,-39,-40,-40,-41,-42,-43,-44,-45,-46,-47,-48,-49,-51,-52,-53,-55,-56,-58,-60,-62,-64,-64,-65,-65,-66,-66,-67,-67,-68,-69,-69,-70,-71,-72,-72,-73,-74,-75,-76,-77,-78,-79,-80,-81,-83,-84,-85,-87,-88,-90,-92,-94,-96,-96,-97,-97,-98,-98,-99,-100,-101,-102,-103,-104,-105,-106,-108,-110,-112,-112,-113,-113,-114,-115,-116,-118,-120,-120,-121,-122,-124,-124,-126,-127,}; 
 int8_t opsquare[] = {
 0,1,1,1,1,1,1,1,1,1,1,1,2,2,3,3,4,4,5,5,6,6,7,8,9,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,25,26,27,28,30,31,33,34,36,37,39,40,42,43,45,47,49,50,52,54,56,58,60,62,64,66,68,70,72,74,77,79,82,84,87,89,92,95,96,97,98,98,99,100,101,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,119,120,120,120,121,121,122,122,123,123,124,124,125,125,126,126,126,126,127,127,127,127,127,127,127,127,-128,127,127,127,127,127,127,127,127,126,126,126,126,125,125,124,124,123,123,122,122,121,121,120,120,120,119,117,116,115,114,113,112,111,110,109,108,107,106,105,104,103,102,101,101,100,99,98,98,97,96,95,92,89,87,84,82,79,77,74,72,70,68,66,64,62,60,58,56,54,52,50,49,47,45,43,42,40,39,37,36,34,33,31,30,28,27,26,25,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,9,8,7,6,6,5,5,4,4,3,3,2,2,1,1,1,1,1,1,1,1,1,1,1,}; 
 int8_t opexp2[] = {
-- 
2.43.0


From ccf75f4493752328653e4ba9c7f067beb303fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 29/34] fix: bitset_part cleared the low bits instead of the
 field it replaces

---
 include/bithippop.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index 8da0816..e9365c1 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -152,14 +152,14 @@ inline int findbitleftmost(uint32_t input)
 template <class T, class Y, int offset, int size>
 constexpr T bitset_part(T input, Y value)
 {
-	return (input & ~bitmask<T>(size)) | ((value & bitmask<T>(size)) << offset);
+	return (input & ~(bitmask<T>(size) << offset)) | ((value & bitmask<T>(size)) << offset);
 }
 
 template <class T, class Y>
 CONSTEXPR14 T bitset_part(T input, Y value, int offset, int size)
 {
 	auto M = bitmask<T>(size);
-	return (input & ~M) | ((value & M) << offset);
+	return (input & ~(M << offset)) | ((value & M) << offset);
 }
 
 template <class T, int offset, int size>
-- 
2.43.0


From 7b6ccc5d1113b6269c7426aa747814150eaf3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 30/34] fix: bitmask of no bits shifted by the whole width

---
 include/bithippop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bithippop.hpp b/include/bithippop.hpp
index e9365c1..ae17c48 100644
--- a/include/bithippop.hpp
+++ b/include/bithippop.hpp
@@ -64,7 +64,7 @@
 template <typename R>
 constexpr R bitmask(unsigned int const onecount)
 {
-	return static_cast<R>(-(onecount != 0)) & (static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
+	return onecount == 0 ? R(0) : static_cast<R>(static_cast<R>(-1) >> ((sizeof(R) * 8) - onecount));
 }
 
 template <typename T>
-- 
2.43.0


From 751f4e8fc3273d77dcae33e5db54182dc2b2ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 31/34] fix: simd_posit8_32 unary minus gave the absolute value

---
 include/simdposit8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index e7f3fb5..8f0bbe4 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -96,7 +96,7 @@ public:
 
 	this_t exp2() const { return this_t(lookup1(v,posit8ns::opexp2)); }
 	this_t square() const { return this_t(lookup1(v,posit8ns::opsquare)); }
-	this_t operator-() const { return this_t(_mm256_sign_epi8 (v,v)); }
+	this_t operator-() const { return this_t(_mm256_sub_epi8(_mm256_setzero_si256(),v)); }
 
 
 	friend this_t operator+(this_t a, this_t b) { return this_t(lookup2(a.uu(),b.uu(),posit8ns::opadd)); }
-- 
2.43.0


From 8aa62473372e2e748287b5fe5b1ec9e71eb61f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 32/34] fix: simd_posit8_32 converted numbers with two exponent
 bits while its tables have none

---
 include/simdposit8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index 8f0bbe4..e0d0ca0 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -18,7 +18,7 @@
 
 #ifndef POSIT8_SPEC
 #define POSIT8_SPEC
-#define POSIT8_ES 2
+#define POSIT8_ES 0
 #define POSIT8_NAN PositSpec::WithNan
 #endif
 
-- 
2.43.0


From 18f23a23f3e524ab8b4b34b75a3717fecc92a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 33/34] fix: simd_posit8_32 took the largest numbers for
 infinities

---
 include/simdposit8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simdposit8.hpp b/include/simdposit8.hpp
index e0d0ca0..fc86603 100644
--- a/include/simdposit8.hpp
+++ b/include/simdposit8.hpp
@@ -88,7 +88,7 @@ public:
 	cmpresult is_negative() const { return (_mm256_cmpgt_epi8(_mm256_set1_epi8(0),v)); }
 	cmpresult has_neg_exponent() const { return (_mm256_cmpeq_epi8(_mm256_set1_epi8(0),_mm256_and_si256 (_mm256_set1_epi8(0x40),v))); } //   (v & 0x40) == 0; }
 	cmpresult is_nan() const { return (_mm256_cmpeq_epi8(_mm256_set1_epi8(-128),v)); }
-	cmpresult is_infinity() const { return PT::withnan ? (_mm256_or_si256(  _mm256_cmpeq_epi8(_mm256_set1_epi8(-127),v), _mm256_cmpeq_epi8(_mm256_set1_epi8(127),v))) : (_mm256_cmpeq_epi8(_mm256_set1_epi8(-128),v));}
+	cmpresult is_infinity() const { return PT::positspec == PositSpec::WithNan ? _mm256_setzero_si256() : (_mm256_or_si256(_mm256_cmpeq_epi8(_mm256_set1_epi8(PT::POSIT_NINF),v), _mm256_cmpeq_epi8(_mm256_set1_epi8(PT::POSIT_PINF),v)));}
 
 	this_t inv() const { return this_t(lookup1(v,posit8ns::opinv)); }
 	this_t half() const { return *this / simd_posit8_32(2); }
-- 
2.43.0


From 13be5bd5a900c234fff2a8ccda32831a12f9bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:14 +0000
Subject: [PATCH 34/34] fix: 128 bit integer for compilers without one

---
 include/typehelpers.hpp | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/typehelpers.hpp b/include/typehelpers.hpp
index 8c2fbc0..72510b4 100644
--- a/include/typehelpers.hpp
+++ b/include/typehelpers.hpp
@@ -94,7 +94,7 @@ struct unsigned128
 
 	friend constexpr bool operator < (unsigned128 a, unsigned128 b) 
 	{
-		return a.hi < b.hi && a.lo < b.lo;
+		return a.hi < b.hi || (a.hi == b.hi && a.lo < b.lo);
 	}
 
 	friend CONSTEXPR14 unsigned128 operator - (unsigned128 a, unsigned128 b) 
@@ -118,7 +118,11 @@ struct unsigned128
 	CONSTEXPR14 unsigned128 operator << (int n) const 
 	{
 		unsigned128 r;
-		if(n >= 64)
+		if(n == 0)
+		{
+			return *this;
+		}
+		else if(n >= 64)
 		{
 			return unsigned128(lo << (n-64),0);
 		}
@@ -138,7 +142,11 @@ struct unsigned128
 	CONSTEXPR14 unsigned128 operator >> (int n) const 
 	{
 		unsigned128 r;
-		if(n >= 64)
+		if(n == 0)
+		{
+			return *this;
+		}
+		else if(n >= 64)
 		{
 			return unsigned128(0, hi >> (n-64));
 		}
@@ -155,6 +163,7 @@ struct unsigned128
 	}
 };
 #define HAS128T
+#define EMULATED128T
 
 namespace std
 {
@@ -293,7 +302,7 @@ struct nextintop
 	}
 
 };
-#ifdef _MSVC_VER
+#ifdef EMULATED128T
 
 #if 0
 // only unsigned needed
@@ -317,37 +326,35 @@ struct nextintop<int64_t>
 
 CLZCONSTEXPR inline int findbitleftmostC(unsigned128 input)
 {
-	return input.hi !=0 ? findbitleftmostC(input.hi) + 64 : findbitleftmostC(input.lo);
+	return input.hi !=0 ? findbitleftmostC(input.hi) : findbitleftmostC(input.lo) + 64;
 }
 
 template <>
 struct nextintop<uint64_t>
 {
-	static  inline typename  unsigned128 extramul(uint64_t a, uint64_t b)
+	static inline unsigned128 extramul(uint64_t a, uint64_t b)
 	{
-		unsigned128 result;
 #ifdef _MSVC_VER
+		unsigned128 result;
 		result.lo = __umul128(a,b,&result.hi);
 #else
 		// https://github.com/abseil/abseil-cpp/ modified
-		uint64_t a32 = a.lo >> 32;
-		uint64_t a00 = a.lo & 0xffffffff;
+		uint64_t a32 = a >> 32;
+		uint64_t a00 = a & 0xffffffff;
 		uint64_t b32 = b >> 32;
 		uint64_t b00 = b & 0xffffffff;
-		unsigned128 result(a.hi * b.lo + a32 * b32, a00 * b00);
-		result += unsigned128(a32 * b00) << 32;
-		result += unsigned128(a00 * b32) << 32;
+		unsigned128 result(a32 * b32, a00 * b00);
+		result = result + (unsigned128(a32 * b00) << 32);
+		result = result + (unsigned128(a00 * b32) << 32);
 #endif
 		return result;
 	}
 
-	static inline typename   unsigned128 extradiv(unsigned128 dividend, uint64_t divisor)
+	static inline unsigned128 extradiv(unsigned128 dividend, uint64_t divisor)
 	{
 		// https://github.com/abseil/abseil-cpp/blob/master/absl/numeric/int128.cc
 		// from http://stackoverflow.com/questions/5386377/division-without-using
-		if (divisor == dividend) 
-			return 1;
-		else if (dividend < divisor)
+		if (dividend < unsigned128(divisor))
 			return 0;
 		else
 		{
@@ -355,7 +362,7 @@ struct nextintop<uint64_t>
 			unsigned128 quotient = 0;
 
 			// Left aligns the MSB of the denominator and the dividend.
-			const int shift = findbitleftmostC(dividend) - findbitleftmostC(denominator);
+			const int shift = findbitleftmostC(denominator) - findbitleftmostC(dividend);
 			denominator = denominator << shift;
 
 			// Uses shift-subtract algorithm to divide dividend by denominator. The
-- 
2.43.0

