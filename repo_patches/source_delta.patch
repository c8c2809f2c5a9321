From 0d4c1695cab8a25a1aa328daffc12113d292532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 01/24] fix: double-width negation of zero tests the loaded
 limb, not the destination pointer

---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..6628703 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From 8e57b0c112c2f9ad649133d72d26a25b33c146c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 02/24] fix: portable Fp2 squaring computes a + b, not a + a

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..27447b5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -493,7 +493,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From 25f5f9bfd3a11e8054fc894c462885284a06b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 03/24] fix: keep the last coefficient of the sextic product
 below pN for the SNARK primes

---
 include/bn.h | 5 +++++
 src/zm2.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 27447b5..5288ace 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1323,7 +1323,12 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+			// z.c_.b_ + T1.b_ <= 6 p^2, which exceeds pN if p > N / 6
+#ifdef BN_SUPPORT_SNARK
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6628703..33a4750 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2253,7 +2253,12 @@ L("@@");
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+		// z.c_.b_ + T1.b_ <= 6 p^2, which exceeds pN if p > N / 6
+#ifdef BN_SUPPORT_SNARK
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From 488497fe1dc437ea779f396ed98882a11bd04b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 04/24] fix: portable subOpt1 adds pN/4 like the generated
 code, so that sums of two results stay below pN

---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..3da96c0 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -383,7 +383,7 @@ public:
 		{
 			assert(&z != &x);
 			assert(&z != &y);
-			addNC(z, x, pNTbl_[1]);
+			addNC(z, x, pNTbl_[2]);
 			subNC(z, z, y);
 		}
 
-- 
2.43.0


From bf92ce8f91a63f695320ce12ac92a8c7d32052a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 05/24] fix: Vuint::bitLen counted one bit too many when the
 top word rounds up to a power of two as a double

---
 include/zm.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 3763b45..2497d0f 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -528,11 +528,10 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		if (isZero()) return 0;
 
 		size_t size = this->size();
-		T v = (*this)[size - 1];
-		union di t;
-		t.f = (double)v;
-		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
-			(size - 1) * sizeof(T) * 8;
+		size_t ret = (size - 1) * sizeof(T) * 8;
+		for (T v = (*this)[size - 1]; v; v >>= 1) {
+			ret++;
+		}
 		return ret;
 	}
 
-- 
2.43.0


From 369d24f4f63b911ba532c9de1141caaac41ca5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 06/24] fix: Vuint::testBit read stale words beyond the size of
 the number

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 2497d0f..5449fd2 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -540,7 +540,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		size_t unit_pos = i / (sizeof(T) * 8);
 		size_t bit_pos  = i % (sizeof(T) * 8);
 		T mask = T(1) << bit_pos;
-		return ((*this)[unit_pos] & mask) != 0;
+		return (getAtWithCheck(unit_pos) & mask) != 0;
 	}
 
 	static bool add_in(VuintT& out, const VuintT& x, const VuintT& y)
-- 
2.43.0


From bc970f14657cdc2ea9eb29bbca8a16aeb3e3eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 07/24] fix: Vsint printed a zero with a minus sign after
 operations with negative operands

---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 5449fd2..dbb03dc 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -998,7 +998,7 @@ public:
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
 	std::string toString(int base = 10) const
 	{
-		if (isNeg_) return "-" + v_.toString(base);
+		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
 	void set(const std::string& str, int base = 10)
@@ -1111,7 +1111,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
+		if (x.isNegative()) os << "-";
 		return os << x.v_;
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
-- 
2.43.0


From 410a1ecbd86405124481e368940b852dddd43167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 08/24] fix: Vsint::set of an unsigned value kept the sign the
 object had before

---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index dbb03dc..1e5b112 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -981,6 +981,7 @@ public:
 	void set(value_type x)
 	{
 		v_.set(x);
+		isNeg_ = false;
 	}
 	void set(int64_t x)
 	{
@@ -992,7 +993,7 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); isNeg_ = false; }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
-- 
2.43.0


From c61fcfb32ec6d00735e2edb643f90310fcd504b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 09/24] fix: Vsint(INT_MIN) had a wrong magnitude

---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 1e5b112..1c3e1b3 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -965,7 +965,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? -(value_type)x : (value_type)x)
 		, isNeg_(x < 0)
 	{
 	}
@@ -986,7 +986,7 @@ public:
 	void set(int64_t x)
 	{
 		isNeg_ = x < 0;
-		v_.set(isNeg_ ? -x : x);
+		v_.set(isNeg_ ? -(value_type)x : (value_type)x);
 	}
 	void set(const V& x)
 	{
-- 
2.43.0


From 3b85937a44068aed4d57cbed2b330f2a84ebf7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:19 +0000
Subject: [PATCH 10/24] fix: ZmZ::set(int) left a value not smaller than the
 modulus unreduced

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 1c3e1b3..751e3ae 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1201,6 +1201,7 @@ public:
 			v_.clear();
 		} else if (x > 0) {
 			v_.set(x);
+			modulo();
 		} else {
 			if (x == -2147483647 - 1 || m_ < -x) {
 				local::errExit("x is too small");
-- 
2.43.0


From f6e01c13b3f4de4b9a91cf5c34cfa3a0db9bd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 11/24] fix: Vuint::set(str) accepted signs, spaces and
 prefixes inside a number, text after a NUL and the empty string

---
 include/zm.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 751e3ae..4d10bc3 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -467,6 +467,13 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 			base = 10;
 		}
 		if (t.empty()) t = str;
+		if (t.empty()) goto ERR;
+		for (size_t i = 0; i < t.size(); i++) {
+			const char c = t[i];
+			if ('0' <= c && c <= '9') continue;
+			if (base == 16 && (('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'))) continue;
+			goto ERR;
+		}
 
 		switch (base) {
 		case 16:
@@ -1007,7 +1014,7 @@ public:
 		isNeg_ = false;
 		if (str.size() > 0 && str[0] == '-') {
 			isNeg_ = true;
-			v_.set(&str[1], base);
+			v_.set(str.substr(1), base);
 		} else {
 			v_.set(str, base);
 		}
-- 
2.43.0


From 67160425ccca4f37544bc1e0ffc202506427d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 12/24] fix: Vsint could not read back its own hexadecimal form

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 4d10bc3..9c3b5fe 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1009,7 +1009,7 @@ public:
 		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
-	void set(const std::string& str, int base = 10)
+	void set(const std::string& str, int base = 0)
 	{
 		isNeg_ = false;
 		if (str.size() > 0 && str[0] == '-') {
-- 
2.43.0


From a800305d3218bd144bbddd1f46e891b4670a95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 13/24] fix: reading numbers from a stream: no failure after
 the last value, failure when there is no number, negative hexadecimal

---
 include/zm.h  | 13 ++++++++-----
 include/zm2.h |  3 +--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 9c3b5fe..0cf95ed 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -88,7 +88,7 @@ inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNeg
 	char c;
 	while (is >> c) {
 		if (('0' <= c && c <= '9') /* digits */
-		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
+		  || ((pos == 1 || (pos == 2 && str[0] == '-')) && (str[pos - 1] == '0' && c == 'x')) /* 0x.. */
 		  || ('a' <= c && c <= 'f') /* lowercase hex */
 		  || ('A' <= c && c <= 'F') /* uppercase hex */
 		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
@@ -103,6 +103,11 @@ inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNeg
 		}
 	}
 	is.flags(keep);
+	if (pos == 0) {
+		is.setstate(std::ios_base::failbit);
+	} else if (is.eof()) {
+		is.clear(is.rdstate() & ~std::ios_base::failbit);
+	}
 	return is;
 }
 
@@ -738,8 +743,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	inline friend std::istream& operator>>(std::istream& is, VuintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str);
-		x.set(str);
+		if (local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 
@@ -1125,8 +1129,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str, true);
-		x.set(str);
+		if (local::getDigits(is, str, true)) x.set(str);
 		return is;
 	}
 	static inline void shl(VsintT& out, const VsintT& x, size_t n)
diff --git a/include/zm2.h b/include/zm2.h
index 3da96c0..23b49b8 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -120,8 +120,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, Fp& x)
 	{
 		std::string str;
-		mie::local::getDigits(is, str);
-		x.set(str);
+		if (mie::local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 	MIE_FORCE_INLINE bool isZero() const
-- 
2.43.0


From b86c02898cf937719abf59700a7eb821d9b81b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 14/24] fix: readers of extension field elements looked at
 uninitialised characters on truncated text, that of points ignored text after
 a NUL

---
 include/bn.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 5288ace..4d9fb83 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -528,7 +528,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	}
 	friend std::istream& operator>>(std::istream& is, Fp2T& x)
 	{
-		char cl, cm, cr;
+		char cl = 0, cm = 0, cr = 0;
 		is >> cl >> x.a_ >> cm >> x.b_ >> cr;
 		if (cl == '[' && cm == ',' && cr == ']') return is;
 		throw std::ios_base::failure("bad Fp2");
@@ -973,7 +973,7 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 	}
 	friend std::istream& operator>>(std::istream& is, Fp6T& x)
 	{
-		char c1, c2, c3, c4;
+		char c1 = 0, c2 = 0, c3 = 0, c4 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3 >> x.c_ >> c4;
 		if (c1 == '[' && c2 == ',' && c3 == ',' && c4 == ']') return is;
 		throw std::ios_base::failure("bad Fp6");
@@ -1429,7 +1429,7 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 	}
 	friend std::istream& operator>>(std::istream& is, Fp12T& x)
 	{
-		char c1, c2, c3;
+		char c1 = 0, c2 = 0, c3 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3;
 		if (c1 == '[' && c2 == ',' && c3 == ']') return is;
 		throw std::ios_base::failure("bad Fp12");
@@ -2938,9 +2938,8 @@ public:
 			if (pos == std::string::npos) {
 				throw std::runtime_error("operator>>:bad format");
 			}
-			str[pos] = '\0';
-			self.p[0].set(&str[0]);
-			self.p[1].set(&str[pos + 1]);
+			self.p[0].set(str.substr(0, pos));
+			self.p[1].set(str.substr(pos + 1));
 		}
 		return is;
 	}
-- 
2.43.0


From 634cb6d4ef79433bab98c6a9dc394a456e2add28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:44 +0000
Subject: [PATCH 15/24] fix: Fp(INT_MIN) was not the negative of 2^31

---
 include/zm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 23b49b8..a7990b7 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = -(Unit)x;
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From c7c8fa724742f4ee1498e4bbe5c777c0ff817de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 16/24] fix: Vuint::sub of a number with more words read and
 wrote past the end instead of being refused

---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 0cf95ed..1cefed8 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -607,7 +607,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 	static void sub(VuintT& out, const VuintT& x, const VuintT& y)
 	{
-		bool c = sub_in(out, x, y);
+		bool c = x.size() < y.size() || sub_in(out, x, y);
 		if (c) {
 			local::errExit("can't sub");
 		}
-- 
2.43.0


From 33b958f0d655774193dba83cf1592d3b47df43c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 17/24] fix: Fp2::set(str) and the reader of twist points
 ignored text after the element

---
 include/bn.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 4d9fb83..82c0213 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -543,6 +543,8 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	{
 		std::istringstream iss(str);
 		iss >> *this;
+		char c;
+		if (iss >> c) throw std::ios_base::failure("bad Fp2");
 	}
 
 	// z = x * b
-- 
2.43.0


From 1cef0aef354eed03eb73d14669f8ce71f54e04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 18/24] fix: after switching from CurveSNARK2 to CurveSNARK1
 the generated doubling step kept the twist constant of CurveSNARK2

---
 src/zm2.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 33a4750..4406b58 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3076,16 +3076,21 @@ L("@@");
 
 #ifdef BN_SUPPORT_SNARK
 		// (a + bu) * binv_xi
-		if (ParamT<Fp2>::b == 82) {
-			// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
-			in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
-			in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
-		} else {
-			lea(gp1, ptr [t2]);
-			lea(gp2, ptr [t0]);
-			mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
-			call(p_Fp2_mul);
-		}
+		// the curve may change after the code is generated
+		Label lpGeneral, lpEnd;
+		mov(gp1, (size_t)&ParamT<Fp2>::b);
+		cmp(dword [gp1], 82);
+		jne(lpGeneral, T_NEAR);
+		// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
+		in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
+		in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
+		jmp(lpEnd, T_NEAR);
+	L(lpGeneral);
+		lea(gp1, ptr [t2]);
+		lea(gp2, ptr [t0]);
+		mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
+		call(p_Fp2_mul);
+	L(lpEnd);
 #else
 		// Fp::add(t2.a_, t0.a_, t0.b_);
 		in_Fp_add(t2.a_, t0.a_, t0.b_);
-- 
2.43.0


From e10dea7c8c7248048dac42ccdeac0c3bbf75128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 19/24] fix: binding Mpz accepted text that is no number, and a
 remainder by zero killed the process

---
 java/bn254_if.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 3bfad73..9aa544d 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -39,7 +39,7 @@ public:
 	void set(int x) throw(std::exception) { self_ = x; }
 	void set(const std::string& str) throw(std::exception)
 	{
-		self_.set_str(str, 0);
+		if (self_.set_str(str, 0) != 0) throw std::invalid_argument("Mpz:bad format");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -50,7 +50,11 @@ public:
 	void add(const Mpz& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Mpz& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Mpz& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void mod(const Mpz& rhs) throw(std::exception) { self_ %= rhs.self_; }
+	void mod(const Mpz& rhs) throw(std::exception)
+	{
+		if (rhs.self_ == 0) throw std::invalid_argument("Mpz:mod by zero");
+		self_ %= rhs.self_;
+	}
 };
 
 class Fp {
-- 
2.43.0


From 7e68ed729a40e3832faf3817d27b30cf8322f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 20/24] fix: binding powers and multiples by a negative integer
 crashed

---
 java/bn254_if.hpp | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 9aa544d..058ad89 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -21,6 +21,34 @@ class Fp12;
 class Ec1;
 class Ec2;
 
+namespace bn254_local {
+
+// y = y^x ; a power of the inverse if x < 0
+template<class T>
+void power(T& y, const mpz_class& x)
+{
+	if (x < 0) {
+		if (y.isZero()) throw std::invalid_argument("power:zero to a negative power");
+		y.inverse();
+		y = mie::power(y, mpz_class(-x));
+	} else {
+		y = mie::power(y, x);
+	}
+}
+// P = P * x ; a multiple of -P if x < 0
+template<class T>
+void mul(T& P, const mpz_class& x)
+{
+	if (x < 0) {
+		T::neg(P, P);
+		T::mul(P, P, mpz_class(-x));
+	} else {
+		T::mul(P, P, x);
+	}
+}
+
+} // bn254_local
+
 class Mpz {
 	mpz_class self_;
 	friend class Fp;
@@ -82,9 +110,9 @@ public:
 	void add(const Fp& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Fp& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
-		self_ = mie::power(self_, x.self_);
+		bn254_local::power(self_, x.self_);
 	}
 };
 
@@ -118,9 +146,9 @@ public:
 	void add(const Fp2& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Fp2& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp2& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
-		self_ = mie::power(self_, x.self_);
+		bn254_local::power(self_, x.self_);
 	}
 };
 
@@ -146,9 +174,9 @@ public:
 	void sub(const Fp12& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp12& rhs) throw(std::exception) { self_ *= rhs.self_; }
 	void pairing(const Ec2& ec2, const Ec1& ec1);
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
-		self_ = mie::power(self_, x.self_);
+		bn254_local::power(self_, x.self_);
 	}
 };
 
@@ -193,7 +221,7 @@ public:
 	void neg() { ::bn::Ec1::neg(self_, self_); }
 	void add(const Ec1& rhs) { ::bn::Ec1::add(self_, self_, rhs.self_); }
 	void sub(const Ec1& rhs) { ::bn::Ec1::sub(self_, self_, rhs.self_); }
-	void mul(const Mpz& rhs) { ::bn::Ec1::mul(self_, self_, rhs.self_); }
+	void mul(const Mpz& rhs) { bn254_local::mul(self_, rhs.self_); }
 	Fp& getX() { return *reinterpret_cast<Fp*>(&self_.p[0]); }
 	Fp& getY() { return *reinterpret_cast<Fp*>(&self_.p[1]); }
 	Fp& getZ() { return *reinterpret_cast<Fp*>(&self_.p[2]); }
@@ -240,7 +268,7 @@ public:
 	void neg() { ::bn::Ec2::neg(self_, self_); }
 	void add(const Ec2& rhs) { ::bn::Ec2::add(self_, self_, rhs.self_); }
 	void sub(const Ec2& rhs) { ::bn::Ec2::sub(self_, self_, rhs.self_); }
-	void mul(const Mpz& rhs) { ::bn::Ec2::mul(self_, self_, rhs.self_); }
+	void mul(const Mpz& rhs) { bn254_local::mul(self_, rhs.self_); }
 	Fp2& getX() { return *reinterpret_cast<Fp2*>(&self_.p[0]); }
 	Fp2& getY() { return *reinterpret_cast<Fp2*>(&self_.p[1]); }
 	Fp2& getZ() { return *reinterpret_cast<Fp2*>(&self_.p[2]); }
-- 
2.43.0


From dc450f04e16df13ff41faecc7935a8de2fc2d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 21/24] fix: binding set(string) of Fp12 and points ignored
 text after the value, and points off the curve were accepted

---
 java/bn254_if.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 058ad89..d4d61e0 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -162,6 +162,8 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("Fp12:bad format");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -207,6 +209,9 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("Ec1:bad format");
+		if (!self_.isValid()) throw std::invalid_argument("Ec1:not on the curve");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -254,6 +259,9 @@ public:
 	{
 		std::istringstream iss(str);
 		iss >> self_;
+		char c;
+		if (iss >> c) throw std::invalid_argument("Ec2:bad format");
+		if (!self_.isValid()) throw std::invalid_argument("Ec2:not on the curve");
 	}
 	std::string toString() const throw(std::exception)
 	{
-- 
2.43.0


From c0faaf4d93b6140ca40ad065804d581be6f143e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 22/24] fix: binding Ec2() was left uninitialised, unlike Ec1()

---
 java/bn254_if.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index d4d61e0..b4e06ff 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -236,7 +236,7 @@ class Ec2 {
 	::bn::Ec2 self_;
 	friend class Fp12;
 public:
-	Ec2() {}
+	Ec2() { self_.clear(); }
 	Ec2(const Ec2& x) : self_(x.self_) {}
 	Ec2(const Fp2& x, const Fp2& y) throw(std::exception)
 	{
-- 
2.43.0


From c78c83170c88a03a5099a9a27268b842a920ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 23/24] fix: the portable Fp subtraction subtracted p in place
 of the second operand

---
 src/zm2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 4406b58..dc7e516 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -92,7 +92,7 @@ static inline void Fp_subC(Fp& out, const Fp& x, const Fp& y)
 	if (a < b) {
 		a = a + p - b;
 	} else {
-		a -= p;
+		a -= b;
 	}
 	Fp::setDirect(out, a);
 }
-- 
2.43.0


From b311313a1c01604972f8e39772fc2d5c66fc96bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:38 +0000
Subject: [PATCH 24/24] fix: Vsint::set(int64_t) kept only the low 32 bits
 where a word has 32 bits

---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 1cefed8..a239eda 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -997,7 +997,8 @@ public:
 	void set(int64_t x)
 	{
 		isNeg_ = x < 0;
-		v_.set(isNeg_ ? -(value_type)x : (value_type)x);
+		const uint64_t u = isNeg_ ? -(uint64_t)x : (uint64_t)x; // value_type may have only 32 bits
+		v_.set(&u, 1);
 	}
 	void set(const V& x)
 	{
-- 
2.43.0

