From a2120c7825f5ae055bfbcd48c82aa0778d51c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 01/37] fix: Z2k::Read reads exactly ByteSize() bytes

---
 secure-computation-library/include/scl/math/z2k/details.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..68571fd 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,10 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  // only (K - 1) / 8 + 1 bytes belong to the element, and they might not be
+  // aligned for a T.
+  v = 0;
+  std::memcpy((unsigned char*)&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
-- 
2.43.0


From 91468e4ee3348a878db57116bcb06912d46b3457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 02/37] fix: Hash::Update absorbs all eight bytes of a word

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From d6a83a8177c6c7ef1e829c24918a84eb71f49b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 03/37] fix: decoding an empty base64 string reads before the
 string

---
 secure-computation-library/include/scl/math/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/str.h b/secure-computation-library/include/scl/math/str.h
index 032ebb2..a014aee 100644
--- a/secure-computation-library/include/scl/math/str.h
+++ b/secure-computation-library/include/scl/math/str.h
@@ -156,7 +156,7 @@ void FromStringBase64(T& t, const std::string& s) {
 
   t = 0;
   std::size_t i = 0;
-  bool has_padding = s[n - 1] == '=';
+  bool has_padding = n > 0 && s[n - 1] == '=';
   auto m = n - (has_padding ? 4 : 0);
 
   while (i < m) {
-- 
2.43.0


From ed02da1d2eb0097c31bf9513dc9529cf3e60a6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 04/37] fix: reading a field element from an unaligned buffer

---
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 2 +-
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index ba81252..8bf12db 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -67,7 +67,7 @@ void _::Multiply(u128 &t, const u128 &v) {
 std::string _::ToString(const u128 &v) { return scl::details::ToString(v); }
 
 void _::FromBytes(u128 &dest, const unsigned char *src) {
-  dest = *(const u128 *)src;
+  std::memcpy(&dest, src, sizeof(u128));
   dest = dest % p;
 }
 
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index e5a3c95..545c0ff 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -46,7 +46,7 @@ void _::Multiply(u64& t, const u64& v) {
 std::string _::ToString(const u64& v) { return scl::details::ToString(v); }
 
 void _::FromBytes(u64& dest, const unsigned char* src) {
-  dest = *(const u64*)src;
+  std::memcpy(&dest, src, sizeof(u64));
   dest = dest % p;
 }
 
-- 
2.43.0


From 6a82367f5aba39c704ba2ce61d6333650e37bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 05/37] fix: reduce field elements parsed from strings

---
 secure-computation-library/src/scl/math/fields/mersenne127.cc | 1 +
 secure-computation-library/src/scl/math/fields/mersenne61.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/secure-computation-library/src/scl/math/fields/mersenne127.cc b/secure-computation-library/src/scl/math/fields/mersenne127.cc
index 8bf12db..6705fcd 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne127.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne127.cc
@@ -28,6 +28,7 @@ void _::Invert(u128 &t) {
 void _::FromString(u128 &dest, const std::string &str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 struct u256 {
diff --git a/secure-computation-library/src/scl/math/fields/mersenne61.cc b/secure-computation-library/src/scl/math/fields/mersenne61.cc
index 545c0ff..760cdba 100644
--- a/secure-computation-library/src/scl/math/fields/mersenne61.cc
+++ b/secure-computation-library/src/scl/math/fields/mersenne61.cc
@@ -29,6 +29,7 @@ void _::Invert(u64& t) {
 void _::FromString(u64& dest, const std::string& str,
                    enum scl::NumberBase base) {
   FromStringSimpleType(dest, str, base);
+  dest = dest % p;
 }
 
 void _::Multiply(u64& t, const u64& v) {
-- 
2.43.0


From aece0c0755f3a670c1655686a16b2415736f7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 06/37] fix: SolveLinearSystem on systems that are not square

---
 .../include/scl/math/la.h                       | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/secure-computation-library/include/scl/math/la.h b/secure-computation-library/include/scl/math/la.h
index fceb288..28c8df5 100644
--- a/secure-computation-library/include/scl/math/la.h
+++ b/secure-computation-library/include/scl/math/la.h
@@ -168,9 +168,9 @@ Vec<T> ExtractSolution(const Mat<T>& A) {
 
   Vec<T> x(m - 1);
   auto i = FindFirstNonZeroRow(A);
-  // we remove (n - i) rows, which means setting the corresponding variables to
+  // we only use (i + 1) rows, which means setting the variables beyond those to
   // 0.
-  int c = m - 2 - (n - i - 1);
+  int c = m - 2 - ((m - 1) - i - 1);
   for (; c >= 0; c--) {
     const auto p = GetPivotInColumn(A, c);
     if (p == -1) {
@@ -178,7 +178,7 @@ Vec<T> ExtractSolution(const Mat<T>& A) {
       x[c] = T{1};
     } else {
       T sum;
-      for (std::size_t j = p + 1; j < n; ++j) sum += A(i, j) * x[j];
+      for (std::size_t j = p + 1; j < m - 1; ++j) sum += A(i, j) * x[j];
       x[c] = A(i, m - 1) - sum;
       i--;
     }
@@ -202,6 +202,7 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
   auto n = A.Rows();
   auto m = A.Cols();
   T zero;
+  std::size_t rank = 0;
   for (std::size_t i = 0; i < n; ++i) {
     bool all_zero = true;
     for (std::size_t j = 0; j < m - 1; ++j) {
@@ -210,13 +211,11 @@ bool HasSolution(const Mat<T>& A, bool unique_only) {
     // No solution is the case when Rank(A) != Rank(A') where A' is A without
     // the last column (the augmentation). I.e., when row(A', i) == 0, but
     // row(A, i) != 0.
-    if (unique_only) {
-      if (all_zero) return false;
-    } else {
-      if (all_zero && A(i, m - 1) != zero) return false;
-    }
+    if (all_zero && A(i, m - 1) != zero) return false;
+    if (!all_zero) rank++;
   }
-  return true;
+  // A consistent system has a unique solution when every variable has a pivot.
+  return !unique_only || rank == m - 1;
 }
 
 /**
-- 
2.43.0


From 9119f170123416430ce6f1976f26d8b949fe8561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 07/37] fix: ReconstructShamir checks every provided share

---
 secure-computation-library/include/scl/ss/shamir.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index 27ca41e..8ab48f9 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -192,7 +192,7 @@ T ReconstructShamir(const Vec<T>& shares, const Vec<T>& alphas, const T& pos,
     throw std::invalid_argument(
         "not enough alphas to reconstruct with error detection");
 
-  for (std::size_t k = t + 1; k < 2 * t + 1; ++k) {
+  for (std::size_t k = t + 1; k < shares.Size() && k < alphas.Size(); ++k) {
     auto s = InterpolateAt(shares, alphas, t + 1, alphas[k], 0);
     if (s != shares[k])
       throw std::logic_error("error detected during reconstruction");
-- 
2.43.0


From aaff7dae7d8929579b6b7f4d3d4d393cb3219c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 08/37] fix: ReconstructShamirRobust rejects polynomials of too
 high degree

---
 secure-computation-library/include/scl/ss/shamir.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/shamir.h b/secure-computation-library/include/scl/ss/shamir.h
index 8ab48f9..846e40f 100644
--- a/secure-computation-library/include/scl/ss/shamir.h
+++ b/secure-computation-library/include/scl/ss/shamir.h
@@ -253,7 +253,7 @@ std::array<details::Polynomial<T>, 2> ReconstructShamirRobust(
   auto E = details::Polynomial<T>::Create(cE);
   auto Q = details::Polynomial<T>::Create(Vec<T>{x.begin() + e, x.end()});
   auto qr = Q.Divide(E);
-  if (qr[1].IsZero()) return {qr[0], E};
+  if (qr[1].IsZero() && qr[0].Degree() <= t) return {qr[0], E};
 
   throw std::logic_error("could not correct shares");
 }
-- 
2.43.0


From 66559b6b6b683ead0f08c3dc8e0733e7c6fb125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 09/37] fix: EvPolyFromSecretsAndDegree rejects more secrets
 than points

---
 secure-computation-library/include/scl/ss/packed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..71899dc 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,8 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (secrets.Size() > degree + 1)
+	throw std::invalid_argument("number of secrets is larger than degree + 1");
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From 92b2130f2dda907672cfa46f33e14d719607fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 10/37] fix: EvPolynomial::IsZero recognises the zero
 polynomial of any degree

---
 secure-computation-library/include/scl/ss/evpoly.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/ss/evpoly.h b/secure-computation-library/include/scl/ss/evpoly.h
index bee2483..0fb56f4 100644
--- a/secure-computation-library/include/scl/ss/evpoly.h
+++ b/secure-computation-library/include/scl/ss/evpoly.h
@@ -147,7 +147,12 @@ namespace scl {
       /**
        * @brief Returns true if this is the 0 polynomial.
        */
-      bool IsZero() const { return Degree() == 0 && mY[0] == T(0); };
+      bool IsZero() const {
+	for (const auto& y : mY) {
+	  if (y != T(0)) return false;
+	}
+	return true;
+      };
 
       /**
        * @brief Degree of this polynomial.
-- 
2.43.0


From 0e3d9bdc913c3da7e0a0e62c64914f56df41386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 11/37] fix: OutputGate::GetIndvShrLambda returns the
 individual share

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From 0b2f20de588068d5728eb921cdc0afb2b2bfbc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 12/37] fix: padding gates have the zero individual share

---
 src/tp/mult_gate.h   | 1 +
 src/tp/output_gate.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..e9d5f8a 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -69,6 +69,7 @@ namespace tp {
 
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
+    FF GetIndvShrLambda() override { return FF(0); }
 
     // Just a technicality needed to make the parents of this gate be
     // itself when instantiated
diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index b6be1a8..6231f4f 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -126,6 +126,7 @@ namespace tp {
 
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
+    FF GetIndvShrLambda() override { return FF(0); }
 
     void UpdateParent(std::shared_ptr<Gate> left) {
       mLeft = left;
-- 
2.43.0


From cd8a085db0dca193d77afb021e014881cc14a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 13/37] fix: MultBatch::PrepFromDummyLambdas uses the party's
 own share

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index e9d5f8a..262ae20 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -128,13 +128,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From 4ab4e1e0a062ca413016524bebc2b1506a8edc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 14/37] fix: input and output batches get their own zero
 sharings

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..ed05dcf 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From cab01c12aca091cac1eee351e0736a5c495c797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 15/37] fix: DN07 with more than 2t+1 parties

---
 src/tp/dn07.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/tp/dn07.cc b/src/tp/dn07.cc
index a767271..dddac28 100644
--- a/src/tp/dn07.cc
+++ b/src/tp/dn07.cc
@@ -142,7 +142,7 @@ namespace tp {
   }
 
   void DN07::FDMultPartiesSendP1() {
-    if (mCircuit.mID >= mThreshold+1) {
+    if (mCircuit.mID >= mParties-mThreshold) {
     // The last t parties set their shares of the input gates
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
@@ -172,7 +172,7 @@ namespace tp {
 	if (mCircuit.mID == 0) {
 	  Vec shares_from_last;
 	  shares_from_last.Reserve(mThreshold);
-	  for (std::size_t i = mThreshold+1; i < mParties; ++i) {
+	  for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
 	    FF shr;
 	    mCircuit.mNetwork->Party(i)->Recv(shr);
 	    shares_from_last.Emplace(shr);
@@ -228,10 +228,10 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(shares_to_send[i]);
 	}
       }
@@ -239,8 +239,8 @@ namespace tp {
   }
 
   void DN07::InputPartiesReceive() {
-    // Only first t+1 need to receive and set this
-    if (mCircuit.mID < mThreshold+1) {
+    // Only first n-t need to receive and set this
+    if (mCircuit.mID < mParties-mThreshold) {
       for (std::size_t owner_id = 0; owner_id < mCircuit.mClients; owner_id++) {
 	for (auto input_gate : mCircuit.mFlatInputGates[owner_id]) {
 	  FF share_of_masked;
@@ -258,7 +258,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesSendP1(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	// Send masked shares to P1
 	FF shr = mult_gate->GetLeft()->GetDn07Share() * mult_gate->GetRight()->GetDn07Share() \
@@ -274,7 +274,7 @@ namespace tp {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 	Vec shares;
 	shares.Reserve(mParties);
-	for (std::size_t i = 0; i < mThreshold+1; ++i) {
+	for (std::size_t i = 0; i < mParties-mThreshold; ++i) {
 	  FF shr;
 	  mCircuit.mNetwork->Party(i)->Recv(shr);
 	  shares.Emplace(shr);
@@ -284,8 +284,8 @@ namespace tp {
 	Vec shares_from_last = mMapP1SharesFromLast.front();
 	mMapP1SharesFromLast.pop();
 
-	for (std::size_t i = mThreshold+1; i < mParties; ++i) {
-	  shares.Emplace(shares_from_last[i-(mThreshold+1)]);
+	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) {
+	  shares.Emplace(shares_from_last[i-(mParties-mThreshold)]);
 	}
 
 	FF secret = scl::details::SecretFromShares(shares);
@@ -306,8 +306,8 @@ namespace tp {
 	for (std::size_t i = mParties-mThreshold; i < mParties; ++i) x_points.Emplace(FF(i+1));
 	// Interpolate polynomial
 	auto poly = scl::details::EvPolynomial<FF>(x_points, y_points);
-	// Compute remaining shares (only t+1 are needed)
-	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mThreshold+1);
+	// Compute remaining shares (only n-t are needed)
+	auto shares_to_send = scl::details::SharesFromEvPoly(poly, mParties-mThreshold);
 	mP1SharesToSend.push(shares_to_send);
       }
     }
@@ -315,7 +315,7 @@ namespace tp {
   void DN07::MultP1SendsParties(std::size_t layer) {
     if (mCircuit.mID == 0) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
-	for ( std::size_t i = 0; i < mThreshold+1; i++ ) {
+	for ( std::size_t i = 0; i < mParties-mThreshold; i++ ) {
 	  mCircuit.mNetwork->Party(i)->Send(mP1SharesToSend.front()[i]);
 	}
 	mP1SharesToSend.pop();
@@ -324,7 +324,7 @@ namespace tp {
   }
 
   void DN07::MultPartiesReceive(std::size_t layer) {
-    if (mCircuit.mID < mThreshold+1) {
+    if (mCircuit.mID < mParties-mThreshold) {
       for (auto mult_gate : mCircuit.mFlatMultLayers[layer]) {
 
 	FF masked;
-- 
2.43.0


From 1ee8f848ee0ce0da1a021dc4bc68f50b84051e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 16/37] fix: Circuit::FromConfig rejects empty shapes instead
 of crashing

---
 src/tp/circuits/generic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp/circuits/generic.cc b/src/tp/circuits/generic.cc
index c688757..cff5cec 100644
--- a/src/tp/circuits/generic.cc
+++ b/src/tp/circuits/generic.cc
@@ -9,6 +9,8 @@ namespace tp {
       throw std::invalid_argument("The number of parties does not coincide with the length of the input vector");
     if ( config.n_parties != config.out_gates.size() )
       throw std::invalid_argument("The number of parties does not coincide with the length of the output vector");
+    if ( n_inputs == 0 || config.width == 0 || config.depth == 0 )
+      throw std::invalid_argument("The number of inputs, the width and the depth must be positive");
     if ( config.width % n_inputs != 0 )
       throw std::invalid_argument("Total number of inputs does not divide width");
     if ( n_inputs % 2 != 0 )
-- 
2.43.0


From 73e44d37f177f058337f9357f9ccc19615947e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 17/37] fix: cleartext evaluation of padded batches

---
 src/tp/input_gate.h  | 1 +
 src/tp/mult_gate.h   | 1 +
 src/tp/output_gate.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/tp/input_gate.h b/src/tp/input_gate.h
index 9bb1042..6fc54fc 100644
--- a/src/tp/input_gate.h
+++ b/src/tp/input_gate.h
@@ -117,6 +117,7 @@ namespace tp {
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
     FF GetIndvShrLambda() override { return FF(0); }
+    FF GetClear() override { return FF(0); }
 
   private:
   };
diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 262ae20..aab17ff 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -70,6 +70,7 @@ namespace tp {
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
     FF GetIndvShrLambda() override { return FF(0); }
+    FF GetClear() override { return FF(0); }
 
     // Just a technicality needed to make the parents of this gate be
     // itself when instantiated
diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index 6231f4f..4230847 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -127,6 +127,7 @@ namespace tp {
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
     FF GetIndvShrLambda() override { return FF(0); }
+    FF GetClear() override { return FF(0); }
 
     void UpdateParent(std::shared_ptr<Gate> left) {
       mLeft = left;
-- 
2.43.0


From 408fb2a39f22eab6aa4fa135f0b68812d7f5ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 18/37] fix: evaluating a circuit in the clear again with other
 inputs

---
 src/tp/circuits.h            | 3 +++
 src/tp/circuits/cleartext.cc | 9 +++++++++
 src/tp/gate.h                | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/tp/circuits.h b/src/tp/circuits.h
index c7cdc35..e995407 100644
--- a/src/tp/circuits.h
+++ b/src/tp/circuits.h
@@ -117,6 +117,9 @@ namespace tp {
     // if there are enough inputs. This may segfault
     void SetClearInputsFlat(std::vector<FF> inputs);
 
+    // Forgets the values of a previous evaluation in the clear
+    void ResetClear();
+
     // Returns a vector of vectors with the outputs of each client
     std::vector<std::vector<FF>> GetClearOutputs();
 
diff --git a/src/tp/circuits/cleartext.cc b/src/tp/circuits/cleartext.cc
index e0b48a5..7707913 100644
--- a/src/tp/circuits/cleartext.cc
+++ b/src/tp/circuits/cleartext.cc
@@ -1,10 +1,18 @@
 #include "tp/circuits.h"
 
 namespace tp {
+  void Circuit::ResetClear() {
+    for (auto add_gate : mAddGates) add_gate->ResetClear();
+    for (auto mult_layer : mFlatMultLayers)
+      for (auto mult_gate : mult_layer) mult_gate->ResetClear();
+    for (auto output_gate : mOutputGates) output_gate->ResetClear();
+  }
+
   void Circuit::SetClearInputs(std::vector<std::vector<FF>> inputs_per_client) {
     if ( inputs_per_client.size() != mClients )
       throw std::invalid_argument("Number of clients do not match");
 
+    ResetClear();
     for (std::size_t i = 0; i < mClients; i++) {
       if ( inputs_per_client[i].size() != mFlatInputGates[i].size() )
 	throw std::invalid_argument("Number of inputs provided for a client does not match its number of input gates");
@@ -15,6 +23,7 @@ namespace tp {
   
   void Circuit::SetClearInputsFlat(std::vector<FF> inputs) {
     std::size_t idx(0);
+    ResetClear();
     for (std::size_t i = 0; i < mClients; i++) {
       for (auto input_gate : mFlatInputGates[i]) {
 	input_gate->ClearInput(inputs[idx]);
diff --git a/src/tp/gate.h b/src/tp/gate.h
index 7dc3d41..449e6a1 100644
--- a/src/tp/gate.h
+++ b/src/tp/gate.h
@@ -24,6 +24,9 @@ namespace tp {
     // For cleartext evaluation
     bool IsEvaluated() { return mEvaluated; }
 
+    // Forgets the value of this gate, so that it gets evaluated again
+    void ResetClear() { mEvaluated = false; }
+
     // For testing purposes. Sets mu to the given value
     void _SetDummyMu(FF mu) {
       mMu = mu;
-- 
2.43.0


From 75612b16d7c97db5889fcc63e0cf9fda7ea46d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 19/37] fix: DN07::SetCircuit rejects a circuit with another
 number of parties

---
 src/tp/dn07.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tp/dn07.cc b/src/tp/dn07.cc
index dddac28..f756bda 100644
--- a/src/tp/dn07.cc
+++ b/src/tp/dn07.cc
@@ -2,7 +2,8 @@
 
 namespace tp {
   void DN07::SetCircuit(Circuit& circuit) {
-    assert( circuit.mParties == mParties );
+    if ( !circuit.mIsNetworkSet || circuit.mParties != mParties )
+      throw std::invalid_argument("The circuit must have a network with the right number of parties");
 
     mCircuit = circuit;
     mNMults = circuit.GetSize();
-- 
2.43.0


From 10d39aaa3aa2eb1953574a50c1fdad944bf0c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 20/37] fix: Peek on a shared queue passes the wakeup it
 consumed on to other consumers

---
 secure-computation-library/include/scl/net/shared_deque.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/net/shared_deque.h b/secure-computation-library/include/scl/net/shared_deque.h
index b0a376b..a7d78ea 100644
--- a/secure-computation-library/include/scl/net/shared_deque.h
+++ b/secure-computation-library/include/scl/net/shared_deque.h
@@ -99,6 +99,8 @@ T &SharedDeque<T, Allocator>::Peek() {
   while (mDeck.empty()) {
     mCond.wait(lock);
   }
+  // Nothing was removed, so pass the wakeup on to another waiting consumer.
+  mCond.notify_one();
   return mDeck.front();
 }
 
-- 
2.43.0


From caccb62c7ef0e60e8a10453b96afdd580ba114c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 21/37] fix: NetworkConfig::GetParty looks a party up by its
 identity

---
 secure-computation-library/include/scl/net/config.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..2173b99 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -127,8 +128,15 @@ class NetworkConfig {
 
   /**
    * @brief Get information about a party.
+   * @param id the identity of the party
+   * @throws std::invalid_argument if no party has identity \p id
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    for (const auto &party : mParties) {
+      if (party.id == id) return party;
+    }
+    throw std::invalid_argument("no party with this id in config");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From a5e22a4b244f1377c61fb86b1e97c3832ce8cd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:51 +0000
Subject: [PATCH 22/37] fix: NetworkConfig::Load rejects identities that do not
 fit instead of wrapping them around

---
 secure-computation-library/src/scl/net/config.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/config.cc b/secure-computation-library/src/scl/net/config.cc
index f795ceb..a4a08b4 100644
--- a/secure-computation-library/src/scl/net/config.cc
+++ b/secure-computation-library/src/scl/net/config.cc
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -10,6 +11,15 @@ static inline void ValidateIdAndSize(unsigned id, std::size_t n) {
   if (n <= id) throw std::invalid_argument("invalid id");
 }
 
+static inline unsigned ParseId(const std::string& str) {
+  const auto id = std::stoul(str);
+  // std::stoul accepts (and wraps) negative numbers
+  if (str.find('-') != std::string::npos ||
+      id > std::numeric_limits<unsigned>::max())
+    throw std::invalid_argument("invalid entry in config file");
+  return id;
+}
+
 scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
   std::ifstream file(filename);
 
@@ -25,7 +35,7 @@ scl::NetworkConfig scl::NetworkConfig::Load(unsigned id, std::string filename) {
     if (a == std::string::npos || b == std::string::npos)
       throw std::invalid_argument("invalid entry in config file");
 
-    auto id = (unsigned)std::stoul(std::string(line.begin(), line.begin() + a));
+    auto id = ParseId(std::string(line.begin(), line.begin() + a));
     auto hostname = std::string(line.begin() + a + 1, line.begin() + b);
     auto port = std::stoi(std::string(line.begin() + b + 1, line.end()));
     info.emplace_back(Party{id, hostname, port});
-- 
2.43.0


From e252c75e1fd49c7ad1f6e8e0294bb0b3e2d807ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 23/37] fix: receiving a matrix checks the size limit without
 overflow

---
 secure-computation-library/include/scl/net/channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..a8a3696 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -208,8 +208,9 @@ class Channel {
    */
   template <typename T>
   void Recv(Mat<T>& mat) {
-    auto rows = RecvSize();
-    auto cols = RecvSize();
+    // std::size_t, such that the product below cannot overflow
+    const std::size_t rows = RecvSize();
+    const std::size_t cols = RecvSize();
     if (rows * cols > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
     auto n = rows * cols * T::ByteSize();
-- 
2.43.0


From 2c372af3a89d3a4c6318a03340b1d171144931e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 24/37] fix: the discovery client validates the party list it
 receives

---
 .../include/scl/net/discovery/client.h                 |  7 +++++++
 .../src/scl/net/discovery/client.cc                    | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/discovery/client.h b/secure-computation-library/include/scl/net/discovery/client.h
index 7d4416f..9b21801 100644
--- a/secure-computation-library/include/scl/net/discovery/client.h
+++ b/secure-computation-library/include/scl/net/discovery/client.h
@@ -30,6 +30,13 @@
 #include "scl/net/network.h"
 #include "scl/p/simple.h"
 
+/**
+ * @brief Maximum size of a hostname received from a discovery server.
+ */
+#ifndef MAX_HOSTNAME_SIZE
+#define MAX_HOSTNAME_SIZE 255
+#endif
+
 namespace scl {
 
 /**
diff --git a/secure-computation-library/src/scl/net/discovery/client.cc b/secure-computation-library/src/scl/net/discovery/client.cc
index d33f039..30f3690 100644
--- a/secure-computation-library/src/scl/net/discovery/client.cc
+++ b/secure-computation-library/src/scl/net/discovery/client.cc
@@ -1,6 +1,7 @@
 #include "scl/net/discovery/client.h"
 
 #include <memory>
+#include <stdexcept>
 
 #include "scl/net/tcp_utils.h"
 
@@ -25,6 +26,8 @@ Client::ReceiveNetworkConfig Client::SendIdAndPort::Run(
 static inline std::string ReceiveHostname(std::shared_ptr<scl::Channel> ctx) {
   std::size_t len;
   ctx->Recv(len);
+  if (len > MAX_HOSTNAME_SIZE)
+    throw std::logic_error("received hostname exceeds size limit");
   auto buf = std::make_unique<char[]>(len);
   ctx->Recv(reinterpret_cast<unsigned char*>(buf.get()), len);
   return std::string(buf.get(), buf.get() + len);
@@ -34,15 +37,18 @@ scl::NetworkConfig Client::ReceiveNetworkConfig::Finalize(
     std::shared_ptr<scl::Channel> ctx) {
   std::size_t number_of_parties;
   ctx->Recv(number_of_parties);
+  if (number_of_parties > MAX_DISCOVER_PARTIES)
+    throw std::logic_error("received too many parties");
 
-  std::vector<scl::Party> parties(number_of_parties);
+  // NetworkConfig rejects lists with invalid, missing or duplicate IDs.
+  std::vector<scl::Party> parties;
   for (std::size_t i = 0; i < number_of_parties; ++i) {
     scl::Party party;
     ctx->Recv(party.id);
     ctx->Recv(party.port);
     auto hostname = ReceiveHostname(ctx);
     party.hostname = hostname;
-    parties[party.id] = party;
+    parties.emplace_back(party);
   }
 
   return scl::NetworkConfig{mId, parties};
-- 
2.43.0


From 83fe2b36135439c0e7a579d57c0dd4578359d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 25/37] fix: the discovery server refuses identities that are
 already taken

---
 .../src/scl/net/discovery/server.cc                      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 0f8ff65..2f0826f 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -34,7 +34,12 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
 Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
   auto my_id = ctx.me.id;
   std::vector<scl::Party> parties(mHostnames.size());
+  std::vector<bool> announced(mHostnames.size(), false);
+  if (my_id >= parties.size()) {
+    throw std::logic_error("server has invalid party ID");
+  }
   parties[my_id] = ctx.me;
+  announced[my_id] = true;
 
   for (std::size_t i = 0; i < mHostnames.size(); ++i) {
     if (my_id != i) {
@@ -43,6 +48,10 @@ Server::SendNetworkConfig Server::CollectIdsAndPorts::Run(Server::Ctx& ctx) {
       if (id >= parties.size()) {
         throw std::logic_error("received invalid party ID");
       }
+      if (announced[id]) {
+        throw std::logic_error("received duplicate party ID");
+      }
+      announced[id] = true;
       int port;
       ctx.network.Party(i)->Recv(port);
       parties[id] = scl::Party{id, mHostnames[id], port};
-- 
2.43.0


From 3f65db87ded2fd844b1eb24cc4275be01f710e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 26/37] fix: receiving from a closed TCP connection throws
 instead of returning unfilled data

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..d696e56 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -28,7 +28,7 @@ void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by remote");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
-- 
2.43.0


From ff3730a82ccf8b51372950ec76d269ec1a7358e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 27/37] fix: sending on a connection closed by the peer reports
 an error instead of raising SIGPIPE

---
 secure-computation-library/src/scl/net/tcp_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index e138fa2..351b821 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -86,5 +86,6 @@ int scl::details::ReadFromSocket(int socket, unsigned char* dst,
 
 int scl::details::WriteToSocket(int socket, const unsigned char* src,
                                 std::size_t n) {
-  return ::write(socket, src, n);
+  // MSG_NOSIGNAL: report a closed connection as an error, and not as a SIGPIPE.
+  return ::send(socket, src, n, MSG_NOSIGNAL);
 }
-- 
2.43.0


From 6aada0628429eab31e2fe749db59d7fb046b1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 28/37] fix: closing a TCP channel closes its socket only once
 even if that fails

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index d696e56..87e684d 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -5,9 +5,11 @@
 void scl::TcpChannel::Close() {
   if (!mAlive) return;
 
+  // also if closing fails below, the socket must not be closed again.
+  mAlive = false;
+
   const auto err = scl::details::CloseSocket(mSocket);
   if (err < 0) scl::details::ThrowError("error closing socket");
-  mAlive = false;
 }
 
 void scl::TcpChannel::Send(const unsigned char* src, std::size_t n) {
-- 
2.43.0


From fe26ef6a3e2c95f6cd14c601c9bd658993034f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 29/37] fix: accepting connections refuses unexpected
 identities and peers that leave early

---
 secure-computation-library/src/scl/net/network.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..e38201e 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -1,5 +1,6 @@
 #include "scl/net/network.h"
 
+#include <exception>
 #include <thread>
 
 #include "scl/net/tcp_utils.h"
@@ -18,13 +19,20 @@ static inline void AcceptConnections(
   if (n) {
     auto port = config.GetParty(my_id).port;
     int ssock = scl::details::CreateServerSocket(port, n);
-    for (std::size_t i = config.Id() + 1; i < config.NetworkSize(); ++i) {
+    while (n) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
           std::make_shared<scl::TcpChannel>(ac.socket);
       unsigned id;
-      channel->Recv(id);
+      try {
+        channel->Recv(id);
+      } catch (const std::exception&) {
+        continue;  // the peer closed the connection before sending its ID.
+      }
+      // refuse connections from peers that we do not expect.
+      if (id <= my_id || id >= channels.size() || channels[id]) continue;
       channels[id] = channel;
+      --n;
     }
     scl::details::CloseSocket(ssock);
   }
-- 
2.43.0


From 23e5f04bd10eaaa2eb796e0f416c2786cf954150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:49 +0000
Subject: [PATCH 30/37] fix: closing a threaded sender stops its thread before
 closing the socket, also on destruction

---
 .../include/scl/net/threaded_sender.h             |  9 +++++++++
 .../src/scl/net/threaded_sender.cc                | 15 ++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/net/threaded_sender.h b/secure-computation-library/include/scl/net/threaded_sender.h
index 49b0437..a55c71e 100644
--- a/secure-computation-library/include/scl/net/threaded_sender.h
+++ b/secure-computation-library/include/scl/net/threaded_sender.h
@@ -22,8 +22,10 @@
 #ifndef _SCL_NET_THREADED_SENDER_H
 #define _SCL_NET_THREADED_SENDER_H
 
+#include <atomic>
 #include <cstddef>
 #include <future>
+#include <vector>
 
 #include "scl/net/channel.h"
 #include "scl/net/shared_deque.h"
@@ -47,6 +49,11 @@ class ThreadedSenderChannel final : public Channel {
    */
   ThreadedSenderChannel(int socket);
 
+  /**
+   * @brief Destroying a threaded sender channel closes the connection.
+   */
+  ~ThreadedSenderChannel() { Close(); };
+
   void Close() override;
 
   void Send(const unsigned char* src, std::size_t n) override {
@@ -58,6 +65,8 @@ class ThreadedSenderChannel final : public Channel {
   };
 
  private:
+  int mSocket;
+  std::atomic<bool> mStop;
   TcpChannel mChannel;
   details::SharedDeque<std::vector<unsigned char>> mSendBuffer;
   std::future<void> mSender;
diff --git a/secure-computation-library/src/scl/net/threaded_sender.cc b/secure-computation-library/src/scl/net/threaded_sender.cc
index 4945fe4..1770896 100644
--- a/secure-computation-library/src/scl/net/threaded_sender.cc
+++ b/secure-computation-library/src/scl/net/threaded_sender.cc
@@ -1,13 +1,15 @@
 #include "scl/net/threaded_sender.h"
 
+#include <sys/socket.h>
+
 #include <future>
 
 scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
-    : mChannel(scl::TcpChannel(socket)) {
+    : mSocket(socket), mStop(false), mChannel(scl::TcpChannel(socket)) {
   mSender = std::async(std::launch::async, [&]() {
     while (true) {
       auto data = mSendBuffer.Peek();
-      if (!mChannel.Alive()) {
+      if (mStop) {
         break;
       }
       mChannel.Send(data.data(), data.size());
@@ -17,8 +19,15 @@ scl::ThreadedSenderChannel::ThreadedSenderChannel(int socket)
 }
 
 void scl::ThreadedSenderChannel::Close() {
-  mChannel.Close();
+  if (!mChannel.Alive()) return;
+
+  // The sender may be in the middle of a (possibly blocked) write, so the
+  // socket can only be closed after the sender has stopped using it.
+  mStop = true;
+  ::shutdown(mSocket, SHUT_RDWR);
   unsigned char stop_signal = 1;
   Send(&stop_signal, 1);
   mSender.wait();
+
+  mChannel.Close();
 }
-- 
2.43.0


From a109a10a798d290cbf8dfae1d6f4fb613bdeb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 31/37] fix: a network of threaded senders uses them also for
 accepted connections

---
 secure-computation-library/src/scl/net/network.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index e38201e..6219527 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -10,6 +10,7 @@ static inline std::shared_ptr<scl::Channel> Self() {
   return scl::InMemoryChannel::CreateSelfConnecting();
 }
 
+template <typename ChannelT>
 static inline void AcceptConnections(
     std::vector<std::shared_ptr<scl::Channel>>& channels,
     const scl::NetworkConfig config) {
@@ -22,7 +23,7 @@ static inline void AcceptConnections(
     while (n) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
-          std::make_shared<scl::TcpChannel>(ac.socket);
+          std::make_shared<ChannelT>(ac.socket);
       unsigned id;
       try {
         channel->Recv(id);
@@ -43,7 +44,8 @@ scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
+                     config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
@@ -67,7 +69,8 @@ scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections, std::ref(channels), config);
+  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
+                     std::ref(channels), config);
 
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
-- 
2.43.0


From fa9708b35f2f47a2dfd45d407767e250f42d7708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 32/37] fix: the discovery server closes its listening socket

---
 secure-computation-library/src/scl/net/discovery/server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index 2f0826f..ced7d40 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -25,6 +25,7 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
       hostnames.emplace_back(hostname);
     }
   }
+  scl::details::CloseSocket(ssock);
 
   Server::CollectIdsAndPorts discovery(hostnames);
   Server::Ctx ctx{me, scl::Network{channels}};
-- 
2.43.0


From a66516672937c96c092bb95831c61380417c31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 33/37] fix: a discovery server with an invalid identity fails
 at once

---
 secure-computation-library/src/scl/net/discovery/server.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index ced7d40..ec75f96 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -1,6 +1,7 @@
 #include "scl/net/discovery/server.h"
 
 #include <memory>
+#include <stdexcept>
 #include <vector>
 
 #include "scl/net/tcp_utils.h"
@@ -8,6 +9,11 @@
 using Server = scl::DiscoveryServer;
 
 scl::NetworkConfig Server::Run(const scl::Party& me) {
+  // otherwise we would wait for one more client than there are.
+  if (me.id >= mNumberOfParties) {
+    throw std::logic_error("server has invalid party ID");
+  }
+
   // one of the parties is us, which we do not connect to.
   auto ssock = scl::details::CreateServerSocket(mPort, mNumberOfParties - 1);
   std::vector<std::shared_ptr<scl::Channel>> channels;
-- 
2.43.0


From 4c18f371b54421fd5463d99c6cea3c1a909d4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 34/37] fix: P1 receives all shares of the multiplications
 before it sends new ones

The parties send everything before they receive. P1 answered every batch at
once, so for a large circuit it waited for parties that did not receive yet
while those waited for P1 to read (./ours.x 5 id 4000000 10 never ended).
---
 src/tp/circuits/offline.cc | 13 +++++++++++--
 src/tp/correlator.cc       | 12 +++++++++++-
 src/tp/correlator.h        |  7 ++++++-
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/tp/circuits/offline.cc b/src/tp/circuits/offline.cc
index 312282d..d163bc0 100644
--- a/src/tp/circuits/offline.cc
+++ b/src/tp/circuits/offline.cc
@@ -175,12 +175,21 @@ namespace tp {
       }
     }
     void Circuit::PrepMultP1ReceivesAndSends() {
+      // The other parties send everything before they receive, so P1 receives
+      // everything before it sends: it must not wait for a party that does not
+      // receive yet while that party waits for P1.
       for (auto mult_layer : mMultLayers) {
 	for (auto mult_batch : mult_layer.mBatches) {
 	  (void) mult_batch;
-	  mCorrelator.PrepMultP1ReceivesAndSends();
+	  mCorrelator.PrepMultP1Receives();
 	}
-      }      
+      }
+      for (auto mult_layer : mMultLayers) {
+	for (auto mult_batch : mult_layer.mBatches) {
+	  (void) mult_batch;
+	  mCorrelator.PrepMultP1Sends();
+	}
+      }
     }
     void Circuit::PrepMultPartiesReceive() {
       for (auto mult_layer : mMultLayers) {
diff --git a/src/tp/correlator.cc b/src/tp/correlator.cc
index fb5d8bb..746a3ab 100644
--- a/src/tp/correlator.cc
+++ b/src/tp/correlator.cc
@@ -101,7 +101,7 @@ namespace tp {
     mNetwork->Party(0)->Send(shr_lambdaB_p_R);
   }
     
-  void Correlator::PrepMultP1ReceivesAndSends() {
+  void Correlator::PrepMultP1Receives() {
     if (mID == 0) {
       Vec recv_shares_A;
       Vec recv_secret_A;
@@ -123,6 +123,16 @@ namespace tp {
       recv_secret_A = scl::details::SecretsFromSharesAndLength(recv_shares_A, mBatchSize);
       recv_secret_B = scl::details::SecretsFromSharesAndLength(recv_shares_B, mBatchSize);
 
+      mPrepMultSecrets.emplace(recv_secret_A, recv_secret_B);
+    }
+  }
+
+  void Correlator::PrepMultP1Sends() {
+    if (mID == 0) {
+      Vec recv_secret_A = mPrepMultSecrets.front().first;
+      Vec recv_secret_B = mPrepMultSecrets.front().second;
+      mPrepMultSecrets.pop();
+
       // P1 generates new shares
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(recv_secret_A, mBatchSize-1, mPRG);
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(recv_secret_B, mBatchSize-1, mPRG);
diff --git a/src/tp/correlator.h b/src/tp/correlator.h
index f96eff9..be707e9 100644
--- a/src/tp/correlator.h
+++ b/src/tp/correlator.h
@@ -3,6 +3,7 @@
 
 #include <iostream>
 #include <map>
+#include <queue>
 #include <assert.h>
 
 #include "tp.h"
@@ -162,7 +163,8 @@ namespace tp {
     // PREP MULT BATCH
     void PrepMultPartiesSendP1(std::shared_ptr<MultBatch> mult_batch);
     
-    void PrepMultP1ReceivesAndSends();
+    void PrepMultP1Receives();
+    void PrepMultP1Sends();
 
     void PrepMultPartiesReceive(std::shared_ptr<MultBatch> mult_batch);
 
@@ -245,6 +247,9 @@ namespace tp {
     std::size_t mThreshold;
 
     scl::PRG mPRG;
+
+    // Secrets that P1 received but did not share yet
+    std::queue<std::pair<Vec, Vec>> mPrepMultSecrets;
   };
 
 } // namespace tp
-- 
2.43.0


From 4369a1ca9685250ed030d2c5f3a8ffbd1604f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 35/37] fix: a socket that could not be set up is closed

---
 .../src/scl/net/tcp_utils.cc                  | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/secure-computation-library/src/scl/net/tcp_utils.cc b/secure-computation-library/src/scl/net/tcp_utils.cc
index 351b821..66666d4 100644
--- a/secure-computation-library/src/scl/net/tcp_utils.cc
+++ b/secure-computation-library/src/scl/net/tcp_utils.cc
@@ -12,6 +12,14 @@
 #include <system_error>
 #include <thread>
 
+// Report an error on a socket that is not handed out, and hence closed.
+static void CloseAndThrowError(int socket, const char* errmsg) {
+  const auto err = errno;
+  ::close(socket);
+  errno = err;
+  scl::details::ThrowError(errmsg);
+}
+
 int scl::details::CreateServerSocket(int port, int backlog) {
   int err;
   int ssock = ::socket(AF_INET, SOCK_STREAM, 0);
@@ -20,7 +28,7 @@ int scl::details::CreateServerSocket(int port, int backlog) {
   int opt = 1;
   auto options = SO_REUSEADDR | SO_REUSEPORT;
   err = ::setsockopt(ssock, SOL_SOCKET, options, &opt, sizeof(opt));
-  if (err < 0) scl::details::ThrowError("could not set socket options");
+  if (err < 0) CloseAndThrowError(ssock, "could not set socket options");
 
   struct sockaddr_in addr;
   addr.sin_family = AF_INET;
@@ -30,10 +38,10 @@ int scl::details::CreateServerSocket(int port, int backlog) {
   struct sockaddr* addr_ptr = (struct sockaddr*)&addr;
 
   err = ::bind(ssock, addr_ptr, sizeof(addr));
-  if (err < 0) scl::details::ThrowError("could not bind socket");
+  if (err < 0) CloseAndThrowError(ssock, "could not bind socket");
 
   err = ::listen(ssock, backlog);
-  if (err < 0) scl::details::ThrowError("could not listen on socket");
+  if (err < 0) CloseAndThrowError(ssock, "could not listen on socket");
 
   return ssock;
 }
@@ -68,8 +76,11 @@ int scl::details::ConnectAsClient(std::string hostname, int port) {
   addr.sin_port = ::htons(port);
 
   int err = ::inet_pton(AF_INET, hostname.c_str(), &(addr.sin_addr));
-  if (err == 0) throw std::runtime_error("invalid hostname");
-  if (err < 0) scl::details::ThrowError("invalid address family");
+  if (err == 0) {
+    ::close(sock);
+    throw std::runtime_error("invalid hostname");
+  }
+  if (err < 0) CloseAndThrowError(sock, "invalid address family");
 
   while (::connect(sock, (struct sockaddr*)&addr, sizeof(addr)) < 0)
     std::this_thread::sleep_for(300ms);
-- 
2.43.0


From a6cf3f41e11f12435befcc59db4ad74edc80df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 36/37] fix: the discovery server stops listening when it
 cannot accept a client

---
 .../src/scl/net/discovery/server.cc           | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/secure-computation-library/src/scl/net/discovery/server.cc b/secure-computation-library/src/scl/net/discovery/server.cc
index ec75f96..392dfa7 100644
--- a/secure-computation-library/src/scl/net/discovery/server.cc
+++ b/secure-computation-library/src/scl/net/discovery/server.cc
@@ -19,17 +19,22 @@ scl::NetworkConfig Server::Run(const scl::Party& me) {
   std::vector<std::shared_ptr<scl::Channel>> channels;
   std::vector<std::string> hostnames;
 
-  for (std::size_t i = 0; i < mNumberOfParties; ++i) {
-    if (i == me.id) {
-      channels.emplace_back(nullptr);
-      hostnames.emplace_back(me.hostname);
-    } else {
-      auto ac = scl::details::AcceptConnection(ssock);
-      auto hostname = scl::details::GetAddress(ac);
-      auto channel = std::make_shared<scl::TcpChannel>(ac.socket);
-      channels.emplace_back(channel);
-      hostnames.emplace_back(hostname);
+  try {
+    for (std::size_t i = 0; i < mNumberOfParties; ++i) {
+      if (i == me.id) {
+        channels.emplace_back(nullptr);
+        hostnames.emplace_back(me.hostname);
+      } else {
+        auto ac = scl::details::AcceptConnection(ssock);
+        auto hostname = scl::details::GetAddress(ac);
+        auto channel = std::make_shared<scl::TcpChannel>(ac.socket);
+        channels.emplace_back(channel);
+        hostnames.emplace_back(hostname);
+      }
     }
+  } catch (...) {
+    scl::details::CloseSocket(ssock);
+    throw;
   }
   scl::details::CloseSocket(ssock);
 
-- 
2.43.0


From af947f1331217be398b9c55841c2ad9740170f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:56 +0000
Subject: [PATCH 37/37] fix: errors while creating a network reach the caller

---
 .../src/scl/net/network.cc                    | 115 ++++++++++--------
 1 file changed, 65 insertions(+), 50 deletions(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index 6219527..861476a 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -1,5 +1,7 @@
 #include "scl/net/network.h"
 
+#include <sys/socket.h>
+
 #include <exception>
 #include <thread>
 
@@ -12,78 +14,91 @@ static inline std::shared_ptr<scl::Channel> Self() {
 
 template <typename ChannelT>
 static inline void AcceptConnections(
-    std::vector<std::shared_ptr<scl::Channel>>& channels,
-    const scl::NetworkConfig config) {
+    std::vector<std::shared_ptr<scl::Channel>>& channels, unsigned my_id,
+    int ssock) {
   // Act as server for all clients with an ID strictly greater than ours.
-  auto my_id = config.Id();
-  auto n = config.NetworkSize() - my_id - 1;
-  if (n) {
-    auto port = config.GetParty(my_id).port;
-    int ssock = scl::details::CreateServerSocket(port, n);
-    while (n) {
-      auto ac = scl::details::AcceptConnection(ssock);
-      std::shared_ptr<scl::Channel> channel =
-          std::make_shared<ChannelT>(ac.socket);
-      unsigned id;
-      try {
-        channel->Recv(id);
-      } catch (const std::exception&) {
-        continue;  // the peer closed the connection before sending its ID.
-      }
-      // refuse connections from peers that we do not expect.
-      if (id <= my_id || id >= channels.size() || channels[id]) continue;
-      channels[id] = channel;
-      --n;
+  auto n = channels.size() - my_id - 1;
+  while (n) {
+    auto ac = scl::details::AcceptConnection(ssock);
+    std::shared_ptr<scl::Channel> channel =
+        std::make_shared<ChannelT>(ac.socket);
+    unsigned id;
+    try {
+      channel->Recv(id);
+    } catch (const std::exception&) {
+      continue;  // the peer closed the connection before sending its ID.
     }
-    scl::details::CloseSocket(ssock);
+    // refuse connections from peers that we do not expect.
+    if (id <= my_id || id >= channels.size() || channels[id]) continue;
+    channels[id] = channel;
+    --n;
   }
 }
 
-scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
-  std::vector<std::shared_ptr<scl::Channel>> channels(config.NetworkSize());
-
-  channels[config.Id()] = Self();
-
-  std::thread server(AcceptConnections<scl::TcpChannel>, std::ref(channels),
-                     config);
-
+template <typename ChannelT>
+static inline void ConnectToServers(
+    std::vector<std::shared_ptr<scl::Channel>>& channels,
+    const scl::NetworkConfig& config) {
   for (std::size_t i = 0; i < config.Id(); ++i) {
     const auto party = config.GetParty(i);
     auto socket = scl::details::ConnectAsClient(party.hostname, party.port);
-    std::shared_ptr<scl::Channel> channel =
-        std::make_shared<scl::TcpChannel>(socket);
+    std::shared_ptr<scl::Channel> channel = std::make_shared<ChannelT>(socket);
     channel->Send((unsigned)config.Id());
     channels[i] = channel;
   }
-
-  server.join();
-
-  return Network{channels};
 }
 
-scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
-  // TODO: The code here is identical to the above method with the exception of
-  // which instantiation is used. This will be refactored at some point.
-
+template <typename ChannelT>
+static inline scl::Network CreateNetwork(const scl::NetworkConfig& config) {
   std::vector<std::shared_ptr<scl::Channel>> channels(config.NetworkSize());
 
   channels[config.Id()] = Self();
 
-  std::thread server(AcceptConnections<scl::ThreadedSenderChannel>,
-                     std::ref(channels), config);
+  const auto n = config.NetworkSize() - config.Id() - 1;
+  if (!n) {
+    ConnectToServers<ChannelT>(channels, config);
+    return scl::Network{channels};
+  }
 
-  for (std::size_t i = 0; i < config.Id(); ++i) {
-    const auto party = config.GetParty(i);
-    auto socket = scl::details::ConnectAsClient(party.hostname, party.port);
-    std::shared_ptr<scl::Channel> channel =
-        std::make_shared<scl::ThreadedSenderChannel>(socket);
-    channel->Send((unsigned)config.Id());
-    channels[i] = channel;
+  const auto port = config.GetParty(config.Id()).port;
+  const auto ssock = scl::details::CreateServerSocket(port, n);
+
+  // Errors in either thread are reported to the caller, after the other thread
+  // is done and the socket is closed.
+  std::exception_ptr server_error;
+  std::exception_ptr client_error;
+
+  std::thread server([&channels, &config, &server_error, ssock]() {
+    try {
+      AcceptConnections<ChannelT>(channels, config.Id(), ssock);
+    } catch (...) {
+      server_error = std::current_exception();
+    }
+  });
+
+  try {
+    ConnectToServers<ChannelT>(channels, config);
+  } catch (...) {
+    client_error = std::current_exception();
+    // the server may be waiting for a connection that never comes.
+    ::shutdown(ssock, SHUT_RDWR);
   }
 
   server.join();
+  scl::details::CloseSocket(ssock);
+
+  if (client_error) std::rethrow_exception(client_error);
+  if (server_error) std::rethrow_exception(server_error);
+
+  return scl::Network{channels};
+}
 
-  return Network{channels};
+scl::Network scl::Network::Create(const scl::NetworkConfig& config) {
+  return CreateNetwork<scl::TcpChannel>(config);
+}
+
+scl::Network scl::Network::CreateThreadedSenders(const NetworkConfig& config) {
+  return CreateNetwork<scl::ThreadedSenderChannel>(config);
 }
 
 using BuildMockNetwork_ReturnT =
-- 
2.43.0

