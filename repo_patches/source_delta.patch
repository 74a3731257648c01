From 06c61a7fe0ff1b711cda6fb22453ddafcd520cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 01/65] fix: ring scalar addition and subtraction write the
 receiver and reduce the scalar

---
 ring/ring_operations.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 7882ff4..5ceebd4 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -319,7 +319,7 @@ func (r *Ring) AddScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // AddScalarLvl adds a scalar to each coefficient of p1 and writes the result on p2.
 func (r *Ring) AddScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], BRedAdd(scalar, r.Modulus[i], r.BredParams[i]), r.Modulus[i])
 	}
 }
 
@@ -332,7 +332,7 @@ func (r *Ring) AddScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) AddScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		AddScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		AddScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
@@ -344,7 +344,7 @@ func (r *Ring) SubScalar(p1 *Poly, scalar uint64, p2 *Poly) {
 // SubScalarLvl subtracts a scalar from each coefficient of p1 and writes the result on p2.
 func (r *Ring) SubScalarLvl(level int, p1 *Poly, scalar uint64, p2 *Poly) {
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], scalar, r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], BRedAdd(scalar, r.Modulus[i], r.BredParams[i]), r.Modulus[i])
 	}
 }
 
@@ -357,7 +357,7 @@ func (r *Ring) SubScalarBigint(p1 *Poly, scalar *big.Int, p2 *Poly) {
 func (r *Ring) SubScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly) {
 	tmp := new(big.Int)
 	for i := 0; i < level+1; i++ {
-		SubScalarVec(p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
+		SubScalarVec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], tmp.Mod(scalar, NewUint(r.Modulus[i])).Uint64(), r.Modulus[i])
 	}
 }
 
-- 
2.43.0


From 4179ad723c647698a1f05b37b35428a7d3f5fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 02/65] fix: Ring.MulByPow2Lvl multiplies the Montgomery form
 when the receiver is not the operand

---
 ring/ring_operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5ceebd4..5f3c8a3 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -444,7 +444,7 @@ func (r *Ring) MulByPow2(p1 *Poly, pow2 int, p2 *Poly) {
 func (r *Ring) MulByPow2Lvl(level int, p1 *Poly, pow2 int, p2 *Poly) {
 	r.MFormLvl(level, p1, p2)
 	for i := 0; i < level+1; i++ {
-		MulByPow2Vec(p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
+		MulByPow2Vec(p2.Coeffs[i][:r.N], p2.Coeffs[i][:r.N], pow2, r.Modulus[i], r.MredParams[i])
 	}
 }
 
-- 
2.43.0


From 9055c416d1ef30513efc5541e0e107c1d0d91f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 03/65] fix: Ring.MultByMonomial accepts negative degrees

---
 ring/ring_operations.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index 5f3c8a3..e9dd1a6 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -460,6 +460,10 @@ func (r *Ring) MultByMonomial(p1 *Poly, monomialDeg int, p2 *Poly) {
 
 	shift := monomialDeg % (r.N << 1)
 
+	if shift < 0 {
+		shift += r.N << 1
+	}
+
 	if shift == 0 {
 
 		for i := range r.Modulus {
-- 
2.43.0


From 299302b077b55d60fd2f7479d303d641de2025a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 04/65] fix: Ring.Shift reduces the amount modulo N and never
 shares memory with its operand

---
 ring/ring_operations.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index e9dd1a6..f6c9189 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -390,9 +390,10 @@ func (r *Ring) MulScalarBigintLvl(level int, p1 *Poly, scalar *big.Int, p2 *Poly
 
 // Shift circulary shifts the coefficients of the polynomial p1 by n positions to the left and writes the result on p2.
 func (r *Ring) Shift(p1 *Poly, n int, p2 *Poly) {
-	mask := (1 << r.N) - 1
+	mask := r.N - 1
 	for i := range r.Modulus {
-		p2.Coeffs[i] = append(p1.Coeffs[i][(n&mask):], p1.Coeffs[i][:(n&mask)]...)
+		p1tmp := p1.Coeffs[i][:r.N]
+		p2.Coeffs[i] = append(append(make([]uint64, 0, r.N), p1tmp[(n&mask):]...), p1tmp[:(n&mask)]...)
 	}
 }
 
-- 
2.43.0


From d1308d4c03dc39204723dc9bb067107d00f225e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 05/65] fix: Ring.Rotate writes its receiver and reduces the
 amount modulo N

---
 ring/ring_operations.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ring/ring_operations.go b/ring/ring_operations.go
index f6c9189..e1eb347 100644
--- a/ring/ring_operations.go
+++ b/ring/ring_operations.go
@@ -587,7 +587,7 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 	var root, gal uint64
 
-	n &= (1 << r.N) - 1
+	n &= r.N - 1
 
 	for i, qi := range r.Modulus {
 
@@ -599,7 +599,9 @@ func (r *Ring) Rotate(p1 *Poly, n int, p2 *Poly) {
 
 		gal = MForm(1, qi, r.BredParams[i])
 
-		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p1.Coeffs[i][:r.N]
+		p1tmp, p2tmp := p1.Coeffs[i][:r.N], p2.Coeffs[i][:r.N]
+
+		p2tmp[0] = p1tmp[0]
 
 		for j := 1; j < r.N; j++ {
 
-- 
2.43.0


From d38c3640247b92920f7742070241269ee2606d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 06/65] fix: PolyQP.Equals distinguishes a missing part from a
 present one

---
 rlwe/ring_qp.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index 8756801..d855037 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -39,14 +39,7 @@ func (p *PolyQP) Equals(other PolyQP) (v bool) {
 		return true
 	}
 
-	v = true
-	if p.Q != nil {
-		v = p.Q.Equals(other.Q)
-	}
-	if p.P != nil {
-		v = v && p.P.Equals(other.P)
-	}
-	return v
+	return p.Q.Equals(other.Q) && p.P.Equals(other.P)
 }
 
 // CopyValues copies the coefficients of p1 on the target polynomial.
-- 
2.43.0


From 1222cea1896751510d0201a8020a328561db6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 07/65] fix: SimpleScaler returns values reduced modulo t

---
 ring/ring_scaling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index e05b74e..1ca9aab 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -264,6 +264,8 @@ func (ss *SimpleScaler) reconstructThenScale(p1, p2 *Poly) {
 		if ss.r.Lsh(ss.r, 1).CmpAbs(ss.ringQ.ModulusBigint) != -1 {
 			coeff.Add(coeff, ss.one)
 		}
+		// rounding up can reach t
+		coeff.Mod(coeff, ss.tBI)
 
 		for j := range p2.Coeffs {
 			p2.Coeffs[j][i] = coeff.Uint64()
-- 
2.43.0


From 3c141fa14079ae61adb09fb26d1f7b005d4310c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 08/65] fix: NTTLazy variants return values in their documented
 range [0, 2q-1]

---
 ring/ring_ntt.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ring/ring_ntt.go b/ring/ring_ntt.go
index 73f4d17..c359299 100644
--- a/ring/ring_ntt.go
+++ b/ring/ring_ntt.go
@@ -117,12 +117,18 @@ func invbutterfly(U, V, Psi, twoQ, fourQ, Q, Qinv uint64) (X, Y uint64) {
 
 // NTT computes the NTT on the input coefficients using the input parameters.
 func NTT(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, mredParams uint64, bredParams []uint64) {
-	NTTLazy(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams, bredParams)
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, mredParams)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTLazy computes the NTT on the input coefficients using the input parameters with output values in the range [0, 2q-1].
 func NTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttCore computes the NTT on the input coefficients with unreduced output values.
+func nttCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var j1, j2, t int
 	var F, V uint64
 
@@ -500,12 +506,18 @@ func InvNTTLazy(coeffsIn, coeffsOut []uint64, N int, nttPsiInv []uint64, nttNInv
 
 // NTTConjugateInvariant computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1).
 func NTTConjugateInvariant(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
-	NTTConjugateInvariantLazy(coeffsIn, coeffsOut, N, nttPsi, Q, QInv, bredParams)
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
 	ReduceVec(coeffsOut, coeffsOut, Q, bredParams)
 }
 
 // NTTConjugateInvariantLazy computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with output values in the range [0, 2q-1].
 func NTTConjugateInvariantLazy(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64, bredParams []uint64) {
+	nttConjugateInvariantCore(coeffsIn, coeffsOut, N, nttPsi, Q, QInv)
+	ReduceConstantVec(coeffsOut, coeffsOut, Q, bredParams)
+}
+
+// nttConjugateInvariantCore computes the NTT in the closed sub-ring Z[X + X^-1]/(X^2N +1) of Z[X]/(X^2N+1) with unreduced output values.
+func nttConjugateInvariantCore(coeffsIn, coeffsOut []uint64, N int, nttPsi []uint64, Q, QInv uint64) {
 	var t, h int
 	var F, V uint64
 	var reduce bool
-- 
2.43.0


From 8589502bde1ee663ff94482ebe1a984f057a7d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 09/65] fix: ConjugateInvariantRing rejects rings whose half
 degree the NTT does not support

---
 ring/ring.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ring/ring.go b/ring/ring.go
index b92420e..1191656 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -33,6 +33,9 @@ import (
 // Type is the type of ring used by the cryptographic scheme
 type Type int
 
+// minRingDegree is the smallest ring degree supported by the unrolled loops of the NTT.
+const minRingDegree = 16
+
 // RingStandard and RingConjugateInvariant are two types of Rings.
 const (
 	Standard           = Type(0) // Z[X]/(X^N + 1) (Default)
@@ -167,6 +170,9 @@ func (r *Ring) ConjugateInvariantRing() (*Ring, error) {
 	if r.Type() == ConjugateInvariant {
 		return r, nil
 	}
+	if r.N < 2*minRingDegree {
+		return nil, fmt.Errorf("invalid ring degree (must be at least %d to have a conjugate invariant subring)", 2*minRingDegree)
+	}
 	cr := *r
 	cr.N = r.N >> 1
 	cr.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
@@ -205,7 +211,7 @@ func (r *Ring) Type() Type {
 func (r *Ring) setParameters(N int, Modulus []uint64) error {
 
 	// Checks if N is a power of 2
-	if (N < 16) || (N&(N-1)) != 0 && N != 0 {
+	if (N < minRingDegree) || (N&(N-1)) != 0 && N != 0 {
 		return errors.New("invalid ring degree (must be a power of 2 >= 8)")
 	}
 
-- 
2.43.0


From 147bbd5ca78e150038c769888a6967571cab0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 10/65] fix: ModDownQPtoP divides by the product of the Q
 moduli of the level

---
 ring/ring_basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index 499ead1..fd5cb1f 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -271,7 +271,7 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// Finally, for each level of p1 (and polypool since they now share the same basis) we compute p2 = (P^-1) * (p1 - polypool) mod Q
 	for i := 0; i < levelP+1; i++ {
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelP][i], ringP.Modulus[i], ringP.MredParams[i])
+		SubVecAndMulScalarMontgomeryTwoQiVec(polypool.Coeffs[i], p1P.Coeffs[i], p2P.Coeffs[i], ringP.Modulus[i]-modDownParams[levelQ][i], ringP.Modulus[i], ringP.MredParams[i])
 	}
 
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
-- 
2.43.0


From 5148227e8998d718964fdb32171e5cc58258f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 11/65] fix: DivFloor/DivRoundByLastModulusNTTLvl use the exact
 residue of the dropped limb

---
 ring/ring_scaling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index 1ca9aab..79b6666 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -308,7 +308,7 @@ func (ss *SimpleScaler) reconstructAndScale(p1, p2 *Poly) {
 // DivFloorByLastModulusNTTLvl divides (floored) the polynomial by its last modulus. The input must be in the NTT domain.
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivFloorByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[0])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[0])
 	for i := 0; i < level; i++ {
 		r.NTTSingleLazy(i, pool.Coeffs[0], pool.Coeffs[1])
 		// (-x[i] + x[-1]) * -InvQ
@@ -380,7 +380,7 @@ func (r *Ring) DivFloorByLastModulusManyLvl(level, nbRescales int, p0, pool, p1
 // Output poly level must be equal or one less than input level.
 func (r *Ring) DivRoundByLastModulusNTTLvl(level int, p0, pool, p1 *Poly) {
 
-	r.InvNTTSingleLazy(level, p0.Coeffs[level], pool.Coeffs[level])
+	r.InvNTTSingle(level, p0.Coeffs[level], pool.Coeffs[level])
 
 	// Center by (p-1)/2
 	pj := r.Modulus[level]
-- 
2.43.0


From 22533c7b1b103afe505435322e22007006b09f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 12/65] fix: DivRoundByLastModulusLvl leaves its operand
 unchanged

---
 ring/ring_scaling.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ring/ring_scaling.go b/ring/ring_scaling.go
index 79b6666..0b69345 100644
--- a/ring/ring_scaling.go
+++ b/ring/ring_scaling.go
@@ -408,9 +408,12 @@ func (r *Ring) DivRoundByLastModulusLvl(level int, p0, p1 *Poly) {
 
 	for i := 0; i < level; i++ {
 		qi := r.Modulus[i]
-		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p0.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
-		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p0.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
+		AddScalarNoModAndNegTwoQiNoModVec(p0.Coeffs[i], p1.Coeffs[i], qi-BRedAdd(pHalf, qi, r.BredParams[i]), qi)
+		AddVecNoModAndMulScalarMontgomeryVec(p0.Coeffs[level], p1.Coeffs[i], p1.Coeffs[i], r.RescaleParams[level-1][i], qi, r.MredParams[i])
 	}
+
+	// Restores the last limb of p0
+	AddScalarVec(p0.Coeffs[level], p0.Coeffs[level], pj-pHalf, pj)
 }
 
 // DivRoundByLastModulusManyNTTLvl divides (rounded) sequentially nbRescales times the polynomial by its last modulus. The input must be in the NTT domain.
-- 
2.43.0


From f0174efb4e1ca816fee387b15c4c2bd90bf86e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 13/65] fix: SwitchCiphertextRingDegree(NTT) writes its
 receiver only and clears stale coefficients

---
 rlwe/elements.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index ba1f11e..7ff5fe6 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -168,7 +168,7 @@ func SwitchCiphertextRingDegreeNTT(ctIn *Ciphertext, ringQSmallDim, ringQLargeDi
 		pool := make([]uint64, NIn)
 		for i := range ctOut.Value {
 			for j := range ctOut.Value[i].Coeffs {
-				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+				tmpIn, tmpOut := ctIn.Value[i].Coeffs[j], ctOut.Value[i].Coeffs[j]
 				ringQLargeDim.InvNTTSingle(j, tmpIn, pool)
 				for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+1, w1+gap {
 					tmpOut[w0] = pool[w1]
@@ -199,6 +199,11 @@ func SwitchCiphertextRingDegree(ctIn *Ciphertext, ctOut *Ciphertext) {
 	for i := range ctOut.Value {
 		for j := range ctOut.Value[i].Coeffs {
 			tmp0, tmp1 := ctOut.Value[i].Coeffs[j], ctIn.Value[i].Coeffs[j]
+			if gapIn > 1 {
+				for w := range tmp0 {
+					tmp0[w] = 0
+				}
+			}
 			for w0, w1 := 0, 0; w0 < NOut; w0, w1 = w0+gapIn, w1+gapOut {
 				tmp0[w0] = tmp1[w1]
 			}
-- 
2.43.0


From 73495a3ecb5fbf8f28fb8cfb1af3b1f23b06dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 14/65] fix: ternary sampler restarts instead of reading past
 its probability matrix

---
 ring/ring_sampler_ternary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index 32a390d..dce3ddf 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -256,7 +256,7 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 
 			// There is small probability that it will get out of the bound, then
 			// rerun until it gets a proper output
-			if d > colLen-1 {
+			if d > colLen-1 || col == len(ts.matrixProba[0]) {
 				return ts.kysampling(prng, randomBytes, i, bytePointer, byteLength)
 			}
 
-- 
2.43.0


From 0f9c500efbf367a21b9ba89708cbda2cf7b52132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 15/65] fix: ternary sampler does not reuse the sign bit for
 the next coefficient

---
 ring/ring_sampler_ternary.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ring/ring_sampler_ternary.go b/ring/ring_sampler_ternary.go
index dce3ddf..8ace4b1 100644
--- a/ring/ring_sampler_ternary.go
+++ b/ring/ring_sampler_ternary.go
@@ -280,9 +280,9 @@ func (ts *TernarySampler) kysampling(prng utils.PRNG, randomBytes []byte, pointe
 						sign = uint8(randomBytes[bytePointer]) & 1
 
 					} else {
-						pointer = i
+						pointer = i + 1
 						// Otherwise, the sign is the next bit of the byte
-						sign = uint8(randomBytes[bytePointer]>>(i+1)) & 1
+						sign = uint8(randomBytes[bytePointer]>>pointer) & 1
 					}
 
 					return uint64(row), uint64(sign), randomBytes, pointer + 1, bytePointer
-- 
2.43.0


From 500a44aed0ae836634b581af7d603732f5afa22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 16/65] fix: encoding a polynomial writes its flag bytes also
 when they are zero

---
 ring/ring_poly.go | 2 ++
 rlwe/ring_qp.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index 8d88a9d..a4c8391 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -208,6 +208,7 @@ func (pol *Poly) WriteTo(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
@@ -234,6 +235,7 @@ func (pol *Poly) WriteTo32(data []byte) (int, error) {
 	}
 	data[0] = uint8(bits.Len64(uint64(N)) - 1)
 	data[1] = uint8(numberModuli)
+	data[2], data[3] = 0, 0
 	if pol.IsNTT {
 		data[2] = 1
 	}
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index d855037..e0fea5b 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -359,6 +359,7 @@ func (p *PolyQP) GetDataLen(WithMetadata bool) (dataLen int) {
 func (p *PolyQP) WriteTo(data []byte) (pt int, err error) {
 	var inc int
 
+	data[0], data[1] = 0, 0
 	if p.Q != nil {
 		data[0] = 1
 	}
-- 
2.43.0


From f895637f9f2968154206d91c461fe1dab53b094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 17/65] fix: decoding into a used polynomial replaces its
 previous shape, flags and parts

---
 ring/ring_poly.go | 34 ++++++----------------------------
 rlwe/ring_qp.go   |  2 ++
 2 files changed, 8 insertions(+), 28 deletions(-)

diff --git a/ring/ring_poly.go b/ring/ring_poly.go
index a4c8391..5387149 100644
--- a/ring/ring_poly.go
+++ b/ring/ring_poly.go
@@ -331,14 +331,6 @@ func (pol *Poly) UnmarshalBinary(data []byte) (err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
-
 	pointer := 4
 
 	if ((len(data) - pointer) >> 3) != N*numberModulies {
@@ -359,19 +351,12 @@ func (pol *Poly) DecodePolyNew(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
-		pol.Coeffs = make([][]uint64, numberModulies)
-	}
+	pol.Coeffs = make([][]uint64, numberModulies)
 
 	if pointer, err = DecodeCoeffsNew(pointer, N, numberModulies, pol.Coeffs, data); err != nil {
 		return pointer, err
@@ -387,19 +372,12 @@ func (pol *Poly) DecodePolyNew32(data []byte) (pointer int, err error) {
 	N := int(1 << data[0])
 	numberModulies := int(data[1])
 
-	if data[2] == 1 {
-		pol.IsNTT = true
-	}
-
-	if data[3] == 1 {
-		pol.IsMForm = true
-	}
+	pol.IsNTT = data[2] == 1
+	pol.IsMForm = data[3] == 1
 
 	pointer = 4
 
-	if pol.Coeffs == nil {
-		pol.Coeffs = make([][]uint64, numberModulies)
-	}
+	pol.Coeffs = make([][]uint64, numberModulies)
 
 	if pointer, err = DecodeCoeffsNew32(pointer, N, numberModulies, pol.Coeffs, data); err != nil {
 		return pointer, err
diff --git a/rlwe/ring_qp.go b/rlwe/ring_qp.go
index e0fea5b..0817bc5 100644
--- a/rlwe/ring_qp.go
+++ b/rlwe/ring_qp.go
@@ -393,6 +393,8 @@ func (p *PolyQP) DecodePolyNew(data []byte) (pt int, err error) {
 	var inc int
 	pt = 2
 
+	p.Q, p.P = nil, nil
+
 	if data[0] == 1 {
 		p.Q = new(ring.Poly)
 		if inc, err = p.Q.DecodePolyNew(data[pt:]); err != nil {
-- 
2.43.0


From ee68690ad3b5e859f105f60d81d0883fde120267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 18/65] fix: decoding a switching key without auxiliary primes
 leaves its P part absent

---
 rlwe/marshaler.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rlwe/marshaler.go b/rlwe/marshaler.go
index 5a177aa..c1e05f2 100644
--- a/rlwe/marshaler.go
+++ b/rlwe/marshaler.go
@@ -281,13 +281,11 @@ func (swk *SwitchingKey) decode(data []byte) (pointer int, err error) {
 
 	for j := 0; j < decomposition; j++ {
 
-		swk.Value[j][0].Q = new(ring.Poly)
 		if inc, err = swk.Value[j][0].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
 		pointer += inc
 
-		swk.Value[j][1].P = new(ring.Poly)
 		if inc, err = swk.Value[j][1].DecodePolyNew(data[pointer:]); err != nil {
 			return
 		}
-- 
2.43.0


From 54f73d183db419e2527c3ea23b6f495dbf3b9c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 19/65] fix: Ring.UnmarshalBinary restores the ring type

---
 ring/ring.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 1191656..9c56a75 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -386,6 +386,12 @@ func (r *Ring) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if parameters.NthRoot == uint64(parameters.N)<<2 {
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerConjugateInvariant{}
+	} else {
+		r.NumberTheoreticTransformer = NumberTheoreticTransformerStandard{}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From f2015ef74bef48258ca1fe274f79761762ab4cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 20/65] fix: rlwe.Parameters.MarshalJSON includes the ring type

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5c10865..5a8c519 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -479,7 +479,7 @@ func (p Parameters) MarshalBinarySize() int {
 
 // MarshalJSON returns a JSON representation of this parameter set. See `Marshal` from the `encoding/json` package.
 func (p Parameters) MarshalJSON() ([]byte, error) {
-	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma})
+	return json.Marshal(&ParametersLiteral{LogN: p.logN, Q: p.qi, P: p.pi, H: p.h, Sigma: p.sigma, RingType: p.ringType})
 }
 
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
-- 
2.43.0


From c767e55ef9db8b2490b43ad83b0c6d5877ba2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 21/65] fix: ckks.Parameters.UnmarshalJSON reports malformed
 input

---
 ckks/params.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 95e2a9b..0915cf3 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -602,7 +602,9 @@ func (p Parameters) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON reads a JSON representation of a parameter set into the receiver Parameter. See `Unmarshal` from the `encoding/json` package.
 func (p *Parameters) UnmarshalJSON(data []byte) (err error) {
 	var params ParametersLiteral
-	json.Unmarshal(data, &params)
+	if err = json.Unmarshal(data, &params); err != nil {
+		return err
+	}
 	*p, err = NewParametersFromLiteral(params)
 	return
 }
-- 
2.43.0


From 4f23c2db284da6048bf5456590cf9a3662188d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 22/65] fix: constructors return an empty ring or parameter set
 together with an error

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 5a8c519..da79eed 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -109,7 +109,11 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 	copy(params.qi, q)
 	copy(params.pi, p)
 
-	return params, params.initRings()
+	if err = params.initRings(); err != nil {
+		return Parameters{}, err
+	}
+
+	return params, nil
 }
 
 // NewParametersFromLiteral instantiate a set of generic RLWE parameters from a ParametersLiteral specification.
-- 
2.43.0


From 3257fdde2adb546f3932c2a5530b73cd0b558ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 23/65] fix: rlwe.NewParametersFromLiteral returns an error on
 an invalid degree or ring type

---
 rlwe/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index da79eed..c53a3fb 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -130,6 +130,10 @@ func NewParameters(logn int, q, p []uint64, h int, sigma float64, ringType ring.
 // If the RingType is left unset, the default value is ring.Standard.
 func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 
+	if err := checkSizeParams(paramDef.LogN, len(paramDef.Q)+len(paramDef.LogQ), len(paramDef.P)+len(paramDef.LogP)); err != nil {
+		return Parameters{}, err
+	}
+
 	if paramDef.H == 0 {
 		paramDef.H = 1 << (paramDef.LogN - 1)
 	}
@@ -152,7 +156,7 @@ func NewParametersFromLiteral(paramDef ParametersLiteral) (Parameters, error) {
 		case ring.ConjugateInvariant:
 			q, p, err = GenModuli(paramDef.LogN+1, paramDef.LogQ, paramDef.LogP)
 		default:
-			panic("invalid ring type")
+			return Parameters{}, fmt.Errorf("invalid ring type")
 		}
 		if err != nil {
 			return Parameters{}, err
-- 
2.43.0


From 0fb11776c88a6bc8f4a20cb9a5578adcb225a5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 24/65] fix: CheckModuli rejects moduli above the sizes the
 library supports

---
 rlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index c53a3fb..3bb8379 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -512,13 +512,13 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, qi := range q {
-		if uint64(bits.Len64(qi)-1) > MaxModuliSize+1 {
+		if uint64(bits.Len64(qi)-1) > MaxModuliSize {
 			return fmt.Errorf("a Qi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+2 {
+		if uint64(bits.Len64(pi)-1) > MaxModuliSize+1 {
 			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
-- 
2.43.0


From a3b7fa79974729a71842e2a16d9f1ec7627bb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 25/65] fix: NewRing returns an error on a zero modulus

---
 ring/ring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ring/ring.go b/ring/ring.go
index 9c56a75..f10f4d4 100644
--- a/ring/ring.go
+++ b/ring/ring.go
@@ -231,6 +231,9 @@ func (r *Ring) setParameters(N int, Modulus []uint64) error {
 	r.Mask = make([]uint64, len(Modulus))
 
 	for i, qi := range Modulus {
+		if qi == 0 {
+			return errors.New("invalid modulus (moduli must be non-zero)")
+		}
 		r.Modulus[i] = qi
 		r.Mask[i] = (1 << uint64(bits.Len64(qi))) - 1
 	}
-- 
2.43.0


From e680184dbb5a02c21e8edaf82c0962e91a80d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 26/65] fix: NextNTTPrime and PreviousNTTPrime stop at the ends
 of their range

---
 ring/primes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ring/primes.go b/ring/primes.go
index 532aa46..b8caa1f 100644
--- a/ring/primes.go
+++ b/ring/primes.go
@@ -48,16 +48,16 @@ func NextNTTPrime(q uint64, NthRoot int) (qNext uint64, err error) {
 
 	qNext = q + uint64(NthRoot)
 
-	for !IsPrime(qNext) {
+	for bits.Len64(qNext) <= 61 {
 
-		qNext += uint64(NthRoot)
-
-		if bits.Len64(qNext) > 61 {
-			return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
+		if IsPrime(qNext) {
+			return qNext, nil
 		}
+
+		qNext += uint64(NthRoot)
 	}
 
-	return qNext, nil
+	return 0, fmt.Errorf("next NTT prime exceeds the maximum bit-size of 61 bits")
 }
 
 // PreviousNTTPrime returns the previous NthRoot NTT prime after q.
@@ -72,7 +72,7 @@ func PreviousNTTPrime(q uint64, NthRoot int) (qPrev uint64, err error) {
 
 	for !IsPrime(qPrev) {
 
-		if q < uint64(NthRoot) {
+		if qPrev < uint64(NthRoot) {
 			return 0, fmt.Errorf("previous NTT prime is smaller than NthRoot")
 		}
 
-- 
2.43.0


From 002bb805a9a3b3d9299d7b5d821c2293db52dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 27/65] fix: slice equality takes the length into account

---
 utils/utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index daa82d8..a35326c 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -48,6 +48,9 @@ func RandComplex128(min, max float64) complex128 {
 
 // EqualSliceUint64 checks the equality between two uint64 slices.
 func EqualSliceUint64(a, b []uint64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -57,6 +60,9 @@ func EqualSliceUint64(a, b []uint64) (v bool) {
 
 // EqualSliceInt64 checks the equality between two int64 slices.
 func EqualSliceInt64(a, b []int64) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
@@ -66,6 +72,9 @@ func EqualSliceInt64(a, b []int64) (v bool) {
 
 // EqualSliceUint8 checks the equality between two uint8 slices.
 func EqualSliceUint8(a, b []uint8) (v bool) {
+	if len(a) != len(b) {
+		return false
+	}
 	v = true
 	for i := range a {
 		v = v && (a[i] == b[i])
-- 
2.43.0


From ffa5723a26f05883f587190293e9e0086e3f245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:35 +0000
Subject: [PATCH 28/65] fix: frlwe.NewParametersFromLiteral supports moduli
 given by their sizes

---
 frlwe/params.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index 91c749f..ec42a78 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -42,8 +42,8 @@ func NewParametersFromLiteral(pl ParametersLiteral) (params Parameters) {
 	}
 
 	moduliR := make([]uint64, 0)
-	moduliR = append(moduliR, pl.P...)
-	moduliR = append(moduliR, pl.Q...)
+	moduliR = append(moduliR, rlweParams.P()...)
+	moduliR = append(moduliR, rlweParams.Q()...)
 
 	ringR, err := ring.NewRing(N, moduliR)
 	if err != nil {
-- 
2.43.0


From a6506ba252d62c8b28e604d9759891a6e88dfe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 29/65] fix: CheckModuli rejects auxiliary moduli of 62 bits,
 which overflow the lazy NTT

---
 rlwe/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/params.go b/rlwe/params.go
index 3bb8379..370e449 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -518,7 +518,7 @@ func CheckModuli(q, p []uint64) error {
 	}
 
 	for i, pi := range p {
-		if uint64(bits.Len64(pi)-1) > MaxModuliSize+1 {
+		if uint64(bits.Len64(pi)-1) > MaxModuliSize {
 			return fmt.Errorf("a Pi bit-size (i=%d) is larger than %d", i, MaxModuliSize)
 		}
 	}
-- 
2.43.0


From a598850e73a37f32853395466bc1e6e0a50fd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 30/65] fix: Rotate*Slice returns a new slice also for k = 0

---
 utils/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index a35326c..e8353c3 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -173,7 +173,7 @@ func AllDistinct(s []uint64) bool {
 
 // RotateUint64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateUint64Slice(s []uint64, k int) []uint64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -188,7 +188,7 @@ func RotateUint64Slice(s []uint64, k int) []uint64 {
 
 // RotateInt64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateInt64Slice(s []int64, k int) []int64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -213,7 +213,7 @@ func RotateUint64Slots(s []uint64, k int) []uint64 {
 
 // RotateComplex128Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateComplex128Slice(s []complex128, k int) []complex128 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
@@ -228,7 +228,7 @@ func RotateComplex128Slice(s []complex128, k int) []complex128 {
 
 // RotateFloat64Slice returns a new slice corresponding to s rotated by k positions to the left.
 func RotateFloat64Slice(s []float64, k int) []float64 {
-	if k == 0 || len(s) == 0 {
+	if len(s) == 0 {
 		return s
 	}
 	r := k % len(s)
-- 
2.43.0


From ec25b174859936beb5607faab5792ef3664dfd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 31/65] fix: overflow margins are computed exactly

---
 frlwe/params.go | 2 +-
 rlwe/params.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/frlwe/params.go b/frlwe/params.go
index ec42a78..feca7ac 100644
--- a/frlwe/params.go
+++ b/frlwe/params.go
@@ -67,7 +67,7 @@ func (p Parameters) RingT() *ring.Ring {
 }
 
 func (p Parameters) TiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.ringT.Modulus[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.ringT.Modulus[:level+1]))
 }
 
 func (p Parameters) Gamma() int {
diff --git a/rlwe/params.go b/rlwe/params.go
index 370e449..0b0f32d 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -346,13 +346,13 @@ func (p Parameters) Beta() int {
 // QiOverflowMargin returns floor(2^64 / max(Qi)), i.e. the number of times elements of Z_max{Qi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) QiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.qi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.qi[:level+1]))
 }
 
 // PiOverflowMargin returns floor(2^64 / max(Pi)), i.e. the number of times elements of Z_max{Pi} can
 // be added together before overflowing 2^64.
 func (p *Parameters) PiOverflowMargin(level int) int {
-	return int(math.Exp2(64) / float64(utils.MaxSliceUint64(p.pi[:level+1])))
+	return int(math.MaxUint64 / utils.MaxSliceUint64(p.pi[:level+1]))
 }
 
 // GaloisElementForColumnRotationBy returns the galois element for plaintext
-- 
2.43.0


From 800fdbc10058fde62f9b4a1abf1604b99af0b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 32/65] fix: CheckModuli rejects a prime that is in both chains

---
 rlwe/params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rlwe/params.go b/rlwe/params.go
index 0b0f32d..1223826 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -535,6 +535,12 @@ func CheckModuli(q, p []uint64) error {
 		}
 	}
 
+	for i, pi := range p {
+		if utils.IsInSliceUint64(pi, q) {
+			return fmt.Errorf("a Pi (i=%d) is also a Qi", i)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 289cd5c8c0d8aa44890430c1b90c6793916f477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 33/65] fix: decoding truncated parameters returns an error

---
 ckks/params.go | 3 +++
 rlwe/params.go | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ckks/params.go b/ckks/params.go
index 0915cf3..2f759c9 100644
--- a/ckks/params.go
+++ b/ckks/params.go
@@ -583,6 +583,9 @@ func (p *Parameters) UnmarshalBinary(data []byte) (err error) {
 	if err := rlweParams.UnmarshalBinary(data); err != nil {
 		return err
 	}
+	if len(data) < rlweParams.MarshalBinarySize()+9 {
+		return fmt.Errorf("invalid ckks.Parameter serialization")
+	}
 	logSlots := int(data[len(data)-9])
 	scale := math.Float64frombits(binary.BigEndian.Uint64(data[len(data)-8:]))
 	*p, err = NewParameters(rlweParams, logSlots, scale)
diff --git a/rlwe/params.go b/rlwe/params.go
index 1223826..e6ca4b8 100644
--- a/rlwe/params.go
+++ b/rlwe/params.go
@@ -455,7 +455,7 @@ func (p Parameters) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary decodes a []byte into a parameter set struct.
 func (p *Parameters) UnmarshalBinary(data []byte) error {
-	if len(data) < 11 {
+	if len(data) < 20 {
 		return fmt.Errorf("invalid rlwe.Parameter serialization")
 	}
 	b := utils.NewBuffer(data)
@@ -470,6 +470,10 @@ func (p *Parameters) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	if len(b.Bytes()) < (lenQ+lenP)<<3 {
+		return fmt.Errorf("invalid rlwe.Parameter serialization")
+	}
+
 	qi := make([]uint64, lenQ)
 	pi := make([]uint64, lenP)
 	b.ReadUint64Slice(qi)
-- 
2.43.0


From d348e76dd64b0c05320b3ffe035a3cff717135d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 34/65] fix: encrypting into a ciphertext of another degree
 resizes it

---
 rlwe/encryptor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rlwe/encryptor.go b/rlwe/encryptor.go
index 92939cc..a927c94 100644
--- a/rlwe/encryptor.go
+++ b/rlwe/encryptor.go
@@ -124,6 +124,8 @@ func newEncryptorBuffers(params Parameters) *encryptorBuffers {
 // then the encryption of zero is sampled in QP before being rescaled by P; otherwise, it is directly
 // sampled in Q.
 func (enc *pkEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
+
 	enc.uniformSampler.ReadLvl(utils.MinInt(pt.Level(), ct.Level()), ct.Value[1])
 
 	if enc.basisextender != nil {
@@ -140,6 +142,7 @@ func (enc *pkEncryptor) EncryptFromCRP(pt *Plaintext, crp *ring.Poly, ct *Cipher
 
 // Encrypt encrypts the input plaintext and write the result on ct.
 func (enc *skEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
 
 	enc.uniformSampler.ReadLvl(utils.MinInt(pt.Level(), ct.Level()), ct.Value[1])
 
@@ -149,6 +152,8 @@ func (enc *skEncryptor) Encrypt(pt *Plaintext, ct *Ciphertext) {
 // EncryptFromCRP encrypts the input plaintext and writes the result on ct.
 // The encryption algorithm depends on the implementor.
 func (enc *skEncryptor) EncryptFromCRP(pt *Plaintext, crp *ring.Poly, ct *Ciphertext) {
+	ct.Resize(enc.params, 1)
+
 	ring.CopyValues(crp, ct.Value[1])
 
 	enc.encrypt(pt, ct)
-- 
2.43.0


From aa4350a7f8fab0b4e150f6c192c23d96ba572ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 35/65] fix: frlwe GenSecretKey and GenPublicKey call the
 embedded generator

---
 frlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frlwe/keygen.go b/frlwe/keygen.go
index 0f4a0b1..715470a 100644
--- a/frlwe/keygen.go
+++ b/frlwe/keygen.go
@@ -49,11 +49,11 @@ func NewKeyGenerator(params Parameters) (keygen *KeyGenerator) {
 }
 
 func (keygen *KeyGenerator) GenSecretKey() *rlwe.SecretKey {
-	return keygen.GenSecretKey()
+	return keygen.KeyGenerator.GenSecretKey()
 }
 
 func (keygen *KeyGenerator) GenPublicKey(sk *rlwe.SecretKey) *rlwe.PublicKey {
-	return keygen.GenPublicKey(sk)
+	return keygen.KeyGenerator.GenPublicKey(sk)
 }
 
 func (keygen *KeyGenerator) polyQPToPolyTs(polyQP rlwe.PolyQP, polyTs []*ring.Poly) {
-- 
2.43.0


From 7e083eda2745b35217e17eb3e8a9587229e5a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 36/65] fix: CKKS fixed-point conversion of exactly 2^64 does
 not overflow

---
 ckks/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/utils.go b/ckks/utils.go
index 308797a..f21b1db 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -158,7 +158,7 @@ func singleFloatToFixedPointCRT(level, i int, value float64, scale float64, ring
 
 	moduli := ringQ.Modulus
 
-	if value > 1.8446744073709552e+19 {
+	if value >= 1.8446744073709552e+19 {
 		xFlo = big.NewFloat(value)
 		xFlo.Add(xFlo, big.NewFloat(0.5))
 		xInt = new(big.Int)
-- 
2.43.0


From 01364e4fd4dd29477d128fe34e608f4391787ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:14 +0000
Subject: [PATCH 37/65] fix: EncodeCoeffs clears the coefficients it does not
 set

---
 ckks/encoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 949391c..fad2da8 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -261,6 +261,11 @@ func (ecd *encoderComplex128) EncodeCoeffs(values []float64, plaintext *Plaintex
 		panic("cannot EncodeCoeffs : too many values (maximum is N)")
 	}
 	floatToFixedPointCRT(plaintext.Level(), values, plaintext.Scale, ecd.params.RingQ(), plaintext.Value.Coeffs)
+	for _, coeffs := range plaintext.Value.Coeffs {
+		for i := len(values); i < len(coeffs); i++ {
+			coeffs[i] = 0
+		}
+	}
 	ecd.params.RingQ().NTTLvl(plaintext.Level(), plaintext.Value, plaintext.Value)
 	plaintext.Value.IsNTT = true
 }
-- 
2.43.0


From e534d44e208484a12fa532169712c09ca1853de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 38/65] fix: slot encoding records that its output is in the
 NTT domain

---
 ckks/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index fad2da8..94d3c23 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -429,9 +429,11 @@ func (ecd *encoderComplex128) Embed(values interface{}, logSlots int, scale floa
 		complexToFixedPointCRT(p.P.Level(), ecd.values[:slots], scale, ecd.params.RingP(), p.P.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Q.Level(), logSlots, ecd.params.RingQ(), montgomery, p.Q)
 		NttAndMontgomeryLvl(p.P.Level(), logSlots, ecd.params.RingP(), montgomery, p.P)
+		p.Q.IsNTT, p.P.IsNTT = true, true
 	case *ring.Poly:
 		complexToFixedPointCRT(p.Level(), ecd.values[:slots], scale, ecd.params.RingQ(), p.Coeffs, isRingStandard)
 		NttAndMontgomeryLvl(p.Level(), logSlots, ecd.params.RingQ(), montgomery, p)
+		p.IsNTT = true
 	default:
 		panic("invalid polyOut.(Type) must be rlwe.PolyQP or *ring.Poly")
 	}
-- 
2.43.0


From 2c03ce75995874c239506926b1d9f600a42374de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:16 +0000
Subject: [PATCH 39/65] fix: the arbitrary-precision decoder accepts plaintexts
 outside of the NTT domain

---
 ckks/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/encoder.go b/ckks/encoder.go
index 94d3c23..424d18c 100644
--- a/ckks/encoder.go
+++ b/ckks/encoder.go
@@ -840,7 +840,11 @@ func (ecd *encoderBigComplex) decodePublic(plaintext *Plaintext, logSlots int, s
 		panic("cannot Decode: too many slots for the given ring degree")
 	}
 
-	ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	if plaintext.Value.IsNTT {
+		ecd.params.RingQ().InvNTTLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	} else {
+		ring.CopyValuesLvl(plaintext.Level(), plaintext.Value, ecd.polypool)
+	}
 
 	if sigma != 0 {
 		// B = floor(sigma * sqrt(2*pi))
-- 
2.43.0


From 4107e1dde3df87cb2980bdcfc0fff3849cda1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 40/65] fix: encoding a few slots does not use the NTT below
 its minimum degree

---
 ckks/utils.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ckks/utils.go b/ckks/utils.go
index f21b1db..f788ef5 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -68,6 +68,26 @@ func NttAndMontgomeryLvl(level int, logSlots int, ringQ *ring.Ring, montgomery b
 
 		N := ringQ.N
 		gap := N / n
+
+		// The NTT requires at least 16 coefficients
+		if n < 16 {
+			for i := 0; i < level+1; i++ {
+				coeffs := pol.Coeffs[i]
+				for j := n - 1; j >= 0; j-- {
+					c := coeffs[j]
+					for w := 1; w < gap; w++ {
+						coeffs[j*gap+w] = 0
+					}
+					coeffs[j*gap] = c
+				}
+			}
+			ringQ.NTTLvl(level, pol, pol)
+			if montgomery {
+				ringQ.MFormLvl(level, pol, pol)
+			}
+			return
+		}
+
 		for i := 0; i < level+1; i++ {
 
 			coeffs := pol.Coeffs[i]
-- 
2.43.0


From 0558664c2b8626bb0e674c48d81d84a738e673c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 41/65] fix: the unrolled FFT of 8 values does not write beyond
 them

---
 ckks/ckks_vector_ops.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ckks/ckks_vector_ops.go b/ckks/ckks_vector_ops.go
index b967528..6729a85 100644
--- a/ckks/ckks_vector_ops.go
+++ b/ckks/ckks_vector_ops.go
@@ -68,6 +68,12 @@ func SpecialFFTVec(values []complex128, N, M int, rotGroup []int, roots []comple
 // SpecialFFTUL8Vec performs the CKKS special FFT transform in place with unrolled loops of size 8.
 func SpecialFFTUL8Vec(values []complex128, N, M int, rotGroup []int, roots []complex128) {
 
+	// The unrolled loops process 16 values at a time
+	if N < 16 {
+		SpecialFFTVec(values, N, M, rotGroup, roots)
+		return
+	}
+
 	SliceBitReverseInPlaceComplex128(values, N)
 
 	logN := int(bits.Len64(uint64(N))) - 1
@@ -231,6 +237,12 @@ func SpecialFFTUL8Vec(values []complex128, N, M int, rotGroup []int, roots []com
 // SpecialiFFTUL8Vec performs the CKKS special inverse FFT transform in place with unrolled loops of size 8.
 func SpecialiFFTUL8Vec(values []complex128, N, M int, rotGroup []int, roots []complex128) {
 
+	// The unrolled loops process 16 values at a time
+	if N < 16 {
+		SpecialiFFTVec(values, N, M, rotGroup, roots)
+		return
+	}
+
 	logN := int(bits.Len64(uint64(N))) - 1
 	logM := int(bits.Len64(uint64(M))) - 1
 
-- 
2.43.0


From 060fafc1afbcb232103609413f3f3ca5efde4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 42/65] fix: MulRelin reduces the key switched part before
 adding it

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 546ef6e..1bd9f65 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1195,8 +1195,8 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 			eval.RingQ().InvNTTLvl(level, c2, c2)
 			eval.SwitchKeysInPlace(level, c2, eval.rlk.Keys[0], eval.Pool[1].Q, eval.Pool[2].Q)
 
-			ringQ.NTTLazyLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
-			ringQ.NTTLazyLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
+			ringQ.NTTLvl(level, eval.Pool[1].Q, eval.Pool[1].Q)
+			ringQ.NTTLvl(level, eval.Pool[2].Q, eval.Pool[2].Q)
 
 			ringQ.AddLvl(level, c0, eval.Pool[1].Q, ctOut.Value[0])
 			ringQ.AddLvl(level, c1, eval.Pool[2].Q, ctOut.Value[1])
-- 
2.43.0


From 3d6179b91ffba7449af886090dce1d279f9980aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 43/65] fix: Rotate and Conjugate can be evaluated in place

---
 ckks/evaluator.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 1bd9f65..2111c95 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1454,16 +1454,18 @@ func (eval *evaluator) permuteNTT(ct0 *Ciphertext, galEl uint64, ctOut *Cipherte
 	}
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	c1 := eval.poolQMul[0]
 	pool2Q := eval.Pool[1].Q
 	pool3Q := eval.Pool[2].Q
 	ringQ := eval.params.RingQ()
 
-	ringQ.InvNTTLvl(level, ct0.Value[1], pool2Q)
-	pool2Q.IsNTT = false
-	eval.SwitchKeysInPlace(level, pool2Q, rtk, ctOut.Value[0], ctOut.Value[1])
+	// ctOut can be ct0: it is not written before ct0 is read
+	ringQ.InvNTTLvl(level, ct0.Value[1], c1)
+	c1.IsNTT = false
+	eval.SwitchKeysInPlace(level, c1, rtk, pool2Q, pool3Q)
 
-	ringQ.NTTLvl(level, ctOut.Value[0], pool2Q)
-	ringQ.NTTLvl(level, ctOut.Value[1], pool3Q)
+	ringQ.NTTLvl(level, pool2Q, pool2Q)
+	ringQ.NTTLvl(level, pool3Q, pool3Q)
 
 	ringQ.AddLvl(level, pool2Q, ct0.Value[0], pool2Q)
 
-- 
2.43.0


From 2408d0de6f2f594c999e7c4066cdfacc5cb23749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 44/65] fix: MulAndAdd adds both cross products

---
 ckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 2111c95..b902286 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1296,7 +1296,7 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[0], c0) // c0 = c[0]*c[0]
 		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
-		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c00, tmp1.Value[1], c1) // c1 = c[0]*c[1]
+		ringQ.MulCoeffsMontgomeryAndAddLvl(level, c01, tmp1.Value[0], c1) // c1 = c[0]*c[1]
 
 		if relin {
 			c2.IsNTT = true
-- 
2.43.0


From c6baee28151ddaff814538e2d73a8d5a80781e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 45/65] fix: multiplying into a receiver of a larger degree
 discards its other parts

---
 ckks/evaluator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index b902286..1ab1c19 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1144,6 +1144,13 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 	ctOut.Scale = op0.ScalingFactor() * op1.ScalingFactor()
 
+	// Discards the parts of the receiver beyond the degree of the result
+	if degree := op0.Degree() + op1.Degree(); relin && ctOut.Degree() > 1 {
+		ctOut.El().Resize(eval.params.Parameters, 1)
+	} else if ctOut.Degree() > degree {
+		ctOut.El().Resize(eval.params.Parameters, degree)
+	}
+
 	ringQ := eval.params.RingQ()
 
 	var c00, c01, c0, c1, c2 *ring.Poly
-- 
2.43.0


From 40137711f65c8c27176c71e2a554ce7f314e4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 46/65] fix: MultByiNew and DivByiNew keep the degree of their
 operand

---
 ckks/evaluator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 1ab1c19..9516d7b 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -850,7 +850,7 @@ func (eval *evaluator) MultByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.MultByi(ct0, ctOut)
 	return ctOut
 }
@@ -902,7 +902,7 @@ func (eval *evaluator) DivByiNew(ct0 *Ciphertext) (ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
-	ctOut = NewCiphertext(eval.params, 1, ct0.Level(), ct0.Scale)
+	ctOut = NewCiphertext(eval.params, ct0.Degree(), ct0.Level(), ct0.Scale)
 	eval.DivByi(ct0, ctOut)
 	return
 }
-- 
2.43.0


From a71db2c4512ffb11af7680c791e48089c4a2fe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 47/65] fix: Rescale stops at level 0 and rejects a receiver of
 another level

---
 ckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 9516d7b..d125d08 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1071,12 +1071,16 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
 
+	if ctOut.Level() != ctIn.Level() {
+		return errors.New("cannot Rescale: ctIn.Level() != ctOut.Level()")
+	}
+
 	ctOut.Scale = ctIn.Scale
 
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From f00d4a88925445d5fe205dbadeb2bfb8b1c96c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 48/65] fix: SetScale takes the ratio of the scales into
 account when rescaling

---
 ckks/evaluator.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index d125d08..1a5c3ec 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -964,7 +964,9 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
-	eval.MultByConst(ct, scale/ct.Scale, ct)
+	ratio := scale / ct.Scale
+	eval.MultByConst(ct, ratio, ct)
+	ct.Scale *= ratio
 	if err := eval.Rescale(ct, scale, ct); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From dd3894323c0feedb68ce8c0e8201ab9eacc0e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:14 +0000
Subject: [PATCH 49/65] fix: int64 Gaussian integers are reduced modulo each
 prime

---
 ckks/utils.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ckks/utils.go b/ckks/utils.go
index f788ef5..35193d7 100644
--- a/ckks/utils.go
+++ b/ckks/utils.go
@@ -119,12 +119,11 @@ func interfaceMod(x interface{}, qi uint64) uint64 {
 
 	case int64:
 
-		if x > 0 {
-			return uint64(x)
-		} else if x < 0 {
-			return uint64(int64(qi) + x%int64(qi))
+		if r := x % int64(qi); r < 0 {
+			return uint64(r + int64(qi))
+		} else {
+			return uint64(r)
 		}
-		return 0
 
 	case *big.Int:
 
-- 
2.43.0


From bd6797e8c83ff76d3586462e5f1d3921d116999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 50/65] fix: unary operations leave no stale levels or parts in
 their receiver

---
 ckks/evaluator.go | 52 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 1a5c3ec..6612722 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -351,11 +351,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 		} else if c1Scale > c0Scale && math.Floor(c1Scale/c0Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{c0.El(), c0Scale})
 
 			ctOut.SetScalingFactor(c1Scale)
 
@@ -374,11 +374,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 		} else if c0Scale > c1Scale && math.Floor(c0Scale/c1Scale) > 1 {
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{ctOut.El(), ctOutScale})
 
 			ctOut.SetScalingFactor(c0Scale)
 
@@ -397,7 +397,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp0 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
+			eval.multByConst(&Ciphertext{c0.El(), c0Scale}, math.Floor(c1Scale/c0Scale), &Ciphertext{tmp0, ctOutScale})
 
 			tmp1 = c1.El()
 
@@ -405,7 +405,7 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 
 			tmp1 = eval.ctxpool.El()
 
-			eval.MultByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
+			eval.multByConst(&Ciphertext{c1.El(), c1Scale}, math.Floor(c0Scale/c1Scale), &Ciphertext{tmp1, ctOutScale})
 
 			tmp0 = c0.El()
 
@@ -435,6 +435,17 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 	}
 }
 
+// matchReceiver discards the levels and parts of ctOut that ct0 does not have, which an operation
+// from ct0 to ctOut leaves unwritten.
+func (eval *evaluator) matchReceiver(ct0, ctOut *Ciphertext) {
+	if ctOut.Degree() > ct0.Degree() {
+		ctOut.El().Resize(eval.params.Parameters, ct0.Degree())
+	}
+	if ctOut.Level() > ct0.Level() {
+		eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
+	}
+}
+
 // Neg negates the value of ct0 and returns the result in ctOut.
 func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 
@@ -444,6 +455,8 @@ func (eval *evaluator) Neg(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("cannot Negate: invalid receiver Ciphertext does not match input Ciphertext degree")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	for i := range ct0.Value {
 		eval.params.RingQ().NegLvl(level, ct0.Value[i], ctOut.Value[i])
 	}
@@ -528,6 +541,8 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 // AddConst adds the input constant (which can be a uint64, int64, float64 or complex128) to ct0 and returns the result in ctOut.
 func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
+	eval.matchReceiver(ct0, ctOut)
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	var scaledConst, scaledConstReal, scaledConstImag, qi uint64
 
@@ -687,6 +702,11 @@ func (eval *evaluator) MultByConstNew(ct0 *Ciphertext, constant interface{}) (ct
 // The scale of the output element will depend on the scale of the input element and the constant (if the constant
 // needs to be scaled (its rational part is not zero)). The constant can be a uint64, int64, float64 or complex128.
 func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
+	eval.matchReceiver(ct0, ctOut)
+	eval.multByConst(ct0, constant, ctOut)
+}
+
+func (eval *evaluator) multByConst(ct0 *Ciphertext, constant interface{}, ctOut *Ciphertext) {
 
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
@@ -746,6 +766,8 @@ func (eval *evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 // Accepted types for cReal and cImag are uint64, int64 and big.Int.
 func (eval *evaluator) MultByGaussianInteger(ct0 *Ciphertext, cReal, cImag interface{}, ctOut *Ciphertext) {
 
+	eval.matchReceiver(ct0, ctOut)
+
 	ringQ := eval.params.RingQ()
 
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
@@ -799,6 +821,10 @@ func (eval *evaluator) MultByGaussianIntegerAndAdd(ct0 *Ciphertext, cReal, cImag
 
 	ringQ := eval.params.RingQ()
 
+	if ctOut.Level() > ct0.Level() {
+		eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
+	}
+
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 
@@ -863,6 +889,8 @@ func (eval *evaluator) MultByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("method MultByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	ctOut.Scale = ct0.Scale
 
@@ -915,6 +943,8 @@ func (eval *evaluator) DivByi(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("method DivByi is not supported when params.RingType() == ring.ConjugateInvariant")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 
 	ringQ := eval.params.RingQ()
@@ -982,6 +1012,8 @@ func (eval *evaluator) MulByPow2New(ct0 *Ciphertext, pow2 int) (ctOut *Ciphertex
 
 // MulByPow2 multiplies ct0 by 2^pow2 and returns the result in ctOut.
 func (eval *evaluator) MulByPow2(ct0 *Ciphertext, pow2 int, ctOut *Ciphertext) {
+	eval.matchReceiver(ct0, ctOut)
+
 	var level = utils.MinInt(ct0.Level(), ctOut.Level())
 	ctOut.Scale = ct0.Scale
 	for i := range ctOut.Value {
@@ -1008,6 +1040,8 @@ func (eval *evaluator) Reduce(ct0 *Ciphertext, ctOut *Ciphertext) error {
 		return errors.New("cannot Reduce: degrees of receiver Ciphertext and input Ciphertext do not match")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	for i := range ct0.Value {
 		eval.params.RingQ().ReduceLvl(utils.MinInt(ct0.Level(), ctOut.Level()), ct0.Value[i], ctOut.Value[i])
 	}
@@ -1389,6 +1423,8 @@ func (eval *evaluator) SwitchKeys(ct0 *Ciphertext, switchingKey *rlwe.SwitchingK
 		panic("cannot SwitchKeys: input and output Ciphertext must be of degree 1")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	level := utils.MinInt(ct0.Level(), ctOut.Level())
 	ringQ := eval.params.RingQ()
 
@@ -1416,6 +1452,8 @@ func (eval *evaluator) Rotate(ct0 *Ciphertext, k int, ctOut *Ciphertext) {
 		panic("cannot Rotate: input and output Ciphertext must be of degree 1")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	if k == 0 {
 		ctOut.Copy(ct0)
 	} else {
@@ -1454,6 +1492,8 @@ func (eval *evaluator) Conjugate(ct0 *Ciphertext, ctOut *Ciphertext) {
 		panic("input and output Ciphertext must be of degree 1")
 	}
 
+	eval.matchReceiver(ct0, ctOut)
+
 	galEl := eval.params.GaloisElementForRowRotation()
 	ctOut.Scale = ct0.Scale
 	eval.permuteNTT(ct0, galEl, ctOut)
-- 
2.43.0


From 649d8cb503977d8d7f9d3e7053d6b68f2cc780b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 51/65] fix: AddConst writes all parts of its receiver

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 6612722..1e244ae 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -581,6 +581,11 @@ func (eval *evaluator) AddConst(ct0 *Ciphertext, constant interface{}, ctOut *Ci
 
 		ring.AddScalarVec(p0tmp[ringQ.N>>1:], p1tmp[ringQ.N>>1:], scaledConst, qi)
 	}
+
+	// The other parts are unchanged
+	for i := range ct0.Value[1:] {
+		ring.CopyValuesLvl(level, ct0.Value[i+1], ctOut.Value[i+1])
+	}
 }
 
 // MultByConstAndAdd multiplies ct0 by the input constant, and adds it to the receiver element (it does not modify the input
-- 
2.43.0


From 383526f4438da035bbd088a48ae76ec82de39883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 52/65] fix: fckks SwitchKeys accepts ciphertexts in the NTT
 domain

---
 fckks/evaluator.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index eb99bcf..da7ccd0 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -102,7 +102,18 @@ func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingK
 
 	ctOut.Scale = ct0.Scale
 
-	eval.ksw.SwitchKey(level, ct0.Value[1], swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+	c1 := ct0.Value[1]
+	if c1.IsNTT {
+		ringQ.InvNTTLvl(level, c1, eval.polyQPool[0])
+		c1 = eval.polyQPool[0]
+	}
+
+	eval.ksw.SwitchKey(level, c1, swk[0], swk[1], eval.polyQPool[1], eval.polyQPool[2])
+
+	if ct0.Value[1].IsNTT {
+		ringQ.NTTLvl(level, eval.polyQPool[1], eval.polyQPool[1])
+		ringQ.NTTLvl(level, eval.polyQPool[2], eval.polyQPool[2])
+	}
 
 	ringQ.AddLvl(level, ct0.Value[0], eval.polyQPool[1], ctOut.Value[0])
 	ring.CopyValuesLvl(level, eval.polyQPool[2], ctOut.Value[1])
-- 
2.43.0


From eea5a8bf89cb7b8e076437af54690804fb9e67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 53/65] fix: fckks DecryptToMsg does not keep the level of an
 earlier ciphertext

---
 fckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fckks/decryptor.go b/fckks/decryptor.go
index a1e1227..b7ca272 100644
--- a/fckks/decryptor.go
+++ b/fckks/decryptor.go
@@ -27,6 +27,8 @@ func (dec *Decryptor) Decrypt(ctIn *ckks.Ciphertext, ptOut *ckks.Plaintext) {
 }
 
 func (dec *Decryptor) DecryptToMsg(ctIn *ckks.Ciphertext, msgOut *Message) {
+	// Decrypting at a lower level has shortened the plaintext
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:dec.params.MaxLevel()+1]
 	dec.Decrypt(ctIn, dec.ptxtPool)
 	msgOut.Value = dec.encoder.Decode(dec.ptxtPool, dec.params.LogSlots())
 }
-- 
2.43.0


From 037989bdde1f9dc6fed61d0e43add1446020741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 54/65] fix: fckks Rotate sets the level and scale of its
 receiver

---
 fckks/evaluator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index da7ccd0..99bf8b4 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -77,6 +77,12 @@ func (eval *Evaluator) RotateNew(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey)
 
 func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctOut *ckks.Ciphertext) {
 
+	if ctOut.Level() > ctIn.Level() {
+		eval.DropLevel(ctOut, ctOut.Level()-ctIn.Level())
+	}
+
+	ctOut.Scale = ctIn.Scale
+
 	ringQ := eval.params.RingQ()
 
 	ringQ.InvNTTLvl(ctOut.Level(), ctIn.Value[1], eval.polyQPool[0])
-- 
2.43.0


From af3b462ecb3d8c2edf27eb4694af6876ba4139a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 55/65] fix: fckks SwitchKeys leaves no stale levels in its
 receiver

---
 fckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fckks/evaluator.go b/fckks/evaluator.go
index 99bf8b4..0fc04de 100644
--- a/fckks/evaluator.go
+++ b/fckks/evaluator.go
@@ -103,7 +103,11 @@ func (eval *Evaluator) Rotate(ctIn *ckks.Ciphertext, rtk *frlwe.RotationKey, ctO
 
 func (eval *Evaluator) SwitchKeys(ct0 *ckks.Ciphertext, swk [2]*frlwe.SwitchingKey, ctOut *ckks.Ciphertext) {
 
-	level := utils.MinInt(ct0.Level(), ctOut.Level())
+	if ctOut.Level() > ct0.Level() {
+		eval.DropLevel(ctOut, ctOut.Level()-ct0.Level())
+	}
+
+	level := ctOut.Level()
 	ringQ := eval.params.RingQ()
 
 	ctOut.Scale = ct0.Scale
-- 
2.43.0


From 6a8ffc7c2f7de3f6b143e3bce205539cf1bbe364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 56/65] fix: integer constants of 2^63 and more are integers

---
 ckks/evaluator.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 1e244ae..db1000e 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -488,8 +488,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -497,8 +496,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
+			valueFloat := cImag - math.Trunc(cImag)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
@@ -510,8 +508,7 @@ func (eval *evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
+			valueFloat := cReal - math.Trunc(cReal)
 
 			if valueFloat != 0 {
 				scale = float64(eval.params.RingQ().Modulus[level])
-- 
2.43.0


From cdf3ff66800a95f05b3ae0723b510f88a27def3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 57/65] fix: NewAdditiveShare allocates a share at the maximum
 level, as documented

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index 7ff5fe6..d49e254 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -47,7 +47,7 @@ type AdditiveShareBigint struct {
 // NewAdditiveShare instantiate a new additive share struct for the ring defined
 // by the given parameters at maximum level.
 func NewAdditiveShare(params Parameters) *AdditiveShare {
-	return &AdditiveShare{Value: *ring.NewPoly(params.N(), 1)}
+	return &AdditiveShare{Value: *ring.NewPoly(params.N(), params.QCount())}
 }
 
 // NewAdditiveShareAtLevel instantiate a new additive share struct for the ring defined
-- 
2.43.0


From 9df8257f9fb7e38dfa6d0e5fc48d66e9f211c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 58/65] fix: PopulateElementRandom samples at the level of the
 element

---
 rlwe/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlwe/elements.go b/rlwe/elements.go
index d49e254..cd43b65 100644
--- a/rlwe/elements.go
+++ b/rlwe/elements.go
@@ -261,6 +261,6 @@ func GetSmallestLargest(el0, el1 *Ciphertext) (smallest, largest *Ciphertext, sa
 func PopulateElementRandom(prng utils.PRNG, params Parameters, el *Ciphertext) {
 	sampler := ring.NewUniformSampler(prng, params.RingQ())
 	for i := range el.Value {
-		sampler.Read(el.Value[i])
+		sampler.ReadLvl(el.Value[i].Level(), el.Value[i])
 	}
 }
-- 
2.43.0


From 9b616a68450bc3f5404d6fbb900ce1c53d6f715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 59/65] fix: ckks.NewCiphertextRandom returns a ciphertext in
 the NTT domain, like NewCiphertext

---
 ckks/ciphertext.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ckks/ciphertext.go b/ckks/ciphertext.go
index 04cc722..4035199 100644
--- a/ckks/ciphertext.go
+++ b/ckks/ciphertext.go
@@ -44,7 +44,11 @@ func NewCiphertext(params Parameters, degree, level int, scale float64) (ciphert
 
 // NewCiphertextRandom generates a new uniformly distributed Ciphertext of degree, level and scale.
 func NewCiphertextRandom(prng utils.PRNG, params Parameters, degree, level int, scale float64) (ciphertext *Ciphertext) {
-	return &Ciphertext{rlwe.NewCiphertextRandom(prng, params.Parameters, degree, level), scale}
+	ciphertext = &Ciphertext{rlwe.NewCiphertextRandom(prng, params.Parameters, degree, level), scale}
+	for i := range ciphertext.Value {
+		ciphertext.Value[i].IsNTT = true
+	}
+	return
 }
 
 // NewCiphertextAtLevelFromPoly construct a new Ciphetext at a specific level
-- 
2.43.0


From 21f1922a1fe07a43ff9f9d78891f0b9ce0dc65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 60/65] fix: a refused multiplication (degree, missing
 relinearization key) leaves an operand used as receiver unchanged

---
 ckks/evaluator.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index db1000e..049ed43 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1174,16 +1174,20 @@ func (eval *evaluator) mulRelin(op0, op1 Operand, relin bool, ctOut *Ciphertext)
 
 	eval.checkBinary(op0, op1, ctOut, utils.MaxInt(op0.Degree(), op1.Degree()))
 
+	if op0.Degree() > 1 || op1.Degree() > 1 {
+		panic("cannot MulRelin: input elements must be of degree 0 or 1")
+	}
+
+	if relin && op0.Degree()+op1.Degree() == 2 && eval.rlk == nil {
+		panic("cannot MulRelin: the evaluator was not created with a relinearization key")
+	}
+
 	level := utils.MinInt(utils.MinInt(op0.Level(), op1.Level()), ctOut.Level())
 
 	if ctOut.Level() > level {
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
-	if op0.Degree() > 1 || op1.Degree() > 1 {
-		panic("cannot MulRelin: input elements must be of degree 0 or 1")
-	}
-
 	ctOut.Scale = op0.ScalingFactor() * op1.ScalingFactor()
 
 	// Discards the parts of the receiver beyond the degree of the result
@@ -1293,16 +1297,20 @@ func (eval *evaluator) mulRelinAndAdd(op0, op1 Operand, relin bool, ctOut *Ciphe
 
 	eval.checkBinary(op0, op1, ctOut, utils.MaxInt(op0.Degree(), op1.Degree()))
 
+	if op0.Degree() > 1 || op1.Degree() > 1 {
+		panic("cannot MulRelinAndAdd: input elements must be of degree 0 or 1")
+	}
+
+	if relin && op0.Degree()+op1.Degree() == 2 && eval.rlk == nil {
+		panic("cannot MulRelinAndAdd: the evaluator was not created with a relinearization key")
+	}
+
 	level := utils.MinInt(utils.MinInt(op0.Level(), op1.Level()), ctOut.Level())
 
 	if ctOut.Level() > level {
 		eval.DropLevel(ctOut, ctOut.Level()-level)
 	}
 
-	if op0.Degree() > 1 || op1.Degree() > 1 {
-		panic("cannot MulRelinAndAdd: input elements must be of degree 0 or 1")
-	}
-
 	resScale := op0.ScalingFactor() * op1.ScalingFactor()
 
 	if ctOut.Scale < resScale {
-- 
2.43.0


From 2f958c75132997a2bb044e7b61c77ac68bcbca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:57 +0000
Subject: [PATCH 61/65] fix: SetScale refuses a ciphertext of level 0 before
 modifying it

---
 ckks/evaluator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 049ed43..90093d5 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -996,6 +996,9 @@ func (eval *evaluator) ScaleUp(ct0 *Ciphertext, scale float64, ctOut *Ciphertext
 
 // SetScale sets the scale of the ciphertext to the input scale (consumes a level)
 func (eval *evaluator) SetScale(ct *Ciphertext, scale float64) {
+	if ct.Level() == 0 {
+		panic("cannot SetScale: input Ciphertext already at level 0")
+	}
 	ratio := scale / ct.Scale
 	eval.MultByConst(ct, ratio, ct)
 	ct.Scale *= ratio
-- 
2.43.0


From 2128db59685cac53785badbf7610ba2cb704ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 62/65] fix: Rescale returns the documented error for a
 ciphertext outside the NTT domain

---
 ckks/evaluator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index 90093d5..dbfd70d 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -1108,6 +1108,12 @@ func (eval *evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		return errors.New("cannot Rescale: input Ciphertext already at level 0")
 	}
 
+	for _, pol := range ctIn.Value {
+		if !pol.IsNTT {
+			return errors.New("cannot Rescale: input Ciphertext must be in NTT")
+		}
+	}
+
 	if ctOut.Degree() != ctIn.Degree() {
 		return errors.New("cannot Rescale : ctIn.Degree() != ctOut.Degree()")
 	}
-- 
2.43.0


From 185fb94ced34cf3f52982fee21e9bf6bcf071b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 63/65] fix: additions of ciphertexts of degree 3 and more with
 different scales do not exceed the pool

---
 ckks/evaluator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ckks/evaluator.go b/ckks/evaluator.go
index dbfd70d..8c29e21 100644
--- a/ckks/evaluator.go
+++ b/ckks/evaluator.go
@@ -334,6 +334,11 @@ func (eval *evaluator) evaluateInPlace(c0, c1, ctOut Operand, evaluate func(int,
 	// Else resizes the receiver element
 	ctOut.El().Resize(eval.params.Parameters, maxDegree)
 
+	// The scaled operand needs as many parts in the pool
+	if eval.ctxpool.Degree() < maxDegree {
+		eval.ctxpool.El().Resize(eval.params.Parameters, maxDegree)
+	}
+
 	c0Scale := c0.ScalingFactor()
 	c1Scale := c1.ScalingFactor()
 	ctOutScale := ctOut.ScalingFactor()
-- 
2.43.0


From 3e3db8befb69bfe1f5d1f9412da692bc4b32417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:40 +0000
Subject: [PATCH 64/65] fix: basis extension and decomposition accept more than
 32 moduli (up to 100 are valid)

---
 ring/ring_basis_extension.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ring/ring_basis_extension.go b/ring/ring_basis_extension.go
index fd5cb1f..46f130d 100644
--- a/ring/ring_basis_extension.go
+++ b/ring/ring_basis_extension.go
@@ -277,11 +277,14 @@ func (be *BasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1P, p2P *Poly) {
 	// In total we do len(P) + len(Q) NTT, which is optimal (linear in the number of moduli of P and Q)
 }
 
+// maxModuli is the largest number of moduli of a basis that can be extended (no less than rlwe.MaxModuliCount).
+const maxModuli = 128
+
 // Caution, returns the values in [0, 2q-1]
 func modUpExact(p1, p2 [][]uint64, ringQ, ringP *Ring, params modupParams) {
 
 	var v [8]uint64
-	var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+	var y0, y1, y2, y3, y4, y5, y6, y7 [maxModuli]uint64
 
 	Q := ringQ.Modulus
 	P := ringP.Modulus
@@ -401,7 +404,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 
 		var v [8]uint64
 		var vi [8]float64
-		var y0, y1, y2, y3, y4, y5, y6, y7 [32]uint64
+		var y0, y1, y2, y3, y4, y5, y6, y7 [maxModuli]uint64
 
 		Q := ringQ.Modulus
 		P := ringP.Modulus
@@ -478,7 +481,7 @@ func (decomposer *Decomposer) DecomposeAndSplit(levelQ, levelP, alpha, beta int,
 	}
 }
 
-func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, Q, QInv, QbMont []uint64) {
+func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxModuli]uint64, Q, QInv, QbMont []uint64) {
 
 	var vi [8]float64
 	var qi, qiInv, qoverqiinvqi uint64
@@ -523,7 +526,7 @@ func reconstructRNS(index, x int, p [][]uint64, v *[8]uint64, y0, y1, y2, y3, y4
 }
 
 // Caution, returns the values in [0, 2q-1]
-func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
+func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[maxModuli]uint64, alpha int, pj, qInv uint64, vtimesqmodp, qoverqimodp []uint64) {
 
 	var rlo, rhi [8]uint64
 	var mhi, mlo, c, hhi uint64
@@ -562,6 +565,13 @@ func multSum(res, v *[8]uint64, y0, y1, y2, y3, y4, y5, y6, y7 *[32]uint64, alph
 		mhi, mlo = bits.Mul64(y7[i], qoverqimodp[i])
 		rlo[7], c = bits.Add64(rlo[7], mlo, 0)
 		rhi[7] += mhi + c
+
+		// Prevents the overflow of the upper words
+		if i&31 == 31 {
+			for k := range rhi {
+				rhi[k] %= pj
+			}
+		}
 	}
 
 	hhi, _ = bits.Mul64(rlo[0]*qInv, pj)
-- 
2.43.0


From 9257e71263de2ab10b7685bde2142f428135b4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:44 +0000
Subject: [PATCH 65/65] fix: products of complex numbers do not keep the
 precision of earlier operands

---
 ring/complex128.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ring/complex128.go b/ring/complex128.go
index 4743125..6904385 100644
--- a/ring/complex128.go
+++ b/ring/complex128.go
@@ -143,9 +143,19 @@ func NewComplexMultiplier() (cEval *ComplexMultiplier) {
 	return
 }
 
+// resetPrec discards the precision of the previous operands, so that the next ones determine it.
+func (cEval *ComplexMultiplier) resetPrec() {
+	cEval.tmp0.SetPrec(0)
+	cEval.tmp1.SetPrec(0)
+	cEval.tmp2.SetPrec(0)
+	cEval.tmp3.SetPrec(0)
+}
+
 // Mul multiplies two arbitrary precision complex numbers together
 func (cEval *ComplexMultiplier) Mul(a, b, c *Complex) {
 
+	cEval.resetPrec()
+
 	cEval.tmp0.Mul(a[0], b[0])
 	cEval.tmp1.Mul(a[1], b[1])
 	cEval.tmp2.Mul(a[0], b[1])
@@ -162,6 +172,8 @@ func (cEval *ComplexMultiplier) Div(a, b, c *Complex) {
 	// tmp1 = (a[1] * b[0]) - (a[0] * b[0]) imag part
 	// tmp2 = (b[0] * b[0]) + (b[1] * b[1]) denominator
 
+	cEval.resetPrec()
+
 	cEval.tmp0.Mul(a[0], b[0])
 	cEval.tmp1.Mul(a[1], b[1])
 	cEval.tmp2.Mul(a[1], b[0])
-- 
2.43.0

