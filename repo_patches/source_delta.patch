From 41c58bf7fce9266d8624d159fd91831b147df0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 1/8] fix: reject a proof whose intermediate layer claims are
 inconsistent

---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From b14e4624e928547c0664af1701062d3406f66e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 2/8] fix: list each distinct gate of a layer once

---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..d02a7b7 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From c3e42406fbda4e0d7d8f2b568a46c09f39ac5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 3/8] fix: read the right input of a gate from the same copy

---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index d02a7b7..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From a624338776575f4e77c7b1e3b74d45457b809b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 4/8] fix: evaluate a table made of a single chunk

---
 polynomial/chunked.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..408f046 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -22,11 +22,10 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		panic("q and bkts sizes are not compatible")
 	}
 
-	var inp, res []BookKeepingTable
-	inp = bkts
+	inp := bkts
 	for _, q := range qs {
 		mid := len(inp) / 2
-		res = make([]BookKeepingTable, mid)
+		res := make([]BookKeepingTable, mid)
 		for k := range res {
 			// res[i] = inp[i+mid].DeepCopy()
 			res[k].Sub(inp[k+mid], inp[k], 1)
@@ -36,7 +35,7 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From 95f8b8ac72c2083b99093df3fb80d63154e930e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 5/8] fix: make the Poseidon update write back the caller's
 state

---
 hash/poseidon.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..96925c8 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -74,19 +74,19 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 	for i := 0; i < p.nRoundsF; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF; i < p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		PartialRoundInplace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF + p.nRoundsP; i < 2*p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	// Recombine with the old state
-- 
2.43.0


From 5e2915e30e1e15fe1c04f0a16c5aa5f0035660d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 6/8] fix: make the initial GKR claim depend on every output

---
 gkr/prover.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gkr/prover.go b/gkr/prover.go
index 6580e60..8bf97cf 100644
--- a/gkr/prover.go
+++ b/gkr/prover.go
@@ -40,12 +40,14 @@ func GetInitialQPrimeAndQ(bN, bG int) ([]fr.Element, []fr.Element) {
 
 	// actually compute qInitial and qPrimeInitial
 	// TODO: Uses actual randomness
+	// The coordinates must be neither 0 nor 1, otherwise the initial
+	// claim would not depend on every output
 	for i := range q {
-		q[i].SetUint64(uint64(i + 1))
+		q[i].SetUint64(uint64(i + 2))
 	}
 
 	for i := range qPrime {
-		qPrime[i].SetUint64(uint64(i + 1))
+		qPrime[i].SetUint64(uint64(i + 2))
 	}
 
 	return qPrime, q
-- 
2.43.0


From f551f1c7315e227f81445673a40893ea27d896dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 7/8] fix: reject malformed proofs instead of panicking

---
 gkr/verifier.go      | 22 ++++++++++++++++++++++
 sumcheck/verifier.go | 10 ++++++++++
 2 files changed, 32 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..4413b34 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -31,6 +31,11 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	if !v.hasExpectedShape(proof) {
+		// The proof has missing or extra layers, rounds or claims
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -113,6 +118,23 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// hasExpectedShape returns true if the proof has one sumcheck proof and two claims per layer
+// and if each sumcheck proof has as many rounds as there are variables
+func (v *Verifier) hasExpectedShape(proof Proof) bool {
+	nLayers := len(v.circuit.Layers)
+	if len(proof.SumcheckProofs) != nLayers ||
+		len(proof.ClaimsLeft) != nLayers ||
+		len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+	for i := range proof.SumcheckProofs {
+		if len(proof.SumcheckProofs[i].PolyCoeffs) != v.bN+2*v.circuit.Layers[i].BGInputs {
+			return false
+		}
+	}
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
diff --git a/sumcheck/verifier.go b/sumcheck/verifier.go
index 1773721..8596161 100644
--- a/sumcheck/verifier.go
+++ b/sumcheck/verifier.go
@@ -12,6 +12,11 @@ type Verifier struct{}
 
 // Verify returns true if and only the sumcheck proof is valid
 func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool, qPrime, qL, qR []fr.Element, finalClaim fr.Element) {
+	if len(proof.PolyCoeffs) < 2*bG {
+		// There are not enough rounds to bind hL and hR
+		return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
+	}
+
 	// Initalize the structures
 	challenges := make([]fr.Element, len(proof.PolyCoeffs))
 	var expectedValue fr.Element = claim
@@ -19,6 +24,11 @@ func (v Verifier) Verify(claim fr.Element, proof Proof, bN, bG int) (result bool
 	one.SetOne()
 
 	for i := 0; i < len(proof.PolyCoeffs); i++ {
+		if len(proof.PolyCoeffs[i]) == 0 {
+			// The round polynomial is missing
+			return false, nil, nil, nil, [4]uint64{0, 0, 0, 0}
+		}
+
 		// Check P_i(0) + P_i(1) == expected
 		actualValue = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], zero)
 		evalAtOne = polynomial.EvaluatePolynomial(proof.PolyCoeffs[i], one)
-- 
2.43.0


From 3dd9939a2e522ace70abc234929cd82c7e70a25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 8/8] fix: CipherGate.ID is safe for concurrent use

Element.String draws its big integers from a pool whose objects share one
backing array, so two provers or verifiers running in parallel could compute
wrong gate identities, leave wires out of the static tables and reject honest
proofs.
---
 circuit/gates.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuit/gates.go b/circuit/gates.go
index 4c80b4f..02a36a5 100644
--- a/circuit/gates.go
+++ b/circuit/gates.go
@@ -2,6 +2,7 @@ package circuit
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gurvy/bn256/fr"
@@ -152,7 +153,11 @@ func NewCipherGate(ark fr.Element) *CipherGate {
 }
 
 // ID returns the id of the cipher gate and print the ark as well
-func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%v", c.Ark.String()) }
+// The constant is converted without Ark.String(), which is not safe for concurrent use:
+// the pooled integers it goes through share memory.
+func (c *CipherGate) ID() string {
+	return fmt.Sprintf("CipherGate-%v", c.Ark.ToBigIntRegular(new(big.Int)).String())
+}
 
 // Eval returns vL + (vR + c)^7
 func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
-- 
2.43.0

