#!/usr/bin/env python3
# Source of properties.jsonl (one entry per property). Run: python3 tools/gen_properties.py
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [],hook_needed=None)))

p("C01","GKR completeness: honest proofs always verify",
 "For every layered circuit whose consecutive layers have matching widths, every field-valued input, every power-of-two number of chunks (including a single one) and every positive core count, the proof produced from the circuit's own assignment is accepted by the verifier against that assignment's inputs and outputs.",
 ["inputs","configurations","programs"],"all inputs; circuits with any mix of gates, fan-out, unused wires, duplicate gates and repeated wires; all chunkings; all core counts",
 "The tests run three circuits on fixed or sampled inputs, with R=0 or N=1 wirings and never a single chunk through the verifier; a wrong index, a missed weight or a chunk-count special case only shows for other shapes.",
 ["gkr/prover.go","gkr/verifier.go","sumcheck/par.go","sumcheck/evals.go","circuit/layers.go","circuit/circuit.go","polynomial/chunked.go","polynomial/eq.go"],
 [("layer-by-layer reduction","gkr.Prover.Prove / gkr.Verifier.Verify"),("static tables","circuit.Layer.GetStaticTable"),("round polynomials","sumcheck.accumulateEvalsOn*")],
 ["result of Verifier.Verify on Prover.Prove output"])
p("C02","GKR verifier accepts exactly when every protocol check holds",
 "For an arbitrary proof, the GKR verifier accepts if and only if, at every layer, each round polynomial's values at 0 and 1 sum to the running claim, the layer's last running claim equals the gate combination of the layer's two claims at the challenge point, the next layer's starting claim is the challenge combination of those two claims, and the first layer's two claims are the multilinear evaluations of the inputs. The first claim is the multilinear evaluation of the claimed outputs at the initial point.",
 ["inputs","fault_sequences"],"all proofs of the expected shape (every coefficient and claim arbitrary), all inputs and outputs",
 "Tests only run the verifier on honest proofs, so no rejecting path is ever exercised.",
 ["gkr/verifier.go","sumcheck/verifier.go","circuit/gates.go","polynomial/chunked.go"],
 [("verification loop","gkr.Verifier.Verify"),("static table evaluation","gkr.Verifier.evaluateStaticTables*"),("combinator","circuit.EvaluateCombinator")],
 ["result of Verifier.Verify"])
p("C03","A GKR proof is bound to the inputs and outputs it was made for",
 "A proof that verifies for some inputs and outputs stops verifying as soon as claimed outputs are altered, whatever the position altered. It also stops verifying when an input is altered, unless the verifier's final challenge gives that position zero weight in both evaluations.",
 ["inputs","fault_sequences"],"all honest inputs, all altered positions, all non-zero alterations",
 "No test ever hands the verifier a wrong output or input.",
 ["gkr/prover.go","gkr/verifier.go","polynomial/chunked.go"],
 [("initial point with no 0/1 coordinate","gkr.GetInitialQPrimeAndQ"),("output claim","gkr.Verifier.Verify"),("final input check","gkr.Verifier.Verify")],
 ["result of Verifier.Verify"])
p("C04","Sumcheck round polynomials are the true partial sums",
 "For every prover state, the evaluations and the interpolated polynomial the prover emits in a round equal, at every point of the field, the sum over the remaining boolean variables of eq times the gate combination with all earlier variables bound to their challenges. No summand is skipped, duplicated or mis-weighted, whatever entries of the tables are zero.",
 ["inputs","configurations"],"all values of the vL, vR, eq and static tables, including zeros; all gate sets; every round of each of the three phases",
 "Tests use one fixed table built from 2s and small integers, with a single gate pair and one wiring.",
 ["sumcheck/evals.go","sumcheck/prover.go","polynomial/lagrange.go"],
 [("evaluation accumulation","sumcheck.GetEvalsOnHL/HR/HPrime"),("zero skipping","staticIsNotZero in sumcheck/evals.go"),("interpolation","polynomial.InterpolateOnRange")],
 ["Proof.PolyCoeffs"])
p("C05","Honest sumcheck transcripts verify and end in the table evaluations",
 "For all tables and gate sets, the sumcheck prover's proof is accepted by the sumcheck verifier for the claim the prover computes, prover and verifier derive the same challenges in the same partition, and the prover's final claims are the multilinear evaluations of its tables at those challenges. The verifier's final value equals the gate combination of those final claims.",
 ["inputs","configurations"],"all table values and gate sets; single- and multi-threaded prover",
 "Tests check one fixed table and compare only a few values.",
 ["sumcheck/prover.go","sumcheck/par.go","sumcheck/verifier.go","sumcheck/evals.go"],
 [("prove","sumcheck.SingleThreadedProver.Prove / MultiThreadedProver.Prove"),("verify","sumcheck.Verifier.Verify")],
 ["Verify result and final claim","finalClaims"])
p("C06","Sumcheck verifier checks every round and returns the right challenges",
 "For an arbitrary proof and claim, the sumcheck verifier returns true if and only if in every round the polynomial's values at 0 and 1 sum to the running value, where the running value is the previous polynomial at its hash-derived challenge. On success it returns those challenges in round order split into left, right and copy coordinates, and the last polynomial's value at the last challenge.",
 ["inputs"],"all claims, all proofs with non-empty polynomials of any degree, all splits",
 "Tests run it on honest proofs only and ignore most returned values.",
 ["sumcheck/verifier.go","polynomial/lagrange.go","common/challenge.go"],
 [("round loop","sumcheck.Verifier.Verify")],["result, qPrime, qL, qR, finalClaim"])
p("C07","Multi-threaded proving equals single-threaded proving",
 "For every table content, every power-of-two number of chunks, every positive core count and every order in which workers deliver their results, the multi-threaded prover returns the same proof, challenges and final claims as the single-threaded prover on the unchunked tables.",
 ["schedules","inputs","configurations"],"all tables, chunk counts, core counts and message arrival orders",
 "The test compares one fixed table under whatever schedule the runtime picks.",
 ["sumcheck/par.go","sumcheck/prover.go"],
 [("fan-in","sumcheck.ConsumeAccumulate, ConsumeMergeProvers"),("fan-out","sumcheck.Broadcast, RunForChunk")],
 ["return values of Prove"])
p("C08","Concurrent operations never deadlock, race or misuse channels",
 "In every interleaving, circuit evaluation, table copying, chunked table arithmetic, multi-threaded proving and claim computation run to completion without deadlock, without sending on or closing a closed channel, and without two goroutines accessing the same memory unsynchronised with at least one write. At no time do more goroutines hold a semaphore than it was created for.",
 ["schedules","configurations"],"all interleavings, for stated chunk and core counts",
 "Tests see the few schedules the runtime produces and run without the race detector.",
 ["sumcheck/par.go","circuit/layers.go","circuit/circuit.go","polynomial/book_keeping.go","common/semaphore.go"],
 [("semaphore","common.Semaphore"),("channels","sumcheck.MultiThreadedProver.Prove"),("wait groups","circuit.Layer.Evaluate, BookKeepingTable.Sub/Mul")],
 ["termination","race freedom"])
p("C09","GetClaim is the sum over the whole hypercube",
 "For all tables and gate sets, the claim computed by the single-threaded prover, and by the multi-threaded prover for every chunking, core count and arrival order, equals the sum over all boolean points of eq times the gate combination weighted by the static tables. Computing it leaves the prover able to prove as before.",
 ["inputs","configurations","schedules"],"all table values including zeros, all chunk counts",
 "Tests compare one fixed table value.",
 ["sumcheck/evals.go","sumcheck/par.go"],
 [("claim","sumcheck.GetClaim, GetClaimForChunk")],["GetClaim result"])
p("C10","Folding and evaluating a table is multilinear extension",
 "For every table of size a power of two and every point, folding binds the first remaining variable, and full evaluation returns the multilinear extension of the table at that point; the left/right evaluation returns the extensions at (left, copy) and (right, copy). Evaluation and deep copy never change the table they are given, and a deep copy shares no memory with it.",
 ["inputs"],"all table values and all points, tables of up to 2^5 entries, coordinate slices sharing backing arrays",
 "The tests fold one or two tables at one point.",
 ["polynomial/book_keeping.go"],
 [("fold","BookKeepingTable.Fold"),("evaluate","BookKeepingTable.Evaluate, EvaluateLeftAndRight, DeepCopy, FunctionEvals, InterleavedChunk")],
 ["returned values","input tables after the call"])
p("C11","All forms of the eq polynomial agree",
 "For every point q, the folded eq table holds the product of q_i or 1-q_i for each boolean index, evaluating it at h equals the closed-form eq(q,h), which is symmetric and is 1 or 0 on equal or different boolean points. The chunked eq table is the interleaved split of the unchunked one for every chunk and core count.",
 ["inputs","configurations"],"all points, up to 5 variables, all chunk counts",
 "The test covers fixed sizes at one random point.",
 ["polynomial/eq.go"],[("eq tables","GetFoldedEqTable, GetChunkedEqTable, EvalEq")],["table entries"])
p("C12","Chunked evaluation equals unchunked evaluation",
 "For every table and point and every power-of-two number of chunks from one up to the size of the copy dimension, evaluating the interleaved chunks equals evaluating the whole table, for plain and for left/right evaluation. The chunks are not modified and incompatible chunk counts are refused by panicking.",
 ["inputs","configurations"],"all values, points, chunk counts 1, 2, 4, 8",
 "The test uses one size and several chunks, never one.",
 ["polynomial/chunked.go"],[("recombination","chunkedEvalRecombine, EvaluateChunked, EvaluateMixedChunked")],["returned values"])
p("C13","Interpolation and polynomial evaluation are exact",
 "For every supported domain size n from 1 to 12 and all values, the interpolated polynomial has n coefficients and takes the i-th value at i for every i below n, and interpolating a polynomial's values returns its coefficients. Polynomial evaluation equals the sum of coefficient times power for every point.",
 ["inputs","configurations"],"all values for each domain size 1..12; all coefficient vectors up to 13 terms; all points",
 "The test prints or checks a single domain size.",
 ["polynomial/lagrange.go"],[("Lagrange tables","LagrangeCoefficient, GetLagrangePolynomial"),("interpolation","InterpolateOnRange"),("Horner","EvaluatePolynomial")],["coefficients and values"])
p("C14","Each gate's evaluators, batch forms, circuit form and degrees agree",
 "For every gate and all operands, the single, many-left, many-right and constraint-system evaluations compute the same function: sum, product, left copy, or left plus seventh power of right plus the gate's constant. The declared degrees bound the true degree in each variable, evaluation never changes its operands, and two gates report the same identity only if they compute the same function.",
 ["inputs"],"all operands and gate constants, batch sizes 0..9, operands aliasing the result where callers do so",
 "Tests reach gates only through whole proofs on sampled inputs.",
 ["circuit/gates.go","snark/gkr/gate.go"],[("gates","AddGate, MulGate, CopyGate, CipherGate")],["evaluation results"])
p("C15","Layer evaluation computes every gate on every copy",
 "For every wiring, chunking, copy count and core count, evaluating a layer gives at each output and copy the sum over the wires into that output of the gate applied to the two inputs of the same copy, and zero where no wire arrives. A full assignment starts with the inputs and chains the layers, and per-layer tables handed out with copy share no memory with the assignment.",
 ["inputs","configurations","programs"],"all inputs; wirings with R different from 0, fan-out, fan-in, idle outputs; several copies per chunk; several chunks and cores",
 "Tests use wirings and copy counts where a mis-indexed right operand is invisible.",
 ["circuit/layers.go","circuit/circuit.go"],[("evaluation","Layer.Evaluate"),("assignment","Circuit.Assign, LayerAsBKTWithCopy, LayerAsBKTNoCopy")],["assignment values"])
p("C16","Static tables encode the wiring exactly once per distinct gate",
 "For every wiring and every point q, a layer lists each distinct gate once, in order of first appearance, and the static table of a gate folded at q holds at (l, r) the sum of eq(q, output) over exactly the wires of that gate from l and r. Layer widths are the smallest powers of two that cover the wire indices.",
 ["inputs","programs"],"all q; wirings with repeated gates, repeated wires, several gates; gate constants arbitrary",
 "No test has two wires sharing a gate in one layer.",
 ["circuit/layers.go"],[("tables","Layer.GetStaticTable"),("dedup","circuit.Gates"),("widths","BGInputs, BGOutputs")],["tables and gate list"])
p("C17","The MiMC circuit computes the MiMC permutation",
 "For every state and block, the example MiMC circuit evaluated on (state+block, block) outputs the 91-round MiMC permutation of the state keyed by the block, plus the block, in every copy and chunk; every intermediate layer carries the block unchanged beside the running state. The snark description of that circuit has the same layers, gates, constants and wiring.",
 ["inputs"],"all states and blocks, several copies and chunks",
 "The test compares a handful of inputs.",
 ["examples/mimc.go","snark/gkr/mimc.go","hash/mimc.go"],[("circuit","examples.CreateMimcCircuit"),("snark circuit","snark/gkr.CreateMimcCircuit")],["assignment's last layer"])
p("C18","MimcHash is the specified 91-round Miyaguchi-Preneel hash",
 "For every message, MimcHash starts from zero and for each block replaces the state s by E(s)+s+block, where E applies 91 rounds of (x + block + constant_i)^7 with the published constants. The permutation is injective in the state for a fixed block, the S-box is x^7, and the message is not modified.",
 ["inputs"],"all messages up to several blocks, all states",
 "The test prints or samples hashes.",
 ["hash/mimc.go","hash/ark.go","hash/poseidon.go","common/challenge.go"],[("hash","MimcHash, MimcUpdateInplace, MimcPermutationInPlace, SBoxInplace")],["hash value"])
p("C19","Poseidon and GMiMC hashes follow their construction and absorb every word",
 "For widths 2, 4 and 8 and every message, the Poseidon and GMiMC hashes chain zero-padded blocks through their keyed permutation with Miyaguchi-Preneel feed-forward, every update rewriting the caller's whole state. The digest depends on every word of every block, MDS entries are inverses of the sums of their index constants, and messages and blocks are not modified.",
 ["inputs"],"all messages of up to three blocks including partial ones, all states",
 "The test only runs the hashers on one message without checking the result.",
 ["hash/poseidon.go","hash/gmimc.go","hash/ark.go"],[("Poseidon","PoseidonHasher.Hash, Update"),("GMiMC","GMimcHasher.Hash, UpdateInplace")],["digest","state after update"])
p("C20","The MiMC gadget computes the native hash",
 "For every message, the only value the constraint system of the MiMC gadget allows for its output is the native MimcHash of the same message, and an honest witness exists for every message.",
 ["inputs"],"all messages of 0 to several blocks",
 "The test solves the circuit for one message and never checks that wrong values are refused.",
 ["snark/hash/mimc.go"],[("gadget","snark/hash.MimcHash")],["compiled constraints"])
p("C21","Polynomial gadgets compute the native polynomial operations",
 "For all values, the univariate, multilinear, mixed left/right and eq gadgets constrain their outputs to exactly the native polynomial evaluation, value at zero plus value at one, table evaluations and eq value. Assigning from chunks lays values out so that gadget and native evaluation agree, and assignments of the wrong size are refused.",
 ["inputs","configurations"],"all coefficients, tables and points for stated sizes and chunkings",
 "Tests use a few fixed sizes and one witness each.",
 ["snark/polynomial/univariate.go","snark/polynomial/multilinear.go","snark/polynomial/eq.go"],[("gadgets","Univariate, MultilinearByValues, EqEval")],["compiled constraints"])
p("C22","The sumcheck verifier gadget accepts exactly what the native one accepts",
 "For every claim and every proof of the allocated shape, the sumcheck gadget's constraints are satisfiable if and only if the native sumcheck verifier accepts, and then the gadget's challenges, their left/right/copy split and the last claim equal the native ones.",
 ["inputs","configurations"],"all claims and proofs for stated numbers of rounds and degrees",
 "The test only solves the gadget on one honest proof.",
 ["snark/sumcheck/sumcheck.go"],[("gadget","snark/sumcheck.Proof.AssertValid, AllocateProof, Assign")],["compiled constraints"])
p("C23","The GKR verifier gadget accepts exactly what the native verifier accepts",
 "For the MiMC circuit and every proof, inputs, outputs and initial point, the GKR gadget's constraints are satisfiable if and only if the native GKR verifier's checks hold at that initial point.",
 ["inputs","configurations"],"all proofs, inputs, outputs, for stated numbers of copies, all 91 layers",
 "The test solves the gadget on one honest proof and never on a wrong one.",
 ["snark/gkr/proof.go","snark/gkr/circuit.go","snark/gkr/mimc.go","snark/gkr/gate.go"],[("gadget","snark/gkr.Proof.AssertValid, Layer.Combine*")],["compiled constraints"])
p("C24","Chunk ranges tile the work and integer logarithms are exact",
 "For every positive core count and every size, the chunk ranges are consecutive, non-empty, start at zero, end at the size, are at least the minimum chunk size except for the last one, and for up to 4096 cores number no more than the core count plus one. The floor and ceiling logarithms satisfy 2^floor <= a < 2^(floor+1) and 2^(ceil-1) < a <= 2^ceil for every positive integer, and min and max return the smaller and larger argument.",
 ["inputs","configurations"],"all 64-bit positive sizes up to the stated chunk count, all core counts up to 2^31, all positive integers",
 "The test covers nine small integers and no chunk range.",
 ["common/chunks.go","common/math.go"],[("ranges","IntoChunkRanges"),("logs","Log2Floor, Log2Ceil, Min, Max")],["returned values"])
p("C25","Proving and verifying leave their inputs unchanged and are repeatable",
 "Assigning, proving and verifying never modify the circuit, the inputs, the outputs, the assignment or the proof they are given, so proving or verifying twice gives the same result.",
 ["inputs","histories"],"all inputs; sequences assign, prove, prove, verify, verify; several chunkings",
 "Tests use each object once.",
 ["gkr/prover.go","gkr/verifier.go","circuit/circuit.go","sumcheck/verifier.go","polynomial/chunked.go"],[("deep copies","LayerAsBKTWithCopy, BookKeepingTable.DeepCopy")],["inputs, assignment and proof after the calls"])
p("C26","Table arithmetic is element-wise for every size and core count",
 "For all tables of equal size, sum, difference, scaling by a constant and two-term linear combination are computed for every element, for every core count, for sizes below and above the parallel chunk size, and when the destination is one of the operands. Operands other than the destination keep their values, except that a linear combination may overwrite its operands, and sums and differences of tables of different sizes are refused by panicking.",
 ["inputs","configurations"],"all values; sizes 0..8 and beyond two parallel chunks; core counts 1..4; aliasing destinations; reused destination capacity",
 "Tests use tiny tables, where parallel chunking never starts.",
 ["polynomial/book_keeping.go","common/chunks.go"],[("arithmetic","BookKeepingTable.Add, Sub, Mul, LinearCombinationOfBookKeepingTables")],["resulting table"])
p("C27","Malformed proofs are rejected without crashing",
 "For a well-formed circuit and statement, a proof with missing or extra layers, missing or extra rounds, missing claims or empty polynomials makes the GKR verifier return false; it never panics. The sumcheck verifier likewise returns false on a proof with an empty polynomial or too few rounds for the requested split.",
 ["inputs","fault_sequences"],"all proofs whose shape deviates in one of these ways, with arbitrary coefficients",
 "No test supplies a malformed proof.",
 ["gkr/verifier.go","sumcheck/verifier.go"],[("shape checks","gkr.Verifier.Verify, sumcheck.Verifier.Verify")],["result of Verify"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for e in P: f.write(json.dumps(e)+"\n")
print(len(P))
