package main

func inst(pkg, fn string, p map[string]int64) *Inst { return &Inst{Pkg: pkg, Fn: fn, P: p} }

// stub replaces the challenge hash by an uninterpreted function.
func stub(l []*Inst) []*Inst {
	for _, i := range l {
		i.Cfg.StubHash = true
	}
	return l
}

// grid makes the instances of a harness over ranges of parameters.
func grid(pkg, fn string, axes ...interface{}) []*Inst {
	ps := []map[string]int64{{}}
	for i := 0; i+1 < len(axes); i += 2 {
		var next []map[string]int64
		for _, p := range ps {
			for _, v := range axes[i+1].([]int) {
				q := map[string]int64{}
				for k, x := range p {
					q[k] = x
				}
				q[axes[i].(string)] = int64(v)
				next = append(next, q)
			}
		}
		ps = next
	}
	var r []*Inst
	for _, p := range ps {
		r = append(r, inst(pkg, fn, p))
	}
	return r
}

func rng(lo, hi int) []int {
	var r []int
	for i := lo; i <= hi; i++ {
		r = append(r, i)
	}
	return r
}

func cat(ls ...[]*Inst) []*Inst {
	var r []*Inst
	for _, l := range ls {
		r = append(r, l...)
	}
	return r
}

var trusted = []string{
	"z3-new (finite-field, bit-vector and integer arithmetic solver)",
	"golang.org/x/tools/go/ssa and the gosym executor (validated against native runs, see traces_validated_against_impl)",
	"gurvy's field arithmetic is taken as arithmetic modulo the BN254 scalar field order",
}

const hashFree = "the challenge hash is an arbitrary function of its arguments: what is shown holds for every such function, hence for MimcHash"

const gnarkTrust = "gnark's frontend translates a circuit into the constraints the backend proves; an assignment is accepted exactly when every constraint holds"

func registry() map[string]*Check {
	r := map[string]*Check{}
	for _, c := range checks() {
		if c.Level == "" {
			c.Level = "model_checking"
		}
		c.Trusted = append(append([]string{}, trusted...), c.Trusted...)
		r[c.ID] = c
	}
	return r
}

// conc asks for the interleaving analysis.
func conc(l []*Inst) []*Inst {
	for _, i := range l {
		i.Conc = true
	}
	return l
}

// orders bounds the orders of arrival executed.
func orders(n int, l []*Inst) []*Inst {
	for _, i := range l {
		i.Cfg.MaxOrders = n
	}
	return l
}

func dev(n int, l []*Inst) []*Inst {
	for _, i := range l {
		i.Cfg.Deviations = n
	}
	return l
}

func checks() []*Check {
	return []*Check{
		{
			ID:      "C01",
			Bounds:  "19 circuits of 1 to 5 layers, layer widths 1 to 8, add/mul/copy/cipher gates, every input, 2^0 to 2^3 copies (2^4 for two of the circuits), 1 to 8 chunks, 1 to 3 cores; " + hashFree,
			Outside: "deeper and wider circuits, more copies",
			Quick: stub(cat(
				grid("c01", "Complete", "circ", []int{0, 1, 2, 3, 4, 7, 8, 9, 10}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1}),
				grid("c01", "Complete", "circ", []int{0, 1, 2, 9}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{2}),
				grid("c01", "Complete", "circ", []int{0, 2, 3, 4, 5, 6, 8, 9, 10}, "bN", []int{0}, "chunks", []int{0}, "cores", []int{1, 2}),
				grid("c01", "Complete", "circ", []int{5}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1, 3}),
				grid("c01", "Complete", "circ", rng(11, 18), "bN", []int{0}, "chunks", []int{0}, "cores", []int{1, 2}),
				grid("c01", "Complete", "circ", []int{3, 4, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{2}),
				grid("c01", "Complete", "circ", []int{0, 1, 2, 3, 9, 13, 14, 18}, "bN", []int{3}, "chunks", []int{0, 2, 3}, "cores", []int{3}),
				grid("c01", "Complete", "circ", []int{0, 1}, "bN", []int{4}, "chunks", []int{1, 3}, "cores", []int{2}),
				grid("c01", "Complete", "circ", []int{12, 13, 14, 15, 16}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{2}),
			)),
			Deep: stub(cat(
				grid("c01", "Complete", "circ", []int{6}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1}),
				grid("c01", "Complete", "circ", rng(7, 18), "bN", []int{3, 4}, "chunks", []int{0, 1, 3}, "cores", []int{2}),
				grid("c01", "Complete", "circ", []int{0, 1, 2, 9}, "bN", []int{5, 6}, "chunks", []int{0, 1, 2, 3, 5}, "cores", []int{2, 8}),
			)),
		},
		{
			ID:      "C04",
			Bounds:  "18 gate lists in various orders, every table content, up to 3 left and right variables and 7 copy variables per round from an arbitrary prover state, whole proofs with 1 left, 1 right and up to 2 copy variables; " + hashFree,
			Outside: "larger tables",
			Quick: stub(cat(
				grid("c04", "HL", "gates", rng(0, 17), "bL", []int{1, 2}, "bR", []int{1}, "bN", []int{0, 1}),
				grid("c04", "HPrime", "gates", []int{1, 3}, "bN", []int{6, 7}),
				grid("c04", "HL", "gates", []int{1, 2}, "bL", []int{1}, "bR", []int{1}, "bN", []int{5, 6}),
				grid("c04", "HR", "gates", []int{1, 2}, "bR", []int{1}, "bN", []int{5, 6}),
				grid("c04", "Whole", "gates", rng(8, 17), "bG", []int{1}, "bN", []int{1}),
				grid("c04", "HR", "gates", rng(0, 17), "bR", []int{1, 2}, "bN", []int{0, 1}),
				grid("c04", "HPrime", "gates", rng(0, 17), "bN", []int{1, 2}),
				grid("c04", "HL", "gates", rng(0, 7), "bL", []int{2}, "bR", []int{2}, "bN", []int{1, 2}),
				grid("c04", "HL", "gates", []int{0, 1, 3}, "bL", []int{3}, "bR", []int{3}, "bN", []int{1}),
				grid("c04", "HR", "gates", rng(0, 7), "bR", []int{2, 3}, "bN", []int{2}),
				grid("c04", "HPrime", "gates", rng(0, 7), "bN", []int{3, 4, 5}),
				grid("c04", "Whole", "gates", []int{0, 1, 4}, "bG", []int{2}, "bN", []int{1}),
				grid("c04", "Whole", "gates", []int{0, 1, 3}, "bG", []int{1}, "bN", []int{2}),
				grid("c04", "Whole", "gates", []int{0, 1, 2, 3, 6}, "bG", []int{1}, "bN", []int{0, 1}),
			)),
			Deep: stub(cat(
				grid("c04", "HL", "gates", rng(0, 7), "bL", []int{3}, "bR", []int{3}, "bN", []int{2, 3}),
				grid("c04", "HR", "gates", rng(0, 7), "bR", []int{4}, "bN", []int{3, 4}),
				grid("c04", "HPrime", "gates", rng(0, 7), "bN", []int{6, 7, 8}),
				grid("c04", "Whole", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{2}),
				grid("c04", "Whole", "gates", []int{3}, "bG", []int{2}, "bN", []int{1}),
			)),
		},
		{
			ID:      "C05",
			Bounds:  "18 gate lists in various orders, every table content, 1 to 2 left and right variables, up to 3 copy variables, 1 to 8 chunks, 1 to 3 cores; ; at small sizes also two or three runs in a row with other values" + hashFree,
			Outside: "larger tables",
			Quick: stub(cat(
				grid("c05", "Again", "bG", []int{0, 1}, "bN", []int{0, 1, 2}, "gates", []int{0, 2}),
				grid("c05", "Single", "gates", rng(0, 17), "bG", []int{1}, "bN", []int{2}),
				grid("c05", "Single", "gates", []int{0, 1, 3, 4}, "bG", []int{2}, "bN", []int{0, 1}),
				grid("c05", "Multi", "gates", rng(2, 17), "bG", []int{1}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{3}),
				grid("c05", "Multi", "gates", []int{0, 1, 4}, "bG", []int{1}, "bN", []int{3}, "chunks", []int{1, 2, 3}, "cores", []int{2}),
				grid("c05", "Single", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{0, 1}),
				grid("c05", "Single", "gates", []int{0, 1, 4}, "bG", []int{0, 1}, "bN", []int{2}),
				grid("c05", "Multi", "gates", []int{0, 1, 2, 3, 4}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{2}),
				grid("c05", "Multi", "gates", []int{0, 1}, "bG", []int{1}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{1}),
			)),
			Deep: stub(cat(
				grid("c05", "Single", "gates", rng(0, 7), "bG", []int{1, 2}, "bN", []int{2, 3}),
				grid("c05", "Multi", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{3, 4}, "chunks", []int{0, 2, 3}, "cores", []int{3, 8}),
			)),
		},
		{
			ID:      "C06",
			Bounds:  "every claim and proof of up to 10 rounds with polynomials of 1 to 13 coefficients; ; at small sizes also two or three runs in a row with other values" + hashFree,
			Outside: "more rounds",
			Quick: stub(cat(
				grid("c06", "Twice", "bG", []int{0, 1}, "bN", []int{1}, "deg", []int{1, 2}),
				grid("c06", "Iff", "bG", []int{0, 1}, "bN", []int{0, 1, 2}, "deg", []int{0, 1, 2, 3}),
				grid("c06", "Iff", "bG", []int{1}, "bN", []int{1}, "deg", []int{4, 5, 6, 7, 8, 12}),
				grid("c06", "Iff", "bG", []int{2, 3}, "bN", []int{0, 2, 3}, "deg", []int{2, 3, 8}),
				grid("c06", "Iff", "bG", []int{0, 1, 2}, "bN", []int{6}, "deg", []int{2, 8}),
			)),
			Deep: stub(grid("c06", "Iff", "bG", []int{1, 2, 3, 4}, "bN", []int{1, 2, 5, 8}, "deg", []int{2, 5, 8, 20})),
		},
		{
			ID:      "C07",
			Bounds:  "18 gate lists in various orders, every table content, 1 to 2 left and right variables, up to 4 copy variables, 1 to 8 chunks, 1 to 4 cores; the round-robin schedule and every schedule that deviates from it once (twice in the thorough tier); " + hashFree,
			Outside: "larger tables; schedules with more deviations (see C08, which covers all interleavings of the same code)",
			Quick: stub(cat(
				dev(1, grid("c07", "Same", "gates", []int{0, 1}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{1, 2})),
				grid("c07", "Same", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{2}),
				grid("c07", "Same", "gates", rng(0, 17), "bG", []int{1}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{1, 4}),
				grid("c07", "Same", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{3}, "chunks", []int{1, 2, 3}, "cores", []int{3}),
				grid("c07", "Same", "gates", []int{0, 1, 3}, "bG", []int{2}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{2}),
				grid("c07", "Same", "gates", []int{0, 1}, "bG", []int{1}, "bN", []int{4}, "chunks", []int{2, 3}, "cores", []int{4}),
			)),
			Deep: stub(cat(
				dev(2, grid("c07", "Same", "gates", []int{0, 1}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{1, 2})),
				dev(1, grid("c07", "Same", "gates", []int{2, 3}, "bG", []int{1}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{1, 3})),
				grid("c07", "Same", "gates", rng(0, 7), "bG", []int{1, 2}, "bN", []int{4}, "chunks", []int{0, 1, 2, 4}, "cores", []int{3, 8}),
			)),
		},
		{
			ID:        "C08",
			Level:     "model_checking",
			Technique: "SMT (linear integer arithmetic, z3) over all cuts of all interleavings of the goroutines' synchronisation and memory operations, recorded by executing the code's SSA symbolically",
			Bounds:    "every content of the tables; 1 to 4 chunks, 1 to 4 cores, tables of up to 12289 entries for the chunked arithmetic, 6 circuits, two provers or verifiers in parallel, semaphores of 1 to 3 with up to 4 goroutines; every interleaving for a given order of arrival of the messages that carry data, and every order of arrival for 2 chunks (up to 8 orders, thorough 64, for 4 chunks)",
			Outside:   "more goroutines and chunks; orders of arrival beyond the bound; control flow and memory cells that depend on the order in which goroutines pass a semaphore or mutex (recorded from the executions explored); memory is compared at the granularity of field elements and machine words",
			Quick: conc(stub(cat(
				grid("c08", "Semaphore", "n", rng(1, 3), "k", []int{2, 4}, "times", []int{1, 2}),
				grid("c08", "Broadcast", "n", rng(1, 4), "cap", []int{0, 1}),
				grid("c08", "Evaluate", "circ", []int{1, 3, 5}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{1, 2, 3}),
				grid("c08", "Assign", "circ", []int{2, 7}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{1, 2}),
				grid("c08", "Arith", "op", []int{0, 1}, "size", []int{4, 4097, 8193, 12289}, "dest", rng(0, 2), "cores", []int{1, 2, 3}),
				grid("c08", "Claim", "gates", []int{1, 3}, "bG", []int{1}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{1, 2, 4}, "prove", []int{0}),
				grid("c08", "Claim", "gates", []int{0, 3}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{1, 2}, "prove", []int{1}),
				grid("c08", "Prove", "gates", []int{0, 1, 3}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", rng(1, 3)),
				grid("c08", "Prove", "gates", []int{1, 3}, "bG", []int{1}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{1, 2, 4}),
				grid("c08", "Prove", "gates", []int{0}, "bG", []int{2}, "bN", []int{2}, "chunks", []int{1}, "cores", []int{1, 2}),
				grid("c08", "Gkr", "circ", []int{1, 3}, "bN", []int{1, 2}, "chunks", []int{1}, "cores", []int{1, 2}),
				grid("c08", "Shared", "circ", []int{1, 3, 5}, "bN", []int{1}, "chunks", []int{0, 1}),
				grid("c08", "Parallel", "circ", []int{1, 5, 6}, "bN", []int{0}, "chunks", []int{0}, "what", rng(0, 3)),
				grid("c08", "Parallel", "circ", []int{1, 5}, "bN", []int{1}, "chunks", []int{0}, "what", rng(1, 3)),
				grid("c08", "Parallel", "circ", []int{1, 5}, "bN", []int{1}, "chunks", []int{1}, "what", []int{2}),
			))),
			Deep: conc(stub(orders(64, cat(
				grid("c08", "Semaphore", "n", rng(1, 4), "k", []int{5, 6}, "times", []int{2, 3}),
				grid("c08", "Evaluate", "circ", rng(0, 10), "bN", []int{3}, "chunks", []int{2, 3}, "cores", []int{1, 2, 4}),
				grid("c08", "Claim", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{2}, "chunks", []int{2}, "cores", []int{1, 2, 4}, "prove", []int{0, 1}),
				grid("c08", "Prove", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{1, 2, 3, 4}),
				grid("c08", "Prove", "gates", []int{0, 1}, "bG", []int{1}, "bN", []int{3}, "chunks", []int{3}, "cores", []int{2, 8}),
				grid("c08", "Gkr", "circ", rng(0, 8), "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{1, 2, 3}),
			)))),
		},
		{
			ID:      "C09",
			Bounds:  "18 gate lists in various orders, every table content, up to 2 left and right variables and 7 copy variables, 1 to 8 chunks, 1 to 4 cores; ; at small sizes also two or three runs in a row with other values" + hashFree,
			Outside: "larger tables",
			Quick: stub(cat(
				grid("c09", "Again", "bG", []int{0, 1}, "bN", []int{1, 2}, "chunks", []int{0, 1}, "cores", []int{1, 2}, "gates", []int{0, 2}),
				grid("c09", "Single", "gates", rng(0, 17), "bG", []int{0, 1}, "bN", []int{0, 1, 2}, "prove", []int{0}),
				grid("c09", "Single", "gates", []int{1, 2, 3}, "bG", []int{1}, "bN", []int{5, 6, 7}, "prove", []int{0}),
				grid("c09", "Single", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{1}, "prove", []int{1}),
				grid("c09", "Multi", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{1, 2}, "prove", []int{0}),
				dev(1, grid("c09", "Multi", "gates", []int{3}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{1, 2, 3}, "prove", []int{0})),
				grid("c09", "Multi", "gates", []int{0, 1, 2, 3}, "bG", []int{1}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{2}, "prove", []int{1}),
				grid("c09", "Single", "gates", rng(0, 7), "bG", []int{2}, "bN", []int{0, 1, 2}, "prove", []int{0}),
				grid("c09", "Single", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{3, 4}, "prove", []int{0}),
				grid("c09", "Multi", "gates", rng(0, 17), "bG", []int{1}, "bN", []int{3}, "chunks", []int{1, 2, 3}, "cores", []int{3}, "prove", []int{0}),
				grid("c09", "Multi", "gates", rng(0, 7), "bG", []int{0, 2}, "bN", []int{2}, "chunks", []int{1, 2}, "cores", []int{4}, "prove", []int{0}),
			)),
			Deep: stub(cat(
				grid("c09", "Single", "gates", rng(0, 7), "bG", []int{2, 3}, "bN", []int{3}, "prove", []int{0}),
				grid("c09", "Multi", "gates", rng(0, 7), "bG", []int{1}, "bN", []int{5, 6}, "chunks", []int{2, 4}, "cores", []int{8}, "prove", []int{0}),
				dev(2, grid("c09", "Multi", "gates", []int{0, 1, 3}, "bG", []int{1}, "bN", []int{2}, "chunks", []int{2}, "cores", []int{1, 2}, "prove", []int{0})),
			)),
		},
		{
			ID:      "C02",
			Bounds:  "19 circuits of 1 to 5 layers, every proof of the right shape with round polynomials of 1 to 9 coefficients, every input and output, 2^0 to 2^3 copies, 1 to 4 chunks; ; at small sizes also two or three runs in a row with other values" + hashFree,
			Outside: "proofs of another shape (C27), deeper and wider circuits",
			Quick: stub(cat(
				grid("c02", "Iff", "circ", rng(0, 18), "bN", []int{0}, "chunks", []int{0}, "deg", []int{2}),
				grid("c02", "Twice", "circ", []int{0, 1, 2}, "bN", []int{0}, "chunks", []int{0}, "deg", []int{1}, "same", []int{0, 1}),
				grid("c02", "Twice", "circ", []int{0}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{1}, "same", []int{0, 1}),
				grid("c02", "Iff", "circ", []int{11, 12, 13, 15, 16, 18}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{1}),
				grid("c02", "Iff", "circ", []int{0, 1}, "bN", []int{2, 3}, "chunks", []int{0, 2}, "deg", []int{2}),
				grid("c02", "Iff", "circ", []int{0, 1, 2, 3, 9, 10}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{1, 2}),
				grid("c02", "Iff", "circ", []int{0, 5}, "bN", []int{0, 1}, "chunks", []int{0}, "deg", []int{8}),
			)),
			Deep: stub(cat(
				grid("c02", "Iff", "circ", rng(0, 18), "bN", []int{1, 2, 3}, "chunks", []int{0, 1}, "deg", []int{2, 3}),
				grid("c02", "Iff", "circ", []int{5, 6}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{8}),
			)),
		},
		{
			ID:      "C03",
			Bounds:  "15 circuits of 1 to 4 layers; every accepted proof of the right shape, every single altered position and every alteration (outputs), every alteration whose weight in the final claim is not zero (inputs); every combination of altered outputs of an honest proof for one-output circuits; 2^0 to 2^2 copies; the initial point for up to 2^40 copies and 2^12 outputs; ; at small sizes also two or three runs in a row with other values, in the same memory" + hashFree,
			Outside: "deeper and wider circuits; alterations of several inputs at once, which a prover may choose after the challenges",
			Quick: stub(cat(
				grid("c03", "Point", "bN", []int{0, 1, 20, 40}, "bG", []int{0, 1, 12}),
				grid("c03", "InPlace", "circ", []int{0, 1}, "bN", []int{0, 1}, "chunks", []int{0}),
				grid("c03", "Outputs", "circ", []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 17}, "bN", []int{0}, "chunks", []int{0}, "deg", []int{2}),
				grid("c03", "Outputs", "circ", []int{4, 5, 11, 12, 13, 14, 15, 17}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{2}),
				grid("c03", "Outputs", "circ", []int{0, 1, 2, 3}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{2}),
				grid("c03", "Outputs", "circ", []int{0, 1}, "bN", []int{2}, "chunks", []int{1}, "deg", []int{2}),
				grid("c03", "Inputs", "circ", []int{0, 1, 2, 3, 12, 13}, "bN", []int{0}, "chunks", []int{0}, "deg", []int{2}),
				grid("c03", "Inputs", "circ", []int{0, 1}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{2}),
				grid("c03", "Honest", "circ", []int{0}, "bN", []int{0, 1}),
				grid("c03", "Honest", "circ", []int{9}, "bN", []int{0}),
			)),
			Deep: stub(cat(
				grid("c03", "Outputs", "circ", rng(0, 8), "bN", []int{1, 2}, "chunks", []int{0, 1}, "deg", []int{2}),
				grid("c03", "Inputs", "circ", []int{2, 3, 4}, "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{2}),
			)),
		},
		{
			ID:      "C10",
			Bounds:  "every table of 2^n entries and every point: evaluation, folding and chunking for n <= 9 (12 in the thorough tier), copying for n <= 14, left/right evaluation with up to 3+3+3 variables; at small sizes also two or three runs in a row with other values",
			Outside: "larger tables",
			Quick: cat(
				grid("c10", "Again", "bG", []int{0, 1, 2}, "bN", []int{1, 2}),
				grid("c10", "Evaluate", "n", rng(0, 9)), grid("c10", "Fold", "n", rng(0, 9)), grid("c10", "Copy", "n", []int{0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 13, 14}),
				grid("c10", "LeftRight", "bG", []int{3}, "bN", []int{0, 1, 2, 3}, "layout", rng(0, 6)), grid("c10", "LeftRight", "bG", []int{1, 2}, "bN", []int{3}, "layout", rng(0, 6)),
				grid("c10", "Chunk", "n", []int{5, 6, 7, 8, 9}, "chunks", []int{0, 1, 2, 3, 4, 5}),
				grid("c10", "LeftRight", "bG", []int{0, 1, 2}, "bN", []int{0, 1, 2}, "layout", rng(0, 6)),
				grid("c10", "Chunk", "n", []int{1}, "chunks", []int{0, 1}),
				grid("c10", "Chunk", "n", []int{2, 3, 4}, "chunks", []int{0, 1, 2}),
			),
			Deep: cat(
				grid("c10", "Evaluate", "n", rng(10, 12)), grid("c10", "Fold", "n", rng(10, 11)), grid("c10", "Copy", "n", rng(15, 16)),
				grid("c10", "LeftRight", "bG", []int{2, 4}, "bN", []int{4, 5}, "layout", rng(0, 6)),
				grid("c10", "Chunk", "n", []int{10, 12}, "chunks", []int{0, 1, 3, 5, 8}),
			),
		},
		{
			ID:      "C11",
			Bounds:  "every point of 0 to 8 coordinates (10 for the chunked form), 1 to 32 chunks, 1 to 8 cores; at small sizes also two or three runs in a row with other values, in the same memory",
			Outside: "more coordinates",
			Quick: cat(
				grid("c11", "Forms", "n", rng(0, 8)), grid("c11", "Boolean", "n", rng(0, 5)),
				grid("c11", "Again", "n", []int{2, 3, 4}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c11", "Chunked", "n", []int{0}, "chunks", []int{0}, "cores", []int{1, 2}),
				grid("c11", "Chunked", "n", []int{1}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c11", "Chunked", "n", []int{2, 3, 4}, "chunks", []int{0, 1, 2}, "cores", []int{1, 2, 4}),
				grid("c11", "Chunked", "n", []int{5, 6, 8, 10}, "chunks", rng(0, 5), "cores", []int{1, 3, 8}),
			),
			Deep: cat(
				grid("c11", "Forms", "n", []int{9}), grid("c11", "Boolean", "n", []int{6}),
				grid("c11", "Chunked", "n", []int{7, 9, 11}, "chunks", rng(0, 7), "cores", []int{1, 3, 8}),
			),
		},
		{
			ID:      "C12",
			Bounds:  "every table of up to 2^9 entries and every point, 1 to 2^6 chunks, chunk counts beyond the copy dimension; at small sizes also two or three runs in a row with other values, in the same memory",
			Outside: "larger tables",
			Quick: cat(
				grid("c12", "Plain", "n", []int{0}, "chunks", []int{0}), grid("c12", "Plain", "n", []int{1}, "chunks", []int{0, 1}),
				grid("c12", "Again", "bG", []int{0, 1, 2}, "bN", []int{1, 2}, "chunks", []int{0, 1}),
				grid("c12", "Plain", "n", []int{2, 3}, "chunks", []int{0, 1, 2}), grid("c12", "Plain", "n", []int{4, 5}, "chunks", rng(0, 4)),
				grid("c12", "Plain", "n", []int{6, 7, 8, 9}, "chunks", rng(0, 6)),
				grid("c12", "Mixed", "bG", []int{1, 2}, "bN", []int{3, 4}, "chunks", []int{0, 1, 2, 3}, "layout", []int{0, 5}),
				grid("c12", "Mixed", "bG", []int{3}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "layout", []int{1, 6}),
				grid("c12", "Mixed", "bG", []int{0, 1, 2}, "bN", []int{0}, "chunks", []int{0}, "layout", []int{0}),
				grid("c12", "Mixed", "bG", []int{0, 1, 2}, "bN", []int{1}, "chunks", []int{0, 1}, "layout", rng(0, 6)),
				grid("c12", "Mixed", "bG", []int{0, 1, 2}, "bN", []int{2}, "chunks", []int{0, 1, 2}, "layout", []int{0, 1, 4, 6}),
				grid("c12", "Refused", "k", []int{2}, "bG", []int{1, 2}, "bN", []int{0}, "plain", []int{0}),
				grid("c12", "Refused", "k", []int{4}, "bG", []int{1, 2}, "bN", []int{1}, "plain", []int{0}),
				grid("c12", "Refused", "k", []int{3}, "bG", []int{1, 2}, "bN", []int{1, 2}, "plain", []int{0}),
			),
			Deep: cat(
				grid("c12", "Plain", "n", []int{10, 11}, "chunks", rng(0, 8)),
				grid("c12", "Mixed", "bG", []int{1, 2, 3}, "bN", []int{5, 6}, "chunks", []int{0, 1, 4, 5}, "layout", []int{0, 5}),
			),
		},
		{
			ID:      "C13",
			Bounds:  "every supported domain size 1 to 12 with every vector of values; evaluation of polynomials of 1 to 40 (100 in the thorough tier) coefficients at every point; at small sizes also two or three runs in a row with other values",
			Outside: "nothing for interpolation; evaluation of longer polynomials",
			Quick: cat(
				grid("c13", "Again", "n", []int{1, 2, 3, 5, 9, 12}),
				grid("c13", "Interpolate", "n", rng(1, 12)), grid("c13", "Evaluate", "n", rng(1, 40))),
			Deep: grid("c13", "Evaluate", "n", rng(41, 100)),
		},
		{
			ID:      "C14",
			Bounds:  "the four gates with every constant, every operand, batches of up to 16 operands, degrees along every line; combinators of 8 gate lists; identities for arbitrary constants and for 117 particular ones; the constraint systems of the gates and of the gate gadgets for 98 constants and every operand",
			Outside: "longer batches",
			Quick: cat(
				grid("c14", "Native", "kind", rng(0, 3), "n", rng(0, 16)), grid("c14", "Degrees", "kind", rng(0, 3)),
				grid("c14", "Combinator", "gates", rng(0, 7)), grid("c14", "Identity"), grid("c14", "AnyIdentity"),
				grid("c14", "Gnark"),
			),
			Deep: grid("c14", "Native", "kind", rng(0, 3), "n", rng(17, 64)),
		},
		{
			ID:      "C15",
			Bounds:  "every layer of up to 2 wires over 2 inputs, 2 outputs and 2 gates, 19 circuits of 1 to 5 layers, every input, 2^0 to 2^4 copies in 1 to 8 chunks, 3 to 9000 copies per chunk in 1 to 3 chunks for 5 layers, 1 to 8 cores; at small sizes also two or three runs in a row with other values, in the same memory",
			Outside: "larger layers",
			Quick: cat(
				grid("c15", "Wirings", "wires", []int{1}, "in", []int{2}, "out", []int{2}, "kinds", []int{4}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c15", "Wirings", "wires", []int{2}, "in", []int{2}, "out", []int{2}, "kinds", []int{2}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{2}),
				grid("c15", "Wirings", "wires", []int{2}, "in", []int{2}, "out", []int{1}, "kinds", []int{2}, "bN", []int{2}, "chunks", []int{0}, "cores", []int{1}),
				grid("c15", "Catalogue", "circ", rng(0, 18), "bN", []int{0}, "chunks", []int{0}, "cores", []int{1}),
				grid("c15", "Catalogue", "circ", rng(0, 18), "bN", []int{2}, "chunks", []int{0, 1, 2}, "cores", []int{1, 3}),
				grid("c15", "Assign", "circ", rng(0, 18), "bN", []int{0}, "chunks", []int{0}, "cores", []int{1}),
				grid("c15", "Again", "circ", rng(0, 18), "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c15", "Assign", "circ", rng(0, 18), "bN", []int{1, 2}, "chunks", []int{0, 1}, "cores", []int{2}),
				grid("c15", "Tables", "n", []int{1, 2, 3, 8, 12}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c15", "Copies", "circ", []int{1, 7, 17}, "layer", []int{0}, "n", []int{3, 5, 65, 100, 257, 300, 1025}, "k", []int{1, 3}, "cores", []int{1, 2}),
				grid("c15", "Copies", "circ", []int{5, 11}, "layer", []int{0}, "n", []int{7, 129, 1100}, "k", []int{1, 2}, "cores", []int{1}),
				grid("c15", "Copies", "circ", []int{1, 7}, "layer", []int{0}, "n", []int{4100, 9000}, "k", []int{1}, "cores", []int{1}),
				grid("c15", "Catalogue", "circ", rng(0, 18), "bN", []int{3, 4}, "chunks", []int{0, 2, 3}, "cores", []int{3, 8}),
				grid("c15", "Assign", "circ", rng(0, 18), "bN", []int{4}, "chunks", []int{3}, "cores", []int{2, 8}),
			),
			Deep: cat(
				grid("c15", "Wirings", "wires", []int{2}, "in", []int{2}, "out", []int{2}, "kinds", []int{4}, "bN", []int{2}, "chunks", []int{1}, "cores", []int{2}),
				grid("c15", "Wirings", "wires", []int{2}, "in", []int{4}, "out", []int{2}, "kinds", []int{2}, "bN", []int{1}, "chunks", []int{0}, "cores", []int{1}),
				grid("c15", "Wirings", "wires", []int{3}, "in", []int{2}, "out", []int{2}, "kinds", []int{2}, "bN", []int{1}, "chunks", []int{0}, "cores", []int{1}),
				grid("c15", "Catalogue", "circ", rng(0, 18), "bN", []int{5, 8}, "chunks", []int{0, 1, 3, 5}, "cores", []int{1, 3, 8}),
			),
		},
		{
			ID:      "C16",
			Bounds:  "every layer of up to 2 wires over 2 inputs, 2 outputs and 2 gates, 19 circuits of 1 to 5 layers, layers of 1 to 4 wires with arbitrary indices below 2^3, 2^8 or 2^20, every point; at small sizes also two or three runs in a row with other values",
			Outside: "larger layers",
			Quick: cat(
				grid("c16", "Again", "circ", rng(0, 18)),
				grid("c16", "Wirings", "wires", []int{1}, "in", []int{2}, "out", []int{2}, "kinds", []int{4}),
				grid("c16", "Wirings", "wires", []int{2}, "in", []int{2}, "out", []int{2}, "kinds", []int{2}),
				grid("c16", "Wirings", "wires", []int{2}, "in", []int{1}, "out", []int{2}, "kinds", []int{4}),
				grid("c16", "Wirings", "wires", []int{3}, "in", []int{1}, "out", []int{2}, "kinds", []int{3}),
				grid("c16", "Catalogue", "circ", rng(0, 18)),
				grid("c16", "Widths", "wires", []int{1, 2, 3, 4}, "bits", []int{3}),
				grid("c16", "Widths", "wires", []int{1, 2, 3}, "bits", []int{8}),
				grid("c16", "Widths", "wires", []int{1}, "bits", []int{20}),
				grid("c16", "Wirings", "wires", []int{1}, "in", []int{5}, "out", []int{5}, "kinds", []int{1}),
				grid("c16", "Wirings", "wires", []int{2}, "in", []int{4}, "out", []int{2}, "kinds", []int{1}),
			),
			Deep: cat(
				grid("c16", "Wirings", "wires", []int{2}, "in", []int{2}, "out", []int{2}, "kinds", []int{4}),
				grid("c16", "Wirings", "wires", []int{2}, "in", []int{4}, "out", []int{2}, "kinds", []int{2}),
				grid("c16", "Wirings", "wires", []int{3}, "in", []int{2}, "out", []int{2}, "kinds", []int{2}),
			),
		},
		{
			ID:      "C20",
			Bounds:  "the compiled constraint system of the gadget for messages of 0 to 16 blocks (40 in the thorough tier), and of five hashes in one circuit, every message and every digest",
			Outside: "longer messages",
			Trusted: []string{gnarkTrust},
			Quick:   cat(grid("c20", "Iff", "n", rng(0, 16)), grid("c20", "Honest", "n", []int{0, 1, 2, 5, 9, 16}), grid("c20", "Several", "n", []int{1, 2}, "k", []int{1, 3})),
			Deep:    cat(grid("c20", "Iff", "n", rng(17, 40)), grid("c20", "Honest", "n", []int{33})),
		},
		{
			ID:      "C21",
			Bounds:  "the compiled constraint systems for polynomials of degree 0 to 20, tables of 0 to 6 variables, mixed evaluation with up to 2 gate and 4 copy variables, eq in 0 to 10 variables: every value and point; assignments of tables of up to 4 variables from 1 to 8 chunks, and of every wrong size up to 17; at small sizes also two or three runs in a row with other values",
			Outside: "larger sizes",
			Trusted: []string{gnarkTrust},
			Quick: cat(
				grid("c21", "Uni", "deg", rng(0, 20)), grid("c21", "Multi", "n", rng(0, 6)), grid("c21", "EqPoly", "n", rng(0, 10)),
				grid("c21", "Mixed", "bG", []int{1}, "bN", []int{4}), grid("c21", "Mixed", "bG", []int{2}, "bN", []int{3}),
				grid("c21", "Mixed", "bG", []int{0, 1}, "bN", rng(0, 3)), grid("c21", "Mixed", "bG", []int{2}, "bN", rng(0, 2)),
				grid("c21", "Assign", "n", []int{0}, "chunks", []int{0}), grid("c21", "Assign", "n", []int{3}, "chunks", rng(0, 3)),
				grid("c21", "Assign", "n", []int{1, 2, 4}, "chunks", []int{0, 1}),
				grid("c21", "Refused", "n", []int{0, 1, 2}, "size", rng(0, 9), "chunks", []int{0, 1}),
				grid("c21", "Refused", "n", []int{2, 3}, "size", []int{4, 8, 12, 16}, "chunks", []int{2}),
				grid("c21", "Refused", "n", []int{3}, "size", []int{7, 9, 17}, "chunks", []int{0}),
				grid("c21", "Several", "n", rng(1, 4)),
			),
			Deep: cat(grid("c21", "Uni", "deg", rng(21, 40)), grid("c21", "Multi", "n", []int{7, 8}), grid("c21", "Mixed", "bG", []int{2}, "bN", []int{4, 5}),
				grid("c21", "Assign", "n", []int{5}, "chunks", rng(0, 4))),
		},
		{
			ID:      "C22",
			Bounds:  "the compiled constraint system of the gadget and the native verifier on every claim and proof: 0 to 2 gate and 0 to 5 copy variables, six choices of degrees up to 8; proofs of every length and of polynomials of other lengths for the refusal of wrong shapes; the honest proofs' shapes",
			Outside: "more rounds, other degrees",
			Trusted: []string{gnarkTrust, hashFree},
			Quick: stub(cat(
				grid("c22", "Iff", "bG", []int{0, 1}, "bN", []int{0, 1, 2}, "dL", []int{2}, "dR", []int{8}, "dP", []int{8}),
				grid("c22", "Iff", "bG", []int{1}, "bN", []int{1, 2}, "dL", []int{1, 3}, "dR", []int{2}, "dP", []int{0, 4}),
				grid("c22", "Iff", "bG", []int{2}, "bN", []int{1}, "dL", []int{1}, "dR", []int{2}, "dP", []int{3}),
				grid("c22", "Iff", "bG", []int{0}, "bN", []int{3}, "dL", []int{1}, "dR", []int{2}, "dP", []int{2}),
				grid("c22", "Iff", "bG", []int{1, 2}, "bN", []int{3, 4, 5}, "dL", []int{2}, "dR", []int{8}, "dP", []int{8}),
				grid("c22", "Honest", "bG", []int{1}, "bN", []int{0, 1}, "kinds", []int{2}, "dL", []int{2}, "dR", []int{8}, "dP", []int{8}),
				grid("c22", "Refused", "bG", []int{0, 1}, "bN", []int{0, 1, 2}, "dL", []int{1}, "dR", []int{2}, "dP", []int{3}, "at", []int{0, 2}, "more", []int{-1, 0, 1}, "longer", []int{-1, 0, 1}),
			)),
			Deep: stub(grid("c22", "Iff", "bG", []int{1, 3}, "bN", []int{6, 8}, "dL", []int{2}, "dR", []int{8}, "dP", []int{8})),
		},
		{
			ID:      "C23",
			Bounds:  "the compiled constraint system of all 91 layers for 2^0 to 2^2 copies (2^4 in the thorough tier), on every proof of the allocated shape, every input, output and initial point, assigned from 1 to 4 chunks by the gadgets' own functions; compared with the checks of the protocol, which are those of the native verifier by property C02",
			Outside: "more copies; native proofs with more layers than the circuit",
			Trusted: []string{gnarkTrust, hashFree},
			Quick: stub(cat(
				grid("c23", "Iff", "bN", []int{0}, "chunks", []int{0}), grid("c23", "Iff", "bN", []int{1}, "chunks", []int{0, 1}), grid("c23", "Iff", "bN", []int{2}, "chunks", []int{2}),
			)),
			Deep: stub(cat(grid("c23", "Iff", "bN", []int{2}, "chunks", []int{0, 1}), grid("c23", "Iff", "bN", []int{3}, "chunks", []int{1}), grid("c23", "Iff", "bN", []int{4}, "chunks", []int{2}))),
		},
		{
			ID:      "C24",
			Bounds:  "chunk ranges: 1 to 8 cores with every size up to 2^20, 1 to 4096 cores with every size up to 2^14 (1 and 2 cores up to 2^40, 16 cores in a window around the points where the minimum size takes over); logarithms of every positive 63-bit integer; minimum and maximum of every pair of integers; at small sizes also two or three runs in a row with other values",
			Outside: "more cores, larger sizes for more than 2 cores",
			Quick: cat(
				grid("c24", "Again", "a", []int{1, 3, 8}, "b", []int{2, 5}, "n", []int{4096, 10001}),
				grid("c24", "Ranges", "cores", rng(1, 8), "lo", []int{0}, "hi", []int{1 << 20}),
				grid("c24", "Ranges", "cores", []int{1, 2}, "lo", []int{1 << 20}, "hi", []int{1 << 40}),
				grid("c24", "Ranges", "cores", []int{16}, "lo", []int{16*4096 - 20}, "hi", []int{16*4096 + 20}),
				grid("c24", "AnyCores", "lo", []int{0}, "hi", []int{16384}),
				grid("c24", "Logs", "bits", rng(0, 62)), grid("c24", "MinMax"),
			),
			Deep: cat(
				grid("c24", "Ranges", "cores", rng(3, 8), "lo", []int{1 << 20}, "hi", []int{1 << 40}),
				grid("c24", "Ranges", "cores", []int{12, 16, 24}, "lo", []int{0}, "hi", []int{1 << 20}),
				grid("c24", "AnyCores", "lo", []int{16385}, "hi", []int{32768}),
				grid("c24", "Ranges", "cores", []int{32, 64}, "lo", []int{1 << 17}, "hi", []int{1<<17 + 64}),
			),
		},
		{
			ID:      "C26",
			Bounds:  "every content of tables of 0, 1, 3, 4, 4096, 4097 and 8193 entries (below, at and above the parallel chunk size), 1 to 3 cores, 7 kinds of destination including both operands; at small sizes also two or three runs in a row with other values",
			Outside: "other sizes",
			Quick: cat(
				grid("c26", "Again", "size", []int{3, 4097}, "cores", []int{1, 2}),
				grid("c26", "Op", "op", rng(0, 2), "size", []int{0, 1, 3, 4, 4096, 4097, 8193}, "dest", rng(0, 6), "cores", []int{1, 2}),
				grid("c26", "Op", "op", rng(0, 2), "size", []int{4, 12289}, "dest", rng(0, 2), "cores", []int{3}),
				grid("c26", "Combination", "size", []int{0, 1, 3, 4, 4096, 4097, 8193}),
				grid("c26", "Mismatch", "op", []int{0, 1}, "n", []int{0, 1, 2, 4}, "m", []int{3, 8}, "cores", []int{1, 2}),
			),
			Deep: cat(
				grid("c26", "Op", "op", rng(0, 2), "size", []int{2, 5, 8, 64, 12288, 16384, 20481}, "dest", rng(0, 6), "cores", []int{1, 2, 3, 8}),
				grid("c26", "Combination", "size", []int{12289, 20481}),
			),
		},
		{
			ID:      "C17",
			Bounds:  "the circuit of all 91 rounds, every state and block, 2^0 to 2^5 copies, 1 to 8 chunks, 1 to 8 cores; every initial point for the static tables; the compiled constraint system of every layer's combination, at every point of up to 2 copy coordinates",
			Outside: "more copies",
			Quick: cat(
				grid("c17", "Run", "bN", []int{0}, "chunks", []int{0}, "cores", []int{1, 2}),
				grid("c17", "Run", "bN", []int{1, 2, 3}, "chunks", []int{0, 1}, "cores", []int{1, 3}),
				grid("c17", "Run", "bN", []int{2, 3}, "chunks", []int{2}, "cores", []int{4}),
				grid("c17", "Run", "bN", []int{4, 5}, "chunks", []int{0, 1, 2, 3}, "cores", []int{2, 8}),
				grid("c17", "Layers"), grid("c17", "Snark", "bN", []int{0, 1, 2}),
			),
			Deep: grid("c17", "Run", "bN", []int{6, 7, 8}, "chunks", []int{0, 1, 2, 3, 6}, "cores", []int{2, 8, 16}),
		},
		{
			ID:      "C18",
			Bounds:  "every message of 0 to 40 blocks, and of 64 and 100, every pair of messages hashed one after the other that share their length and their ends, every state and block for the permutation and the update; all 91 rounds",
			Outside: "longer messages",
			Trusted: []string{"7 is invertible modulo p-1, computed when the check starts: the seventh root undoes the S-box"},
			Quick: cat(grid("c18", "Hash", "n", rng(0, 40)), grid("c18", "Hash", "n", []int{64, 100}), grid("c18", "Primitives"), grid("c18", "Every", "n", []int{1, 2, 3, 5, 8, 12, 17}),
				grid("c18", "History", "n", []int{1, 2, 3, 4, 5, 8, 9, 16, 17})),
			Deep: cat(grid("c18", "Hash", "n", rng(41, 150)), grid("c18", "Every", "n", []int{33, 64}), grid("c18", "History", "n", rng(18, 40))),
		},
		{
			ID:      "C19",
			Bounds:  "widths 2, 4 and 8; every state and block; every message of 0 to 17 words (33 in the thorough tier); all rounds; for the dependence on every word, messages of up to 17 words; at small sizes also two or three runs in a row with other values, in the same memory",
			Outside: "longer messages",
			Quick: cat(
				grid("c19", "Update", "kind", []int{0, 1}, "t", []int{2, 4, 8}),
				grid("c19", "History", "kind", []int{0, 1}, "t", []int{2}, "n", []int{1, 2, 3, 4}, "second", []int{1, 2, 3}),
				grid("c19", "History", "kind", []int{0, 1}, "t", []int{4}, "n", []int{2, 3, 4, 5}, "second", []int{1, 3, 4}),
				grid("c19", "History", "kind", []int{1}, "t", []int{8}, "n", []int{3, 7, 9}, "second", []int{1, 6}),
				grid("c19", "Hash", "kind", []int{0, 1}, "t", []int{2}, "n", rng(0, 5), "other", []int{3}),
				grid("c19", "Hash", "kind", []int{0, 1}, "t", []int{4}, "n", rng(0, 9), "other", []int{6}),
				grid("c19", "Hash", "kind", []int{0, 1}, "t", []int{8}, "n", []int{0, 1, 7, 8, 9, 15, 16, 17}, "other", []int{11}),
				grid("c19", "Every", "kind", []int{0, 1}, "t", []int{2, 4}, "n", []int{5, 9}),
				grid("c19", "Every", "kind", []int{0, 1}, "t", []int{8}, "n", []int{9}),
				grid("c19", "Every", "kind", []int{1}, "t", []int{8}, "n", []int{17}),
				grid("c19", "Matrix", "t", []int{2, 4, 8}), grid("c19", "Steps", "t", []int{2, 4, 8}),
			),
			Deep: cat(
				grid("c19", "Hash", "kind", []int{0, 1}, "t", []int{2, 4, 8}, "n", rng(18, 33), "other", []int{5}),
				grid("c19", "Every", "kind", []int{0}, "t", []int{8}, "n", []int{17}),
			),
		},
		{
			ID:      "C25",
			Bounds:  "19 circuits of 1 to 5 layers, every input, output and proof of the right shape, 2^0 to 2^2 copies, 1 to 4 chunks lying behind each other in memory, 1 to 3 cores; the 91-layer example circuit for assignments; " + hashFree,
			Outside: "deeper and wider circuits, proofs of another shape",
			Quick: stub(cat(
				grid("c25", "Prove", "circ", []int{0, 1, 2, 3, 4, 7, 8, 9, 10}, "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c25", "Prove", "circ", []int{0, 1, 2, 3, 9}, "bN", []int{2}, "chunks", []int{0, 1}, "cores", []int{3}),
				grid("c25", "Prove", "circ", []int{0, 3, 5, 9}, "bN", []int{0}, "chunks", []int{0}, "cores", []int{1}),
				grid("c25", "Prove", "circ", []int{5}, "bN", []int{1}, "chunks", []int{1}, "cores", []int{2}),
				grid("c25", "Prove", "circ", rng(11, 18), "bN", []int{1}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
				grid("c25", "Prove", "circ", []int{1, 3, 13, 14}, "bN", []int{2}, "chunks", []int{2}, "cores", []int{2}),
				grid("c25", "Verify", "circ", rng(11, 18), "bN", []int{0, 1}, "chunks", []int{0}, "deg", []int{2}),
				grid("c25", "Verify", "circ", []int{0, 3, 9, 13}, "bN", []int{2}, "chunks", []int{1, 2}, "deg", []int{2}),
				grid("c25", "Verify", "circ", rng(0, 10), "bN", []int{0}, "chunks", []int{0}, "deg", []int{2}),
				grid("c25", "Verify", "circ", rng(0, 10), "bN", []int{1}, "chunks", []int{0, 1}, "deg", []int{1}),
				grid("c25", "Mimc", "bN", []int{1, 2}, "chunks", []int{0, 1}, "cores", []int{1, 2}),
			)),
			Deep: stub(cat(
				grid("c25", "Prove", "circ", []int{4, 7, 8, 10}, "bN", []int{2}, "chunks", []int{0, 1}, "cores", []int{3}),
				grid("c25", "Verify", "circ", rng(0, 18), "bN", []int{2, 3}, "chunks", []int{0, 1, 2}, "deg", []int{2}),
			)),
		},
		{
			ID:      "C27",
			Bounds:  "14 circuits of 1 to 5 layers; every content of proofs with one to all rounds, layers or claims missing, extra ones added, rounds moved to another layer, polynomials empty; sumcheck proofs of 0 to 6 rounds; 2^0 to 2^1 copies; " + hashFree,
			Outside: "other kinds of damage",
			Quick: stub(cat(
				grid("c27", "Rounds", "circ", []int{0, 1, 3, 4, 9, 10}, "bN", []int{0, 1}, "chunks", []int{0}, "deg", []int{1}),
				grid("c27", "Rounds", "circ", []int{0, 3}, "bN", []int{1}, "chunks", []int{1}, "deg", []int{0, 2}),
				grid("c27", "Layers", "circ", []int{0, 1, 3, 4, 9, 10}, "bN", []int{0, 1}, "chunks", []int{0}, "deg", []int{1}),
				grid("c27", "Rounds", "circ", rng(11, 18), "bN", []int{0}, "chunks", []int{0}, "deg", []int{1}),
				grid("c27", "Layers", "circ", rng(11, 18), "bN", []int{0}, "chunks", []int{0}, "deg", []int{1}),
				grid("c27", "Moved", "circ", []int{3, 4, 8, 12, 17}, "bN", []int{0, 1}, "chunks", []int{0}, "deg", []int{1}),
				grid("c27", "Moved", "circ", []int{9, 10}, "bN", []int{1, 2}, "chunks", []int{0, 1}, "deg", []int{1}),
				grid("c27", "Sumcheck", "bN", []int{0, 1}, "bG", []int{0, 1, 2}, "rounds", rng(0, 6)),
			)),
			Deep: stub(cat(
				grid("c27", "Rounds", "circ", []int{2, 5, 6, 7, 8}, "bN", []int{0, 1, 2}, "chunks", []int{0}, "deg", []int{1, 3}),
				grid("c27", "Layers", "circ", []int{2, 5, 6, 7, 8}, "bN", []int{1, 2}, "chunks", []int{0, 1}, "deg", []int{1, 3}),
			)),
		},
	}
}
