// Package c08: concurrent operations. The executions below are the starting points of the interleaving analysis.
package c08

import (
	"sync"

	"gkr-mimc/circuit"
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

func inputs(c hx.Circ, bN, nCh int) [][]fr.Element {
	return hx.Chunk(vx.Frs("x", 1<<uint(c.In[0]+bN)), nCh)
}

// Semaphore: k goroutines compete for a semaphore made for n.
func Semaphore() {
	n, k := vx.Param("n"), vx.Param("k")
	s := common.NewSemaphore(n)
	holders := make(chan struct{}, k)
	vx.MaxQueued(holders, n, "no more goroutines hold the semaphore than it was created for")
	var wg sync.WaitGroup
	wg.Add(k)
	for i := 0; i < k; i++ {
		go func() {
			for j := 0; j < vx.Param("times"); j++ {
				s.Acquire()
				holders <- struct{}{}
				<-holders
				s.Release()
			}
			wg.Done()
		}()
	}
	wg.Wait()
	s.Close()
	vx.Reach("end")
}

// Evaluate: one layer.
func Evaluate() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	l := circuit.NewLayer(c.Wires()[0])
	in := inputs(c, bN, nCh)
	out := l.Evaluate(in, vx.Param("cores"))
	for i := range out {
		vx.Note(out[i]...)
	}
	vx.Reach("end")
}

// Assign: all layers, and the copies handed out.
func Assign() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	b := c.Build()
	a := b.Assign(inputs(c, bN, nCh), vx.Param("cores"))
	for i := range a.Values {
		for _, t := range a.LayerAsBKTWithCopy(i, vx.Param("cores")) {
			vx.Note(t.Table...)
		}
	}
	vx.Reach("end")
}

// Arith: chunked table arithmetic.
func Arith() {
	size, cores := vx.Param("size"), vx.Param("cores")
	l := polynomial.NewBookKeepingTable(vx.Frs("l", size))
	r := polynomial.NewBookKeepingTable(vx.Frs("r", size))
	d := polynomial.NewBookKeepingTable(make([]fr.Element, size))
	to := &d
	switch vx.Param("dest") {
	case 1:
		to = &l
	case 2:
		to = &r
	}
	if vx.Param("op") == 0 {
		to.Sub(l, r, cores)
	} else {
		to.Mul(vx.Fr("c"), l, cores)
	}
	vx.Note(to.Table[0], to.Table[size-1])
	vx.Reach("end")
}

// Claim: computing a claim with several workers, and proving after that.
func Claim() {
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), vx.Param("bG"), vx.Param("bG"), vx.Param("bN"))
	m := s.Multi(1 << uint(vx.Param("chunks")))
	vx.Note(m.GetClaim(vx.Param("cores")))
	if vx.Param("prove") == 1 {
		proof, _, _, _, _ := m.Prove(vx.Param("cores"))
		vx.Note(proof.PolyCoeffs[0]...)
	}
	vx.Reach("end")
}

// Prove: one sumcheck with several workers.
func Prove() {
	s := hx.SymSum(hx.KindSet(vx.Param("gates")), vx.Param("bG"), vx.Param("bG"), vx.Param("bN"))
	m := s.Multi(1 << uint(vx.Param("chunks")))
	proof, _, _, _, fin := m.Prove(vx.Param("cores"))
	vx.Note(proof.PolyCoeffs[0]...)
	vx.Note(fin...)
	vx.Reach("end")
}

// Gkr: a whole proof.
func Gkr() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	b := c.Build()
	a := b.Assign(inputs(c, bN, nCh), vx.Param("cores"))
	p := gkr.NewProver(b, a)
	proof := p.Prove(vx.Param("cores"))
	vx.Note(proof.ClaimsLeft...)
	vx.Reach("end")
}

// Shared: two users of one circuit and one assignment.
func Shared() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	b := c.Build()
	in := inputs(c, bN, nCh)
	a := b.Assign(in, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	res := make([][]polynomial.BookKeepingTable, 2)
	for i := 0; i < 2; i++ {
		go func(i int) {
			b.Assign(in, 1)
			res[i] = a.LayerAsBKTWithCopy(1, 2)
			wg.Done()
		}(i)
	}
	wg.Wait()
	vx.Note(res[0][0].Table...)
	vx.Reach("end")
}

// Broadcast: the challenge reaches every worker.
func Broadcast() {
	n := vx.Param("n")
	chs := make([]chan fr.Element, n)
	for i := range chs {
		chs[i] = make(chan fr.Element, vx.Param("cap"))
	}
	var wg sync.WaitGroup
	wg.Add(n)
	got := make([]fr.Element, n)
	for i := range chs {
		go func(i int) {
			got[i] = <-chs[i]
			close(chs[i])
			wg.Done()
		}(i)
	}
	sumcheck.Broadcast(chs, vx.Fr("r"))
	wg.Wait()
	vx.Note(got...)
	vx.Reach("end")
}

// Parallel: independent provers and verifiers, which share nothing but the circuit.
func Parallel() {
	c := hx.Catalogue(vx.Param("circ"))
	bN, nCh := vx.Param("bN"), 1<<uint(vx.Param("chunks"))
	b := c.Build()
	in := inputs(c, bN, nCh)
	a := b.Assign(in, 1)
	what := vx.Param("what")
	proofs := make([]gkr.Proof, 2)
	if what >= 2 {
		p := gkr.NewProver(b, a)
		proofs[0] = p.Prove(1)
		proofs[1] = proofs[0]
	}
	out := a.Values[len(a.Values)-1]
	ok := make([]bool, 2)
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		go func(i int) {
			switch {
			case what == 0: // both build the circuit
				d := c.Build()
				ok[i] = len(d.Layers) == len(b.Layers)
			case what == 1 || what == 3 && i == 0: // prove
				p := gkr.NewProver(b, a)
				proofs[i] = p.Prove(1)
				ok[i] = true
			default:
				v := gkr.NewVerifier(bN, b)
				ok[i] = v.Verify(proofs[i], in, out)
			}
			wg.Done()
		}(i)
	}
	wg.Wait()
	vx.Reach("end")
}
