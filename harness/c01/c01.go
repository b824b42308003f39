// Package c01: completeness of the GKR protocol.
package c01

import (
	"gkr-mimc/gkr"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"
)

// Complete: an honest proof verifies.
func Complete() {
	cat := hx.Catalogue(vx.Param("circ"))
	bN := vx.Param("bN")
	nCh := 1 << uint(vx.Param("chunks"))
	nCore := vx.Param("cores")
	c := cat.Build()
	in := hx.Chunk(vx.Frs("x", 1<<uint(cat.In[0]+bN)), nCh)
	a := c.Assign(in, nCore)
	out := a.Values[len(a.Values)-1]
	p := gkr.NewProver(c, a)
	proof := p.Prove(nCore)
	vx.Note(proof.ClaimsLeft...)
	for i := range out {
		vx.Note(out[i]...)
	}
	v := gkr.NewVerifier(bN, c)
	vx.Assert(v.Verify(proof, in, out), "the honest proof verifies")
	vx.Reach("end")
}
