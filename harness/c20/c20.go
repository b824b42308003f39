// Package c20: the MiMC gadget.
package c20

import (
	"gkr-mimc/hash"
	"gkr-mimc/zz_verif/gad"
	"gkr-mimc/zz_verif/golden"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// published is the hash as published.
func published(msg []fr.Element) (state fr.Element) {
	for _, m := range msg {
		run := state
		for i := 0; i < 91; i++ {
			run.Add(&run, &m)
			run.Add(&run, &golden.Ark[i])
			run = hx.Pow7(run)
		}
		state.Add(&state, &run)
		state.Add(&state, &m)
	}
	return
}

// Iff: the constraints hold exactly for the native hash of the message.
func Iff() {
	n := vx.Param("n")
	msg, digest := vx.Frs("m", n), vx.Fr("digest")
	ok := gad.Sat("mimc", []int{n}, hx.Cat(msg, []fr.Element{digest}))
	want := hash.MimcHash(msg)
	vx.Assert(vx.Iff(ok, vx.Eq(digest, want)), "the constraints allow exactly the native hash")
	vx.Assert(vx.Eq(want, published(msg)), "the native hash is the published one")
	vx.Reach("end")
}

// Honest: every message has a witness.
func Honest() {
	n := vx.Param("n")
	msg := vx.Frs("m", n)
	digest := hash.MimcHash(msg)
	vx.Note(digest)
	vx.Assert(gad.Sat("mimc", []int{n}, hx.Cat(msg, []fr.Element{digest})), "an honest witness exists")
	vx.Reach("end")
}

// Several: several hashes in one circuit, of variables, constants and a variable twice.
func Several() {
	n, k := vx.Param("n"), vx.Param("k")
	a, b := vx.Frs("a", n), vx.Frs("b", k)
	want := []fr.Element{published(a), published(b), published(a), published([]fr.Element{hx.C(5), a[0]}), published([]fr.Element{a[0], a[0]})}
	out := vx.Frs("digest", len(want))
	vx.Assert(vx.Iff(gad.Sat("mimcs", []int{n, k}, hx.Cat(a, b, out)), vx.EqS(out, want)), "each of several hashes in one circuit is the native hash")
	vx.Assert(gad.Sat("mimcs", []int{n, k}, hx.Cat(a, b, want)), "an honest witness exists for several hashes")
	vx.Reach("end")
}
