// Package c18: the MiMC hash.
package c18

import (
	"gkr-mimc/hash"
	"gkr-mimc/zz_verif/golden"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

const rounds = 91

// perm is the specified permutation.
func perm(s, block fr.Element) fr.Element {
	for i := 0; i < rounds; i++ {
		s.Add(&s, &block)
		s.Add(&s, &golden.Ark[i])
		s = hx.Pow7(s)
	}
	return s
}

// update is the specified compression.
func update(s, block fr.Element) fr.Element {
	r := perm(s, block)
	r.Add(&r, &s)
	r.Add(&r, &block)
	return r
}

func hashRef(msg []fr.Element) fr.Element {
	var s fr.Element
	for i := range msg {
		s = update(s, msg[i])
	}
	return s
}

// Hash: digests of all messages of n blocks, the message lying in front of other data.
func Hash() {
	n := vx.Param("n")
	mem := vx.Frs("m", n+2)
	keep := hx.Copy(mem)
	got := hash.MimcHash(mem[:n])
	vx.Assert(vx.Eq(got, hashRef(keep[:n])), "the specified digest")
	vx.Assert(vx.EqS(mem, keep), "the message is not modified")
	// again, and another message in between
	hash.MimcHash(mem)
	vx.Assert(vx.Eq(hash.MimcHash(mem[:n]), got), "the digest depends on nothing but the message")
	vx.Reach("end")
}

// Primitives: S-box, permutation and update from every state.
func Primitives() {
	s, b := vx.Fr("s"), vx.Fr("b")
	x := s
	hash.SBoxInplace(&x)
	vx.Assert(vx.Eq(x, hx.Pow7(s)), "the S-box is x^7")
	x = s
	hash.MimcPermutationInPlace(&x, b)
	vx.Assert(vx.Eq(x, perm(s, b)), "the permutation")
	// walking back finds the state: the permutation is injective
	for i := rounds - 1; i >= 0; i-- {
		x = vx.Root7(x)
		x.Sub(&x, &golden.Ark[i])
		x.Sub(&x, &b)
	}
	vx.Assert(vx.Eq(x, s), "the permutation is injective in the state")
	x = s
	hash.MimcUpdateInplace(&x, b)
	vx.Assert(vx.Eq(x, update(s, b)), "the update")
	// the block may be the state
	x = s
	hash.MimcUpdateInplace(&x, x)
	vx.Assert(vx.Eq(x, update(s, s)), "the update by the state itself")
	vx.Reach("end")
}

// Every: a digest depends on every block.
func Every() {
	n := vx.Param("n")
	m := vx.Frs("m", n)
	d := vx.Fr("d")
	got := hash.MimcHash(m)
	for i := range m {
		k := hx.Copy(m)
		k[i].Add(&k[i], &d)
		vx.Sometimes(vx.Not(vx.Eq(hash.MimcHash(k), got)), "the digest depends on every block")
	}
	vx.Reach("end")
}

// History: the digests of one message after another do not depend on what was hashed before.
func History() {
	n := vx.Param("n")
	a, b := vx.Frs("a", n), vx.Frs("b", n)
	vx.Assert(vx.Eq(hash.MimcHash(a), hashRef(a)), "the digest of the first message")
	vx.Assert(vx.Eq(hash.MimcHash(b), hashRef(b)), "the digest of the second message")
	// the same memory with other contents, and a prefix
	copy(a, b[:n/2])
	vx.Assert(vx.Eq(hash.MimcHash(a), hashRef(a)), "the digest of altered memory")
	vx.Assert(vx.Eq(hash.MimcHash(a[:n-1]), hashRef(a[:n-1])), "the digest of a prefix")
	vx.Assert(vx.Eq(hash.MimcHash(b), hashRef(b)), "the digest of the second message again")
	vx.Reach("end")
}
