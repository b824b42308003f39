// Package c19: the Poseidon and GMiMC hashes.
package c19

import (
	"gkr-mimc/hash"
	"gkr-mimc/zz_verif/golden"
	"gkr-mimc/zz_verif/hx"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// The two constructions.
const (
	poseidon = iota
	gmimc
)

type hasher struct {
	hash   func(msg []fr.Element) fr.Element
	update func(state, block []fr.Element)
}

func get(kind, t int) hasher {
	if kind == poseidon {
		p := map[int]*hash.PoseidonHasher{2: &hash.PoseidonT2, 4: &hash.PoseidonT4, 8: &hash.PoseidonT8}[t]
		return hasher{p.Hash, p.Update}
	}
	g := map[int]*hash.GMimcHasher{2: &hash.GMimcT2, 4: &hash.GMimcT4, 8: &hash.GMimcT8}[t]
	return hasher{g.Hash, g.UpdateInplace}
}

// mds is the Cauchy matrix 1/(x_i + y_j).
func mds(t int) [][]fr.Element {
	res := make([][]fr.Element, t)
	for i := range res {
		res[i] = make([]fr.Element, t)
		for j := range res[i] {
			res[i][j].Add(&golden.X[i], &golden.Y[j])
			res[i][j].Inverse(&res[i][j])
		}
	}
	return res
}

func keyed(s, key []fr.Element, ark fr.Element) {
	for i := range s {
		s[i].Add(&s[i], &key[i])
		s[i].Add(&s[i], &ark)
	}
}

// update is the specified compression: the keyed permutation of the state, plus the state, plus the block.
func update(kind int, state, block []fr.Element) []fr.Element {
	t := len(state)
	s := hx.Copy(state)
	if kind == gmimc {
		for i := 0; i < 91; i++ {
			keyed(s, block, golden.Ark[i])
			s[0] = hx.Pow7(s[0])
			s = append(hx.Copy(s[1:]), s[0])
		}
	} else {
		const full = 8
		partial := map[int]int{2: 82, 4: 83, 8: 84}[t]
		m := mds(t)
		for i := 0; i < full+partial+full; i++ {
			keyed(s, block, golden.Ark[i])
			for j := range s {
				if j == 0 || i < full || i >= full+partial {
					s[j] = hx.Pow7(s[j])
				}
			}
			mixed := make([]fr.Element, t)
			for j := range mixed {
				for k := range s {
					var x fr.Element
					x.Mul(&m[j][k], &s[k])
					mixed[j].Add(&mixed[j], &x)
				}
			}
			s = mixed
		}
	}
	for i := range s {
		s[i].Add(&s[i], &state[i])
		s[i].Add(&s[i], &block[i])
	}
	return s
}

func hashRef(kind, t int, msg []fr.Element) fr.Element {
	state := make([]fr.Element, t)
	for at := 0; at < len(msg); at += t {
		block := make([]fr.Element, t)
		for j := 0; j < t && at+j < len(msg); j++ {
			block[j] = msg[at+j]
		}
		state = update(kind, state, block)
	}
	return state[0]
}

// Update: every state and block.
func Update() {
	kind, t := vx.Param("kind"), vx.Param("t")
	h := get(kind, t)
	mem := vx.Frs("s", t+2)
	block := vx.Frs("b", t)
	keep, kb := hx.Copy(mem), hx.Copy(block)
	h.update(mem[:t], block)
	vx.Assert(vx.EqS(mem[:t], update(kind, keep[:t], kb)), "the whole state is replaced by the specified value")
	vx.Assert(vx.EqS(mem[t:], keep[t:]), "nothing behind the state is written")
	vx.Assert(vx.EqS(block, kb), "the block is not modified")
	vx.Reach("end")
}

// Hash: every message of n words, lying in front of other data.
func Hash() {
	kind, t, n := vx.Param("kind"), vx.Param("t"), vx.Param("n")
	h := get(kind, t)
	mem := vx.Frs("m", n+t)
	other := vx.Frs("o", vx.Param("other"))
	keep := hx.Copy(mem)
	vx.Assert(vx.Eq(h.hash(mem[:n]), hashRef(kind, t, keep[:n])), "the specified digest")
	vx.Assert(vx.EqS(mem, keep), "the message is not modified")
	// another message, then the first again
	vx.Assert(vx.Eq(h.hash(other), hashRef(kind, t, other)), "the specified digest of a second message")
	vx.Assert(vx.Eq(h.hash(mem[:n]), hashRef(kind, t, keep[:n])), "the digest depends on nothing but the message")
	vx.Reach("end")
}

// Every: the digest depends on every word of every block.
func Every() {
	kind, t, n := vx.Param("kind"), vx.Param("t"), vx.Param("n")
	h := get(kind, t)
	m := vx.Frs("m", n)
	d := vx.Fr("d")
	got := h.hash(m)
	for i := range m {
		k := hx.Copy(m)
		k[i].Add(&k[i], &d)
		vx.Sometimes(vx.Not(vx.Eq(h.hash(k), got)), "the digest depends on every word of every block")
	}
	vx.Reach("end")
}

// Matrix: the entries are the inverses of the sums, and the product is the product.
func Matrix() {
	t := vx.Param("t")
	m := hash.GenerateMDSMatrix(t)
	for i := range m {
		for j := range m[i] {
			var x fr.Element
			x.Add(&golden.X[i], &golden.Y[j])
			x.Mul(&x, &m[i][j])
			vx.Assert(vx.Eq(x, hx.C(1)), "entries are the inverses of the sums")
		}
	}
	var flat []fr.Element
	v := vx.Frs("v", t)
	w := vx.Frs("w", t*(t+1))
	var mat [][]fr.Element
	for i := 0; i < t+1; i++ {
		mat = append(mat, w[i*t:(i+1)*t])
	}
	for i := range mat {
		var x fr.Element
		for j := range v {
			var y fr.Element
			y.Mul(&mat[i][j], &v[j])
			x.Add(&x, &y)
		}
		flat = append(flat, x)
	}
	kv, kw := hx.Copy(v), hx.Copy(w)
	vx.Assert(vx.EqS(hash.MatrixMultiplication(mat, v), flat), "the matrix product")
	vx.Assert(vx.And(vx.EqS(v, kv), vx.EqS(w, kw)), "the operands of the product keep their values")
	vx.Reach("end")
}

// Steps: the round functions.
func Steps() {
	t := vx.Param("t")
	s, k, a := vx.Frs("s", t), vx.Frs("k", t), vx.Fr("a")
	x, want := hx.Copy(s), hx.Copy(s)
	kk := hx.Copy(k)
	hash.AddArkAndKeysInplace(x, k, a)
	keyed(want, kk, a)
	vx.Assert(vx.And(vx.EqS(x, want), vx.EqS(k, kk)), "keys and round constant are added to every word")
	x = hx.Copy(s)
	hash.FullRoundInPlace(x)
	for i := range want {
		want[i] = hx.Pow7(s[i])
	}
	vx.Assert(vx.EqS(x, want), "a full round takes every word to its seventh power")
	x, want = hx.Copy(s), hx.Copy(s)
	hash.PartialRoundInplace(x)
	want[0] = hx.Pow7(s[0])
	vx.Assert(vx.EqS(x, want), "a partial round takes the first word to its seventh power")
	x = hx.Copy(s)
	hash.InPlaceCircularPermutation(x)
	vx.Assert(vx.EqS(x, append(hx.Copy(s[1:]), s[0])), "the rotation moves the first word to the end")
	vx.Reach("end")
}

// History: two messages one after another, the second in the memory of the first.
func History() {
	kind, t, n, k := vx.Param("kind"), vx.Param("t"), vx.Param("n"), vx.Param("second")
	h := get(kind, t)
	mem := vx.Frs("m", n)
	vx.Assert(vx.Eq(h.hash(mem), hashRef(kind, t, mem)), "the specified digest")
	if k <= n {
		vx.Assert(vx.Eq(h.hash(mem[:k]), hashRef(kind, t, mem[:k])), "the digest of a prefix")
		copy(mem, vx.Frs("o", k))
		vx.Assert(vx.Eq(h.hash(mem), hashRef(kind, t, mem)), "the digest of altered memory")
	}
	o := vx.Frs("p", k)
	vx.Assert(vx.Eq(h.hash(o), hashRef(kind, t, o)), "the digest of another message")
	vx.Reach("end")
}
