package hx

import (
	"gkr-mimc/polynomial"
	"gkr-mimc/sumcheck"
	"gkr-mimc/zz_verif/vx"

	"github.com/consensys/gurvy/bn256/fr"
)

// SymSum is an arbitrary sumcheck instance.
func SymSum(kinds []int, bL, bR, bN int) Sum {
	s := Sum{Kinds: kinds, BL: bL, BR: bR, BN: bN}
	s.VL = vx.Frs("vL", 1<<uint(bL+bN))
	s.VR = vx.Frs("vR", 1<<uint(bR+bN))
	s.Eq = vx.Frs("eq", 1<<uint(bN))
	for i := range kinds {
		s.Statics = append(s.Statics, vx.Frs("st"+string(rune('a'+i)), 1<<uint(bL+bR)))
	}
	return s
}

// BKT wraps a copy of a table.
func BKT(t []fr.Element) polynomial.BookKeepingTable {
	return polynomial.NewBookKeepingTable(Copy(t))
}

// BKTs wraps copies of tables.
func BKTs(t [][]fr.Element) []polynomial.BookKeepingTable {
	res := make([]polynomial.BookKeepingTable, len(t))
	for i := range t {
		res[i] = BKT(t[i])
	}
	return res
}

// Single is the single-threaded prover of the instance.
func (s Sum) Single() sumcheck.SingleThreadedProver {
	return sumcheck.NewSingleThreadedProver(BKT(s.VL), BKT(s.VR), BKT(s.Eq), s.Gates(), BKTs(s.Statics))
}

// Multi is the multi-threaded prover of the instance.
func (s Sum) Multi(nChunks int) sumcheck.MultiThreadedProver {
	return sumcheck.NewMultiThreadedProver(
		BKTs(Chunk(s.VL, nChunks)), BKTs(Chunk(s.VR, nChunks)), BKTs(Chunk(s.Eq, nChunks)),
		s.Gates(), BKTs(s.Statics))
}

// Refill writes an arbitrary instance of the same shape over the tables of s, in place.
func (s *Sum) Refill(p string) {
	copy(s.VL, vx.Frs("vL"+p, len(s.VL)))
	copy(s.VR, vx.Frs("vR"+p, len(s.VR)))
	copy(s.Eq, vx.Frs("eq"+p, len(s.Eq)))
	for i := range s.Statics {
		copy(s.Statics[i], vx.Frs("st"+p+string(rune('a'+i)), len(s.Statics[i])))
	}
}
