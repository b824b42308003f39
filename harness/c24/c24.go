// Package c24: chunk ranges and integer helpers.
package c24

import (
	"gkr-mimc/common"
	"gkr-mimc/zz_verif/vx"
)

// Ranges: for a given core count, the chunk ranges of every size up to a bound tile it.
func Ranges() { ranges(vx.Param("cores")) }

// AnyCores: the same for every core count up to 4096.
func AnyCores() { ranges(vx.Int("cores", 1, 4096)) }

func ranges(cores int) {
	n := vx.Int("n", vx.Param("lo"), vx.Param("hi"))
	rs := common.IntoChunkRanges(cores, n)
	at := 0
	for i, r := range rs {
		vx.Assert(vx.IntEq(r.Begin, at), "ranges are consecutive and start at zero")
		vx.Assert(r.Begin < r.End, "ranges are not empty")
		if i+1 < len(rs) {
			vx.Assert(r.End-r.Begin >= common.MinChunkSize, "only the last range may be shorter than the minimum")
		}
		at = r.End
	}
	vx.Assert(vx.IntEq(at, n), "ranges end at the size")
	vx.Assert(len(rs) <= cores+1, "at most one range more than cores")
	vx.Reach("end")
}

// Logs: floor and ceiling of the base-2 logarithm.
func Logs() {
	k := uint(vx.Param("bits"))
	a := vx.Int("a", 1<<k, (1<<k)-1+(1<<k))
	f := common.Log2Floor(a)
	vx.Assert(vx.IntEq(f, int(k)), "2^floor <= a < 2^(floor+1)")
	c := common.Log2Ceil(a)
	if a == 1<<k {
		vx.Assert(vx.IntEq(c, int(k)), "2^(ceil-1) < a <= 2^ceil")
		vx.Reach("power")
	} else {
		vx.Assert(vx.IntEq(c, int(k)+1), "2^(ceil-1) < a <= 2^ceil")
	}
	vx.Reach("end")
}

// MinMax returns the smaller and the larger argument.
func MinMax() {
	const lo, hi = -1 << 63, 1<<63 - 1
	a, b := vx.Int("a", lo, hi), vx.Int("b", lo, hi)
	mn, mx := common.Min(a, b), common.Max(a, b)
	vx.Assert(vx.And(mn <= a, mn <= b, vx.Or(vx.IntEq(mn, a), vx.IntEq(mn, b))), "Min")
	vx.Assert(vx.And(mx >= a, mx >= b, vx.Or(vx.IntEq(mx, a), vx.IntEq(mx, b))), "Max")
	vx.Reach("end")
}

// Again: the same questions asked one after another.
func Again() {
	a, b, n := vx.Param("a"), vx.Param("b"), vx.Param("n")
	for _, x := range []int{a, b, a, n} {
		f, c := common.Log2Floor(x), common.Log2Ceil(x)
		vx.Assert(vx.And(1<<uint(f) <= x, x < 2<<uint(f)), "2^floor <= a < 2^(floor+1)")
		vx.Assert(vx.And(1<<uint(c) >= x, c == 0 || 1<<uint(c-1) < x), "2^(ceil-1) < a <= 2^ceil")
	}
	for _, x := range [][2]int{{a, n}, {b, n}, {a, n + 1}} {
		at := 0
		for _, r := range common.IntoChunkRanges(x[0], x[1]) {
			vx.Assert(vx.IntEq(r.Begin, at), "ranges are consecutive and start at zero")
			at = r.End
		}
		vx.Assert(vx.IntEq(at, x[1]), "ranges end at the size")
	}
	vx.Reach("end")
}
