package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

func vZeroPoly(fs *FFTSettings, idx []uint64, n int, dom []bls.VS) {
	ev, po := fs.ZeroPolyViaMultiplication(idx, uint64(n))
	vrt.Assert(vrt.And(len(ev) == n, len(po) == n), "both vectors have the requested length")
	miss := make([]bool, n)
	want := []bls.VS{bls.VK(1)}
	for _, i := range idx {
		miss[i] = true
		nw := make([]bls.VS, len(want)+1)
		for j := range nw {
			nw[j] = bls.VK(0)
		}
		for j, c := range want {
			nw[j] = bls.VSub(nw[j], bls.VMul(c, dom[i]))
			nw[j+1] = bls.VAdd(nw[j+1], c)
		}
		want = nw
	}
	okc, oke, okz := true, true, true
	pv := vVals(po)
	for i := 0; i < n; i++ {
		w := bls.VK(0)
		if i < len(want) {
			w = want[i]
		}
		okc = vrt.And(okc, bls.VEq(pv[i], w))
		e := bls.VOf(&ev[i])
		oke = vrt.And(oke, bls.VEq(e, bls.VEval(want, dom[i])))
		okz = vrt.And(okz, vrt.Iff(bls.VZero(e), miss[i]))
	}
	vrt.Assert(okc, "the polynomial is the monic product over the missing points")
	vrt.Assert(oke, "the evaluation vector holds its values on the domain")
	vrt.Assert(okz, "the evaluation vector is zero exactly at the missing positions")
}

// Every set of missing positions that leaves at least one position.
//
//verif:paths=140000 budget=280s
func Verif_P10_subsets() {
	k := 1 + vrt.Choose("k", vMax(3, 4))
	extra := vrt.Choose("extra", 2)
	n := 1 << k
	var idx []uint64
	for i := 0; i < n; i++ {
		if vrt.Choose("missing", 2) == 1 {
			idx = append(idx, uint64(i))
		}
	}
	vrt.Assume(len(idx) > 0 && len(idx) < n)
	fs := NewFFTSettings(uint8(k + extra))
	vZeroPoly(fs, idx, n, vDomain(k))
}

// The positions may come in any order.
func Verif_P10_order() {
	n := 8
	var idx []uint64
	m := 1 + vrt.Choose("m", 4)
	used := make([]bool, n)
	for i := 0; i < m; i++ {
		j := vrt.Choose("pos", n)
		vrt.Assume(!used[j])
		used[j] = true
		idx = append(idx, uint64(j))
	}
	fs := NewFFTSettings(3)
	vZeroPoly(fs, idx, n, vDomain(3))
}

// Sets that need the tree reduction: size, spread and offset are chosen.
func Verif_P10_tree() {
	k := 7 + vrt.Choose("k", vMax(2, 4))
	n := 1 << k
	sizes := []int{63, 64, 65, 126, 127, 128, 189, 190, 252, 253, 315, 400, 500, 505, 600, 700, 1000}
	sizes = append(sizes, n-1, n-2, n-64)
	m := sizes[vrt.Choose("size", len(sizes))]
	vrt.Assume(m < n)
	mode := vrt.Choose("mode", 4)
	var idx []uint64
	switch mode {
	case 0: // first positions
		for i := 0; i < m; i++ {
			idx = append(idx, uint64(i))
		}
	case 1: // last positions
		for i := n - m; i < n; i++ {
			idx = append(idx, uint64(i))
		}
	case 2: // odd step, wraps around
		for i := 0; i < m; i++ {
			idx = append(idx, uint64((i*77+5)%n))
		}
	case 3: // every second position first
		for i := 0; i < m; i++ {
			j := 2 * i
			if j >= n {
				j = j - n + 1
			}
			idx = append(idx, uint64(j))
		}
	}
	fs := NewFFTSettings(uint8(k))
	dom := vDomain(k)
	ev, po := fs.ZeroPolyViaMultiplication(idx, uint64(n))
	vrt.Assert(vrt.And(len(ev) == n, len(po) == n), "both vectors have the requested length")
	miss := make([]bool, n)
	for _, i := range idx {
		miss[i] = true
	}
	ok := true
	for i := 0; i < n; i++ {
		ok = vrt.And(ok, vrt.Iff(bls.VZero(bls.VOf(&ev[i])), miss[i]))
	}
	vrt.Assert(ok, "the evaluation vector is zero exactly at the missing positions")
	top := true
	for i := m; i < n; i++ {
		w := bls.VK(0)
		if i == m {
			w = bls.VK(1)
		}
		top = vrt.And(top, bls.VEq(bls.VOf(&po[i]), w))
	}
	vrt.Assert(top, "the polynomial is monic of the degree of the set")
	// with the two facts above, values that match the polynomial make it the product
	pv := vVals(po[:m+1])
	s := []int{0, 1, n / 2, n - 1, int(idx[0]), int(idx[m-1]), 17}
	for _, i := range s {
		vrt.Assert(bls.VEq(bls.VEval(pv, dom[i]), bls.VOf(&ev[i])), "the evaluation vector holds the polynomial's values")
	}
	_ = dom
}

func Verif_P10_refuse() {
	fs := NewFFTSettings(3)
	n := vrt.Choose("n", 20)
	vrt.Assume(n > 1)
	ok := n == 2 || n == 4 || n == 8
	vrt.Assert(vrt.Iff(!vrt.Panics(func() { fs.ZeroPolyViaMultiplication([]uint64{1}, uint64(n)) }), ok), "unsupported lengths are refused")
}

// No missing position: the empty product is the constant one.
func Verif_P10_empty() {
	k := 1 + vrt.Choose("k", 3)
	fs := NewFFTSettings(uint8(k))
	vZeroPoly(fs, nil, 1<<k, vDomain(k))
}

// Every position missing: the polynomial x^n - 1 does not fit in n coefficients and is refused.
func Verif_P10_all() {
	k := []int{1, 2, 3, 7}[vrt.Choose("k", 4)]
	fs := NewFFTSettings(uint8(k))
	var idx []uint64
	for i := 0; i < 1<<k; i++ {
		idx = append(idx, uint64(i))
	}
	vrt.Assert(vrt.Panics(func() { fs.ZeroPolyViaMultiplication(idx, 1<<k) }), "a polynomial that does not fit is refused, not truncated")
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P10_history() { vHistory("P10") }
