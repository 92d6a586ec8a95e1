package polyring

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

func vMax(q, t int) int {
	if vrt.Thorough() {
		return t
	}
	return q
}

// vCoeffs is the reference interpolation: the coefficients of the polynomial through the points.
func vCoeffs(x, y []bls.VS) []bls.VS {
	n := len(x)
	out := make([]bls.VS, n)
	for i := range out {
		out[i] = bls.VK(0)
	}
	for i := range x {
		num := []bls.VS{bls.VK(1)}
		den := bls.VK(1)
		for j := range x {
			if j == i {
				continue
			}
			nx := make([]bls.VS, len(num)+1)
			for k := range nx {
				nx[k] = bls.VK(0)
			}
			for k, c := range num {
				nx[k] = bls.VSub(nx[k], bls.VMul(c, x[j]))
				nx[k+1] = bls.VAdd(nx[k+1], c)
			}
			num = nx
			den = bls.VMul(den, bls.VSub(x[i], x[j]))
		}
		s := bls.VMul(y[i], bls.VInv(den))
		for k := range num {
			out[k] = bls.VAdd(out[k], bls.VMul(num[k], s))
		}
	}
	return out
}

// Points 1..d+1 (the ones the parties use) and shifted or reordered ones, arbitrary values.
func Verif_P12_indexes() {
	d := vrt.Choose("degree", vMax(17, 33))
	mode := vrt.Choose("mode", 3)
	x := make([]bls.Fr, d+1)
	xv := make([]bls.VS, d+1)
	for i := range x {
		k := uint64(i + 1)
		switch mode {
		case 1:
			k = uint64(3*d + 2 - 2*i)
		case 2:
			k = uint64(i*i + 7*i)
		}
		xv[i] = bls.VK(k)
		x[i] = bls.VFr(xv[i])
	}
	y, yv := bls.VFrs("y", d+1)
	r := LagrangeInterpolate(d, x, y)
	vrt.Assert(len(r) == d+1, "as many coefficients as points")
	w := vCoeffs(xv, yv)
	for i := range w {
		vrt.Assert(bls.VEq(bls.VOf(&r[i]), w[i]), "the unique polynomial through the points")
	}
	for i := range x {
		vrt.Assert(bls.VEq(bls.VOf(&x[i]), xv[i]), "the points are not modified")
		vrt.Assert(bls.VEq(bls.VOf(&y[i]), yv[i]), "the values are not modified")
	}
}

// Arbitrary distinct points.
func Verif_P12_points() {
	d := vrt.Choose("degree", vMax(3, 4))
	x, xv := bls.VFrs("x", d+1)
	y, yv := bls.VFrs("y", d+1)
	for i := range x {
		for j := range x[:i] {
			vrt.Assume(!bls.VEq(xv[i], xv[j]))
		}
	}
	r := LagrangeInterpolate(d, x, y)
	vrt.Assert(len(r) == d+1, "as many coefficients as points")
	rv := make([]bls.VS, len(r))
	for i := range r {
		rv[i] = bls.VOf(&r[i])
	}
	for i := range x {
		vrt.Assert(bls.VEq(bls.VEval(rv, xv[i]), yv[i]), "the polynomial passes through every point")
	}
}

// More points than the degree needs: only the first ones determine the result.
func Verif_P12_first() {
	d := vrt.Choose("degree", 4)
	n := d + 2
	x := make([]bls.Fr, n)
	xv := make([]bls.VS, n)
	for i := range x {
		xv[i] = bls.VK(uint64(2*i + 3))
		x[i] = bls.VFr(xv[i])
	}
	y, yv := bls.VFrs("y", n)
	r := LagrangeInterpolate(d, x, y)
	w := vCoeffs(xv[:d+1], yv[:d+1])
	vrt.Assert(len(r) == d+1, "as many coefficients as the degree needs")
	for i := range w {
		vrt.Assert(bls.VEq(bls.VOf(&r[i]), w[i]), "the polynomial through the first points")
	}
}

// Repeated points do not determine a polynomial and are not silently accepted.
//verif:replay=none
func Verif_P12_repeated() {
	d := 1 + vrt.Choose("degree", 3)
	x, xv := bls.VFrs("x", d+1)
	y, _ := bls.VFrs("y", d+1)
	i, j := vrt.Choose("i", d+1), vrt.Choose("j", d+1)
	vrt.Assume(i < j)
	vrt.Assume(bls.VEq(xv[i], xv[j]))
	vrt.Assert(vrt.Crashes(func() { LagrangeInterpolate(d, x, y) }), "repeated points are refused")
}

// Interpolations in a row, of different degrees and points: each is what it is alone.
func Verif_P12_sequence() {
	kinds := [][]uint64{{1, 2, 3}, {1, 4, 3}, {3, 2, 1}, {2, 3, 4}, {1, 2}, {3, 4}, {1, 4}, {1, 2, 3, 4, 5}, {1, 4, 2, 7, 5}, {6}}
	run := func(i int) func() {
		k := kinds[i]
		x := make([]bls.Fr, len(k))
		xv := make([]bls.VS, len(k))
		for j := range k {
			xv[j] = bls.VK(k[j])
			x[j] = bls.VFr(xv[j])
		}
		y, yv := bls.VFrs("y", len(k))
		r := LagrangeInterpolate(len(k)-1, x, y)
		return func() {
			w := vCoeffs(xv, yv)
			vrt.Assert(len(r) == len(w), "as many coefficients as points")
			for j := range w {
				vrt.Assert(bls.VEq(bls.VOf(&r[j]), w[j]), "the unique polynomial through the points")
				vrt.Assert(vrt.And(bls.VEq(bls.VOf(&x[j]), xv[j]), bls.VEq(bls.VOf(&y[j]), yv[j])), "points and values are not modified")
			}
		}
	}
	a := run(vrt.Choose("first", len(kinds)))
	b := run(vrt.Choose("second", len(kinds)))
	a()
	b()
}
