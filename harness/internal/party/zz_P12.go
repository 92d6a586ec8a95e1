package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Lagrange coefficients at an arbitrary target for concrete and for arbitrary distinct points.
func Verif_P12_coefficients() {
	d := vrt.Choose("degree", vMax(9, 17))
	x := make([]bls.Fr, d+1)
	xv := make([]bls.VS, d+1)
	free := d < 3 && vrt.Choose("arbitrary points", 2) == 1
	for i := range x {
		if free {
			xv[i] = bls.VVar("x")
			for j := range xv[:i] {
				vrt.Assume(!bls.VEq(xv[i], xv[j]))
			}
		} else {
			xv[i] = bls.VK(uint64(i*i + 1))
		}
		x[i] = bls.VFr(xv[i])
	}
	t := bls.VVar("t")
	l := make([]bls.Fr, d+1)
	GetLagrangeCoefficients(uint32(d), x, bls.VFr(t), l)
	for i := range x {
		e := make([]bls.VS, d+1)
		for j := range e {
			e[j] = bls.VK(0)
		}
		e[i] = bls.VK(1)
		vrt.Assert(bls.VEq(bls.VOf(&l[i]), vLag(xv, e, t)), "each coefficient is the Lagrange basis polynomial at the target")
		vrt.Assert(bls.VEq(bls.VOf(&x[i]), xv[i]), "the points are not modified")
	}
}

// The coefficients every party precomputes.
func Verif_P12_party() {
	f := 1 + vrt.Choose("f", vMax(4, 6))
	n := 3*f + 1
	p := vParty(uint32(n), uint32(f), 0)
	vrt.Assert(len(p.LagrangeCoefficients) == n+1, "one row per target")
	_, y := bls.VFrs("y", 2*f+1)
	x := make([]bls.VS, 2*f+1)
	for i := range x {
		x[i] = bls.VK(uint64(i + 1))
	}
	for t := 0; t <= n; t++ {
		s := bls.VK(0)
		for i := range y {
			s = bls.VAdd(s, bls.VMul(y[i], bls.VOf(&p.LagrangeCoefficients[t][i])))
		}
		vrt.Assert(bls.VEq(s, vLag(x, y, bls.VK(uint64(t)))), "the precomputed coefficients interpolate from 1..2f+1")
	}
}

// Interpolation of commitments and witnesses in the exponent.
func Verif_P12_exponent() {
	f := 1 + vrt.Choose("f", vMax(3, 5))
	n := 3*f + 1
	p := vParty(uint32(n), uint32(f), 0)
	d := 2 * f
	if vrt.Choose("degree", 2) == 1 {
		d = f
	}
	t := vrt.Choose("target", n+1)
	list := make([]bls.G1Point, d+1)
	y := make([]bls.VS, d+1)
	x := make([]bls.VS, d+1)
	for i := range list {
		y[i] = bls.VVar("y")
		list[i] = bls.VG1(y[i])
		x[i] = bls.VK(uint64(i + 1))
	}
	r := p.InterpolateComOrWit(uint32(d), uint32(t), list)
	vrt.Assert(bls.VIsG1(&r, vLag(x, y, bls.VK(uint64(t)))), "the interpolated element lies on the polynomial through the list")
	for i := range list {
		vrt.Assert(bls.VIsG1(&list[i], y[i]), "the list is not modified")
	}
}

// The same from an arbitrary choice of known indexes, in any order.
func Verif_P12_known() {
	f := 1
	if vrt.Thorough() {
		f += vrt.Choose("f", 2)
	}
	n := 3*f + 1
	p := vParty(uint32(n), uint32(f), 0)
	d := 2 * f
	if vrt.Choose("degree", 2) == 1 {
		d = f
	}
	t := vrt.Choose("target", n+1)
	list := make([]bls.G1Point, d+1)
	y := make([]bls.VS, d+1)
	x := make([]bls.VS, d+1)
	kx := make([]bls.Fr, d+1)
	used := make([]bool, n+1)
	for i := range list {
		y[i] = bls.VVar("y")
		list[i] = bls.VG1(y[i])
		k := 1 + vrt.Choose("index", n)
		vrt.Assume(!used[k])
		used[k] = true
		x[i] = bls.VK(uint64(k))
		kx[i] = bls.VFr(x[i])
	}
	r := p.InterpolateComOrWitByKnownIndexes(uint32(d), uint32(t), kx, list)
	vrt.Assert(bls.VIsG1(&r, vLag(x, y, bls.VK(uint64(t)))), "the interpolated element lies on the polynomial through the known indexes")
}

// Larger committees with chosen sets and orders of known indexes.
func Verif_P12_known_larger() {
	f := 2 + vrt.Choose("f", vMax(2, 3))
	n := 3*f + 1
	p := vParty(uint32(n), uint32(f), 0)
	d := []int{f, 2 * f}[vrt.Choose("degree", 2)]
	t := vrt.Choose("target", n+1)
	mode := vrt.Choose("mode", 4)
	var list []bls.G1Point
	var y, x []bls.VS
	var kx []bls.Fr
	for i := 0; i <= d; i++ {
		k := []int{n - i, i + 1, 1 + (i*2+1)%n, 1 + (n-1+i)%n}[mode]
		if mode == 2 && n%2 == 0 {
			k = 1 + (i*3+2)%n
		}
		v := bls.VVar("y")
		y, list = append(y, v), append(list, bls.VG1(v))
		x = append(x, bls.VK(uint64(k)))
		kx = append(kx, bls.VFr(bls.VK(uint64(k))))
	}
	r := p.InterpolateComOrWitByKnownIndexes(uint32(d), uint32(t), kx, list)
	vrt.Assert(bls.VIsG1(&r, vLag(x, y, bls.VK(uint64(t)))), "the interpolated element lies on the polynomial through the known indexes")
}

// Interpolations in a row, of different degrees, targets and known indexes, at one party or at parties of
// committees of different sizes: each is what it is alone.
func Verif_P12_history() {
	small, large := vParty(4, 1, 0), vParty(7, 2, 0)
	kinds := []struct {
		f, d, t int
		x       []int
	}{
		{1, 2, 0, []int{1, 2, 3}}, {1, 2, 0, []int{4, 2, 1}}, {1, 2, 0, []int{2, 3, 4}}, {1, 2, 4, []int{1, 2, 3}}, {1, 1, 0, []int{1, 2}}, {1, 1, 0, []int{3, 4}}, {1, 1, 4, []int{2, 1}}, {1, 1, 4, []int{1, 2}}, {1, 2, 3, []int{1, 2, 4}}, {1, 2, 0, []int{1, 4, 3}}, {1, 2, 0, []int{3, 2, 1}}, {1, 1, 0, []int{2, 3}}, {1, 1, 0, []int{1, 4}},
		{2, 4, 0, []int{1, 2, 3, 4, 5}}, {2, 4, 0, []int{7, 1, 3, 5, 2}}, {2, 4, 0, []int{7, 4, 6, 1, 2}}, {2, 2, 0, []int{1, 2, 3}}, {2, 2, 0, []int{2, 3, 4}}, {2, 2, 4, []int{1, 2, 3}}, {2, 4, 6, []int{1, 2, 3, 4, 5}},
	}
	run := func(i int) func() {
		k := kinds[i]
		p := small
		if k.f == 2 {
			p = large
		}
		var list []bls.G1Point
		var y, x []bls.VS
		var kx []bls.Fr
		for _, j := range k.x {
			v := bls.VVar("y")
			y, list = append(y, v), append(list, bls.VG1(v))
			x = append(x, bls.VK(uint64(j)))
			kx = append(kx, bls.VFr(bls.VK(uint64(j))))
		}
		want := vLag(x, y, bls.VK(uint64(k.t)))
		r := p.InterpolateComOrWitByKnownIndexes(uint32(k.d), uint32(k.t), kx, list)
		l := make([]bls.Fr, k.d+1)
		GetLagrangeCoefficients(uint32(k.d), kx, bls.VFr(bls.VK(uint64(k.t))), l)
		return func() {
			vrt.Assert(bls.VIsG1(&r, want), "the interpolated element lies on the polynomial through the known indexes")
			s := bls.VK(0)
			for j := range y {
				s = bls.VAdd(s, bls.VMul(y[j], bls.VOf(&l[j])))
				vrt.Assert(vrt.And(bls.VIsG1(&list[j], y[j]), bls.VEq(bls.VOf(&kx[j]), x[j])), "arguments are not modified")
			}
			vrt.Assert(bls.VEq(s, want), "the coefficients interpolate at the target")
		}
	}
	a := run(vrt.Choose("first", len(kinds)))
	b := run(vrt.Choose("second", len(kinds)))
	a()
	b()
}
