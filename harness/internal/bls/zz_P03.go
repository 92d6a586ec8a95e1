package bls

import "github.com/DyCAPSTeam/DyCAPS/internal/vrt"

// Group operations act on discrete logarithms; operands other than the destination are kept.
func Verif_P03_g1() {
	x, y, k := VVar("x"), VVar("y"), VVar("k")
	a, b, s := VG1(x), VG1(y), VFr(k)
	var d G1Point
	switch vrt.Choose("alias", 3) {
	case 0:
		AddG1(&d, &a, &b)
		vrt.Assert(VIsG1(&d, VAdd(x, y)), "AddG1 adds")
		SubG1(&d, &a, &b)
		vrt.Assert(VIsG1(&d, VSub(x, y)), "SubG1 subtracts")
		MulG1(&d, &a, &s)
		vrt.Assert(VIsG1(&d, VMul(x, k)), "MulG1 multiplies")
		vrt.Assert(VEq(VOf(&s), k), "MulG1 leaves the scalar as it was")
		CopyG1(&d, &a)
		NegG1(&d)
		vrt.Assert(VIsG1(&d, VSub(VK(0), x)), "NegG1 negates")
		vrt.Assert(vrt.And(VIsG1(&a, x), VIsG1(&b, y)), "operands are not modified")
		ClearG1(&d)
		vrt.Assert(VIsG1(&d, VK(0)), "ClearG1 gives the neutral element")
		vrt.Assert(vrt.Iff(EqualG1(&a, &b), VEq(x, y)), "EqualG1 decides equality")
	case 1:
		AddG1(&a, &a, &b)
		vrt.Assert(VIsG1(&a, VAdd(x, y)), "AddG1 over the first operand")
		a = VG1(x)
		SubG1(&a, &a, &b)
		vrt.Assert(VIsG1(&a, VSub(x, y)), "SubG1 over the first operand")
		a = VG1(x)
		MulG1(&a, &a, &s)
		vrt.Assert(VIsG1(&a, VMul(x, k)), "MulG1 in place")
		vrt.Assert(VIsG1(&b, y), "second operand is not modified")
	case 2:
		AddG1(&b, &a, &b)
		vrt.Assert(VIsG1(&b, VAdd(x, y)), "AddG1 over the second operand")
		b = VG1(y)
		SubG1(&b, &a, &b)
		vrt.Assert(VIsG1(&b, VSub(x, y)), "SubG1 over the second operand")
		vrt.Assert(VIsG1(&a, x), "first operand is not modified")
		AddG1(&a, &a, &a)
		vrt.Assert(VIsG1(&a, VAdd(x, x)), "AddG1 doubles")
	}
}

func Verif_P03_g2() {
	x, y, k := VVar("x"), VVar("y"), VVar("k")
	a, b, s := VG2(x), VG2(y), VFr(k)
	var d G2Point
	switch vrt.Choose("alias", 3) {
	case 0:
		AddG2(&d, &a, &b)
		vrt.Assert(VIsG2(&d, VAdd(x, y)), "AddG2 adds")
		SubG2(&d, &a, &b)
		vrt.Assert(VIsG2(&d, VSub(x, y)), "SubG2 subtracts")
		MulG2(&d, &a, &s)
		vrt.Assert(VIsG2(&d, VMul(x, k)), "MulG2 multiplies")
		vrt.Assert(VEq(VOf(&s), k), "MulG2 leaves the scalar as it was")
		CopyG2(&d, &a)
		NegG2(&d)
		vrt.Assert(VIsG2(&d, VSub(VK(0), x)), "NegG2 negates")
		vrt.Assert(vrt.And(VIsG2(&a, x), VIsG2(&b, y)), "operands are not modified")
		ClearG2(&d)
		vrt.Assert(VIsG2(&d, VK(0)), "ClearG2 gives the neutral element")
		vrt.Assert(vrt.Iff(EqualG2(&a, &b), VEq(x, y)), "EqualG2 decides equality")
	case 1:
		AddG2(&a, &a, &b)
		vrt.Assert(VIsG2(&a, VAdd(x, y)), "AddG2 over the first operand")
		a = VG2(x)
		SubG2(&a, &a, &b)
		vrt.Assert(VIsG2(&a, VSub(x, y)), "SubG2 over the first operand")
		a = VG2(x)
		MulG2(&a, &a, &s)
		vrt.Assert(VIsG2(&a, VMul(x, k)), "MulG2 in place")
		vrt.Assert(VIsG2(&b, y), "second operand is not modified")
	case 2:
		AddG2(&b, &a, &b)
		vrt.Assert(VIsG2(&b, VAdd(x, y)), "AddG2 over the second operand")
		b = VG2(y)
		SubG2(&b, &a, &b)
		vrt.Assert(VIsG2(&b, VSub(x, y)), "SubG2 over the second operand")
		vrt.Assert(VIsG2(&a, x), "first operand is not modified")
	}
}

// The named points.
func Verif_P03_consts() {
	vrt.Assert(VIsG1(&GenG1, VK(1)), "GenG1 is the standard generator")
	vrt.Assert(VIsG2(&GenG2, VK(1)), "GenG2 is the standard generator")
	vrt.Assert(vrt.And(VIsG1(&ZeroG1, VK(0)), VIsG1(&ZERO_G1, VK(0))), "ZeroG1 is neutral")
	vrt.Assert(VIsG2(&ZeroG2, VK(0)), "ZeroG2 is neutral")
}

// Multi-scalar combination.
func Verif_P03_lincomb() {
	n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 33, 64}[vrt.Choose("n", 13)]
	f, v := VFrs("f", n)
	w := make([]VS, n)
	p := make([]G1Point, n)
	s := VK(0)
	for i := range p {
		w[i] = VVar("p")
		p[i] = VG1(w[i])
		s = VAdd(s, VMul(v[i], w[i]))
	}
	d := LinCombG1(p, f)
	vrt.Assert(VIsG1(d, s), "LinCombG1 is the combination")
	for i := range p {
		vrt.Assert(vrt.And(VIsG1(&p[i], w[i]), VEq(VOf(&f[i]), v[i])), "arguments are not modified")
	}
	if n > 0 {
		vrt.Assert(vrt.Panics(func() { LinCombG1(p, f[:n-1]) }), "too few factors are refused")
		vrt.Assert(vrt.Panics(func() { LinCombG1(p[:n-1], f) }), "too few points are refused")
	}
}

// The pairing comparison accepts exactly when the products of the exponents agree.
func Verif_P03_pairing() {
	a, b, c, d := VVar("a"), VVar("b"), VVar("c"), VVar("d")
	p, q, r, s := VG1(a), VG2(b), VG1(c), VG2(d)
	ok := PairingsVerify(&p, &q, &r, &s)
	vrt.ObsBool("ok", ok)
	vrt.Assert(vrt.Iff(ok, VEq(VMul(a, b), VMul(c, d))), "PairingsVerify accepts exactly when the products agree")
	vrt.Assert(vrt.And(VIsG1(&p, a), VIsG2(&q, b), VIsG1(&r, c), VIsG2(&s, d)), "arguments are not modified")
}

// Compressing and decompressing gives back the point.
func Verif_P03_compress() {
	x := VVar("x")
	p, q := VG1(x), VG2(x)
	b := ToCompressedG1(&p)
	vrt.Assert(len(b) == 48, "a compressed G1 point has 48 bytes")
	r, err := FromCompressedG1(b)
	vrt.Assert(err == nil, "a compressed G1 point decodes")
	vrt.Assert(VIsG1(r, x), "decoding gives back the G1 point")
	b = ToCompressedG2(&q)
	vrt.Assert(len(b) == 96, "a compressed G2 point has 96 bytes")
	s, err := FromCompressedG2(b)
	vrt.Assert(err == nil, "a compressed G2 point decodes")
	vrt.Assert(VIsG2(s, x), "decoding gives back the G2 point")
	vrt.Assert(vrt.And(VIsG1(&p, x), VIsG2(&q, x)), "encoding does not modify the point")
}

func Verif_P03_text() {
	x, y := VVar("x"), VVar("y")
	p, q := VG1(x), VG2(x)
	t, err := p.MarshalText()
	vrt.Assert(err == nil, "MarshalText of a G1 point")
	r := VG1(y)
	vrt.Assert(r.UnmarshalText(t) == nil, "UnmarshalText of a G1 point")
	vrt.Assert(VIsG1(&r, x), "the text gives back the G1 point")
	t, err = q.MarshalText()
	vrt.Assert(err == nil, "MarshalText of a G2 point")
	s := VG2(y)
	vrt.Assert(s.UnmarshalText(t) == nil, "UnmarshalText of a G2 point")
	vrt.Assert(VIsG2(&s, x), "the text gives back the G2 point")
	// text that is not a point is an error and changes nothing
	bad := []string{"", "00", "zz", "c0"}
	k := vrt.Choose("bad", len(bad))
	r, s = VG1(y), VG2(y)
	vrt.Assert(r.UnmarshalText([]byte(bad[k])) != nil, "bad G1 text is refused")
	vrt.Assert(s.UnmarshalText([]byte(bad[k])) != nil, "bad G2 text is refused")
	vrt.Assert(vrt.And(VIsG1(&r, y), VIsG2(&s, y)), "bad text leaves the point as it was")
	var n1 *G1Point
	var n2 *G2Point
	vrt.Assert(vrt.And(n1.UnmarshalText(t) != nil, n2.UnmarshalText(t) != nil), "a nil destination is an error")
}

// A result, or an encoding, stays what it is whatever is computed afterwards, and whatever was before.
func Verif_P03_history() {
	lin := func(n int) func() func() {
		return func() func() {
			f, v := VFrs("f", n)
			p, s := make([]G1Point, n), VK(0)
			for i := range p {
				w := VVar("p")
				p[i] = VG1(w)
				s = VAdd(s, VMul(v[i], w))
			}
			d := LinCombG1(p, f)
			return func() { vrt.Assert(VIsG1(d, s), "LinCombG1 is the combination") }
		}
	}
	enc := func() func() {
		x, y := VVar("x"), VVar("y")
		p, q := VG1(x), VG2(y)
		b, c := ToCompressedG1(&p), ToCompressedG2(&q)
		t, _ := p.MarshalText()
		return func() {
			r, e1 := FromCompressedG1(b)
			s, e2 := FromCompressedG2(c)
			var u G1Point
			e3 := u.UnmarshalText(t)
			vrt.Assert(e1 == nil && e2 == nil && e3 == nil, "an encoded point decodes")
			vrt.Assert(vrt.And(VIsG1(r, x), VIsG2(s, y), VIsG1(&u, x)), "decoding gives back the point")
		}
	}
	dec := func() func() {
		x, y := VVar("x"), VVar("y")
		p, q := VG1(x), VG2(y)
		r, e1 := FromCompressedG1(ToCompressedG1(&p))
		s, e2 := FromCompressedG2(ToCompressedG2(&q))
		return func() {
			vrt.Assert(e1 == nil && e2 == nil, "an encoded point decodes")
			vrt.Assert(vrt.And(VIsG1(r, x), VIsG2(s, y)), "decoding gives back the point")
		}
	}
	ops := func() func() {
		x, y, k := VVar("x"), VVar("y"), VVar("k")
		a, b, c, e, s := VG1(x), VG1(y), VG2(x), VG2(y), VFr(k)
		var d, m G1Point
		var f, g G2Point
		AddG1(&d, &a, &b)
		MulG1(&m, &a, &s)
		AddG2(&f, &c, &e)
		MulG2(&g, &c, &s)
		return func() {
			vrt.Assert(vrt.And(VIsG1(&d, VAdd(x, y)), VIsG2(&f, VAdd(x, y))), "sums are sums")
			vrt.Assert(vrt.And(VIsG1(&m, VMul(x, k)), VIsG2(&g, VMul(x, k))), "products are products")
		}
	}
	pair := func() func() {
		a, b, c, d := VVar("a"), VVar("b"), VVar("c"), VVar("d")
		p, q, r, s := VG1(a), VG2(b), VG1(c), VG2(d)
		ok := PairingsVerify(&p, &q, &r, &s)
		return func() {
			vrt.Assert(vrt.Iff(ok, VEq(VMul(a, b), VMul(c, d))), "PairingsVerify accepts exactly when the products agree")
		}
	}
	all := []func() func(){lin(1), lin(3), lin(5), enc, dec, ops, pair}
	a := all[vrt.Choose("first", len(all))]()
	b := all[vrt.Choose("second", len(all))]()
	a()
	b()
	vrt.Assert(vrt.And(VIsG1(&GenG1, VK(1)), VIsG2(&GenG2, VK(1)), VIsG1(&ZeroG1, VK(0)), VIsG2(&ZeroG2, VK(0))), "the constants stay constant")
}
