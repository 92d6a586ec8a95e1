//verif:tags -;bignum_pure;bignum_hol256;bignum_hbls
package bls

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// The four operations, with the result in a fresh variable, over an operand, and with equal
// operands.
func Verif_P02_arith() {
	x, y := VVar("x"), VVar("y")
	sum, dif, prod := VAdd(x, y), VSub(x, y), VMul(x, y)
	switch vrt.Choose("alias", 3) {
	case 0:
		a, b := VFr(x), VFr(y)
		var d Fr
		AddModFr(&d, &a, &b)
		vrt.Assert(VEq(VOf(&d), sum), "AddModFr is addition")
		SubModFr(&d, &a, &b)
		vrt.Assert(VEq(VOf(&d), dif), "SubModFr is subtraction")
		MulModFr(&d, &a, &b)
		vrt.Assert(VEq(VOf(&d), prod), "MulModFr is multiplication")
		vrt.Assert(vrt.And(VEq(VOf(&a), x), VEq(VOf(&b), y)), "operands are not modified")
		VObs("mul", VOf(&d))
		CopyFr(&d, &a)
		AddModFr(&a, &a, &b)
		vrt.Assert(VEq(VOf(&d), x), "CopyFr is independent of its source")
	case 1:
		a, b := VFr(x), VFr(y)
		AddModFr(&a, &a, &b)
		vrt.Assert(VEq(VOf(&a), sum), "AddModFr over the first operand")
		a = VFr(x)
		SubModFr(&a, &a, &b)
		vrt.Assert(VEq(VOf(&a), dif), "SubModFr over the first operand")
		a = VFr(x)
		MulModFr(&a, &a, &b)
		vrt.Assert(VEq(VOf(&a), prod), "MulModFr over the first operand")
		vrt.Assert(VEq(VOf(&b), y), "second operand is not modified")
	case 2:
		a, b := VFr(x), VFr(y)
		AddModFr(&b, &a, &b)
		vrt.Assert(VEq(VOf(&b), sum), "AddModFr over the second operand")
		b = VFr(y)
		SubModFr(&b, &a, &b)
		vrt.Assert(VEq(VOf(&b), dif), "SubModFr over the second operand")
		b = VFr(y)
		MulModFr(&b, &a, &b)
		vrt.Assert(VEq(VOf(&b), prod), "MulModFr over the second operand")
		vrt.Assert(VEq(VOf(&a), x), "first operand is not modified")
		MulModFr(&a, &a, &a)
		vrt.Assert(VEq(VOf(&a), VMul(x, x)), "MulModFr squares")
	}
}

func Verif_P02_inv() {
	x, y := VVar("x"), VVar("y")
	a, b := VFr(x), VFr(y)
	var d Fr
	InvModFr(&d, &a)
	if VZero(x) {
		vrt.Reach("zero")
		vrt.Assert(VZero(VOf(&d)), "InvModFr(0) is 0")
		return
	}
	vrt.Assert(VEq(VMul(VOf(&d), x), VK(1)), "InvModFr is the inverse")
	DivModFr(&d, &b, &a)
	vrt.Assert(VEq(VMul(VOf(&d), x), y), "DivModFr is division")
	vrt.Assert(vrt.And(VEq(VOf(&a), x), VEq(VOf(&b), y)), "operands are not modified")
	switch vrt.Choose("alias", 3) {
	case 0:
		DivModFr(&b, &b, &a)
		vrt.Assert(VEq(VMul(VOf(&b), x), y), "DivModFr over the first operand")
	case 1:
		DivModFr(&a, &b, &a)
		vrt.Assert(VEq(VMul(VOf(&a), x), y), "DivModFr over the second operand")
	case 2:
		InvModFr(&a, &a)
		vrt.Assert(VEq(VMul(VOf(&a), x), VK(1)), "InvModFr in place")
	}
}

// Equality tests decide equality of the represented values.
func Verif_P02_equal() {
	x, y := VVar("x"), VVar("y")
	a, b := VFr(x), VFr(y)
	vrt.Assert(vrt.Iff(EqualFr(&a, &b), VEq(x, y)), "EqualFr decides equality")
	vrt.Assert(vrt.Iff(EqualZero(&a), VZero(x)), "EqualZero decides zero")
	vrt.Assert(vrt.Iff(EqualOne(&a), VEq(x, VK(1))), "EqualOne decides one")
	vrt.Assert(VZero(VOf(&ZERO)), "ZERO")
	vrt.Assert(VEq(VOf(&ONE), VK(1)), "ONE")
	vrt.Assert(VEq(VOf(&TWO), VK(2)), "TWO")
	vrt.Assert(VEq(VMul(VOf(&INVERSE_TWO), VK(2)), VK(1)), "INVERSE_TWO")
	vrt.Assert(VZero(VAdd(VOf(&MODULUS_MINUS1), VK(1))), "MODULUS_MINUS1")
	vrt.Assert(VZero(VAdd(VOf(&MODULUS_MINUS2), VK(2))), "MODULUS_MINUS2")
}

// Exponentiation by every exponent below the bound, and by order-related exponents.
func Verif_P02_exp() {
	x := VVar("x")
	a := VFr(x)
	var d Fr
	e := vrt.Choose("e", 18)
	ExpModFr(&d, &a, big.NewInt(int64(e)))
	vrt.Assert(VEq(VOf(&d), VPow(x, uint64(e))), "ExpModFr is exponentiation")
	vrt.Assert(VEq(VOf(&a), x), "the base is not modified")
	ExpModFr(&a, &a, big.NewInt(int64(e)))
	vrt.Assert(VEq(VOf(&a), VPow(x, uint64(e))), "ExpModFr in place")
}

// Batched inversion equals inversion one by one, for non-zero and zero entries.
func Verif_P02_batch() {
	n := []int{1, 2, 3, 4, 5, 6}[vrt.Choose("n", 4+2*vTier())]
	f, v := VFrs("f", n)
	BatchInvModFr(f)
	for i := range f {
		if VZero(v[i]) {
			vrt.Reach("zero entry")
			vrt.Assert(VZero(VOf(&f[i])), "batch inverse of 0 is 0")
		} else {
			vrt.Assert(VEq(VMul(VOf(&f[i]), v[i]), VK(1)), "batch inverse is the inverse")
		}
	}
}

// Linear combinations.
func Verif_P02_lincomb() {
	n := []int{0, 1, 2, 3, 4, 8, 9, 33}[vrt.Choose("n", 8)]
	f, v := VFrs("f", n)
	g, w := VFrs("g", n)
	s := VK(0)
	for i := range v {
		s = VAdd(s, VMul(v[i], w[i]))
	}
	d := LinCombFr(f, g)
	vrt.Assert(VEq(VOf(&d), s), "LinCombFr is the inner product")
	h, _ := VFrs("h", n+1)
	vrt.Assert(vrt.Panics(func() { LinCombFr(f, h) }), "length mismatch is refused")
	for i := range v {
		vrt.Assert(vrt.And(VEq(VOf(&f[i]), v[i]), VEq(VOf(&g[i]), w[i])), "arguments are not modified")
	}
}

// Combination of vectors.
func Verif_P02_polylincomb() {
	l, n := vrt.Choose("vectors", 4), 1+vrt.Choose("len", 3)
	var fs [][]Fr
	var vs [][]VS
	for i := 0; i < l; i++ {
		f, v := VFrs("f", n)
		fs, vs = append(fs, f), append(vs, v)
	}
	g, w := VFrs("g", l)
	r, err := PolyLinComb(fs, g, n)
	vrt.Assert(err == nil, "PolyLinComb accepts matching lengths")
	vrt.Assert(len(r) == n, "PolyLinComb result length")
	for j := range r {
		s := VK(0)
		for i := range vs {
			s = VAdd(s, VMul(vs[i][j], w[i]))
		}
		vrt.Assert(VEq(VOf(&r[j]), s), "PolyLinComb combines coordinate-wise")
	}
	if l > 0 {
		_, err = PolyLinComb(fs, g[:l-1], n)
		vrt.Assert(err != nil, "PolyLinComb refuses a scalar count mismatch")
		k := vrt.Choose("short", l)
		fs[k] = fs[k][:n-1]
		_, err = PolyLinComb(fs, g, n)
		vrt.Assert(err != nil, "PolyLinComb refuses a short vector")
	}
}

// Evaluation from coefficients.
func Verif_P02_evalcoeff() {
	n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 33}[vrt.Choose("n", 13)]
	p, v := VFrs("p", n)
	x := VVar("x")
	a := VFr(x)
	var d Fr
	EvalPolyAt(&d, p, &a)
	vrt.Assert(VEq(VOf(&d), VEval(v, x)), "EvalPolyAt is the value of the polynomial")
	EvalPolyAtUnoptimized(&d, p, &a)
	vrt.Assert(VEq(VOf(&d), VEval(v, x)), "EvalPolyAtUnoptimized is the value of the polynomial")
	vrt.Assert(VEq(VOf(&a), x), "the point is not modified")
	for i := range v {
		vrt.Assert(VEq(VOf(&p[i]), v[i]), "the coefficients are not modified")
	}
	EvalPolyAt(&a, p, &a)
	vrt.Assert(VEq(VOf(&a), VEval(v, x)), "EvalPolyAt over its own point")
}

// Evaluation from values: for every polynomial and every point, on and off the domain.
func Verif_P02_evalform() {
	k := vrt.Choose("k", 3)
	scale := vrt.Choose("scale", 2)
	n := 1 << k
	w := VOf(&Scale2RootOfUnity[k+scale])
	roots := make([]Fr, n<<scale)
	dom := make([]VS, n)
	c := VK(1)
	for i := range roots {
		roots[i] = VFr(c)
		if i&(1<<scale-1) == 0 {
			dom[i>>scale] = c
		}
		c = VMul(c, w)
	}
	vrt.Assert(VEq(c, VK(1)), "the root has the order of the domain")
	_, v := VFrs("p", n)
	ev := make([]Fr, n)
	for i := range ev {
		ev[i] = VFr(VEval(v, dom[i]))
	}
	x := VVar("x")
	a := VFr(x)
	var d Fr
	EvaluatePolyInEvaluationForm(&d, ev, &a, roots, uint8(scale))
	vrt.Assert(VEq(VOf(&d), VEval(v, x)), "EvaluatePolyInEvaluationForm is the value of the polynomial")
	vrt.Assert(VEq(VOf(&a), x), "the point is not modified")
	for i := range ev {
		vrt.Assert(VEq(VOf(&ev[i]), VEval(v, dom[i])), "the values are not modified")
	}
	vrt.Assert(vrt.Panics(func() { EvaluatePolyInEvaluationForm(&d, ev[:n-1], &a, roots, uint8(scale)) }), "length mismatch is refused")
}

// The constants of the package.
func Verif_P02_roots() {
	for k := 1; k < 32; k++ {
		r := VOf(&Scale2RootOfUnity[k])
		vrt.Assert(VEq(VMul(r, r), VOf(&Scale2RootOfUnity[k-1])), "each root squares to the previous")
	}
	vrt.Assert(VEq(VOf(&Scale2RootOfUnity[0]), VK(1)), "first root")
	vrt.Assert(vrt.And(VZero(VAdd(VOf(&Scale2RootOfUnity[1]), VK(1)))), "the second root is minus one")
}

// IsPowerOfTwo over every 64-bit number.
func Verif_P02_pow2() {
	v := vrt.U64("v")
	vrt.Assume(v != 0)
	is := false
	for k := 0; k < 64; k++ {
		is = vrt.Or(is, v == 1<<uint(k))
	}
	vrt.Assert(vrt.Iff(IsPowerOfTwo(v), is), "IsPowerOfTwo decides powers of two")
}

// The same operations on operands around the limits of limbs, of the modulus and of its half, where a
// missing or doubled reduction shows in every backend.
func Verif_P02_edges() {
	s := []string{"0", "1", "2", "4294967295", "18446744073709551615", "18446744073709551616", "18446744073709551617",
		"340282366920938463463374607431768211455", "28948022309329048855892746252171976963317496166410141009864396001978282409984",
		"26217937587563095239723870254092982918845276250263818911301829349969290592256", "26217937587563095239723870254092982918845276250263818911301829349969290592257",
		"52435875175126190479447740508185965837690552500527637822603658699938581184511", "52435875175126190479447740508185965837690552500527637822603658699938581184512"}
	x, y := VDec(s[vrt.Choose("x", len(s))]), VDec(s[vrt.Choose("y", len(s))])
	a, b := VFr(x), VFr(y)
	var d Fr
	AddModFr(&d, &a, &b)
	vrt.Assert(VEq(VOf(&d), VAdd(x, y)), "AddModFr is addition")
	SubModFr(&d, &a, &b)
	vrt.Assert(VEq(VOf(&d), VSub(x, y)), "SubModFr is subtraction")
	vrt.Assert(vrt.Iff(EqualZero(&d), VEq(x, y)), "EqualZero decides zero")
	MulModFr(&d, &a, &b)
	vrt.Assert(VEq(VOf(&d), VMul(x, y)), "MulModFr is multiplication")
	vrt.Assert(vrt.Iff(EqualFr(&a, &b), VEq(x, y)), "EqualFr decides equality")
	vrt.Assert(vrt.Iff(EqualOne(&a), VEq(x, VK(1))), "EqualOne decides one")
	if !VZero(y) {
		DivModFr(&d, &a, &b)
		vrt.Assert(VEq(VMul(VOf(&d), y), x), "DivModFr is division")
		InvModFr(&d, &b)
		vrt.Assert(VEq(VMul(VOf(&d), y), VK(1)), "InvModFr is the inverse")
	}
	p := []Fr{a, b, a}
	EvalPolyAt(&d, p, &b)
	vrt.Assert(VEq(VOf(&d), VEval([]VS{x, y, x}, y)), "EvalPolyAt is the value of the polynomial")
	ExpModFr(&d, &a, big.NewInt(5))
	vrt.Assert(VEq(VOf(&d), VPow(x, 5)), "ExpModFr is exponentiation")
	vrt.Assert(vrt.And(VEq(VOf(&a), x), VEq(VOf(&b), y)), "operands are not modified")
}

func vTier() int {
	if vrt.Thorough() {
		return 1
	}
	return 0
}

// Longer batches, with chosen zero entries.
func Verif_P02_batch_long() {
	n := []int{7, 8, 16, 17, 33}[vrt.Choose("n", 5)]
	f, v := VFrs("f", n)
	z := vrt.Choose("zero", 5)
	for i := range f {
		if z == 1 && i == 0 || z == 2 && i == n-1 || z == 3 && i%2 == 1 || z == 4 && i/2 == n/4 {
			f[i], v[i] = VFr(VK(0)), VK(0)
		} else {
			vrt.Assume(!VZero(v[i]))
		}
	}
	BatchInvModFr(f)
	for i := range f {
		w := VMul(VOf(&f[i]), v[i])
		if VZero(v[i]) {
			vrt.Assert(VZero(VOf(&f[i])), "batch inverse of 0 is 0")
		} else {
			vrt.Assert(VEq(w, VK(1)), "batch inverse is the inverse")
		}
	}
}

// An operation gives its result whatever was computed before, and the result stays what it is whatever
// is computed afterwards.
func Verif_P02_history() {
	vec := func(n int) func() func() {
		return func() func() {
			f, v := VFrs("f", n)
			g, w := VFrs("g", n)
			d := LinCombFr(f, g)
			s := VK(0)
			for i := range v {
				s = VAdd(s, VMul(v[i], w[i]))
			}
			return func() { vrt.Assert(VEq(VOf(&d), s), "LinCombFr is the inner product") }
		}
	}
	comb := func(l, n int) func() func() {
		return func() func() {
			fs, vs := make([][]Fr, l), make([][]VS, l)
			for i := range fs {
				fs[i], vs[i] = VFrs("f", n)
			}
			g, w := VFrs("g", l)
			r, err := PolyLinComb(fs, g, n)
			return func() {
				vrt.Assert(err == nil && len(r) == n, "PolyLinComb accepts matching lengths")
				for j := range r {
					s := VK(0)
					for i := range vs {
						s = VAdd(s, VMul(vs[i][j], w[i]))
					}
					vrt.Assert(VEq(VOf(&r[j]), s), "PolyLinComb combines coordinate-wise")
				}
			}
		}
	}
	eval := func(n int) func() func() {
		return func() func() {
			p, v := VFrs("p", n)
			x := VVar("x")
			a := VFr(x)
			var d Fr
			EvalPolyAt(&d, p, &a)
			return func() { vrt.Assert(VEq(VOf(&d), VEval(v, x)), "EvalPolyAt is the value of the polynomial") }
		}
	}
	form := func(k, scale int) func() func() {
		return func() func() {
			n := 1 << k
			w := VOf(&Scale2RootOfUnity[k+scale])
			roots, ev := make([]Fr, n<<scale), make([]Fr, n)
			_, v := VFrs("p", n)
			c := VK(1)
			for i := range roots {
				roots[i] = VFr(c)
				if i&(1<<scale-1) == 0 {
					ev[i>>scale] = VFr(VEval(v, c))
				}
				c = VMul(c, w)
			}
			x := VVar("x")
			a := VFr(x)
			var d Fr
			EvaluatePolyInEvaluationForm(&d, ev, &a, roots, uint8(scale))
			return func() { vrt.Assert(VEq(VOf(&d), VEval(v, x)), "EvaluatePolyInEvaluationForm is the value of the polynomial") }
		}
	}
	batch := func(n int) func() func() {
		return func() func() {
			f, v := VFrs("f", n)
			for i := range v {
				vrt.Assume(!VZero(v[i]))
			}
			BatchInvModFr(f)
			return func() {
				for i := range f {
					vrt.Assert(VEq(VMul(VOf(&f[i]), v[i]), VK(1)), "batch inverse is the inverse")
				}
			}
		}
	}
	exp := func(e int64) func() func() {
		return func() func() {
			x := VVar("x")
			a, n := VFr(x), big.NewInt(e)
			var d, q Fr
			ExpModFr(&d, &a, n)
			DivModFr(&q, &d, &ONE)
			return func() {
				vrt.Assert(vrt.And(VEq(VOf(&d), VPow(x, uint64(e))), VEq(VOf(&q), VPow(x, uint64(e)))), "ExpModFr is exponentiation")
				vrt.Assert(n.Int64() == e, "the exponent is not modified")
			}
		}
	}
	ops := []func() func(){vec(3), vec(1), comb(2, 2), comb(1, 3), eval(4), eval(2), form(2, 0), form(1, 1), form(1, 0), batch(3), batch(2), exp(5), exp(2)}
	a := ops[vrt.Choose("first", len(ops))]()
	b := ops[vrt.Choose("second", len(ops))]()
	a()
	b()
	vrt.Assert(vrt.And(VZero(VOf(&ZERO)), VEq(VOf(&ONE), VK(1)), VEq(VOf(&TWO), VK(2))), "the constants stay constant")
}
