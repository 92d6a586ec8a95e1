package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// The odd values complete the even ones to a polynomial with a zero upper half.
func Verif_P08_extend() {
	k := 1 + vrt.Choose("k", vMax(6, 8))
	n := 1 << k
	fs := NewFFTSettings(uint8(k + 1))
	_, c := bls.VFrs("c", n) // low-degree polynomial through the even values
	dom := vDomain(k + 1)
	vals := make([]bls.Fr, n)
	for i := range vals {
		vals[i] = bls.VFr(bls.VEval(c, dom[2*i]))
	}
	fs.DASFFTExtension(vals)
	for i := range vals {
		vrt.Assert(bls.VEq(bls.VOf(&vals[i]), bls.VEval(c, dom[2*i+1])), "the odd values lie on the low-degree polynomial")
	}
}

// The same with arbitrary even values, judged through the inverse transform.
func Verif_P08_upper() {
	k := 1 + vrt.Choose("k", vMax(4, 6))
	n := 1 << k
	fs := NewFFTSettings(uint8(k + 1))
	ev, v := bls.VFrs("v", n)
	od := append([]bls.Fr(nil), ev...)
	fs.DASFFTExtension(od)
	all := make([]bls.Fr, 2*n)
	for i := range ev {
		all[2*i], all[2*i+1] = ev[i], od[i]
	}
	co, err := fs.FFT(all, true)
	vrt.Assert(err == nil, "the combined vector transforms")
	for i := n; i < 2*n; i++ {
		vrt.Assert(bls.VZero(bls.VOf(&co[i])), "the upper half of the coefficients is zero")
	}
	vUnchanged(ev, v, "even values")
}

// Requests beyond the domain are refused.
func Verif_P08_refuse() {
	k := vrt.Choose("k", 4)
	fs := NewFFTSettings(uint8(k))
	n := 2 << vrt.Choose("n", 4)
	vals, _ := bls.VFrs("v", n)
	p := vrt.Panics(func() { fs.DASFFTExtension(vals) })
	vrt.Assert(vrt.Iff(p, 2*n > 1<<k), "more values than half the domain are refused, others are not")
}

// A request smaller than the settings' domain.
func Verif_P08_subdomain() {
	k := 1 + vrt.Choose("k", 2)
	extra := 1 + vrt.Choose("extra", 2)
	n := 1 << k
	fs := NewFFTSettings(uint8(k + 1 + extra))
	_, c := bls.VFrs("c", n)
	dom := vDomain(k + 1)
	vals := make([]bls.Fr, n)
	for i := range vals {
		vals[i] = bls.VFr(bls.VEval(c, dom[2*i]))
	}
	fs.DASFFTExtension(vals)
	for i := range vals {
		vrt.Assert(bls.VEq(bls.VOf(&vals[i]), bls.VEval(c, dom[2*i+1])), "the odd values lie on the low-degree polynomial of the request's own domain")
	}
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P08_history() { vHistory("P08") }
