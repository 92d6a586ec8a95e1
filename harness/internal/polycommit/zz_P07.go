package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Proofs at all points of the domain, polynomial of n coefficients, domain of n points.
func Verif_P07_single() {
	k := 1 + vrt.Choose("k", vMax(4, 5))
	n := 1 << k
	ks, tau := vSetup(uint8(k+1), n+1)
	fk := NewFK20SingleSettings(ks, uint64(2*n))
	p, v := bls.VFrs("p", n)
	dom := vDomain(k)
	out := fk.FK20Single(p)
	vrt.Assert(len(out) == n, "one proof per domain point")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuot(v, dom[i]), tau)), "each bulk proof equals the direct proof at its domain point")
	}
	j := vrt.Choose("check", n)
	x := bls.VFr(dom[j])
	d := ks.ComputeProofSingle(p, x)
	y := bls.VFr(bls.VEval(v, dom[j]))
	vrt.Assert(bls.EqualG1(d, &out[j]), "the bulk proof equals ComputeProofSingle")
	vrt.Assert(ks.CheckProofSingle(ks.CommitToPoly(p), &out[j], &x, &y), "the bulk proof verifies")
	vUnchanged(p, v, "coefficients")
}

// Data-availability variant: n coefficients, proofs at the 2n points of the double domain.
func Verif_P07_single_da() {
	k := 1 + vrt.Choose("k", vMax(4, 5))
	extra := vrt.Choose("extra", 2)
	n := 1 << k
	ks, tau := vSetup(uint8(k+1+extra), n+1)
	fk := NewFK20SingleSettings(ks, uint64(2*n))
	p, v := bls.VFrs("p", n)
	dom := vDomain(k + 1)
	ext := append(append([]bls.Fr{}, p...), make([]bls.Fr, n)...)
	out := fk.FK20SingleDAOptimized(ext)
	vrt.Assert(len(out) == 2*n, "one proof per point of the double domain")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuot(v, dom[i]), tau)), "each bulk proof equals the direct proof at its domain point")
	}
	vUnchanged(ext[:n], v, "coefficients")
	out = fk.DAUsingFK20(p)
	vrt.Assert(len(out) == 2*n, "one proof per point of the double domain")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuot(v, dom[vRev(i, k+1)]), tau)), "the proofs come in bit-reversed order")
	}
	vUnchanged(p, v, "coefficients")
}

// Inputs that the bulk algorithms do not support are refused.
func Verif_P07_refuse() {
	ks, _ := vSetup(3, 9)
	fk := NewFK20SingleSettings(ks, 8)
	fm := NewFK20MultiSettings(ks, 8, 2)
	ext, v := bls.VFrs("p", 8)
	upper := vrt.And(bls.VZero(v[4]), bls.VZero(v[5]), bls.VZero(v[6]), bls.VZero(v[7]))
	switch vrt.Choose("what", 6) {
	case 0:
		vrt.Assert(vrt.Iff(vrt.Panics(func() { fk.FK20SingleDAOptimized(ext) }), !upper), "a non-zero upper half is refused, a zero one is not")
	case 1:
		vrt.Assert(vrt.Iff(vrt.Panics(func() { fm.FK20MultiDAOptimized(ext) }), !upper), "a non-zero upper half is refused, a zero one is not")
	case 2:
		big, _ := bls.VFrs("q", 16)
		vrt.Assert(vrt.Panics(func() { fk.FK20SingleDAOptimized(big) }), "a polynomial beyond the settings is refused")
		vrt.Assert(vrt.Panics(func() { fm.FK20MultiDAOptimized(big) }), "a polynomial beyond the settings is refused")
		vrt.Assert(vrt.Panics(func() { fm.FK20Multi(big[:8]) }), "a polynomial beyond the settings is refused")
	case 3:
		vrt.Assert(vrt.Panics(func() { fk.DAUsingFK20(ext) }), "a polynomial beyond half the settings is refused")
		vrt.Assert(vrt.Panics(func() { fm.DAUsingFK20Multi(ext) }), "a polynomial beyond half the settings is refused")
		vrt.Assert(vrt.Panics(func() { fk.DAUsingFK20(ext[:3]) }), "a length that is not a power of two is refused")
		vrt.Assert(vrt.Panics(func() { fm.DAUsingFK20Multi(ext[:3]) }), "a length that is not a power of two is refused")
	case 4:
		n2 := vrt.Choose("n2", 18)
		bad := n2 > 8 || n2 < 2 || n2&(n2-1) != 0
		if bad {
			vrt.Assert(vrt.Panics(func() { NewFK20SingleSettings(ks, uint64(n2)) }), "unsupported sizes are refused")
		}
	case 5:
		n2, cl := vrt.Choose("n2", 18), vrt.Choose("chunk", 10)
		bad := n2 > 8 || n2 < 2 || n2&(n2-1) != 0 || cl < 1 || cl&(cl-1) != 0 || cl > n2/2
		if bad {
			vrt.Assert(vrt.Panics(func() { NewFK20MultiSettings(ks, uint64(n2), uint64(cl)) }), "unsupported sizes are refused")
		}
	}
}

// Multi-point variant: proofs for the 2n/l cosets of the double domain.
func Verif_P07_multi_da() {
	k := 1 + vrt.Choose("k", vMax(4, 5))
	l := vrt.Choose("l", k+1) // chunks of 2^l
	n, cl := 1<<k, 1<<l
	if n == cl {
		// one chunk per polynomial: decided apart, see Verif_P07_multi_one
		return
	}
	ks, tau := vSetup(uint8(k+1), n+1)
	fk := NewFK20MultiSettings(ks, uint64(2*n), uint64(cl))
	p, v := bls.VFrs("p", n)
	nc := 2 * n / cl
	dom := vDomain(k + 1 - l) // w^cl: the n-th powers that separate the cosets
	full := vDomain(k + 1)
	ext := append(append([]bls.Fr{}, p...), make([]bls.Fr, n)...)
	out := fk.FK20MultiDAOptimized(ext)
	vrt.Assert(len(out) == nc, "one proof per coset")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuotN(v, cl, dom[i]), tau)), "each bulk proof equals the direct proof for its coset")
	}
	vUnchanged(ext[:n], v, "coefficients")
	out = fk.DAUsingFK20Multi(p)
	vrt.Assert(len(out) == nc, "one proof per coset")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuotN(v, cl, dom[vRev(i, k+1-l)]), tau)), "the proofs come in bit-reversed order")
	}
	// verification with the values on the coset
	j := vrt.Choose("check", nc)
	x := full[vRev(j, k+1-l)]
	sub := vDomain(l)
	ys := make([]bls.Fr, cl)
	for i := range ys {
		ys[i] = bls.VFr(bls.VEval(v, bls.VMul(x, sub[i])))
	}
	fx := bls.VFr(x)
	vrt.Assert(ks.CheckProofMulti(ks.CommitToPoly(p), &out[j], &fx, ys), "the bulk proof verifies")
	vUnchanged(p, v, "coefficients")
}

// The non-extended multi-point variant: proofs for the n/l cosets of the domain.
func Verif_P07_multi() {
	k := 1 + vrt.Choose("k", vMax(4, 5))
	l := vrt.Choose("l", k)
	n, cl := 1<<k, 1<<l
	ks, tau := vSetup(uint8(k+1), n+1)
	fk := NewFK20MultiSettings(ks, uint64(2*n), uint64(cl))
	p, v := bls.VFrs("p", n)
	dom := vDomain(k - l)
	out := fk.FK20Multi(p)
	vrt.Assert(len(out) == n/cl, "one proof per coset")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuotN(v, cl, dom[i]), tau)), "each bulk proof equals the direct proof for its coset")
	}
	vUnchanged(p, v, "coefficients")
}

// Smallest sizes: a single coefficient, or one chunk for the whole polynomial.
func Verif_P07_one() {
	ks, tau := vSetup(3, 9)
	switch vrt.Choose("what", 3) {
	case 0:
		fk := NewFK20SingleSettings(ks, 2)
		p, _ := bls.VFrs("p", 1)
		out := fk.DAUsingFK20(p)
		vrt.Assert(len(out) == 2, "one proof per point of the double domain")
		for i := range out {
			vrt.Assert(bls.VIsG1(&out[i], bls.VK(0)), "the proof of a constant is neutral")
		}
	case 1:
		k := vrt.Choose("k", 3)
		n := 1 << k
		fk := NewFK20MultiSettings(ks, uint64(2*n), uint64(n))
		p, v := bls.VFrs("p", n)
		out := fk.DAUsingFK20Multi(p)
		vrt.Assert(len(out) == 2, "one proof per coset")
		for i := range out {
			vrt.Assert(bls.VIsG1(&out[i], bls.VEval(vQuotN(v, n, bls.VK(1)), tau)), "the proof of a low-degree polynomial is neutral")
		}
	case 2:
		fk := NewFK20SingleSettings(ks, 2)
		p, _ := bls.VFrs("p", 1)
		out := fk.FK20Single(p)
		vrt.Assert(len(out) == 1, "one proof per domain point")
		vrt.Assert(bls.VIsG1(&out[0], bls.VK(0)), "the proof of a constant is neutral")
	}
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P07_history() { vHistory("P07") }
