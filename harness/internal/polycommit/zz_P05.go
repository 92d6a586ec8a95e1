package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Acceptance is exactly the opening equation, for every commitment, proof, coset and values.
func Verif_P05_exact() {
	k := vrt.Choose("k", vMax(4, 6))
	extra := vrt.Choose("extra", 2)
	n := 1 << k
	ks, tau := vSetup(uint8(k+extra), n+1)
	c, w, x := bls.VVar("c"), bls.VVar("w"), bls.VVar("x")
	vrt.Assume(!bls.VZero(x))
	_, iv := bls.VFrs("i", n) // the polynomial interpolating the values on the coset
	dom := vDomain(k)
	ys := make([]bls.Fr, n)
	yv := make([]bls.VS, n)
	for i := range ys {
		yv[i] = bls.VEval(iv, bls.VMul(x, dom[i]))
		ys[i] = bls.VFr(yv[i])
	}
	gc, gw, fx := bls.VG1(c), bls.VG1(w), bls.VFr(x)
	ok := ks.CheckProofMulti(&gc, &gw, &fx, ys)
	vrt.ObsBool("ok", ok)
	want := bls.VEq(bls.VSub(c, bls.VEval(iv, tau)), bls.VMul(w, bls.VSub(bls.VPow(tau, uint64(n)), bls.VPow(x, uint64(n)))))
	vrt.Assert(vrt.Iff(ok, want), "accepted exactly when c - I(tau) = w(tau^n - x^n)")
	vUnchanged(ys, yv, "values")
	vrt.Assert(vrt.And(bls.VIsG1(&gc, c), bls.VIsG1(&gw, w), bls.VEq(bls.VOf(&fx), x)), "arguments are not modified")
}

// The proof for any polynomial over a coset verifies with the true values and is the quotient.
func Verif_P05_complete() {
	k := vrt.Choose("k", vMax(4, 6))
	n := 1 << k
	m := []int{n, n + 1, 2*n - 1, 2 * n, 2*n + 1, 3*n + 1}[vrt.Choose("len", 6)] // coefficients
	x := []uint64{1, 2, 3, 5, 7, 1 << 40, 1<<64 - 1}[vrt.Choose("x", 7)]
	size := m
	if size < n+1 {
		size = n + 1
	}
	ks, tau := vSetup(uint8(k+1), size)
	p, v := bls.VFrs("p", m)
	dom := vDomain(k)
	ys := make([]bls.Fr, n)
	for i := range ys {
		ys[i] = bls.VFr(bls.VEval(v, bls.VMul(bls.VK(x), dom[i])))
	}
	c := ks.CommitToPoly(p)
	w := ks.ComputeProofMulti(p, x, uint64(n))
	fx := bls.VFr(bls.VK(x))
	vrt.Assert(ks.CheckProofMulti(c, w, &fx, ys), "the multi-point proof verifies with the true values")
	vrt.Assert(bls.VIsG1(w, bls.VEval(vQuotN(v, n, bls.VPow(bls.VK(x), uint64(n))), tau)), "the multi-point proof is the commitment to the quotient")
	vUnchanged(p, v, "coefficients")
}

// A number of values that is not a power of two, or above the domain, is refused or padded
// consistently; it is never accepted with a value vector of another length in silence.
func Verif_P05_toolong() {
	ks, _ := vSetup(1, 9)
	ys, _ := bls.VFrs("y", 3+vrt.Choose("n", 3))
	c, w, x := bls.VG1(bls.VVar("c")), bls.VG1(bls.VVar("w")), bls.VFr(bls.VVar("x"))
	vrt.Assert(vrt.Panics(func() { ks.CheckProofMulti(&c, &w, &x, ys) }), "more values than the domain holds are refused")
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P05_history() { vHistory("P05") }
