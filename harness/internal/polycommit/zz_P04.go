package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Commitments are the setup combination of the coefficients.
func Verif_P04_commit() {
	n := 1 + vrt.Choose("n", vMax(16, 32))
	ks, tau := vSetup(uint8(vMax(4, 5)), vMax(16, 32))
	p, v := bls.VFrs("p", n)
	want := bls.VEval(v, tau)
	c := ks.CommitToPoly(p)
	vrt.Assert(bls.VIsG1(c, want), "CommitToPoly is the setup combination")
	vUnchanged(p, v, "coefficients")
	c = ks.CommitToPolyUnoptimized(p)
	vrt.Assert(bls.VIsG1(c, want), "CommitToPolyUnoptimized is the setup combination")
	vUnchanged(p, v, "coefficients")
	// the setup is left alone
	for i := range ks.SecretG1 {
		vrt.Assert(vrt.And(bls.VIsG1(&ks.SecretG1[i], bls.VPow(tau, uint64(i))), bls.VIsG2(&ks.SecretG2[i], bls.VPow(tau, uint64(i)))), "the setup is not modified")
	}
}

// Commitments to longer polynomials than the setup are refused, not truncated.
func Verif_P04_toolong() {
	ks, _ := vSetup(2, 4)
	p, _ := bls.VFrs("p", 5+vrt.Choose("n", 3))
	vrt.Assert(vrt.Panics(func() { ks.CommitToPoly(p) }), "a polynomial longer than the setup is refused")
}

// A commitment computed from evaluations equals the one computed from coefficients.
func Verif_P04_evalform() {
	k := 1 + vrt.Choose("k", vMax(4, 6))
	n := 1 << k
	ks, tau := vSetup(uint8(k), n)
	p, v := bls.VFrs("p", n)
	dom := vDomain(k)
	ev := make([]bls.Fr, n)
	for i := range ev {
		ev[i] = bls.VFr(bls.VEval(v, dom[i]))
	}
	lag, err := ks.FFTG1(ks.SecretG1, true)
	vrt.Assert(err == nil, "the setup transforms")
	c := CommitToEvalPoly(lag, ev)
	vrt.Assert(bls.VIsG1(c, bls.VEval(v, tau)), "CommitToEvalPoly equals the commitment to the coefficients")
	d := ks.CommitToPoly(p)
	vrt.Assert(bls.EqualG1(c, d), "both forms give the same commitment")
}

// The proof for any polynomial at any point is the quotient's commitment and verifies with the
// true value.
func Verif_P04_complete() {
	n := 1 + vrt.Choose("n", vMax(16, 32))
	ks, tau := vSetup(uint8(vMax(4, 5)), vMax(17, 33))
	p, v := bls.VFrs("p", n)
	x := bls.VVar("x")
	fx := bls.VFr(x)
	c := ks.CommitToPoly(p)
	w := ks.ComputeProofSingle(p, fx)
	vrt.Assert(bls.VIsG1(w, bls.VEval(vQuot(v, x), tau)), "the proof is the commitment to the quotient")
	y := bls.VFr(bls.VEval(v, x))
	vrt.Assert(ks.CheckProofSingle(c, w, &fx, &y), "the proof verifies with the true value")
	z := bls.VVar("z")
	fz := bls.VFr(z)
	ok := ks.CheckProofSingle(c, w, &fx, &fz)
	vrt.Assert(vrt.Iff(ok, bls.VEq(z, bls.VEval(v, x))), "the proof verifies with no other value")
	vUnchanged(p, v, "coefficients")
	vrt.Assert(vrt.And(bls.VEq(bls.VOf(&fx), x), bls.VEq(bls.VOf(&fz), z)), "point and value are not modified")
	vrt.Assert(bls.VIsG1(c, bls.VEval(v, tau)), "the commitment is not modified")
}

// Acceptance is exactly the opening equation, for every commitment, proof, point and value.
func Verif_P04_exact() {
	ks, tau := vSetup(1, 2)
	c, w, x, y := bls.VVar("c"), bls.VVar("w"), bls.VVar("x"), bls.VVar("y")
	gc, gw, fx, fy := bls.VG1(c), bls.VG1(w), bls.VFr(x), bls.VFr(y)
	ok := ks.CheckProofSingle(&gc, &gw, &fx, &fy)
	vrt.ObsBool("ok", ok)
	vrt.Assert(vrt.Iff(ok, bls.VEq(bls.VSub(c, y), bls.VMul(w, bls.VSub(tau, x)))), "accepted exactly when c - y = w(tau - x)")
	vrt.Assert(vrt.And(bls.VIsG1(&gc, c), bls.VIsG1(&gw, w), bls.VEq(bls.VOf(&fx), x), bls.VEq(bls.VOf(&fy), y)), "arguments are not modified")
	if ok {
		vrt.Reach("accepted")
		y2 := bls.VVar("y2")
		fy2 := bls.VFr(y2)
		if ks.CheckProofSingle(&gc, &gw, &fx, &fy2) {
			vrt.Reach("accepted again")
			vrt.Assert(bls.VEq(y, y2), "one proof does not verify for two values")
		}
	}
}

// The setup generator gives the powers of the secret in both groups.
func Verif_P04_setup() {
	n := vrt.Choose("n", 10)
	s1, s2 := GenerateTestingSetup("1927409816240961209460912649124", uint64(n))
	tau := bls.VDec("1927409816240961209460912649124")
	vrt.Assert(vrt.And(len(s1) == n, len(s2) == n), "setup length")
	for i := range s1 {
		vrt.Assert(vrt.And(bls.VIsG1(&s1[i], bls.VPow(tau, uint64(i))), bls.VIsG2(&s2[i], bls.VPow(tau, uint64(i)))), "the setup holds the powers of the secret")
	}
	if n > 0 {
		vrt.Assert(vrt.Panics(func() { NewKZGSettings(NewFFTSettings(2), s1, s2[:n-1]) }), "setups of different lengths are refused")
	}
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P04_history() { vHistory("P04") }
