package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Settings are shared by everything a node does at a time: using them leaves them alone, whatever the
// uses are.

// vTogether runs every use twice at the same time.
func vTogether(uses ...func()) {
	var done [32]chan bool
	for i := range uses {
		done[i] = make(chan bool, 2)
		for k := 0; k < 2; k++ {
			go func(i int) {
				uses[i]()
				done[i] <- true
			}(i)
		}
	}
	vrt.Quiesce()
	for i := range uses {
		vrt.Assert(len(done[i]) == 2, "every use finishes")
	}
	vrt.Reach("used")
}

func Verif_P36_transforms() {
	k := 2 + vrt.Choose("k", vMax(2, 3))
	n := 1 << k
	fs := NewFFTSettings(uint8(k + vrt.Choose("extra", 2)))
	_, c := bls.VFrs("c", n)
	in := func(m int) []bls.Fr {
		r := make([]bls.Fr, m)
		for i := range r {
			r[i] = bls.VFr(c[i])
		}
		return r
	}
	check := func(e error) { vrt.Assert(e == nil, "the transform is defined") }
	uses := []func(){
		func() { _, e := fs.FFT(in(n), false); check(e) },
		func() { _, e := fs.FFT(in(n-1), false); check(e) },
		func() { _, e := fs.FFT(in(n), true); check(e) },
		func() { check(fs.InplaceFFT(in(n), make([]bls.Fr, n), false)) },
		func() { check(fs.InplaceFFT(in(n), make([]bls.Fr, n), true)) },
		func() {
			p := make([]bls.G1Point, n)
			for i := range p {
				p[i] = bls.VG1(c[i])
			}
			_, e := fs.FFTG1(p, vrt.Choose("inverse", 2) == 1)
			check(e)
		},
		func() { fs.DASFFTExtension(in(n / 2)) },
		func() { fs.ShiftPoly(in(n)) },
		func() { fs.UnshiftPoly(in(n)) },
		func() { fs.ZeroPolyViaMultiplication([]uint64{uint64(n - 1)}, uint64(n)) },
	}
	vTogether(uses...)
}

func Verif_P36_recovery() {
	const k, n = 3, 8
	fs := NewFFTSettings(uint8(k + vrt.Choose("extra", 2)))
	_, c := bls.VFrs("c", n/2)
	dom := vDomain(k)
	samples := func() []*bls.Fr {
		r := make([]*bls.Fr, n)
		for i := range r {
			if i%3 != 1 {
				v := bls.VFr(bls.VEval(c, dom[i]))
				r[i] = &v
			}
		}
		return r
	}
	vTogether(
		func() {
			_, e := fs.RecoverPolyFromSamples(samples(), fs.ZeroPolyViaMultiplication)
			vrt.Assert(e == nil, "recovered")
		},
		func() {
			_, e := fs.ErasureCodeRecover(samples())
			vrt.Assert(e == nil, "recovered")
		},
	)
}

func Verif_P36_proofs() {
	const n = 8
	ks, _ := vSetup(4, n+1)
	_, c := bls.VFrs("c", n)
	x := bls.VVar("x")
	in := func() []bls.Fr {
		r := make([]bls.Fr, n)
		for i := range r {
			r[i] = bls.VFr(c[i])
		}
		return r
	}
	// one polynomial, commitment and proof, and settings, for everybody
	poly := in()
	com := ks.CommitToPoly(poly)
	fx, fy := bls.VFr(x), bls.VFr(bls.VEval(c, x))
	pr := ks.ComputeProofSingle(in(), fx)
	dom := vDomain(2)
	x0 := bls.VVar("x0")
	ys := make([]bls.Fr, 4)
	for i := range ys {
		ys[i] = bls.VFr(bls.VEval(c, bls.VMul(x0, dom[i])))
	}
	// no proof of the values at a coset of an unknown point: any will do
	other := bls.VG1(bls.VVar("other"))
	fx0 := bls.VFr(x0)
	vTogether(
		func() { ks.CommitToPoly(in()) },
		func() { ks.CommitToPolyUnoptimized(in()) },
		func() { CommitToEvalPoly(ks.SecretG1[:n], in()) },
		func() { ks.ComputeProofSingle(in(), bls.VFr(x)) },
		func() { ks.ComputeProofMulti(in(), 5431, 4) },
		func() {
			cc, pp := *com, *pr
			vrt.Assert(ks.CheckProofSingle(&cc, &pp, &fx, &fy), "the proof is accepted")
		},
		func() {
			cc, pp := *com, other
			ks.CheckProofMulti(&cc, &pp, &fx0, ys)
		},
	)
}

func Verif_P36_fk20() {
	const n = 8
	ks, _ := vSetup(4, 2*n+1)
	_, c := bls.VFrs("c", n)
	in := func(m int) []bls.Fr {
		r := make([]bls.Fr, m)
		for i := range r {
			if i < n {
				r[i] = bls.VFr(c[i])
			}
		}
		return r
	}
	fk := NewFK20SingleSettings(ks, 2*n)
	fm := NewFK20MultiSettings(ks, 2*n, 4)
	vTogether(
		func() { fk.FK20Single(in(n)) },
		func() { fk.FK20SingleDAOptimized(in(2 * n)) },
		func() { fk.DAUsingFK20(in(n)) },
		func() { fm.FK20Multi(in(n)) },
		func() { fm.FK20MultiDAOptimized(in(2 * n)) },
		func() { fm.DAUsingFK20Multi(in(n)) },
	)
}
