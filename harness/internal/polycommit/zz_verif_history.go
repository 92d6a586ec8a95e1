package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Settings live as long as the node: an operation gives its result whatever was done with the settings
// before, and the result stays what it is whatever is done with them afterwards.

// vOp is one use of the settings; run gives the check of its result.
type vOp struct {
	prop string
	run  func() func()
}

func vOps() []vOp {
	const k, n = 3, 8
	ks, tau := vSetup(k+1, 2*n)
	fs := ks.FFTSettings
	fk := NewFK20SingleSettings(ks, 2*n)
	fm := NewFK20MultiSettings(ks, 2*n, 2)
	dom := [][]bls.VS{vDomain(0), vDomain(1), vDomain(2), vDomain(3), vDomain(4)}
	g1 := func(m int) ([]bls.G1Point, []bls.VS) {
		p, v := make([]bls.G1Point, m), make([]bls.VS, m)
		for i := range p {
			v[i] = bls.VVar("p")
			p[i] = bls.VG1(v[i])
		}
		return p, v
	}
	fft := func(m, mk int) func() func() {
		return func() func() {
			f, v := bls.VFrs("v", m)
			out, err := fs.FFT(f, false)
			return func() {
				vrt.Assert(err == nil && len(out) == 1<<mk, "the transform is defined")
				for i := range out {
					vrt.Assert(bls.VEq(bls.VOf(&out[i]), bls.VEval(v, dom[mk][i])), "the transform is the evaluation on the domain")
				}
				vUnchanged(f, v, "inputs")
			}
		}
	}
	ifft := func(mk int) func() func() {
		return func() func() {
			f, v := bls.VFrs("v", 1<<mk)
			out, err := fs.FFT(f, true)
			return func() {
				vrt.Assert(err == nil && len(out) == 1<<mk, "the inverse transform is defined")
				c := vVals(out)
				for i := range v {
					vrt.Assert(bls.VEq(bls.VEval(c, dom[mk][i]), v[i]), "the inverse transform interpolates the values")
				}
				vUnchanged(f, v, "inputs")
			}
		}
	}
	inplace := func(mk int, inv bool) func() func() {
		return func() func() {
			f, v := bls.VFrs("v", 1<<mk)
			o := make([]bls.Fr, 1<<mk)
			err := fs.InplaceFFT(f, o, inv)
			return func() {
				vrt.Assert(err == nil, "the in-place transform is defined")
				a, b := vVals(o), v
				if inv {
					a, b = v, vVals(o)
				}
				for i := range a {
					vrt.Assert(bls.VEq(a[i], bls.VEval(b, dom[mk][i])), "the in-place transform is the evaluation on the domain")
				}
			}
		}
	}
	fftg1 := func(mk int, inv bool) func() func() {
		return func() func() {
			p, v := g1(1 << mk)
			out, err := fs.FFTG1(p, inv)
			return func() {
				vrt.Assert(err == nil && len(out) == 1<<mk, "the transform of points is defined")
				for i := range out {
					w := bls.VEval(v, dom[mk][i])
					if inv {
						w = bls.VMul(bls.VEval(v, dom[mk][(1<<mk-i)%(1<<mk)]), bls.VInv(bls.VK(1<<mk)))
					}
					vrt.Assert(bls.VIsG1(&out[i], w), "the transform of points is the transform of the exponents")
					vrt.Assert(bls.VIsG1(&p[i], v[i]), "inputs are not modified")
				}
			}
		}
	}
	das := func(mk int) func() func() {
		return func() func() {
			_, c := bls.VFrs("c", 1<<mk)
			o := make([]bls.Fr, 1<<mk)
			for i := range o {
				o[i] = bls.VFr(bls.VEval(c, dom[mk+1][2*i]))
			}
			fs.DASFFTExtension(o)
			return func() {
				for i := range o {
					vrt.Assert(bls.VEq(bls.VOf(&o[i]), bls.VEval(c, dom[mk+1][2*i+1])), "the odd values lie on the low-degree polynomial")
				}
			}
		}
	}
	recover := func(mk int, legacy bool, miss ...int) func() func() {
		return func() func() {
			_, c := bls.VFrs("c", 1<<mk/2)
			s, v := make([]*bls.Fr, 1<<mk), make([]bls.VS, 1<<mk)
			for i := range s {
				v[i] = bls.VEval(c, dom[mk][i])
				f := bls.VFr(v[i])
				s[i] = &f
			}
			for _, i := range miss {
				s[i] = nil
			}
			var out []bls.Fr
			var err error
			if legacy {
				out, err = fs.ErasureCodeRecover(s)
			} else {
				out, err = fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
			}
			return func() { vRecoveredAll(out, err, s, v) }
		}
	}
	zero := func(mk int, idx ...uint64) func() func() {
		return func() func() {
			ev, po := fs.ZeroPolyViaMultiplication(idx, 1<<mk)
			return func() {
				pv := vVals(po)
				want := bls.VS{}
				for i := 0; i < 1<<mk; i++ {
					for _, x := range []bls.VS{dom[mk][i], bls.VK(7), bls.VK(uint64(11 + i))} {
						want = bls.VK(1)
						for _, j := range idx {
							want = bls.VMul(want, bls.VSub(x, dom[mk][j]))
						}
						vrt.Assert(bls.VEq(bls.VEval(pv, x), want), "the polynomial is the product over the missing points")
					}
					e := bls.VOf(&ev[i])
					vrt.Assert(bls.VEq(e, bls.VEval(pv, dom[mk][i])), "the evaluation vector holds its values on the domain")
				}
			}
		}
	}
	commit := func(m int) func() func() {
		return func() func() {
			p, v := bls.VFrs("p", m)
			c := ks.CommitToPoly(p)
			return func() { vrt.Assert(bls.VIsG1(c, bls.VEval(v, tau)), "the commitment is the setup combination") }
		}
	}
	proof := func(m int) func() func() {
		return func() func() {
			p, v := bls.VFrs("p", m)
			x, d := bls.VVar("x"), bls.VVar("d")
			fx := bls.VFr(x)
			c, w := ks.CommitToPoly(p), ks.ComputeProofSingle(p, fx)
			y, z := bls.VFr(bls.VEval(v, x)), bls.VFr(bls.VAdd(bls.VEval(v, x), d))
			return func() {
				vrt.Assert(bls.VIsG1(w, bls.VEval(vQuot(v, x), tau)), "the proof is the commitment to the quotient")
				vrt.Assert(ks.CheckProofSingle(c, w, &fx, &y), "the proof verifies with the true value")
				vrt.Assert(vrt.Iff(ks.CheckProofSingle(c, w, &fx, &z), bls.VZero(d)), "the proof verifies with no other value")
			}
		}
	}
	exact := func() func() {
		c, w, x, y := bls.VVar("c"), bls.VVar("w"), bls.VVar("x"), bls.VVar("y")
		gc, gw, fx, fy := bls.VG1(c), bls.VG1(w), bls.VFr(x), bls.VFr(y)
		ok := ks.CheckProofSingle(&gc, &gw, &fx, &fy)
		return func() {
			vrt.Assert(vrt.Iff(ok, bls.VEq(bls.VSub(c, y), bls.VMul(w, bls.VSub(tau, x)))), "accepted exactly when c - y = w(tau - x)")
		}
	}
	multi := func(m, mk int, x uint64) func() func() {
		return func() func() {
			p, v := bls.VFrs("p", m)
			d := bls.VVar("d")
			ys := make([]bls.Fr, 1<<mk)
			for i := range ys {
				ys[i] = bls.VFr(bls.VEval(v, bls.VMul(bls.VK(x), dom[mk][i])))
			}
			c, w := ks.CommitToPoly(p), ks.ComputeProofMulti(p, x, 1<<mk)
			fx := bls.VFr(bls.VK(x))
			return func() {
				vrt.Assert(bls.VIsG1(w, bls.VEval(vQuotN(v, 1<<mk, bls.VPow(bls.VK(x), 1<<mk)), tau)), "the multi-point proof is the commitment to the quotient")
				vrt.Assert(ks.CheckProofMulti(c, w, &fx, ys), "the multi-point proof verifies with the true values")
				zs := append([]bls.Fr(nil), ys...)
				zs[1<<mk-1] = bls.VFr(bls.VAdd(bls.VOf(&ys[1<<mk-1]), d))
				ok := ks.CheckProofMulti(c, w, &fx, zs)
				off := bls.VEq(bls.VPow(tau, 1<<mk), bls.VPow(bls.VK(x), 1<<mk)) // the secret is a point of the coset
				vrt.Assert(!vrt.And(ok, !bls.VZero(d), !off), "the multi-point proof verifies with no other value")
			}
		}
	}
	pad := func(p []bls.Fr) []bls.Fr { return append(append([]bls.Fr{}, p...), make([]bls.Fr, len(p))...) }
	bulk := func(kind int) func() func() {
		return func() func() {
			p, v := bls.VFrs("p", n)
			var out []bls.G1Point
			switch kind {
			case 0:
				out = fk.FK20Single(p)
			case 1:
				out = fk.FK20SingleDAOptimized(pad(p))
			case 2:
				out = fk.DAUsingFK20(p)
			case 3:
				out = fm.FK20Multi(p)
			case 4:
				out = fm.FK20MultiDAOptimized(pad(p))
			case 5:
				out = fm.DAUsingFK20Multi(p)
			}
			m := []int{n, 2 * n, 2 * n, n / 2, n, n}[kind]
			return func() {
				vrt.Assert(len(out) == m, "one proof per point or coset")
				for i := range out {
					var w bls.VS
					switch kind {
					case 0:
						w = bls.VEval(vQuot(v, dom[k][i]), tau)
					case 1:
						w = bls.VEval(vQuot(v, dom[k+1][i]), tau)
					case 2:
						w = bls.VEval(vQuot(v, dom[k+1][vRev(i, k+1)]), tau)
					case 3:
						w = bls.VEval(vQuotN(v, 2, dom[k-1][i]), tau)
					case 4:
						w = bls.VEval(vQuotN(v, 2, dom[k][i]), tau)
					case 5:
						w = bls.VEval(vQuotN(v, 2, dom[k][vRev(i, k)]), tau)
					}
					vrt.Assert(bls.VIsG1(&out[i], w), "each bulk proof equals the direct proof")
				}
				vUnchanged(p, v, "coefficients")
			}
		}
	}
	rev := func(mk int) func() func() {
		return func() func() {
			f, v := bls.VFrs("v", 1<<mk)
			p, w := g1(1 << mk)
			reverseBitOrderFr(f)
			reverseBitOrderG1(p)
			return func() {
				for i := range f {
					vrt.Assert(bls.VEq(bls.VOf(&f[vRev(i, mk)]), v[i]), "each scalar moves to its reversed index")
					vrt.Assert(bls.VIsG1(&p[vRev(i, mk)], w[i]), "each point moves to its reversed index")
				}
			}
		}
	}
	return []vOp{
		{"P04", commit(3)}, {"P04", commit(8)}, {"P04", proof(4)}, {"P04", proof(7)}, {"P04", exact},
		{"P05", multi(8, 2, 3)}, {"P05", multi(5, 1, 3)}, {"P05", multi(9, 2, 5431)},
		{"P06", fft(8, 3)}, {"P06", fft(5, 3)}, {"P06", fft(2, 1)}, {"P06", ifft(3)}, {"P06", ifft(1)}, {"P06", inplace(3, false)}, {"P06", inplace(2, true)},
		{"P06", fftg1(3, false)}, {"P06", fftg1(2, true)},
		{"P07", bulk(0)}, {"P07", bulk(1)}, {"P07", bulk(2)}, {"P07", bulk(3)}, {"P07", bulk(4)}, {"P07", bulk(5)},
		{"P08", das(3)}, {"P08", das(1)},
		{"P09", recover(3, false, 1, 4, 6)}, {"P09", recover(3, false, 0, 5)}, {"P09", recover(2, false, 3)}, {"P09", recover(3, true, 1, 4, 6)}, {"P09", recover(3, true, 0, 5)}, {"P09", recover(2, true, 3)},
		{"P10", zero(3, 1, 4, 6)}, {"P10", zero(3, 0, 5)}, {"P10", zero(4, 1, 4, 6)}, {"P10", zero(2, 3)},
		{"P11", rev(3)}, {"P11", rev(1)},
	}
}

func vRecoveredAll(out []bls.Fr, err error, s []*bls.Fr, v []bls.VS) {
	vrt.Assert(err == nil && len(out) == len(v), "recovery succeeds")
	for i := range out {
		vrt.Assert(bls.VEq(bls.VOf(&out[i]), v[i]), "recovery returns the original evaluations")
		if s[i] != nil {
			vrt.Assert(bls.VEq(bls.VOf(s[i]), v[i]), "samples are not modified")
		}
	}
}

// vHistory runs an operation of the property after or before any other one (or both).
func vHistory(prop string) {
	ops := vOps()
	var own []int
	for i := range ops {
		if ops[i].prop == prop {
			own = append(own, i)
		}
	}
	a := own[vrt.Choose("operation", len(own))]
	b := vrt.Choose("other", len(ops))
	other := func() {
		if ops[b].prop == prop {
			ops[b].run()()
		} else {
			vrt.Panics(func() { ops[b].run() })
		}
	}
	when := vrt.Choose("when", vMax(2, 3))
	if when != 1 {
		other()
	}
	check := ops[a].run()
	if when != 0 {
		other()
	}
	check()
	vrt.Reach("checked")
}
