package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// Forward and inverse transforms of scalars, for every length up to the domain size.
func Verif_P06_fft() {
	k := vrt.Choose("k", vMax(6, 8))
	fs := NewFFTSettings(uint8(k))
	n := 1 + vrt.Choose("n", 1<<k) // 1..2^k values
	if !vrt.Thorough() && k == 4 {
		vrt.Assume(n == 16 || n == 9 || n == 11 || n == 15 || n == 4)
	}
	if k == 5 {
		vrt.Assume(n == 32 || n == 17)
	}
	m, mk := 1, 0
	for m < n {
		m, mk = 2*m, mk+1
	}
	dom := vDomain(mk)
	f, v := bls.VFrs("v", n)
	out, err := fs.FFT(f, false)
	vrt.Assert(err == nil, "the transform is defined")
	vrt.Assert(len(out) == m, "the transform has the padded length")
	for i := range out {
		vrt.Assert(bls.VEq(bls.VOf(&out[i]), bls.VEval(v, dom[i])), "the transform is the evaluation on the domain")
	}
	vUnchanged(f, v, "inputs")
	back, err := fs.FFT(out, true)
	vrt.Assert(err == nil, "the inverse transform is defined")
	for i := range back {
		w := bls.VK(0)
		if i < n {
			w = v[i]
		}
		vrt.Assert(bls.VEq(bls.VOf(&back[i]), w), "the inverse transform restores the coefficients")
	}
	for i := range out {
		vrt.Assert(bls.VEq(bls.VOf(&out[i]), bls.VEval(v, dom[i])), "inputs of the inverse are not modified")
	}
}

// Inverse first: the coefficients returned by the inverse interpolate the given values.
func Verif_P06_inverse() {
	k := vrt.Choose("k", vMax(5, 7))
	extra := vrt.Choose("extra", 3)
	n := 1 << k
	fs := NewFFTSettings(uint8(k + extra))
	dom := vDomain(k)
	f, v := bls.VFrs("v", n)
	out, err := fs.FFT(f, true)
	vrt.Assert(err == nil, "the inverse transform is defined")
	c := vVals(out)
	for i := range v {
		vrt.Assert(bls.VEq(bls.VEval(c, dom[i]), v[i]), "the inverse transform interpolates the values")
	}
	// in-place variant
	o := make([]bls.Fr, n)
	vrt.Assert(fs.InplaceFFT(f, o, true) == nil, "the in-place inverse is defined")
	for i := range o {
		vrt.Assert(bls.VEq(bls.VOf(&o[i]), c[i]), "the in-place inverse equals the copying one")
	}
	o = make([]bls.Fr, n)
	vrt.Assert(fs.InplaceFFT(f, o, false) == nil, "the in-place transform is defined")
	for i := range o {
		vrt.Assert(bls.VEq(bls.VOf(&o[i]), bls.VEval(v, dom[i])), "the in-place transform is the evaluation")
	}
}

// Transforms of curve points commute with the exponent.
func Verif_P06_g1() {
	k := vrt.Choose("k", vMax(5, 7))
	extra := vrt.Choose("extra", 2)
	n := 1 << k
	fs := NewFFTSettings(uint8(k + extra))
	dom := vDomain(k)
	p := make([]bls.G1Point, n)
	v := make([]bls.VS, n)
	for i := range p {
		v[i] = bls.VVar("v")
		p[i] = bls.VG1(v[i])
	}
	out, err := fs.FFTG1(p, false)
	vrt.Assert(vrt.And(err == nil, len(out) == n), "the point transform is defined")
	for i := range out {
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(v, dom[i])), "the point transform is the evaluation in the exponent")
		vrt.Assert(bls.VIsG1(&p[i], v[i]), "inputs are not modified")
	}
	back, err := fs.FFTG1(out, true)
	vrt.Assert(vrt.And(err == nil, len(back) == n), "the inverse point transform is defined")
	for i := range back {
		vrt.Assert(bls.VIsG1(&back[i], v[i]), "the inverse point transform restores the points")
		vrt.Assert(bls.VIsG1(&out[i], bls.VEval(v, dom[i])), "inputs of the inverse are not modified")
	}
}

// Refusals.
func Verif_P06_refuse() {
	k := vrt.Choose("k", 4)
	fs := NewFFTSettings(uint8(k))
	n := vrt.Choose("n", 12)
	inv := vrt.Choose("inv", 2) == 1
	f, _ := bls.VFrs("v", n)
	p := make([]bls.G1Point, n)
	for i := range p {
		p[i] = bls.VG1(bls.VVar("p"))
	}
	pow2 := n == 1 || n == 2 || n == 4 || n == 8
	out, err := fs.FFT(f, inv)
	vrt.Assert(vrt.Iff(err != nil, n > 1<<k), "too many scalars are refused with an error, others are not")
	vrt.Assert(vrt.Or(err == nil, out == nil), "a refusal returns no values")
	if n == 0 {
		return
	}
	_, err = fs.FFTG1(p, inv)
	vrt.Assert(vrt.Iff(err != nil, vrt.Or(n > 1<<k, !pow2)), "unsupported point counts are refused with an error")
	err = fs.InplaceFFT(f, make([]bls.Fr, n), inv)
	vrt.Assert(vrt.Iff(err != nil, vrt.Or(n > 1<<k, !pow2)), "unsupported scalar counts are refused with an error")
}

// The settings hold the domain, its reverse and their end points.
func Verif_P06_settings() {
	k := vrt.Choose("k", 9)
	fs := NewFFTSettings(uint8(k))
	n := 1 << k
	w := vRoot(k)
	vrt.Assert(fs.MaxWidth == uint64(n), "the width is the domain size")
	c := bls.VK(1)
	ok := bls.VEq(bls.VOf(fs.RootOfUnity), w)
	vrt.Assert(vrt.And(len(fs.ExpandedRootsOfUnity) >= n+1, len(fs.ReverseRootsOfUnity) == len(fs.ExpandedRootsOfUnity)), "the domain lists have both ends")
	for i := 0; i <= n; i++ {
		ok = vrt.And(ok, bls.VEq(bls.VOf(&fs.ExpandedRootsOfUnity[i]), c))
		ok = vrt.And(ok, bls.VEq(bls.VMul(bls.VOf(&fs.ReverseRootsOfUnity[i]), c), bls.VK(1)))
		if i > 0 && i < n {
			ok = vrt.And(ok, !bls.VEq(c, bls.VK(1)))
		}
		c = bls.VMul(c, w)
	}
	vrt.Assert(ok, "the domain is the successive powers of a root of exactly that order, and its reverse")
}

func Verif_P06_nextpow() {
	v := vrt.U64("v")
	vrt.Assume(v <= 1<<63)
	r := nextPowOf2(v)
	vrt.Assert(r != 0 && r&(r-1) == 0, "a power of two")
	vrt.Assert(r >= v, "at least the number")
	vrt.Assert(vrt.Or(v <= 1, r>>1 < v), "the smallest one")
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P06_history() { vHistory("P06") }
