package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// vSamples gives the evaluations of an arbitrary polynomial with n/2 coefficients on n points,
// and the samples that are left when an arbitrary set of at most n/2 positions is missing.
func vSamples(k int, lo, hi int) ([]*bls.Fr, []bls.VS, int) {
	n := 1 << k
	_, c := bls.VFrs("c", n/2)
	dom := vDomain(k)
	v := make([]bls.VS, n)
	s := make([]*bls.Fr, n)
	miss := 0
	for i := range v {
		v[i] = bls.VEval(c, dom[i])
		if vrt.Choose("missing", 2) == 1 {
			miss++
			continue
		}
		f := bls.VFr(v[i])
		s[i] = &f
	}
	vrt.Assume(miss >= lo && miss <= hi)
	return s, v, miss
}

func vRecovered(out []bls.Fr, err error, s []*bls.Fr, v []bls.VS) {
	vrt.Assert(err == nil, "recovery succeeds")
	if err != nil {
		return
	}
	vrt.Assert(len(out) == len(v), "recovery returns all evaluations")
	for i := range v {
		vrt.Assert(bls.VEq(bls.VOf(&out[i]), v[i]), "recovery returns the original evaluations")
		if s[i] != nil {
			vrt.Assert(bls.VEq(bls.VOf(s[i]), v[i]), "samples are not modified")
		}
	}
}

// Every erasure pattern of at most half the positions.
//
//verif:paths=140000 budget=280s
func Verif_P09_recover() {
	k := 1 + vrt.Choose("k", vMax(3, 4))
	s, v, _ := vSamples(k, 1, 1<<(k-1))
	fs := NewFFTSettings(uint8(k))
	out, err := fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
	vRecovered(out, err, s, v)
}

// The same with settings for a larger domain than the samples.
func Verif_P09_recover_sub() {
	k := 1 + vrt.Choose("k", 2)
	s, v, _ := vSamples(k, 1, 1<<(k-1))
	fs := NewFFTSettings(uint8(k + 1))
	out, err := fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
	vRecovered(out, err, s, v)
}

// Nothing missing.
func Verif_P09_none() {
	k := 1 + vrt.Choose("k", 3)
	s, v, _ := vSamples(k, 0, 0)
	fs := NewFFTSettings(uint8(k))
	vrt.Assert(!vrt.Panics(func() {
		out, err := fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
		vRecovered(out, err, s, v)
	}), "recovery does not crash when nothing is missing")
}

//verif:paths=140000 budget=280s
func Verif_P09_legacy() {
	k := 1 + vrt.Choose("k", vMax(3, 4))
	s, v, _ := vSamples(k, 1, 1<<(k-1))
	fs := NewFFTSettings(uint8(k))
	vrt.Assert(!vrt.Panics(func() {
		out, err := fs.ErasureCodeRecover(s)
		vRecovered(out, err, s, v)
	}), "recovery does not crash")
}

func Verif_P09_legacy_none() {
	k := 1 + vrt.Choose("k", 3)
	s, v, _ := vSamples(k, 0, 0)
	fs := NewFFTSettings(uint8(k))
	vrt.Assert(!vrt.Panics(func() {
		out, err := fs.ErasureCodeRecover(s)
		vRecovered(out, err, s, v)
	}), "recovery does not crash when nothing is missing")
}

// Arbitrary samples: whatever is returned agrees with every sample given.
func Verif_P09_consistent() {
	k := 1 + vrt.Choose("k", 2)
	n := 1 << k
	fs := NewFFTSettings(uint8(k))
	s := make([]*bls.Fr, n)
	v := make([]bls.VS, n)
	legacy := vrt.Choose("legacy", 2) == 1
	miss := 0
	for i := range s {
		if vrt.Choose("missing", 2) == 1 {
			miss++
			continue
		}
		v[i] = bls.VVar("s")
		f := bls.VFr(v[i])
		s[i] = &f
	}
	vrt.Assume(miss >= 1 && miss < n)
	var out []bls.Fr
	var err error
	if legacy {
		out, err = fs.ErasureCodeRecover(s)
	} else {
		out, err = fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
	}
	if err != nil {
		vrt.Reach("refused")
		return
	}
	vrt.Reach("recovered")
	for i := range s {
		if s[i] != nil {
			vrt.Assert(bls.VEq(bls.VOf(&out[i]), v[i]), "recovered data agrees with every sample")
		}
	}
}

// vPattern is a chosen set of m positions out of n.
func vPattern(n, m int) []bool {
	miss := make([]bool, n)
	mode := vrt.Choose("mode", 5)
	for i := 0; i < m; i++ {
		switch mode {
		case 0: // the first positions
			miss[i] = true
		case 1: // the last positions
			miss[n-1-i] = true
		case 2: // the even positions, then the odd ones
			miss[2*i%n+2*i/n] = true
		case 3: // the odd positions
			miss[(2*i+1)%n] = true
		case 4: // an odd step
			miss[(5*i+3)%n] = true
		}
	}
	return miss
}

func vErased(k, m int) ([]*bls.Fr, []bls.VS) {
	n := 1 << k
	_, c := bls.VFrs("c", n/2)
	dom := vDomain(k)
	v, s := make([]bls.VS, n), make([]*bls.Fr, n)
	miss := vPattern(n, m)
	for i := range v {
		v[i] = bls.VEval(c, dom[i])
		if !miss[i] {
			f := bls.VFr(v[i])
			s[i] = &f
		}
	}
	return s, v
}

// Larger domains with chosen sets of missing positions: more than the small cases of the zero polynomial.
func Verif_P09_larger() {
	k := 4 + vrt.Choose("k", vMax(3, 5))
	n := 1 << k
	m := []int{1, 4, 5, 7, n/2 - 1, n / 2}[vrt.Choose("m", 6)]
	s, v := vErased(k, m)
	fs := NewFFTSettings(uint8(k + vrt.Choose("extra", 2)))
	out, err := fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
	vRecovered(out, err, s, v)
}

func Verif_P09_legacy_larger() {
	k := 4 + vrt.Choose("k", vMax(3, 5))
	n := 1 << k
	m := []int{1, 4, 5, 7, n/2 - 1, n / 2}[vrt.Choose("m", 6)]
	s, v := vErased(k, m)
	fs := NewFFTSettings(uint8(k))
	out, err := fs.ErasureCodeRecover(s)
	vRecovered(out, err, s, v)
}

// Enough missing positions for the tree reduction.
func Verif_P09_tree() {
	k := 7 + vrt.Choose("k", vMax(1, 2))
	s, v := vErased(k, 63+vrt.Choose("m", 2))
	fs := NewFFTSettings(uint8(k))
	out, err := fs.RecoverPolyFromSamples(s, fs.ZeroPolyViaMultiplication)
	vRecovered(out, err, s, v)
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P09_history() { vHistory("P09") }
