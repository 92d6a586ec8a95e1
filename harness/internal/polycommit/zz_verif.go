package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// vSetup is a setup of n powers of an arbitrary secret.
func vSetup(scale uint8, n int) (*KZGSettings, bls.VS) {
	tau := bls.VVar("tau")
	s1 := make([]bls.G1Point, n)
	s2 := make([]bls.G2Point, n)
	p := bls.VK(1)
	for i := 0; i < n; i++ {
		s1[i], s2[i] = bls.VG1(p), bls.VG2(p)
		p = bls.VMul(p, tau)
	}
	return NewKZGSettings(NewFFTSettings(scale), s1, s2), tau
}

// vUnchanged checks that the scalars still represent the values.
func vUnchanged(f []bls.Fr, v []bls.VS, what string) {
	for i := range v {
		vrt.Assert(bls.VEq(bls.VOf(&f[i]), v[i]), what+" are not modified")
	}
}
func vVals(f []bls.Fr) []bls.VS {
	v := make([]bls.VS, len(f))
	for i := range f {
		v[i] = bls.VOf(&f[i])
	}
	return v
}

// vQuot is the coefficient vector of (p(X)-p(x))/(X-x).
func vQuot(p []bls.VS, x bls.VS) []bls.VS {
	if len(p) <= 1 {
		return nil
	}
	q := make([]bls.VS, len(p)-1)
	c := bls.VK(0)
	for i := len(p) - 1; i >= 1; i-- {
		c = bls.VAdd(bls.VMul(c, x), p[i])
		q[i-1] = c
	}
	return q
}

// vQuotN is the quotient of p by X^n - c.
func vQuotN(p []bls.VS, n int, c bls.VS) []bls.VS {
	a := append([]bls.VS(nil), p...)
	if len(a) <= n {
		return nil
	}
	q := make([]bls.VS, len(a)-n)
	for i := len(a) - 1; i >= n; i-- {
		q[i-n] = a[i]
		a[i-n] = bls.VAdd(a[i-n], bls.VMul(c, a[i]))
	}
	return q
}

// vRoot is the root of unity of order 2^k, as a value.
func vRoot(k int) bls.VS {
	r := bls.VOf(&bls.Scale2RootOfUnity[k])
	return r
}

// vDomain is the successive powers of the root of order 2^k, after checking its order.
func vDomain(k int) []bls.VS {
	w := vRoot(k)
	d := make([]bls.VS, 1<<k)
	c := bls.VK(1)
	for i := range d {
		if i > 0 {
			vrt.Assert(!bls.VEq(c, bls.VK(1)), "the root of unity has the full order")
		}
		d[i] = c
		c = bls.VMul(c, w)
	}
	vrt.Assert(bls.VEq(c, bls.VK(1)), "the root of unity has the order of the domain")
	return d
}

// vRev is the bit reversal of i within k bits.
func vRev(i, k int) int {
	r := 0
	for j := 0; j < k; j++ {
		if i&(1<<j) != 0 {
			r |= 1 << (k - 1 - j)
		}
	}
	return r
}
func vMax(q, t int) int {
	if vrt.Thorough() {
		return t
	}
	return q
}
