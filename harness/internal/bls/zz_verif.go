//verif:tags -;bignum_pure;bignum_hol256;bignum_hbls
package bls

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// VS is an oracle scalar: an element of the scalar field, independent of the code under test.
// The checker interprets the functions below over symbolic field values; the bodies here are
// used for native replay only.
type VS struct{ v *big.Int }

var vP, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

func vMod(x *big.Int) VS { return VS{new(big.Int).Mod(x, vP)} }
func (s VS) big() *big.Int {
	if s.v == nil {
		return new(big.Int)
	}
	return s.v
}

// VVar is an arbitrary field element.
func VVar(name string) VS { return vMod(vrt.Field(name)) }
func VK(k uint64) VS      { return vMod(new(big.Int).SetUint64(k)) }
func VDec(s string) VS {
	x, _ := new(big.Int).SetString(s, 10)
	return vMod(x)
}
func VAdd(a, b VS) VS { return vMod(new(big.Int).Add(a.big(), b.big())) }
func VSub(a, b VS) VS { return vMod(new(big.Int).Sub(a.big(), b.big())) }
func VMul(a, b VS) VS { return vMod(new(big.Int).Mul(a.big(), b.big())) }

// VInv is the inverse; the argument must be non-zero.
func VInv(a VS) VS        { return vMod(new(big.Int).ModInverse(a.big(), vP)) }
func VEq(a, b VS) bool    { return a.big().Cmp(b.big()) == 0 }
func VZero(a VS) bool     { return a.big().Sign() == 0 }
func VObs(n string, a VS) { vrt.ObsBig(n, a.big()) }

// VFrs gives n arbitrary scalars and the values they represent.
func VFrs(name string, n int) ([]Fr, []VS) {
	a := make([]Fr, n)
	b := make([]VS, n)
	for i := range a {
		b[i] = VVar(name)
		a[i] = VFr(b[i])
	}
	return a, b
}

// VEval is the value of the polynomial at x.
func VEval(p []VS, x VS) VS {
	r := VK(0)
	for i := len(p) - 1; i >= 0; i-- {
		r = VAdd(VMul(r, x), p[i])
	}
	return r
}
func VPow(x VS, e uint64) VS {
	r := VK(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = VMul(r, x)
		}
		x = VMul(x, x)
	}
	return r
}

// vFromLE is the number that a little-endian string denotes.
func vFromLE(b []byte) VS {
	r := VK(0)
	for i := len(b) - 1; i >= 0; i-- {
		r = VAdd(VMul(r, VK(256)), VK(uint64(b[i])))
	}
	return r
}

// vIsLE decides whether the string is the 32-byte little-endian form of the scalar.
func vIsLE(b []byte, x VS) bool {
	m := x.big().FillBytes(make([]byte, 32))
	for i := range b {
		if b[i] != m[31-i] {
			return false
		}
	}
	return len(b) == 32
}

// VCoins fixes the values of the scalars drawn at random from now on.
func VCoins(x []VS) {
	var r []*big.Int
	for _, a := range x {
		r = append(r, a.big())
	}
	vrt.SetCoins(r)
}

// VCoinsUsed is the number of scalars drawn since VCoins.
func VCoinsUsed() int { return vrt.CoinsUsed() }
