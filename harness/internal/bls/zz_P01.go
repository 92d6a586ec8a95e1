//verif:tags -;bignum_pure;bignum_hol256;bignum_hbls
package bls

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// vBelow decides, for a little-endian string, whether it denotes a number below the order.
func vBelow(b []byte) bool {
	m := []uint64{0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48}
	lt := false
	for i := 0; i < 4; i++ { // from the least significant limb
		var l uint64
		for j := 7; j >= 0; j-- {
			l = l<<8 | uint64(b[8*i+j])
		}
		lt = vrt.Or(l < m[i], vrt.And(l == m[i], lt))
	}
	return lt
}

// ValidFr decides, over all 2^256 strings, whether the string denotes a number below the order.
func Verif_P01_valid() {
	b := vrt.Bytes("b", 32)
	var a [32]byte
	copy(a[:], b)
	vrt.Assert(vrt.Iff(ValidFr(a), vBelow(b)), "ValidFr accepts exactly the numbers below the group order")
}

// Every scalar round-trips through its 32 bytes.
func Verif_P01_roundtrip() {
	x := VVar("x")
	a := VFr(x)
	e := FrTo32(&a)
	vrt.Assert(VEq(VOf(&a), x), "encoding does not modify the scalar")
	y := VVar("old")
	d := VFr(y)
	ok := FrFrom32(&d, e)
	vrt.Assert(ok, "the encoding of a scalar is accepted")
	vrt.Assert(VEq(VOf(&d), x), "decoding gives back the scalar")
	vrt.Assert(vIsLE(e[:], x), "the encoding is the canonical little-endian number")
}

// Decoding of every 32-byte string.
func Verif_P01_decode() {
	b := vrt.Bytes("b", 32)
	var a [32]byte
	copy(a[:], b)
	y := VVar("old")
	d := VFr(y)
	ok := FrFrom32(&d, a)
	vrt.Assert(vrt.Iff(ok, vBelow(b)), "exactly the numbers below the group order are accepted")
	if !ok {
		vrt.Reach("rejected")
		vrt.Assert(VEq(VOf(&d), y), "a rejected string leaves the destination unchanged")
		return
	}
	vrt.Reach("accepted")
	vrt.Assert(VEq(VOf(&d), vFromLE(b)), "decoding gives the number the string denotes")
	e := FrTo32(&d)
	vrt.Assert(vrt.EqBytes(e[:], b), "encoding gives back the string")
}

func Verif_P01_u64() {
	i := vrt.U64("i")
	var d Fr
	AsFr(&d, i)
	vrt.Assert(VEq(VOf(&d), VK(i)), "AsFr gives the scalar the integer denotes")
}

// Decimal strings of chosen values around the limits that matter.
func Verif_P01_decimal() {
	s := []string{"0", "1", "2", "9", "10", "18446744073709551615", "18446744073709551616",
		"52435875175126190479447740508185965837690552500527637822603658699938581184512",
		"340282366920938463463374607431768211456", "1927409816240961209460912649124"}
	k := vrt.Choose("k", len(s))
	var d Fr
	SetFr(&d, s[k])
	vrt.Assert(VEq(VOf(&d), VDec(s[k])), "SetFr gives the scalar the string denotes")
	vrt.Assert(FrStr(&d) == s[k], "FrStr gives back the string")
	e := ToFr(s[k])
	vrt.Assert(VEq(VOf(&e), VDec(s[k])), "ToFr gives the scalar the string denotes")
	b, _ := new(big.Int).SetString(s[k], 10)
	c := FrTo32(&d)
	for i := range c {
		vrt.Assert(c[i] == byte(new(big.Int).Rsh(b, uint(8*i)).Uint64()), "the encoding is the little-endian number")
	}
}
