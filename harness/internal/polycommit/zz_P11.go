package polycommit

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

func vRev32(v uint32) uint32 {
	var r uint32
	for i := 0; i < 32; i++ {
		r = r<<1 | v>>uint(i)&1
	}
	return r
}

// reverseBits over every 32-bit number.
func Verif_P11_bits() {
	v := vrt.U32("v")
	r := reverseBits(v)
	vrt.Assert(r == vRev32(v), "reverseBits reverses the 32 bits")
	vrt.Assert(reverseBits(r) == v, "reverseBits is its own inverse")
}

// reverseBitsLimited over every index below every power-of-two length.
func Verif_P11_limited() {
	k := vrt.Choose("k", 32)
	v := vrt.U32("v")
	vrt.Assume(v < 1<<uint(k))
	if k == 0 {
		vrt.Assert(reverseBitsLimited(1, v) == 0, "the only index of length one")
		return
	}
	r := reverseBitsLimited(1<<uint(k), v)
	vrt.Assert(r == vRev32(v)>>uint(32-k), "reverseBitsLimited reverses the index bits")
	vrt.Assert(r < 1<<uint(k), "the result is an index")
	vrt.Assert(reverseBitsLimited(1<<uint(k), r) == v, "reverseBitsLimited is its own inverse")
}

// bitIndex of every power of two.
func Verif_P11_index() {
	v := vrt.U32("v")
	vrt.Assume(v != 0)
	i := bitIndex(v)
	vrt.Assert(i < 32, "a bit index")
	vrt.Assert(v>>i == 1, "the index of the highest set bit")
}

func Verif_P11_fr() {
	k := vrt.Choose("k", vMax(8, 11))
	n := 1 << k
	f, v := bls.VFrs("v", n)
	reverseBitOrderFr(f)
	for i := range f {
		vrt.Assert(bls.VEq(bls.VOf(&f[vRev(i, k)]), v[i]), "each scalar moves to its reversed index")
	}
	reverseBitOrderFr(f)
	vUnchanged(f, v, "scalars reversed twice")
}

func Verif_P11_ptr() {
	k := vrt.Choose("k", vMax(8, 11))
	n := 1 << k
	f := make([]*bls.Fr, n)
	g := make([]*bls.Fr, n)
	for i := range f {
		if i%3 != 1 {
			f[i] = new(bls.Fr)
		}
		g[i] = f[i]
	}
	reverseBitOrderFrPtr(f)
	for i := range f {
		vrt.Assert(f[vRev(i, k)] == g[i], "each pointer moves to its reversed index")
	}
	reverseBitOrderFrPtr(f)
	for i := range f {
		vrt.Assert(f[i] == g[i], "reversing twice restores the order")
	}
}

func Verif_P11_g1() {
	k := vrt.Choose("k", vMax(8, 11))
	n := 1 << k
	p := make([]bls.G1Point, n)
	v := make([]bls.VS, n)
	for i := range p {
		v[i] = bls.VVar("v")
		p[i] = bls.VG1(v[i])
	}
	reverseBitOrderG1(p)
	for i := range p {
		vrt.Assert(bls.VIsG1(&p[vRev(i, k)], v[i]), "each point moves to its reversed index")
	}
	reverseBitOrderG1(p)
	for i := range p {
		vrt.Assert(bls.VIsG1(&p[i], v[i]), "reversing twice restores the order")
	}
}

// Lengths that are not a power of two have no bit reversal: they are refused, not scrambled.
func Verif_P11_refuse() {
	n := vrt.Choose("n", 20)
	f, _ := bls.VFrs("v", n)
	ok := n == 1 || n == 2 || n == 4 || n == 8 || n == 16
	if n > 0 {
		vrt.Assert(vrt.Iff(!vrt.Panics(func() { reverseBitOrderFr(f) }), ok), "lengths that are not a power of two are refused")
	}
}

// After or before any other use of the settings.
//
//verif:budget=80s
func Verif_P11_history() { vHistory("P11") }
