package bls

import kbls "github.com/kilic/bls12-381"

// VOf is the value a scalar represents; VFr is the scalar that represents a value.
func VOf(a *Fr) VS { return vMod((*kbls.Fr)(a).RedToBig()) }
func VFr(a VS) (r Fr) {
	(*kbls.Fr)(&r).RedFromBytes(a.big().Bytes())
	return
}

// VG1 and VG2 are the multiples of the standard generators; VIsG1/VIsG2 compare with them.
func VG1(a VS) (r G1Point) {
	g := kbls.NewG1()
	g.MulScalarBig((*kbls.PointG1)(&r), g.One(), a.big())
	return
}
func VG2(a VS) (r G2Point) {
	g := kbls.NewG2()
	g.MulScalarBig((*kbls.PointG2)(&r), g.One(), a.big())
	return
}
func VIsG1(p *G1Point, a VS) bool {
	q := VG1(a)
	return kbls.NewG1().Equal((*kbls.PointG1)(p), (*kbls.PointG1)(&q))
}
func VIsG2(p *G2Point, a VS) bool {
	q := VG2(a)
	return kbls.NewG2().Equal((*kbls.PointG2)(p), (*kbls.PointG2)(&q))
}

