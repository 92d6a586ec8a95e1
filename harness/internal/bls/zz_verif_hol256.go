//verif:tags bignum_hol256
package bls

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	u256 "github.com/holiman/uint256"
)

// VOf is the value a scalar represents; VFr is the scalar that represents a value.
func VOf(a *Fr) VS {
	x := (*u256.Int)(a).ToBig()
	vrt.Assert(x.Cmp(vP) < 0, "scalars are reduced")
	return vMod(x)
}
func VFr(a VS) (r Fr) {
	(*u256.Int)(&r).SetFromBig(a.big())
	return
}
