//verif:tags bignum_pure
package bls

import (
	"math/big"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

// VOf is the value a scalar represents; VFr is the scalar that represents a value.
func VOf(a *Fr) VS {
	x := (*big.Int)(a)
	vrt.Assert(x.Sign() >= 0 && x.Cmp(vP) < 0, "scalars are reduced")
	return vMod(new(big.Int).Set(x))
}
func VFr(a VS) (r Fr) {
	(*big.Int)(&r).Set(a.big())
	return
}
