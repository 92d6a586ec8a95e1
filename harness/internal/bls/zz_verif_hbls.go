//verif:tags bignum_hbls
package bls

import (
	"math/big"

	hbls "github.com/herumi/bls-eth-go-binary/bls"
)

// VOf is the value a scalar represents; VFr is the scalar that represents a value.
func VOf(a *Fr) VS {
	x, _ := new(big.Int).SetString((*hbls.Fr)(a).GetString(10), 10)
	return vMod(x)
}
func VFr(a VS) (r Fr) {
	if err := (*hbls.Fr)(&r).SetString(a.big().String(), 10); err != nil {
		panic(err)
	}
	return
}
