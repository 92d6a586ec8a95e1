package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// vView runs the dealer with the given secret and coins and returns the private values sent to the parties.
func vView(n, f int, s bls.VS, coins []bls.VS, who []int) []bls.VS {
	c := &Client{HonestParty: vParty(uint32(n), uint32(f), 0x7fffffff)}
	c.SetSecret(bls.VFr(s))
	bls.VCoins(coins)
	c.Share([]byte("vss"))
	used := bls.VCoinsUsed()
	vrt.Assume(used <= len(coins))
	var view []bls.VS
	for _, i := range who {
		for _, m := range vSent(c.sendChannels[i]) {
			var d protobuf.VSSSend
			proto.Unmarshal(m.Data, &d)
			for _, b := range d.BijList {
				if len(b) == 0 {
					continue
				}
				var x [32]byte
				var v bls.Fr
				copy(x[:], b)
				bls.FrFrom32(&v, x)
				view = append(view, bls.VOf(&v))
			}
		}
	}
	return view
}

// The view of a coalition is an affine function of the secret and the coins (first assertion, for all
// values); no linear functional of it that is independent of the coins depends on the secret (last
// assertion, for all functionals).  For affine views over a field that is exactly: any change of the
// secret can be undone by a shift of the coins.
func Verif_P15_hiding() {
	f := 1 + vrt.Choose("f", vMax(1, 2))
	n := 3*f + 1
	subs := vSubsets(n, f)
	vHide(n, f, subs[vrt.Choose("coalition", len(subs))])
}

//verif:tier=quick budget=40s
func Verif_P15_hiding_f2() {
	vHide(7, 2, [][]int{{0, 1}, {2, 6}, {3, 5}}[vrt.Choose("coalition", 3)])
}

func vHide(n, f int, who []int) {
	coins := make([]bls.VS, 3*(2*f+2)*(f+2))
	for k := range coins {
		coins[k] = bls.VVar("coin")
	}
	s := bls.VVar("secret")
	full := vView(n, f, s, coins, who)
	used := bls.VCoinsUsed()
	zero := make([]bls.VS, len(coins))
	for k := range zero {
		zero[k] = bls.VK(0)
	}
	base := vView(n, f, bls.VK(0), zero, who)
	one := vView(n, f, bls.VK(1), zero, who)
	vrt.Assert(len(full) == len(who)*(2*f+1), "each member of the coalition received its own values")
	lam := make([]bls.VS, len(full))
	aff := make([]bls.VS, len(full))
	for i := range full {
		lam[i] = bls.VVar("lambda")
		aff[i] = bls.VAdd(base[i], bls.VMul(s, bls.VSub(one[i], base[i])))
	}
	for k := 0; k < used; k++ {
		unit := append([]bls.VS{}, zero...)
		unit[k] = bls.VK(1)
		v := vView(n, f, bls.VK(0), unit, who)
		d := bls.VK(0)
		for i := range v {
			e := bls.VSub(v[i], base[i])
			aff[i] = bls.VAdd(aff[i], bls.VMul(coins[k], e))
			d = bls.VAdd(d, bls.VMul(lam[i], e))
		}
		vrt.Assume(bls.VZero(d))
	}
	d := bls.VK(0)
	for i := range full {
		vrt.Assert(bls.VEq(full[i], aff[i]), "the private view is an affine function of the secret and the coins")
		d = bls.VAdd(d, bls.VMul(lam[i], bls.VSub(one[i], base[i])))
	}
	vrt.Assert(bls.VZero(d), "no combination of the coalition's values that is independent of the coins depends on the secret")
}
