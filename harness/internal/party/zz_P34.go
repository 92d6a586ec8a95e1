package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// vContributes runs one member's refresh with the given coins and returns the values it sends to the
// first f+1 members (which determine the contribution), column by column.
func vContributes(f, who int, coins []bls.VS) (view []bls.VS, used int) {
	ps, _ := vHolders(uint32(3*f+1), uint32(f))
	p := ps[who]
	bls.VCoins(coins)
	go vHandoff(p)
	vrt.Quiesce()
	used = bls.VCoinsUsed()
	for i := 0; i <= f; i++ {
		found := 0
		for _, m := range vSent(p.sendChannels[i]) {
			if m.Type != "Reshare" {
				continue
			}
			found++
			var d protobuf.Reshare
			vrt.Assert(proto.Unmarshal(m.Data, &d) == nil && len(d.Qk) == 2*f+1, "the contribution decodes")
			for _, b := range d.Qk {
				view = append(view, vDecFr(b))
			}
		}
		vrt.Assert(found == 1, "a member sends its contribution once to everybody")
	}
	return
}

// The contribution is an affine function of the coins (first assertion, for all coins and shares held),
// and the only linear relations among its values that hold whatever the coins are the multiples of
// "the shared value is zero" (last assertion, for all linear functionals): so it is uniform among the
// sharings of zero.
func Verif_P34_fresh() { vFresh(1, vrt.Choose("who", 4)) }

//verif:budget=100s
func Verif_P34_fresh_f2() { vFresh(2, 3*vrt.Choose("who", 3)) }

func vFresh(f, who int) {
	w := 2*f + 1
	coins := make([]bls.VS, 3*(w+1)*(f+2))
	zero := make([]bls.VS, len(coins))
	for k := range coins {
		coins[k] = bls.VVar("coin")
		zero[k] = bls.VK(0)
	}
	full, used := vContributes(f, who, coins)
	vrt.Assume(used <= len(coins))
	base, _ := vContributes(f, who, zero)
	vrt.Assert(len(full) == (f+1)*w && len(base) == len(full), "one value per column")
	lam := make([]bls.VS, len(full))
	aff := make([]bls.VS, len(full))
	for i := range full {
		lam[i] = bls.VVar("lambda")
		aff[i] = base[i]
	}
	for k := 0; k < used; k++ {
		unit := append([]bls.VS{}, zero...)
		unit[k] = bls.VK(1)
		v, _ := vContributes(f, who, unit)
		d := bls.VK(0)
		for i := range v {
			e := bls.VSub(v[i], base[i])
			aff[i] = bls.VAdd(aff[i], bls.VMul(coins[k], e))
			d = bls.VAdd(d, bls.VMul(lam[i], e))
		}
		vrt.Assume(bls.VZero(d))
	}
	for i := range full {
		vrt.Assert(bls.VEq(full[i], aff[i]), "the contribution is an affine function of the coins alone")
	}
	// coefficients of the shared value, as a combination of the values of f+1 members at 2f+1 columns
	at0 := func(n int) (c []bls.VS) {
		xs := make([]bls.VS, n)
		for i := range xs {
			xs[i] = bls.VK(uint64(i + 1))
		}
		for i := range xs {
			ys := make([]bls.VS, n)
			for j := range ys {
				ys[j] = bls.VK(0)
			}
			ys[i] = bls.VK(1)
			c = append(c, vLag(xs, ys, bls.VK(0)))
		}
		return
	}
	rows, cols := at0(f+1), at0(w)
	for i := range full {
		c := bls.VMul(rows[i/w], cols[i%w])
		c0 := bls.VMul(rows[0], cols[0])
		vrt.Assert(bls.VEq(bls.VMul(lam[i], c0), bls.VMul(lam[0], c)), "the only relation among the values of a contribution is that it shares zero")
	}
	vrt.Reach("fresh")
}
