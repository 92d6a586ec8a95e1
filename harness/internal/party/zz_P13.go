package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
)

func Verif_P13_share() {
	f := 1 + vrt.Choose("f", vMax(3, 4))
	n := 3*f + 1
	sv := bls.VVar("secret")
	id := []byte("vss")
	c := vDeal(uint32(n), uint32(f), bls.VFr(sv), id)
	var ps []*HonestParty
	for i := 0; i < n; i++ {
		out := vSent(c.sendChannels[i])
		vrt.Assert(len(out) == 1, "one message per party")
		p := vParty(uint32(n), uint32(f), uint32(i))
		vPut(p, out[0])
		p.VSSShareReceive(id)
		ps = append(ps, p)
	}
	vCheckSharing(ps, f, sv)
	for i, p := range ps {
		vrt.Assert(bls.VIsG1(&p.Proof.Gs, sv), "the commitment of the secret is g^s")
		var x bls.Fr
		bls.AsFr(&x, uint64(i+1))
		for j := 1; j <= 2*f+1; j++ {
			var y, v bls.Fr
			bls.AsFr(&y, uint64(j))
			bls.EvalPolyAt(&v, p.fullShare, &y)
			vrt.Assert(bls.VEq(bls.VOf(&p.witnessIndexes[j-1]), bls.VK(uint64(j))), "the witness is for this index")
			vrt.Assert(p.KZG.CheckProofSingle(&p.Proof.PiContents[j].CBj, &p.witness[j-1], &x, &v), "the stored share opens the stored commitment")
			for _, q := range ps {
				vrt.Assert(bls.EqualG1(&q.Proof.PiContents[j].CBj, &p.Proof.PiContents[j].CBj), "all parties hold the same commitments")
			}
		}
	}
}

// Two dealings in a row, of committees of the same or of different sizes, received one after the other or
// both after the second: each is what it is alone.
func Verif_P13_history() {
	fs := [2]int{1 + vrt.Choose("first", 2), 1 + vrt.Choose("second", 2)}
	late := vrt.Choose("late", 2) == 1
	ids := [2][]byte{[]byte("vss"), []byte("other")}
	var sv [2]bls.VS
	var ps [2][]*HonestParty
	var recv [2]func()
	for k := range fs {
		k, f := k, fs[k]
		n := 3*f + 1
		sv[k] = bls.VVar("secret")
		c := vDeal(uint32(n), uint32(f), bls.VFr(sv[k]), ids[k])
		recv[k] = func() {
			for i := 0; i < n; i++ {
				out := vSent(c.sendChannels[i])
				vrt.Assert(len(out) == 1, "one message per party")
				p := vParty(uint32(n), uint32(f), uint32(i))
				vPut(p, out[0])
				p.VSSShareReceive(ids[k])
				ps[k] = append(ps[k], p)
			}
		}
		if !late {
			recv[k]()
		}
	}
	if late {
		recv[1]()
		recv[0]()
	}
	for k := range fs {
		vCheckSharing(ps[k], fs[k], sv[k])
		for _, p := range ps[k] {
			vrt.Assert(bls.VIsG1(&p.Proof.Gs, sv[k]), "the commitment of the secret is g^s")
			for j := 1; j <= 2*fs[k]+1; j++ {
				vrt.Assert(bls.EqualG1(&p.Proof.PiContents[j].CBj, &ps[k][0].Proof.PiContents[j].CBj), "all parties hold the same commitments")
			}
		}
	}
}
