package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

var _ = bls.VK

// a committee that holds the sharing after a handoff hands it over again
func Verif_P31_again() {
	vLeaderAt(4, 1, 2)
	ps, s := vHolders(4, 1)
	from := vrt.Choose("slow", 5)
	slow := func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if i == from && (m.Type == "ShareDist" || m.Type == "ShareReduce") {
			return vLate(m)
		}
		return vNow(m)
	}
	vRefreshAll(ps, slow)
	vCheckSharing(ps, 1, s)
	for k := 0; k < vMax(1, 3); k++ {
		ps = vHandOver(ps, slow)
		vRefreshAll(ps, nil)
		vCheckSharing(ps, 1, s)
	}
}

// what a member keeps after a handoff: the same commitments as everybody, of its own share, with
// witnesses
func Verif_P31_state() {
	vLeaderAt(4, 1, 2)
	ps, _ := vHolders(4, 1)
	from, to := vrt.Choose("slow", 4), vrt.Choose("link", 5)
	vRefreshAll(ps, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if m.Type == "ShareDist" && (i == from && to == 4 || i == from && j == to) {
			return vLate(m)
		}
		return vNow(m)
	})
	for i, p := range ps {
		var x bls.Fr
		bls.AsFr(&x, uint64(i+1))
		used := map[string]bool{}
		for j := 1; j <= 3; j++ {
			vrt.Assert(bls.EqualG1(&p.Proof.PiContents[j].CBj, &ps[0].Proof.PiContents[j].CBj), "all members hold the same commitments")
			own := ps[j-1].KZG.CommitToPoly(ps[j-1].reducedShare)
			vrt.Assert(bls.EqualG1(&p.Proof.PiContents[j].CBj, own), "the commitments are those of the refreshed shares")
			at := p.witnessIndexes[j-1].String()
			vrt.Assert(!used[at], "the witnesses are different ones")
			used[at] = true
			k := int(at[0] - '0')
			vrt.Assert(len(at) == 1 && k >= 1 && k <= 4, "the witness is a member's")
			var v bls.Fr
			bls.EvalPolyAt(&v, p.fullShare, &p.witnessIndexes[j-1])
			c := ps[k-1].KZG.CommitToPoly(ps[k-1].reducedShare)
			vrt.Assert(p.KZG.CheckProofSingle(c, &p.witness[j-1], &x, &v), "the witness opens the commitment at the member's own point")
		}
	}
}
