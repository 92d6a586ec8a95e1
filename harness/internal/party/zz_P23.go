package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

var _ = bls.VK

// the refresh, with the messages of one type and one sender, or on one link, late
func Verif_P23_refresh() {
	vLeaderAt(4, 1, 2)
	ps, s := vHolders(4, 1)
	done := vAll(ps, vHandoff)
	types := []string{"RBCPropose", "RBCEcho", "RBCReady", "Reshare", "Recover", "Value", "Halt", "ShareDist", "Success", ""}
	typ := types[vrt.Choose("type", len(types))]
	from, to := 0, 0
	if vrt.Thorough() {
		from, to = vrt.Choose("slow", 4), vrt.Choose("link", 5)
	} else {
		from, to = 3-vrt.Choose("slow", 2), 4-vrt.Choose("link", 2)*4
	}
	vCarry(ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if i == from && (to == 4 || j == to) && (typ == "" || m.Type == typ) {
			return vLate(m)
		}
		return vNow(m)
	})
	for i := range ps {
		vrt.Assert(done[i], "every member completes the handoff")
	}
	vCheckSharing(ps, 1, s)
}

// from the dealer to the new committee
func Verif_P23_pipeline() {
	vLeaderAt(4, 1, vrt.Choose("leader", vMax(1, 4)))
	sv := bls.VVar("secret")
	c := vDeal(4, 1, bls.VFr(sv), []byte("vss"))
	ps := make([]*HonestParty, 4)
	for i := range ps {
		ps[i] = vParty(4, 1, uint32(i))
		for _, m := range vSent(c.sendChannels[i]) {
			vPut(ps[i], m)
		}
	}
	got := vAll(ps, func(p *HonestParty) { p.VSSShareReceive([]byte("vss")) })
	vrt.Quiesce()
	for i := range ps {
		vrt.Assert(got[i], "every member gets its share")
	}
	vCheckSharing(ps, 1, sv)
	from, typ := vrt.Choose("slow", 5), []string{"Prepare", "ShareReduce"}[vrt.Choose("type", 2)]
	next := vHandOver(ps, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if i == from && m.Type == typ {
			return vLate(m)
		}
		return vNow(m)
	})
	vRefreshAll(next, nil)
	vCheckSharing(next, 1, sv)
}

// The same pipeline for F = 2, where F+1, 2F and the quorums are different numbers.
//
//verif:budget=300s
func Verif_P23_pipeline_f2() {
	vLeaderAt(7, 2, 2)
	ps, s := vHolders(7, 2)
	vRefreshAll(ps, nil)
	vCheckSharing(ps, 2, s)
}
