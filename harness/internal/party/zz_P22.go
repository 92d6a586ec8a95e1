package party

import (
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

func vNewID(k int) string { return string(vID) + "_2," + strconv.Itoa(k+1) }

// the values reach a member in any order
func Verif_P22_orders() {
	r := vRefreshing(2)
	me, first, second := vrt.Choose("member", vMax(2, 4)), vrt.Choose("first", 4), vrt.Choose("second", 4)
	if first == second {
		vrt.Stop()
	}
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if j == me && m.Type == "ShareDist" && i != first && i != second {
			return vLate(m)
		}
		return vNow(m)
	})
	for i := range r.ps {
		r.full(i, 0, 1, 2, 3)
	}
}

// the same for F = 2: any two of some members are late
//
//verif:budget=200s
func Verif_P22_orders_f2() {
	r := vRefreshingN(2, 2)
	me := vrt.Choose("member", vMax(2, 7))
	a := vrt.Choose("late", 7)
	b := (a + 1 + vrt.Choose("other", vMax(2, 6))) % 7
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if j == me && m.Type == "ShareDist" && (i == a || i == b) {
			return vLate(m)
		}
		return vNow(m)
	})
	for i := range r.ps {
		r.full(i, vUpTo(7)...)
	}
}

func vUpTo(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

// F members misbehave in the distribution of the full shares
func Verif_P22_faulty() { vFaulty22(1) }

// for F = 2
//
//verif:budget=200s
func Verif_P22_faulty_f2() { vFaulty22(2) }

func vFaulty22(f int) {
	n := 3*f + 1
	r := vRefreshingN(f, 2)
	r.faulty()
	kind := vrt.Choose("fault", 6)
	c, v := bls.VVar("c"), bls.VVar("v")
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if !r.isBad(i) && kind == 4 && m.Type == "ShareDist" && r.among(j, f+1) {
			return vLate(m)
		}
		if !r.isBad(i) {
			return vNow(m)
		}
		switch {
		case kind == 1 && m.Type == "RBCPropose" && string(m.Id) == vNewID(i): // an arbitrary commitment
			return vNow(vProposal(uint32(n), uint32(f), uint32(i), m.Id, &protobuf.Message{Type: "NewCommit", Id: vID, Sender: uint32(i), Data: vPoint(c)}))
		case kind == 2 && m.Type == "ShareDist" && r.among(j, 1): // an arbitrary value
			var d protobuf.ShareDist
			vrt.Assert(proto.Unmarshal(m.Data, &d) == nil, "decodes")
			d.B = vScalar(v)
			return vNow(vMsg("ShareDist", m.Id, uint32(i), &d))
		case kind == 3 && m.Type == "ShareDist" && r.among(j, f+1): // somebody else's value, with the witness
			var x bls.Fr
			bls.AsFr(&x, uint64(j+1))
			q := r.ps[r.honest()[0]]
			w := q.KZG.ComputeProofSingle(q.reducedShare, x)
			return vNow(vMsg("ShareDist", m.Id, uint32(i), &protobuf.ShareDist{B: vScalar(bls.VEval(vPoly(q.reducedShare), bls.VK(uint64(j+1)))), WB: bls.ToCompressedG1(w)}))
		case kind == 4 && m.Type == "ShareDist": // again and again
			return []*protobuf.Message{m, m, m, m, m, m, m}[:n], nil
		case kind == 5 && (m.Type == "ShareDist" || string(m.Id) == vNewID(i)):
			return vLost(m)
		}
		return vNow(m)
	})
	if kind == 3 { // binding: different polynomials have different commitments
		q := r.ps[r.honest()[0]]
		c := q.KZG.CommitToPoly(q.reducedShare)
		for i, p := range r.ps {
			vrt.Assume(!r.isBad(i) || !bls.EqualG1(p.KZG.CommitToPoly(p.reducedShare), c))
		}
	}
	for _, i := range r.honest() {
		r.full(i, r.honest()...)
	}
}

// a member ends the handoff only after three members have their shares
func Verif_P22_success() { vSuccess(1) }

//verif:budget=200s
func Verif_P22_success_f2() { vSuccess(2) }

func vSuccess(f int) {
	r := vRefreshingN(f, 2)
	n := vrt.Choose("members", 2*f+2)
	k := vrt.Choose("repeats", vMax(4-f, 3)) + f
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if m.Type == "Success" {
			if i == 3*f && n > 0 {
				for a := 0; a < k; a++ {
					now = append(now, m)
				}
				return now, nil
			}
			if i+1 >= n {
				return vLost(m)
			}
		}
		return vNow(m)
	})
	for i := 0; i < 3*f; i++ {
		vrt.Assert(r.done[i] == (n >= 2*f+1), "a member completes exactly after 2F+1 members report success")
	}
}
