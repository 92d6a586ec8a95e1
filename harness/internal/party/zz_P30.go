package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

var _ = bls.VK

// vBadField is a field that is not the encoding of anything, or not the one expected.
func vBadField(kind int, good []byte) []byte {
	switch kind {
	case 0:
		return nil
	case 1:
		return vrt.Bytes("byte", 1)
	case 2: // truncated
		if len(good) == 0 {
			vrt.Stop()
		}
		return good[:len(good)-1]
	case 3: // too long
		return append(append([]byte{}, good...), 7)
	}
	b := make([]byte, len(good)) // not a point, and no scalar
	for i := range b {
		b[i] = 0xff
	}
	return b
}

// vFields are the fields of a message that can be malformed one by one.
func vFields(m *protobuf.Message) (proto.Message, []*[]byte, []func()) {
	var x proto.Message
	var fs []*[]byte
	var lists []func()
	un := func(p proto.Message) { x = p; vrt.Assert(proto.Unmarshal(m.Data, p) == nil, "decodes") }
	switch m.Type {
	case "Commit":
		var d protobuf.Commit
		un(&d)
		fs = append(fs, &d.Pi[0].CBj, &d.Pi[1].CZj, &d.Pi[2].WZ0, &d.Pi[0].GFj)
		lists = append(lists, func() { d.Pi = nil }, func() { d.Pi = d.Pi[:2] }, func() { d.Pi = append(d.Pi, d.Pi...) })
	case "Reshare":
		var d protobuf.Reshare
		un(&d)
		fs = append(fs, &d.Qk[1], &d.WQk[2])
		lists = append(lists, func() { d.Qk = d.Qk[:2] }, func() { d.WQk = d.WQk[:2] }, func() { d.Qk, d.WQk = nil, nil })
	case "Recover":
		var d protobuf.Recover
		un(&d)
		fs = append(fs, &d.V, &d.W, &d.SigShare)
		lists = append(lists, func() { d.Index = 0 }, func() { d.Index = 5 }, func() { d.Index = 1 << 31 })
	case "ShareDist":
		var d protobuf.ShareDist
		un(&d)
		fs = append(fs, &d.B, &d.WB)
	case "RBCEcho":
		var d protobuf.RBCEcho
		un(&d)
		fs = append(fs, &d.Hash, &d.M)
	case "RBCReady":
		var d protobuf.RBCReady
		un(&d)
		fs = append(fs, &d.Hash, &d.M)
	case "Value":
		var d protobuf.Value
		un(&d)
		fs = append(fs, &d.Value, &d.Validation)
	case "Echo":
		var d protobuf.Echo
		un(&d)
		fs = append(fs, &d.Sigshare)
	case "Finish":
		var d protobuf.Finish
		un(&d)
		fs = append(fs, &d.Value, &d.Sig)
	case "Done":
		var d protobuf.Done
		un(&d)
		fs = append(fs, &d.CoinShare)
	case "Halt":
		var d protobuf.Halt
		un(&d)
		fs = append(fs, &d.Value, &d.Sig)
	case "PreVote":
		var d protobuf.PreVote
		un(&d)
		fs = append(fs, &d.Value, &d.Sig)
	case "Vote":
		var d protobuf.Vote
		un(&d)
		fs = append(fs, &d.Value, &d.Sig, &d.Sigshare)
	case "ShareReduce":
		var d protobuf.ShareReduce
		un(&d)
		fs = append(fs, &d.C, &d.V, &d.W)
	case "Prepare":
		var d protobuf.Prepare
		un(&d)
		fs = append(fs, &d.Commitments[1])
		lists = append(lists, func() { d.Commitments = d.Commitments[:2] }, func() { d.Commitments = nil })
	case "VSSSend":
		var d protobuf.VSSSend
		un(&d)
		fs = append(fs, &d.Pi.Gs, &d.Pi.PiContents[1].CBj, &d.Pi.PiContents[2].CZj, &d.Pi.PiContents[3].WZ0, &d.Pi.PiContents[1].GFj, &d.BijList[1], &d.WBijList[3])
		lists = append(lists, func() { d.Pi = nil }, func() { d.Pi.PiContents = d.Pi.PiContents[:3] }, func() { d.BijList = d.BijList[:3] }, func() { d.WBijList = nil }, func() { d.BijList = nil })
	}
	return x, fs, lists
}

// vMalform returns malformed variants of a message.
func vMalform(m *protobuf.Message) *protobuf.Message {
	c := &protobuf.Message{Type: m.Type, Id: m.Id, Sender: m.Sender, Data: m.Data}
	how := vrt.Choose("how", 6)
	switch how {
	case 0:
		c.Sender = 4
	case 1:
		c.Sender = 0xffffffff
	default:
		return vMalform4(m, how-2)
	}
	return c
}

// vMalform4 returns variants of a message with malformed contents.
func vMalform4(m *protobuf.Message, how int) *protobuf.Message {
	c := &protobuf.Message{Type: m.Type, Id: m.Id, Sender: m.Sender, Data: m.Data}
	switch how {
	case 0:
		c.Data = nil
	case 1: // anything
		c.Data = vrt.Bytes("anything", 1+vrt.Choose("bytes", vMax(1, 2)))
	default:
		x, fs, lists := vFields(m)
		if how == 2 {
			if len(fs) == 0 {
				vrt.Stop()
			}
			f := fs[vrt.Choose("field", len(fs))]
			*f = vBadField(vrt.Choose("bad", 5), *f)
		} else {
			if len(lists) == 0 {
				vrt.Stop()
			}
			lists[vrt.Choose("list", len(lists))]()
		}
		b, err := proto.Marshal(x)
		vrt.Assert(err == nil, "encodes")
		c.Data = b
	}
	return c
}

// In a refresh, the first message of one type that a faulty member sends comes malformed; the proper one follows.
func vMalformed(types ...string) {
	r := vRefreshing(2)
	r.faulty()
	typ := types[vrt.Choose("type", len(types))]
	var first *protobuf.Message
	who := 2
	if typ == "Reshare" || typ == "Recover" || typ == "ShareDist" {
		who = 1 // these differ from member to member, and by binding one does not verify at another
	}
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if !r.isBad(i) || m.Type != typ || !r.among(j, who) {
			return vNow(m)
		}
		if first == nil {
			first = vMalform(m)
		} else if string(m.Id) != string(first.Id) {
			return vNow(m)
		}
		return []*protobuf.Message{first, m}, nil
	})
	vrt.Assert(first != nil, "there was such a message")
	vRefreshed(r)
}

// vRefreshed: the honest members complete the refresh with consistent shares.
func vRefreshed(r *vRefresh) {
	for _, i := range r.honest() {
		r.full(i, r.honest()...)
	}
}

func Verif_P30_refresh()    { vMalformed("Reshare", "Recover") }
func Verif_P30_distribute() { vMalformed("ShareDist", "Success") }
func Verif_P30_broadcast()  { vMalformed("RBCPropose", "RBCEcho", "RBCReady") }
func Verif_P30_agreement()  { vMalformed("Value", "Echo", "Finish", "Done") }

// What a faulty member broadcasts is malformed: everybody gets the same, the members go on without it.
func Verif_P30_contents() {
	r := vRefreshing(2)
	r.faulty()
	typ := []string{"Commit", "NewCommit"}[vrt.Choose("type", 2)]
	var bad *protobuf.Message
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if !r.isBad(i) || m.Type != "RBCPropose" {
			return vNow(m)
		}
		var in protobuf.Message
		vrt.Assert(proto.Unmarshal(m.Data, &in) == nil, "decodes")
		if in.Type != typ {
			return vNow(m)
		}
		if bad == nil && typ == "Commit" {
			bad = vMsg("RBCPropose", m.Id, uint32(i), vMalform(&in))
		} else if bad == nil {
			in.Data = vBadField(vrt.Choose("bad", 5), in.Data)
			bad = vMsg("RBCPropose", m.Id, uint32(i), &in)
		}
		return vNow(bad)
	})
	vrt.Assert(bad != nil, "there was such a message")
	vRefreshed(r)
}

// Malformed votes of party 3 in the view change; then the proper ones of the others.
func Verif_P30_votes() {
	a := vMe()
	l := a.aLeader(0)
	v := vVal(0, l)
	a.elect(0)
	step := vrt.Choose("step", 5)
	m := []*protobuf.Message{
		vMsg("PreVote", a.idr(0), 3, &protobuf.PreVote{Vote: true, Value: v, Sig: vCert(a.p, a.stage(0, l, 1, v))}),
		vMsg("PreVote", a.idr(0), 3, &protobuf.PreVote{Sig: vShare(a.p, 3, a.no(0))}),
		vMsg("Vote", a.idr(0), 3, &protobuf.Vote{Vote: true, Value: v, Sig: vCert(a.p, a.stage(0, l, 1, v)), Sigshare: vShare(a.p, 3, a.stage(0, l, 2, v))}),
		vMsg("Vote", a.idr(0), 3, &protobuf.Vote{Sig: vCert(a.p, a.no(0)), Sigshare: vShare(a.p, 3, a.unlock(0))}),
		vMsg("Halt", a.idr(0), 3, &protobuf.Halt{Value: v, Sig: vCert(a.p, a.stage(0, l, 2, v))}),
	}[step]
	bad := vMalform(m)
	if step > 1 { // a certified decision or vote stands, whoever sends it
		vrt.Assume(bad.Sender == 3)
	}
	if step == 3 { // the value in a vote for nothing does not matter
		var x, y protobuf.Vote
		if proto.Unmarshal(m.Data, &x) == nil && proto.Unmarshal(bad.Data, &y) == nil {
			vrt.Assume(string(x.Sig) != string(y.Sig) || string(x.Sigshare) != string(y.Sigshare))
		}
	}
	vPut(a.p, bad)
	vrt.Quiesce()
	_, end := a.result()
	vrt.Assert(!end, "nothing is decided on malformed votes")
	if step < 2 {
		for j := 0; j < 3; j++ {
			a.preNo(0, j)
		}
		var vt protobuf.Vote
		vrt.Assert(a.one("Vote", 0, &vt), "the party votes on the others' pre-votes")
	}
	for j := 0; j < 3; j++ {
		a.yes(0, l, j, v)
	}
	out, end := a.result()
	vrt.Assert(end && string(out) == string(v), "the party decides on the others' votes")
}

// Malformed messages of old member 3 in a handoff.
func Verif_P30_handoff() {
	ps, _ := vDealt()
	typ := []string{"Prepare", "ShareReduce"}[vrt.Choose("type", 2)]
	early := vrt.Choose("early", 2) == 1
	var bad *protobuf.Message
	next := vHandOver(ps, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if m.Type != typ {
			return vNow(m)
		}
		if i != 3 {
			if early { // the malformed ones arrive first
				return vLate(m)
			}
			return vNow(m)
		}
		if j > 0 {
			return vNow(m)
		}
		bad = vMalform(m)
		return vNow(bad)
	})
	vrt.Assert(bad != nil, "there was such a message")
	for i := range next {
		vrt.Assert(bls.VEq(bls.VEval(vPoly(next[i].reducedShare), bls.VK(0)), vColumn(ps, i, 0)) &&
			bls.VEq(bls.VEval(vPoly(next[i].reducedShare), bls.VK(1)), vColumn(ps, i, 1)), "the reduced share lies on the sharing")
	}
}

// vDealt is a committee with a sharing.
func vDealt() ([]*HonestParty, bls.VS) {
	s := bls.VVar("secret")
	c := vDeal(4, 1, bls.VFr(s), []byte("vss"))
	var ps []*HonestParty
	for i := 0; i < 4; i++ {
		p := vParty(4, 1, uint32(i))
		vSigner(p)
		vPut(p, vSent(c.sendChannels[i])[0])
		p.VSSShareReceive([]byte("vss"))
		ps = append(ps, p)
	}
	return ps, s
}

// vColumn is B(x, i+1) of the members' full shares.
func vColumn(ps []*HonestParty, i int, x uint64) bls.VS {
	var xs, ys []bls.VS
	for j := 0; j < 2; j++ {
		xs = append(xs, bls.VK(uint64(j+1)))
		ys = append(ys, bls.VEval(vPoly(ps[j].fullShare), bls.VK(uint64(i+1))))
	}
	return vLag(xs, ys, bls.VK(x))
}

// A malformed dealing is not accepted; every party goes on without a share.
func Verif_P30_dealing() {
	c := vDeal(4, 1, bls.VFr(bls.VVar("secret")), []byte("vss"))
	i := vrt.Choose("party", vMax(1, 4))
	m := vSent(c.sendChannels[i])[0]
	how := vrt.Choose("how", 4)
	sender := m.Sender
	bad := vMalform4(m, how)
	bad.Sender = sender
	p := vParty(4, 1, uint32(i))
	vPut(p, bad)
	vrt.Assert(vDone(func() { p.VSSShareReceive([]byte("vss")) }), "the party goes on")
	q := vParty(4, 1, uint32(i))
	vPut(q, m)
	q.VSSShareReceive([]byte("vss"))
	none, same := true, true
	for k := range p.fullShare {
		none = vrt.And(none, bls.VEq(bls.VOf(&p.fullShare[k]), bls.VK(0)))
		same = vrt.And(same, bls.VEq(bls.VOf(&p.fullShare[k]), bls.VOf(&q.fullShare[k])))
	}
	vrt.Assert(vrt.Or(none, same), "no wrong share comes from a malformed dealing")
}
