package party

import (
	"context"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber"
	"google.golang.org/protobuf/proto"
)

func Verif_P26_sender()    { vSender(1) }
func Verif_P26_sender_f2() { vSender(2) }

func vSender(f int) {
	n := 3*f + 1
	p := vParty(uint32(n), uint32(f), 1)
	vSigner(p)
	id, value := []byte("instance"), []byte("value")
	msg := vEchoMsg(id, value)
	k := vMax(5-f, 5)
	seen := map[int]bool{}
	distinct := 0
	kind := -1
	early := 2*f - 2 // with F>1, these valid endorsements come first
	for i := 0; i < early+k; i++ {
		c := i
		if i >= early {
			c = vrt.Choose("echo", n+2)
		}
		var s []byte
		if c < n {
			s = vShare(p, c, msg)
			if !seen[c] {
				seen[c] = true
				distinct++
			}
		} else {
			if kind < 0 {
				kind = vrt.Choose("bad", 4)
			}
			s = vBadShare(p, kind, (n-1)*(c-n), msg)
		}
		vPut(p, vMsg("Echo", id, uint32(c%n), &protobuf.Echo{Sigshare: s}))
	}
	var sig []byte
	var ok bool
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := vDone(func() { sig, ok = Sender(ctx, p, id, value, nil) })
	vrt.Assert(done == (distinct >= 2*f+1), "a certificate needs, and takes, valid endorsements by 2F+1 different parties")
	if done {
		vrt.Assert(ok && vCertOK(p, msg, sig), "the certificate verifies under the committee key")
	}
	for i := 0; i < n; i++ {
		ms := vSent(p.sendChannels[i])
		vrt.Assert(len(ms) == 1 && ms[0].Type == "Value" && ms[0].Sender == 1, "everyone is sent the value once")
		var v protobuf.Value
		vrt.Assert(proto.Unmarshal(ms[0].Data, &v) == nil && string(v.Value) == "value", "the value is the sender's own")
	}
}

// vEchoed returns the endorsements that were sent, which must go to the instance's sender.
func vEchoed(p *HonestParty, sender int) []*protobuf.Message {
	var r []*protobuf.Message
	for i := range p.sendChannels {
		for _, m := range vSent(p.sendChannels[i]) {
			if m.Type == "Echo" {
				vrt.Assert(i == sender, "endorsements go to the instance's sender")
				vrt.Assert(m.Sender == p.PID, "endorsements carry the own identity")
				r = append(r, m)
			}
		}
	}
	return r
}

// one stage: values of anybody are on their way, in any order
func Verif_P26_receiver() {
	n := 4
	p := vParty(4, 1, 1)
	vSigner(p)
	sender := vrt.Choose("sender", n)
	id := []byte("instance")
	vals := [][]byte{vrt.Bytes("v", 2), vrt.Bytes("v", 2), vrt.Bytes("v", 2)}
	var first []byte
	for i := range vals {
		from := vrt.Choose("from", n)
		if from == sender && first == nil {
			first = vals[i]
		}
		vPut(p, vMsg("Value", id, uint32(from), &protobuf.Value{Value: vals[i]}))
	}
	var v []byte
	var ok bool
	ctx, cancel := context.WithCancel(context.Background())
	done := vDone(func() { v, _, ok = Receiver(ctx, p, uint32(sender), id, nil) })
	ms := vEchoed(p, sender)
	if first == nil {
		vrt.Assert(!done && len(ms) == 0, "nothing is endorsed before the instance's sender spoke")
		cancel()
		return
	}
	vrt.Assert(done && ok && vrt.EqBytes(v, first), "the sender's first value is accepted")
	vrt.Assert(len(ms) == 1, "one value is endorsed")
	var e protobuf.Echo
	vrt.Assert(proto.Unmarshal(ms[0].Data, &e) == nil, "the endorsement decodes")
	i, good := vShareOK(p, vEchoMsg(id, first), e.Sigshare)
	vrt.Assert(good && i == 1, "the endorsement is the party's share on that value")
	cancel()
}

// both stages: the second value is endorsed only with the certificate of the first stage for it
func Verif_P26_stages() {
	n := 4
	p := vParty(4, 1, 1)
	vSigner(p)
	sender := vrt.Choose("sender", n)
	id := []byte("instance")
	id1, id2 := append([]byte("instance"), 1), append([]byte("instance"), 2)
	v1 := []byte("first value")
	v2 := v1
	if vrt.Choose("other value", 2) == 1 {
		v2 = []byte("second value")
	}
	var cert []byte
	good := false
	switch vrt.Choose("certificate", 6) {
	case 0:
		cert, good = vCert(p, vEchoMsg(id1, v2)), true
	case 1:
		cert = vCert(p, vEchoMsg(id2, v2))
	case 2:
		cert = vCert(p, vEchoMsg(id1, []byte("third value")))
	case 3:
		cert = vShare(p, 2, vEchoMsg(id1, v2))[2:]
	case 4:
		cert = []byte("garbage")
	case 5: // any point
		h := vSuite.G1().Point().(interface{ Hash([]byte) kyber.Point }).Hash(vEchoMsg(id1, v2))
		x := bls.VVar("x")
		cert, _ = vSuite.G1().Point().Mul(vKS(x), h).MarshalBinary()
		good = bls.VEq(x, bls.VK(1000003))
	}
	vPut(p, vMsg("Value", id1, uint32(sender), &protobuf.Value{Value: v1}))
	vPut(p, vMsg("Value", id2, uint32((sender+1)%n), &protobuf.Value{Value: v2, Validation: vCert(p, vEchoMsg(id1, v2))}))
	vPut(p, vMsg("Value", id2, uint32(sender), &protobuf.Value{Value: v2, Validation: cert}))
	var v, sig []byte
	var ok, done bool
	ctx, cancel := context.WithCancel(context.Background())
	done = vDone(func() { v, sig, ok = SPBReceiver(ctx, p, uint32(sender), id, nil) })
	ms := vEchoed(p, sender)
	var e protobuf.Echo
	vrt.Assert(len(ms) >= 1 && proto.Unmarshal(ms[0].Data, &e) == nil && string(ms[0].Id) == string(id1), "the first value is endorsed")
	i, ok1 := vShareOK(p, vEchoMsg(id1, v1), e.Sigshare)
	vrt.Assert(ok1 && i == 1, "the first endorsement is the party's share")
	if !good {
		vrt.Assert(len(ms) == 1 && !(done && ok), "nothing is locked without the first-stage certificate for the same value")
		cancel()
		return
	}
	vrt.Assert(len(ms) == 2 && string(ms[1].Id) == string(id2), "the second value is endorsed")
	vrt.Assert(proto.Unmarshal(ms[1].Data, &e) == nil, "the endorsement decodes")
	i, ok1 = vShareOK(p, vEchoMsg(id2, v2), e.Sigshare)
	vrt.Assert(ok1 && i == 1, "the second endorsement is the party's share")
	vrt.Assert(done && ok && vrt.EqBytes(v, v2) && vCertOK(p, vEchoMsg(id1, v), sig), "the value is locked with its certificate")
	cancel()
}

// both stages of the sender
func Verif_P26_two_stages()    { vTwoStages(1) }
func Verif_P26_two_stages_f2() { vTwoStages(2) }

func vTwoStages(f int) {
	n := 3*f + 1
	p := vParty(uint32(n), uint32(f), 1)
	vSigner(p)
	id := []byte("instance")
	id1, id2 := append([]byte("instance"), 1), append([]byte("instance"), 2)
	value := vrt.Bytes("v", 2)
	subs := vSubsets(n, 2*f+1)
	if f > 1 && !vrt.Thorough() {
		subs = [][]int{subs[0], subs[9], subs[len(subs)-1]}
	}
	s1, s2 := subs[vrt.Choose("first", len(subs))], subs[vrt.Choose("second", len(subs))]
	for _, j := range s1 {
		vPut(p, vMsg("Echo", id1, uint32(j), &protobuf.Echo{Sigshare: vShare(p, j, vEchoMsg(id1, value))}))
	}
	for _, j := range s2 {
		vPut(p, vMsg("Echo", id2, uint32(j), &protobuf.Echo{Sigshare: vShare(p, j, vEchoMsg(id2, value))}))
	}
	var v, sig []byte
	var ok bool
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := vDone(func() { v, sig, ok = SPBSender(ctx, p, id, value, nil) })
	vrt.Assert(done && ok && vrt.EqBytes(v, value) && vCertOK(p, vEchoMsg(id2, value), sig), "the second-stage certificate verifies")
	for i := 0; i < n; i++ {
		ms := vSent(p.sendChannels[i])
		vrt.Assert(len(ms) == 2, "everyone is sent the value in both stages")
		var m protobuf.Value
		vrt.Assert(string(ms[0].Id) == string(id1) && proto.Unmarshal(ms[0].Data, &m) == nil && vrt.EqBytes(m.Value, value), "the first stage carries the value")
		vrt.Assert(string(ms[1].Id) == string(id2) && proto.Unmarshal(ms[1].Data, &m) == nil && vrt.EqBytes(m.Value, value) && vCertOK(p, vEchoMsg(id1, value), m.Validation), "the second stage carries the value with its certificate")
	}
}
