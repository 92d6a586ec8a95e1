package core

import (
	"net"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

func vMessage(dlen int) *protobuf.Message {
	return &protobuf.Message{
		Type:   []string{"RBCEcho", ""}[vrt.Choose("type", 2)],
		Id:     vrt.Bytes("id", vrt.Choose("idlen", 2)),
		Sender: vrt.U32("sender"),
		Data:   vrt.Bytes("data", dlen),
	}
}

// The stream from MakeSendChannel to MakeReceiveChannel.
func Verif_P16_stream() {
	port := vrt.Port()
	r := MakeReceiveChannel(port)
	s := MakeSendChannel("127.0.0.1", port)
	k := 1 + vrt.Choose("messages", vMax(2, 3))
	var want []*protobuf.Message
	for i := 0; i < k; i++ {
		m := vMessage(2*vrt.Choose("len", 2))
		if i > 0 {
			m.Sender = uint32(300 + i)
		}
		want = append(want, m)
		s <- &protobuf.Message{Type: m.Type, Id: m.Id, Sender: m.Sender, Data: m.Data}
	}
	vrt.Quiesce()
	got := vDrain(r)
	vrt.Assert(len(got) == len(want), "every message arrives once")
	for i := range want {
		if i < len(got) {
			vrt.Assert(vSame(got[i], want[i]), "messages arrive intact and in order")
		}
	}
}

// Messages whose length needs more than one byte of the length prefix.
func Verif_P16_long() {
	port := vrt.Port()
	r := MakeReceiveChannel(port)
	s := MakeSendChannel("127.0.0.1", port)
	for _, n := range []int{127, 128, 255, 256, 300, 65535, 65536, 70000} {
		d := make([]byte, n)
		copy(d, vrt.Bytes("head", 2))
		copy(d[n-2:], vrt.Bytes("tail", 2))
		m := &protobuf.Message{Type: "T", Data: d, Sender: uint32(n)}
		s <- &protobuf.Message{Type: m.Type, Id: m.Id, Sender: m.Sender, Data: m.Data}
		vrt.Quiesce()
		got := vDrain(r)
		vrt.Assert(len(got) == 1, "the message arrives once")
		vrt.Assert(vSame(got[0], m), "the message arrives intact")
	}
}

// Several diallers at once: nothing is mixed up.
func Verif_P16_two() {
	port := vrt.Port()
	r := MakeReceiveChannel(port)
	a := MakeSendChannel("127.0.0.1", port)
	b := MakeSendChannel("127.0.0.1", port)
	var wa, wb []*protobuf.Message
	for i := 0; i < 3; i++ {
		m := &protobuf.Message{Type: "T", Id: []byte{1}, Data: vrt.Bytes("d", 2), Sender: 5}
		if vrt.Choose("who", 2) == 0 {
			m.Id = []byte{0}
			a <- m
			wa = append(wa, m)
		} else {
			b <- m
			wb = append(wb, m)
		}
		if vrt.Choose("pause", 2) == 0 {
			vrt.Quiesce()
		}
	}
	vrt.Quiesce()
	got := vDrain(r)
	vrt.Assert(len(got) == 3, "every message arrives once")
	for _, m := range got {
		w := &wa
		if m.Id[0] == 1 {
			w = &wb
		}
		vrt.Assert(len(*w) > 0 && vSame(m, (*w)[0]), "messages of one connection arrive intact and in order")
		*w = (*w)[1:]
	}
}

// However the transport cuts the byte stream, the receiver sees the same messages.
//verif:tier=quick budget=40s
func Verif_P16_fragments() {
	port := vrt.Port()
	r := MakeReceiveChannel(port)
	addr, _ := net.ResolveTCPAddr("tcp4", "127.0.0.1:"+port)
	c, err := net.DialTCP("tcp4", nil, addr)
	if err != nil {
		panic(err)
	}
	c.SetNoDelay(true)
	var want []*protobuf.Message
	var stream []byte
	for i := 0; i < 2; i++ {
		m := &protobuf.Message{Type: "T", Id: vrt.Bytes("id", 1), Sender: uint32(3 + i), Data: vrt.Bytes("data", 2*i+1)}
		b, _ := proto.Marshal(m)
		n := len(b)
		stream = append(stream, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		stream = append(stream, b...)
		want = append(want, m)
	}
	i := vrt.Choose("first cut", len(stream))
	j := i + vrt.Choose("second cut", len(stream)-i)
	for _, part := range [][]byte{stream[:i], stream[i:j], stream[j:]} {
		if len(part) > 0 {
			c.Write(part)
			vrt.Quiesce()
		}
	}
	got := vDrain(r)
	vrt.Assert(len(got) == 2, "both messages arrive")
	for k := range got {
		vrt.Assert(vSame(got[k], want[k]), "messages arrive intact and in order")
	}
}

// Payload encapsulation of every type.
func Verif_P16_encapsulation() {
	id := vrt.Bytes("id", vrt.Choose("idlen", 3))
	sender := vrt.U32("sender")
	l := func(n string) []byte { return vrt.Bytes(n, []int{0, 1, 3}[vrt.Choose(n+" len", 3)]) }
	types := []string{"Value", "Echo", "Lock", "Finish", "Done", "Halt", "PreVote", "Vote"}
	typ := types[vrt.Choose("type", len(types))]
	a, b, c, t := l("a"), l("b"), l("c"), vrt.Bool("vote")
	var x any
	switch typ {
	case "Value":
		x = &protobuf.Value{Value: a, Validation: b}
	case "Echo":
		x = &protobuf.Echo{Sigshare: a}
	case "Lock":
		x = &protobuf.Lock{Value: a, Sig: b}
	case "Finish":
		x = &protobuf.Finish{Value: a, Sig: b}
	case "Done":
		x = &protobuf.Done{CoinShare: a}
	case "Halt":
		x = &protobuf.Halt{Value: a, Sig: b}
	case "PreVote":
		x = &protobuf.PreVote{Vote: t, Value: a, Sig: b}
	case "Vote":
		x = &protobuf.Vote{Vote: t, Value: a, Sig: b, Sigshare: c}
	}
	m := Encapsulation(typ, id, sender, x)
	vrt.Assert(m.Type == typ && vrt.EqBytes(m.Id, id), "type and identifier are kept")
	vrt.Assert(m.Sender == sender, "the sender is kept")
	eq := vrt.EqBytes
	ok := false
	switch y := Decapsulation(typ, m).(type) {
	case *protobuf.Value:
		ok = typ == "Value" && vrt.And(eq(y.Value, a), eq(y.Validation, b))
	case *protobuf.Echo:
		ok = typ == "Echo" && eq(y.Sigshare, a)
	case *protobuf.Lock:
		ok = typ == "Lock" && vrt.And(eq(y.Value, a), eq(y.Sig, b))
	case *protobuf.Finish:
		ok = typ == "Finish" && vrt.And(eq(y.Value, a), eq(y.Sig, b))
	case *protobuf.Done:
		ok = typ == "Done" && eq(y.CoinShare, a)
	case *protobuf.Halt:
		ok = typ == "Halt" && vrt.And(eq(y.Value, a), eq(y.Sig, b))
	case *protobuf.PreVote:
		ok = typ == "PreVote" && vrt.And(vrt.Iff(y.Vote, t), eq(y.Value, a), eq(y.Sig, b))
	case *protobuf.Vote:
		ok = typ == "Vote" && vrt.And(vrt.Iff(y.Vote, t), eq(y.Value, a), eq(y.Sig, b), eq(y.Sigshare, c))
	}
	vrt.Assert(ok, "the payload decodes to what was encoded")
}
