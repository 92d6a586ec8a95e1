package core

import (
	"net"

	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func vDial(port string) *net.TCPConn {
	addr, err := net.ResolveTCPAddr("tcp4", "127.0.0.1:"+port)
	vrt.Assert(err == nil, "the address resolves")
	c, err := net.DialTCP("tcp4", nil, addr)
	vrt.Assert(err == nil, "the port accepts connections")
	return c
}

// A peer sends anything, in pieces, and disconnects; the messages of another one still arrive.
func Verif_P30_receive() {
	port := vrt.Port()
	r := MakeReceiveChannel(port)
	good := MakeSendChannel("127.0.0.1", port)
	a := &protobuf.Message{Type: "T", Id: []byte{1}, Data: vrt.Bytes("d", 2), Sender: 1}
	b := &protobuf.Message{Type: "T", Id: []byte{2}, Data: vrt.Bytes("e", 1), Sender: 1}
	c := vDial(port)
	good <- a
	vrt.Quiesce()
	// a length, less or more data than that, and the end
	stream := append(append([]byte{0, 0, 0, 0}[:4:4], vrt.Bytes("any", vrt.Choose("data", vMax(3, 5)))...))
	switch vrt.Choose("length", 5) {
	case 0: // as long as claimed
		stream[3] = byte(len(stream) - 4)
	case 1: // longer than claimed: the rest is the beginning of something else
		stream[3] = byte((len(stream) - 4) / 2)
	case 2: // shorter
		stream[3] = byte(len(stream) - 3)
	case 3: // a huge message that never comes
		stream[0], stream[1] = 0x3f, 0xff
	case 4:
		stream[0] = 0xff
	}
	sent := len(stream)
	cut := vrt.Choose("cut", len(stream)+1)
	if vrt.Choose("truncated", 2) == 1 {
		stream = stream[:cut]
		cut = 0
	}
	c.Write(stream[:cut])
	vrt.Quiesce()
	c.Write(stream[cut:])
	if vrt.Choose("disconnects", 2) == 1 {
		c.Close()
	}
	vrt.Quiesce()
	good <- b
	vrt.Quiesce()
	got := vDrain(r)
	vrt.Assert(len(got) >= 2 && vSame(got[0], a) && vSame(got[len(got)-1], b), "the messages of the other peer arrive")
	vrt.Assert(len(got) <= 2+sent/4, "and nothing that nobody sent: a message takes four bytes or more")
}

// A peer goes away; what is sent to it is lost, what is sent to the others arrives, and nobody waits.
func Verif_P30_send() {
	port := vrt.Port()
	gone := vrt.Port()
	r := MakeReceiveChannel(port)
	addr, _ := net.ResolveTCPAddr("tcp4", ":"+gone)
	lis, err := net.ListenTCP("tcp4", addr)
	vrt.Assert(err == nil, "listens")
	good := MakeSendChannel("127.0.0.1", port)
	dead := MakeSendChannel("127.0.0.1", gone)
	c, err := lis.AcceptTCP()
	vrt.Assert(err == nil, "accepts")
	m := &protobuf.Message{Type: "T", Id: []byte{1}, Data: vrt.Bytes("d", 2), Sender: 1}
	for i := 0; i < vrt.Choose("before", 2); i++ {
		dead <- m
	}
	vrt.Quiesce()
	c.Close()
	lis.Close()
	for i := 0; i < 3; i++ {
		dead <- m
		vrt.Quiesce()
	}
	good <- m
	vrt.Quiesce()
	got := vDrain(r)
	vrt.Assert(len(got) == 1 && vSame(got[0], m), "the others still get their messages")
	vrt.Assert(len(dead) == 0, "nobody waits for a peer that is gone")
}
