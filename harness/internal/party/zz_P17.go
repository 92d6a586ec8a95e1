package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func vBare(n, f, pid uint32) *HonestParty {
	return NewHonestParty(0, n, f, pid, nil, nil, nil, nil, nil, nil)
}

// A queue that is asked for before, between or after the arrivals delivers the same messages.
func Verif_P17_queues() {
	p := vParty(4, 1, 2)
	in := make(chan *protobuf.Message, 10)
	p.dispatchChannels = core.MakeDispatcheChannels(in, 4)
	id := [][]byte{vrt.Bytes("id", 2), vrt.Bytes("id", 2)}
	same := vrt.EqBytes(id[0], id[1])
	ask := vrt.Choose("asked before", 4)
	k := vMax(3, 4)
	var want [2][]*protobuf.Message
	for i := 0; i <= k; i++ {
		if i == ask {
			a, b := p.GetMessage("T", id[0]), p.GetMessage("T", id[1])
			vrt.Assert((a == b) == same, "one queue per identifier")
			vrt.Assert(p.GetMessage("T", id[0]) == a, "the queue stays the same")
			vrt.Assert(p.GetMessage("TT", id[0]) != a && p.GetMessage("", id[0]) != a, "one queue per type")
		}
		if i == k {
			break
		}
		w := vrt.Choose("which", 2)
		m := &protobuf.Message{Type: "T", Id: id[w], Sender: uint32(i)}
		if same {
			w = 0
		}
		want[w] = append(want[w], m)
		in <- m
		vrt.Quiesce()
	}
	vrt.Quiesce()
	for w := range want {
		if same && w == 1 {
			break
		}
		got := vSent(p.GetMessage("T", id[w]))
		vrt.Assert(len(got) == len(want[w]), "each message once")
		for i := range got {
			vrt.Assert(got[i].Sender == want[w][i].Sender, "in arrival order")
		}
	}
}

// The queue holds a full round of messages of all parties without blocking the dispatcher.
func Verif_P17_capacity() {
	n := 1 + vrt.Choose("n", vMax(4, 7))
	p := vBare(4, 1, 0)
	p.N = uint32(n)
	in := make(chan *protobuf.Message, 100)
	p.dispatchChannels = core.MakeDispatcheChannels(in, uint32(n))
	early := vrt.Choose("asked before", 2) == 1
	if early {
		p.GetMessage("T", []byte("x"))
	}
	for i := 0; i < n*n; i++ {
		in <- &protobuf.Message{Type: "T", Id: []byte("x"), Sender: uint32(i)}
	}
	in <- &protobuf.Message{Type: "U", Id: []byte("x"), Sender: 7}
	vrt.Quiesce()
	vrt.Assert(len(vSent(p.GetMessage("U", []byte("x")))) == 1, "other queues are not held up")
	vrt.Assert(len(vSent(p.GetMessage("T", []byte("x")))) == n*n, "all messages are queued")
}

// Sending to an arbitrary destination.
func Verif_P17_send() {
	n := uint32(4 + 3*vrt.Choose("n", 2))
	p := vParty(n, (n-1)/3, uint32(vrt.Choose("self", 2)))
	des := vrt.U32("des")
	m := &protobuf.Message{Type: "T", Id: vrt.Bytes("id", 1), Sender: p.PID}
	next := vrt.Choose("next committee", 2) == 1
	var err error
	if next {
		err = p.SendToNextCommittee(m, des)
	} else {
		err = p.Send(m, des)
	}
	vrt.Assert((err == nil) == (des < n), "exactly the out-of-range destinations are refused")
	for i := uint32(0); i < n; i++ {
		a, b := vSent(p.sendChannels[i]), vSent(p.sendToNextChannels[i])
		if next {
			a, b = b, a
		}
		vrt.Assert(len(b) == 0, "nothing goes to the other committee")
		if i == des {
			vrt.Assert(len(a) == 1 && a[0] == m, "the addressed party gets the message once")
		} else {
			vrt.Assert(len(a) == 0, "nobody else gets it")
		}
	}
}

func Verif_P17_broadcast() {
	n := uint32(4 + 3*vrt.Choose("n", 2))
	p := vParty(n, (n-1)/3, uint32(vrt.Choose("self", 3)))
	ex := vrt.U32("excluded")
	m := &protobuf.Message{Type: "T", Id: vrt.Bytes("id", 1), Sender: p.PID}
	kind := vrt.Choose("kind", 3)
	var err error
	switch kind {
	case 0:
		err = p.Broadcast(m)
	case 1:
		err = p.BroadcastExclude(m, ex)
	case 2:
		err = p.BroadcastToNextCommittee(m)
	}
	vrt.Assert(err == nil, "no error")
	for i := uint32(0); i < n; i++ {
		a, b := vSent(p.sendChannels[i]), vSent(p.sendToNextChannels[i])
		if kind == 2 {
			a, b = b, a
		}
		vrt.Assert(len(b) == 0, "nothing goes to the other committee")
		if kind == 1 && i == ex {
			vrt.Assert(len(a) == 0, "the excluded party gets nothing")
		} else {
			vrt.Assert(len(a) == 1 && a[0] == m, "every party gets the message once")
		}
	}
}

// Sending before the channels are set up is refused.
func Verif_P17_uninitialised() {
	n := uint32(4)
	p := vBare(n, 1, 0)
	which := vrt.Choose("initialised", 3)
	for i := range p.sendChannels {
		switch which {
		case 1:
			p.sendToNextChannels[i] = make(chan *protobuf.Message, 5)
		case 2:
			p.sendChannels[i] = make(chan *protobuf.Message, 5)
		}
	}
	des := vrt.U32("des")
	m := &protobuf.Message{Type: "T"}
	var err error
	next := vrt.Choose("next committee", 2) == 1
	bc := vrt.Choose("broadcast", 2) == 1
	done := vDone(func() {
		switch {
		case next && bc:
			err = p.BroadcastToNextCommittee(m)
		case next:
			err = p.SendToNextCommittee(m, des)
		case bc:
			err = p.Broadcast(m)
		default:
			err = p.Send(m, des)
		}
	})
	vrt.Assert(done, "sending returns")
	if done {
		ready := which == 1 && next || which == 2 && !next
		vrt.Assert((err == nil) == (ready && (bc || des < n)), "an uninitialised destination is an error")
	}
}

// A receiver asks for its queue while the first messages are being dispatched.
func Verif_P17_concurrent() {
	vrt.Option("preempt", "1")
	vrt.Option("delays", "2")
	if vrt.Thorough() {
		vrt.Option("delays", "3")
	}
	for rep := 0; rep < vrt.Repeat(3000); rep++ {
		p := vParty(4, 1, 2)
		in := make(chan *protobuf.Message, 10)
		p.dispatchChannels = core.MakeDispatcheChannels(in, 4)
		var c chan *protobuf.Message
		ready := make(chan bool, 1)
		go func() {
			c = p.GetMessage("T", []byte("x"))
			ready <- true
		}()
		in <- &protobuf.Message{Type: "T", Id: []byte("x"), Sender: 1}
		in <- &protobuf.Message{Type: "T", Id: []byte("x"), Sender: 2}
		in <- &protobuf.Message{Type: "done", Id: []byte("x")}
		<-ready
		<-p.GetMessage("done", []byte("x"))
		got := vSent(c)
		vrt.Assert(len(got) == 2 && got[0].Sender == 1 && got[1].Sender == 2, "whoever asks first, the messages are in the queue")
		if vrt.Failures() > 0 {
			break
		}
	}
}

// Two committees over connections: what is sent to a member of the own or of the next committee, or to
// all of them, is what exactly that member finds under the message's type and identifier.
func Verif_P17_network() {
	const n = 4
	var ips, ports [2][]string
	used := map[string]bool{}
	for c := range ips {
		for len(ports[c]) < n {
			if x := vrt.Port(); !used[x] {
				used[x] = true
				ips[c] = append(ips[c], "127.0.0.1")
				ports[c] = append(ports[c], x)
			}
		}
	}
	var ps [2][]*HonestParty
	for i := 0; i < n; i++ {
		ps[0] = append(ps[0], NewHonestParty(0, n, 1, uint32(i), ips[0], ports[0], ips[1], ports[1], nil, nil))
		ps[1] = append(ps[1], NewHonestParty(1, n, 1, uint32(i), ips[1], ports[1], nil, nil, nil, nil))
		vrt.Assert(ps[0][i].InitReceiveChannel() == nil && ps[1][i].InitReceiveChannel() == nil, "the parties listen")
	}
	dealer := NewHonestParty(0, n, 1, 0x7fffffff, ips[0], ports[0], ips[0], ports[0], nil, nil)
	from := ps[0][vrt.Choose("from", n)]
	m := &protobuf.Message{Type: "T", Id: vrt.Bytes("id", 2), Sender: from.PID, Data: vrt.Bytes("data", 3)}
	vrt.Assert(from.Send(m, 0) != nil && from.SendToNextCommittee(m, 0) != nil && from.Broadcast(m) != nil && from.BroadcastToNextCommittee(m) != nil, "nothing is sent before the channels exist")
	to, all, next := vrt.Choose("to", n), false, false
	switch vrt.Choose("how", 6) {
	case 0:
		vrt.Assert(from.InitSendChannel() == nil && from.Send(m, uint32(to)) == nil, "sent")
		vrt.Assert(from.SendToNextCommittee(m, 0) != nil, "the other channels do not exist")
	case 1:
		vrt.Assert(from.InitSendToNextChannel() == nil && from.SendToNextCommittee(m, uint32(to)) == nil, "sent")
		vrt.Assert(from.Send(m, 0) != nil, "the other channels do not exist")
		next = true
	case 2:
		vrt.Assert(from.InitSendChannel() == nil && from.Broadcast(m) == nil, "sent")
		all = true
	case 3:
		vrt.Assert(from.InitSendToNextChannel() == nil && from.InitSendChannel() == nil && from.BroadcastToNextCommittee(m) == nil, "sent")
		all, next = true, true
	case 4:
		m.Sender = 0x7fffffff
		vrt.Assert(dealer.InitSendChannel() == nil && dealer.Send(m, uint32(to)) == nil, "sent")
	case 5: // every member of the old committee, to the same member of the new one
		for _, p := range ps[0] {
			x := &protobuf.Message{Type: "T", Id: m.Id, Sender: p.PID, Data: m.Data}
			vrt.Assert(p.InitSendToNextChannel() == nil && p.SendToNextCommittee(x, uint32(to)) == nil, "sent")
		}
		vrt.Quiesce()
		seen := [n]int{}
		for _, x := range vSent(ps[1][to].GetMessage("T", m.Id)) {
			vrt.Assert(x.Sender < n && vrt.EqBytes(x.Data, m.Data), "the messages arrive intact")
			seen[x.Sender]++
		}
		vrt.Assert(seen == [n]int{1, 1, 1, 1}, "one message of each arrives")
		return
	}
	vrt.Quiesce()
	for c := range ps {
		for i, p := range ps[c] {
			got := vSent(p.GetMessage("T", m.Id))
			want := (c == 1) == next && (all || i == to)
			vrt.Assert(len(got) == 1 && want || len(got) == 0 && !want, "exactly the recipients get the message, once")
			for _, x := range got {
				vrt.Assert(x.Type == "T" && x.Sender == m.Sender && vrt.EqBytes(x.Id, m.Id) && vrt.EqBytes(x.Data, m.Data), "the message arrives intact")
			}
			vrt.Assert(len(vSent(p.GetMessage("T", append([]byte{0}, m.Id...)))) == 0 && len(vSent(p.GetMessage("U", m.Id))) == 0, "no other queue is affected")
		}
	}
}
