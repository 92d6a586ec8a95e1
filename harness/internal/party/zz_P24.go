package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func vSameMsg(a, b *protobuf.Message) bool {
	return vrt.And(a.Type == b.Type, a.Sender == b.Sender, string(a.Id) == string(b.Id), vrt.EqBytes(a.Data, b.Data))
}

// A party in the instance of an honest sender: whatever a faulty party sends between the messages of
// the honest parties, the sender's message is delivered.
func Verif_P24_honest_sender() {
	const n, f, me, sender, bad = 4, 1, 1, 3, 0
	id := []byte("rbc")
	m := &protobuf.Message{Type: "Commit", Sender: sender, Id: id, Data: vrt.Bytes("data", 3)}
	prop := vProposal(n, f, sender, id, m)
	echo := vEchoes(n, f, sender, id, prop)
	x := vListen(n, f, me, id, sender)
	left := map[string]int{"p": 1, "e": 3, "r": 3, "b": vMax(1, 2)}
	for {
		var can []string
		for _, k := range []string{"p", "e", "r", "b"} {
			if left[k] > 0 {
				can = append(can, k)
			}
		}
		if left["p"]+left["e"]+left["r"] == 0 {
			break
		}
		k := can[vrt.Choose("next", len(can))]
		left[k]--
		switch k {
		case "p":
			vPut(x.p, prop)
		case "e":
			x.put("RBCEcho", 3-left[k], echo[me])
		case "r":
			j := 3 - left[k]
			x.put("RBCReady", j, &protobuf.RBCReady{Hash: echo[0].Hash, M: echo[j].M})
		case "b":
			switch vrt.Choose("faulty", 6) {
			case 0: // echoes, repeated
				e := &protobuf.RBCEcho{Hash: vrt.Bytes("hash", 36), M: vrt.Bytes("shard", len(echo[0].M))}
				for i := 0; i < 3; i++ {
					x.put("RBCEcho", bad, e)
				}
			case 1:
				e := &protobuf.RBCEcho{Hash: echo[0].Hash, M: vrt.Bytes("shard", len(echo[0].M))}
				x.put("RBCEcho", bad, e)
			case 2:
				x.put("RBCReady", bad, &protobuf.RBCReady{Hash: echo[0].Hash, M: vrt.Bytes("shard", len(echo[0].M))})
			case 3:
				x.put("RBCReady", bad, &protobuf.RBCReady{Hash: echo[0].Hash, M: vrt.Bytes("shard", len(echo[0].M)+1)})
			case 4:
				x.put("RBCReady", bad, &protobuf.RBCReady{Hash: vrt.Bytes("hash", 36), M: vrt.Bytes("shard", len(echo[0].M))})
			case 5:
				x.put("RBCPropose", bad, &protobuf.RBCEcho{Hash: []byte("forged")})
			}
		}
		vrt.Quiesce()
	}
	out, end := x.result()
	vrt.Assert(end && out != nil, "the message is delivered")
	vrt.Assert(vSameMsg(out, m), "exactly the sender's message is delivered")
}

// Two parties with the same three honest voters' votes, some of them unseen, and a faulty voter that
// tells them different things: they do not deliver different messages.
func Verif_P24_two_views() {
	const n, f, sender, bad = 4, 1, 3, 0
	id := []byte("rbc")
	ms := [2]*protobuf.Message{}
	echo := [2][]*protobuf.RBCEcho{}
	for k := range ms {
		ms[k] = &protobuf.Message{Type: "Commit", Sender: sender, Id: id, Data: vrt.Bytes("data", 2)}
		echo[k] = vEchoes(n, f, sender, id, vProposal(n, f, sender, id, ms[k]))
	}
	vote := [n]int{}
	vote[vrt.Choose("other vote", n)] = 1 // the two messages are interchangeable
	var out [2]*protobuf.Message
	for v := range out {
		x := vListen(n, f, uint32(1+v), id, sender)
		skip := vrt.Choose("unseen", n)
		first := vrt.Choose("first", vMax(2, n)) // the faulty voter first, or last
		for i := 0; i < n; i++ {
			j := (first + i) % n
			if j == skip {
				continue
			}
			c := vote[j]
			e := &protobuf.RBCReady{}
			if j == bad {
				c = vrt.Choose("tells", 2)
				e.M = echo[c][j].M
				if v == 1 {
					e.M = vrt.Bytes("shard", len(e.M))
				}
			} else {
				e.M = echo[c][j].M
			}
			e.Hash = echo[c][0].Hash
			x.put("RBCReady", j, e)
			vrt.Quiesce()
		}
		if m, end := x.result(); end {
			vrt.Assert(m != nil, "a delivered message exists")
			out[v] = m
		}
	}
	if out[0] != nil && out[1] != nil {
		vrt.Assert(vSameMsg(out[0], out[1]), "both deliver the same message")
	}
}

// All four parties' code with a faulty sender: two messages are proposed to different parties, and the
// sender takes part as if it had proposed the one or the other to each of them.
func Verif_P24_faulty_sender() {
	const n, f, bad = 4, 1, 0
	id := []byte("rbc")
	ms := [2]*protobuf.Message{}
	props := [2]*protobuf.Message{}
	echo := [2][]*protobuf.RBCEcho{}
	for k := range ms {
		ms[k] = &protobuf.Message{Type: "Commit", Sender: bad, Id: id, Data: vrt.Bytes("data", 1+vMax(k, 1))}
		props[k] = vProposal(n, f, bad, id, ms[k])
		echo[k] = vEchoes(n, f, bad, id, props[k])
	}
	var xs [n]*vRBC
	least := 0 // quick: up to the order of the parties
	for j := 1; j < n; j++ {
		xs[j] = vListen(n, f, uint32(j), id, bad)
		c := least + vrt.Choose("sender's messages", 27-least)
		least = vMax(c, 0)
		if k := c % 3; k < 2 {
			vPut(xs[j].p, props[k])
		}
		if k := c / 3 % 3; k < 2 {
			xs[j].put("RBCEcho", bad, echo[k][j])
		}
		if k := c / 9; k < 2 {
			xs[j].put("RBCReady", bad, &protobuf.RBCReady{Hash: echo[k][0].Hash, M: echo[k][bad].M})
		}
	}
	vRelay(xs[:])
	some := vDelivered(xs[1:])
	if some {
		for j := 1; j < n; j++ {
			_, end := xs[j].result()
			vrt.Assert(end, "if one party delivers, all do")
		}
	}
}

// Larger committees (5 parties, where the quorums differ; 7 with two faulty parties): the sender and its
// helper propose two messages, and echo and vote for either, to any split of the others.
//
//verif:budget=100s
func Verif_P24_faulty_sender_wide() {
	sizes := [][2]int{{5, 1}, {7, 2}}
	sz := sizes[vrt.Choose("size", 2)]
	n, f := sz[0], sz[1]
	id := []byte("rbc")
	ms := [2]*protobuf.Message{}
	props := [2]*protobuf.Message{}
	echo := [2][]*protobuf.RBCEcho{}
	for k := range ms {
		ms[k] = &protobuf.Message{Type: "Commit", Sender: 0, Id: id, Data: vrt.Bytes("data", 1+k)}
		props[k] = vProposal(uint32(n), uint32(f), 0, id, ms[k])
		echo[k] = vEchoes(uint32(n), uint32(f), 0, id, props[k])
	}
	xs := make([]*vRBC, n)
	a := f + vrt.Choose("first proposed", n-f+1)
	b := a + vrt.Choose("second proposed", n-a+1)
	e := f + vrt.Choose("first echoed", n-f+1)
	r := [3]int{f, e, n}[vrt.Choose("first voted", 3)]
	silent := vrt.Choose("no votes to the others", 2) == 1
	for j := f; j < n; j++ {
		xs[j] = vListen(uint32(n), uint32(f), uint32(j), id, 0)
	}
	for j := f; j < n; j++ {
		if j < a {
			vPut(xs[j].p, props[0])
		} else if j < b {
			vPut(xs[j].p, props[1])
		}
		for i := 0; i < f; i++ {
			k := 0
			if j >= e {
				k = 1
			}
			xs[j].put("RBCEcho", i, echo[k][j])
			k = 0
			if j >= r {
				k = 1
			}
			if k == 0 || !silent {
				xs[j].put("RBCReady", i, &protobuf.RBCReady{Hash: echo[k][0].Hash, M: echo[k][i].M})
			}
		}
	}
	vRelay(xs)
	if vDelivered(xs[f:]) {
		for j := f; j < n; j++ {
			_, end := xs[j].result()
			vrt.Assert(end, "if one party delivers, all do")
		}
	}
}

// Larger committees with an honest sender: F parties are silent, or vote with shards of their own, or
// vote for another message; one party hears of the proposal late or not at all.
//
//verif:budget=100s
func Verif_P24_honest_sender_wide() {
	sizes := [][2]int{{5, 1}, {7, 2}, {6, 1}, {10, 3}}
	sz := sizes[vrt.Choose("size", vMax(2, 4))]
	n, f := sz[0], sz[1]
	id := []byte("rbc")
	first := f // the F parties before it, cyclically, are faulty
	if vrt.Thorough() {
		first = f + vrt.Choose("sender", n-f)
	}
	at := func(k int) int { return (first + k) % n }
	m := &protobuf.Message{Type: "Commit", Sender: uint32(first), Id: id, Data: vrt.Bytes("data", vrt.Choose("length", vMax(2, 5)))}
	prop := vProposal(uint32(n), uint32(f), uint32(first), id, m)
	o := &protobuf.Message{Type: "Commit", Sender: uint32(first), Id: id, Data: vrt.Bytes("data", 2)}
	echo := vEchoes(uint32(n), uint32(f), uint32(first), id, prop)
	echo2 := vEchoes(uint32(n), uint32(f), uint32(first), id, vProposal(uint32(n), uint32(f), uint32(first), id, o))
	xs := make([]*vRBC, n)
	for k := 0; k < n-f; k++ {
		xs[at(k)] = vListen(uint32(n), uint32(f), uint32(at(k)), id, uint32(first))
	}
	how := vrt.Choose("how", 4)
	shard := vrt.Bytes("shard", len(echo[0].M))
	for k := 0; k < n-f; k++ {
		x := xs[at(k)]
		for i := n - f; i < n; i++ {
			switch j := at(i); how {
			case 1:
				x.put("RBCEcho", j, &protobuf.RBCEcho{Hash: echo[0].Hash, M: shard})
				x.put("RBCReady", j, &protobuf.RBCReady{Hash: echo[0].Hash, M: shard})
			case 2:
				x.put("RBCEcho", j, echo2[at(k)])
				x.put("RBCReady", j, &protobuf.RBCReady{Hash: echo2[0].Hash, M: echo2[j].M})
			case 3:
				x.put("RBCReady", j, &protobuf.RBCReady{Hash: echo[0].Hash, M: echo2[j].M})
			}
		}
	}
	vRelay(xs)
	late := vrt.Choose("late", 3) // nobody, the first or the last, until the others are done
	switch late {
	case 1:
		late = at(0)
	case 2:
		late = at(n - f - 1)
	default:
		late = n
	}
	for k := 0; k < n-f; k++ {
		if j := at(k); j != late {
			vPut(xs[j].p, prop)
		}
	}
	vRelay(xs)
	if late < n {
		vPut(xs[late].p, prop)
	}
	vRelay(xs)
	for k := 0; k < n-f; k++ {
		o, end := xs[at(k)].result()
		vrt.Assert(end && o != nil && vSameMsg(o, m), "everybody delivers the message")
	}
}

// All parties honest, one link or one party's links slow: everybody delivers the message.
func Verif_P24_all_honest() {
	n, f := 4, 1
	id := []byte("rbc")
	m := &protobuf.Message{Type: "Commit", Sender: 0, Id: id, Data: vrt.Bytes("data", vrt.Choose("length", vMax(4, 9)))}
	prop := vProposal(uint32(n), uint32(f), 0, id, m)
	xs := make([]*vRBC, n)
	for j := range xs {
		xs[j] = vListen(uint32(n), uint32(f), uint32(j), id, 0)
	}
	if vrt.Choose("forged", 2) == 1 { // somebody else proposes first
		o := &protobuf.Message{Type: "Commit", Sender: 0, Id: id, Data: []byte("forged")}
		for j := range xs {
			vPut(xs[j].p, vProposal(uint32(n), uint32(f), 3, id, o))
		}
		vRelay(xs)
	}
	late := vrt.Choose("late", n+1)
	for j := range xs {
		if j != late {
			vPut(xs[j].p, prop)
		}
	}
	vRelay(xs)
	if late < n {
		vPut(xs[late].p, prop)
	}
	vRelay(xs)
	for _, x := range xs {
		o, end := x.result()
		vrt.Assert(end && o != nil && vSameMsg(o, m), "everybody delivers the message")
	}
}

// vRelay carries messages between the parties (nil: faulty) until nothing moves.
func vRelay(xs []*vRBC) {
	for {
		vrt.Quiesce()
		moved := false
		for _, x := range xs {
			if x == nil {
				continue
			}
			for j, c := range x.p.sendChannels {
				for _, m := range vSent(c) {
					if xs[j] != nil {
						vPut(xs[j].p, m)
						moved = true
					}
				}
			}
		}
		if !moved {
			return
		}
	}
}
func vDelivered(xs []*vRBC) bool {
	var first *protobuf.Message
	for _, x := range xs {
		m, end := x.result()
		if !end {
			continue
		}
		vrt.Assert(m != nil, "a delivered message exists")
		if first == nil {
			first = m
		}
		vrt.Assert(vSameMsg(m, first), "all deliver the same message")
	}
	return first != nil
}
