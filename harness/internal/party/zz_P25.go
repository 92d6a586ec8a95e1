package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

// vTally is the reference account of what a party has received: the first echo and the first vote of
// each party count.
type vTally struct {
	n, f   int
	echo   map[int][2]int // sender -> digest, shard
	ready  map[int]int    // sender -> digest
	digest [][]byte
	shard  [][]byte
}

func (t *vTally) votes(d int) int {
	c := 0
	for _, x := range t.ready {
		if x == d {
			c++
		}
	}
	return c
}
func (t *vTally) echoes(d, s int) int {
	c := 0
	for _, x := range t.echo {
		if x == [2]int{d, s} {
			c++
		}
	}
	return c
}
func (t *vTally) mayVote(d, s int) bool {
	e := t.echoes(d, s)
	return e >= t.n-t.f || e >= t.f+1 && t.votes(d) >= t.f+1
}

// check compares the party's votes with the account.
func (t *vTally) check(x *vRBC, voted *int) {
	v := x.votes()
	vrt.Assert(len(v) <= 1, "a party votes at most once")
	may := false
	for d := range t.digest {
		for s := range t.shard {
			if !t.mayVote(d, s) {
				continue
			}
			may = true
		}
	}
	if len(v) == 0 {
		vrt.Assert(!may, "a party votes when it has a quorum")
		return
	}
	if *voted != 0 {
		return // checked when it was sent
	}
	*voted = 1
	ok := false
	for d := range t.digest {
		for s := range t.shard {
			if string(v[0].Hash) == string(t.digest[d]) && string(v[0].M) == string(t.shard[s]) && t.mayVote(d, s) {
				ok = true
			}
		}
	}
	vrt.Assert(ok, "a party votes only for what has a quorum")
}

// Every sequence of echoes and votes of the four parties, repeated and contradicting ones included.
//
//verif:paths=200000
func Verif_P25_votes() { vVotes(4, vMax(4, 5)) }

// A committee with more than 3F+1 members.
//
//verif:paths=200000
func Verif_P25_votes_wide() { vVotes(5, 3) }

func vVotes(n, kinds int) {
	const f, me = 1, 1
	t := &vTally{n: n, f: f, echo: map[int][2]int{}, ready: map[int]int{}}
	for d := 0; d < 2; d++ {
		h := make([]byte, 36)
		h[0], h[35] = byte(d), 4
		t.digest = append(t.digest, h)
		t.shard = append(t.shard, []byte{1, byte(d)})
	}
	x := vListen(uint32(n), f, me, []byte("rbc"), 3)
	voted, seen := 0, 0
	for i := 0; i < 5; i++ {
		// parties are named in the order in which they first appear
		k := seen + 1
		if k > n {
			k = n
		}
		c := vrt.Choose("message", kinds*k)
		from := c / kinds
		if from == seen {
			seen++
		}
		switch c %= kinds; {
		case c < 2 || c == 4: // digest 0 with shard 0 or 1, digest 1 with shard 1
			d, s := c/4, (c+3)/4
			x.put("RBCEcho", from, &protobuf.RBCEcho{Hash: t.digest[d], M: t.shard[s]})
			if _, dup := t.echo[from]; !dup {
				t.echo[from] = [2]int{d, s}
			}
		default:
			d := c - 2
			x.put("RBCReady", from, &protobuf.RBCReady{Hash: t.digest[d], M: []byte{9, byte(from)}})
			if _, dup := t.ready[from]; !dup {
				t.ready[from] = d
			}
		}
		vrt.Quiesce()
		t.check(x, &voted)
		if t.votes(0) < n-f && t.votes(1) < n-f {
			_, end := x.result()
			vrt.Assert(!end, "nothing is delivered without the votes of N-F parties")
		}
	}
}

// The same with symbolic contents: what one sender repeats never makes a quorum.
func Verif_P25_repeats() {
	const n, f, me, bad = 4, 1, 1, 0
	x := vListen(n, f, me, []byte("rbc"), 3)
	h := vrt.Bytes("digest", 36)
	hs := [][]byte{h, vrt.Bytes("other digest", 36)}
	s := vrt.Bytes("shard", 2)
	honest := vrt.Choose("honest", 2) // one honest party's echo or vote
	if honest == 0 {
		x.put("RBCEcho", 2, &protobuf.RBCEcho{Hash: h, M: s})
	} else {
		x.put("RBCReady", 2, &protobuf.RBCReady{Hash: h, M: s})
	}
	for i := 0; i < vMax(4, 5); i++ {
		d := hs[vrt.Choose("digest", 2)]
		if vrt.Choose("kind", 2) == 0 {
			x.put("RBCEcho", bad, &protobuf.RBCEcho{Hash: d, M: s})
		} else {
			x.put("RBCReady", bad, &protobuf.RBCReady{Hash: d, M: s})
		}
		vrt.Quiesce()
	}
	vrt.Assert(len(x.votes()) == 0, "repeated messages of one party do not reach a quorum")
	_, end := x.result()
	vrt.Assert(!end, "repeated messages of one party deliver nothing")
}

// Delivery: N-F parties vote for a digest, at most F of them with wrong shards. The message delivered is
// the one with that digest; F of them are not enough.
func Verif_P25_delivery() {
	sizes := [][2]int{{4, 1}, {5, 1}, {7, 2}, {9, 2}}
	sz := sizes[vrt.Choose("size", vMax(2, 4))]
	n, f := sz[0], sz[1]
	id := []byte("rbc")
	m := &protobuf.Message{Type: "Commit", Sender: 3, Id: id, Data: vrt.Bytes("data", vrt.Choose("length", vMax(3, 6)))}
	o := &protobuf.Message{Type: "Commit", Sender: 3, Id: id, Data: []byte("another")}
	echo := vEchoes(uint32(n), uint32(f), 3, id, vProposal(uint32(n), uint32(f), 3, id, m))
	echo2 := vEchoes(uint32(n), uint32(f), 3, id, vProposal(uint32(n), uint32(f), 3, id, o))
	me := 1
	x := vListen(uint32(n), uint32(f), uint32(me), id, 3)
	first := vrt.Choose("first", n)
	wrong := vrt.Choose("wrong", n) // a party (and its successors, F in all) that votes falsely
	how := vrt.Choose("how", 4)
	good := 0
	for i := 0; i < n; i++ {
		j := (first + i) % n
		r := &protobuf.RBCReady{Hash: echo[0].Hash, M: echo[j].M}
		if (j-wrong+n)%n < f {
			switch how {
			case 0:
				r.M = vrt.Bytes("shard", len(r.M))
			case 1:
				r.M = nil
			case 2:
				r = &protobuf.RBCReady{Hash: echo2[0].Hash, M: echo2[j].M}
			case 3:
				continue
			}
		}
		if string(r.Hash) == string(echo[0].Hash) {
			good++
		}
		x.put("RBCReady", j, r)
		if i%2 == 1 {
			x.put("RBCReady", j, r) // again
		}
		vrt.Quiesce()
		out, end := x.result()
		if good < n-f {
			vrt.Assert(!end, "nothing is delivered before N-F parties voted for it")
		} else if end {
			vrt.Assert(out != nil, "a delivered message exists")
			vrt.Assert(vrt.And(out.Type == m.Type, out.Sender == m.Sender, string(out.Id) == string(m.Id), vrt.EqBytes(out.Data, m.Data)), "the message with the voted digest is delivered")
		}
	}
	_, end := x.result()
	vrt.Assert(end, "the votes of all honest parties deliver the message")
}

// A party's own echoes: one per recipient, for the first proposal of the instance's sender only, each
// with the recipient's shard, the same digest for all.
func Verif_P25_echo() {
	const n, f, me = 4, 1, 1
	id := []byte("rbc")
	m := &protobuf.Message{Type: "Commit", Sender: 3, Id: id, Data: vrt.Bytes("data", vrt.Choose("length", vMax(4, 9)))}
	o := &protobuf.Message{Type: "Commit", Sender: 3, Id: id, Data: []byte("another")}
	props := []*protobuf.Message{vProposal(n, f, 3, id, m), vProposal(n, f, 3, id, o), vProposal(n, f, 2, id, o)}
	x := vListen(n, f, me, id, 3)
	ref := vEchoes(n, f, 2, id, props[0])
	if vrt.Choose("foreign", 2) == 1 {
		vPut(x.p, props[2])
		vrt.Quiesce()
	}
	vPut(x.p, props[0])
	vrt.Quiesce()
	vPut(x.p, props[1+vrt.Choose("then", 2)])
	vrt.Quiesce()
	got := x.echoes()
	for j := range got {
		vrt.Assert(vrt.And(vrt.EqBytes(got[j].Hash, got[0].Hash), vrt.EqBytes(got[j].Hash, ref[j].Hash), vrt.EqBytes(got[j].M, ref[j].M)), "every party echoes the same digest and the recipient's shard")
	}
	vrt.Assert(len(got) == n, "an echo for everybody")
}
