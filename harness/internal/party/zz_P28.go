package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// vPump carries messages between the parties until nothing moves. Messages on the link late[0] ->
// late[1] (and all of late[0] if late[1] < 0) wait until everything else has settled, or forever
// if drop is set.
func vPump(as []*vAgree, from, to int, drop bool) {
	vPumpIf(as, func(i, j int) bool { return i == from && (to < 0 || j == to) }, drop)
}
func vPumpIf(as []*vAgree, slow func(i, j int) bool, drop bool) {
	n := len(as)
	var kept [][2]any
	for quiet := 0; quiet < 2; {
		vrt.Quiesce()
		moved := false
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for _, m := range vSent(as[i].p.sendChannels[j]) {
					if m.Type == "Value" && vRoundOf(as[i], m) > vRounds() {
						vrt.Stop() // an unlucky leader again and again: no bound on the rounds
					}
					if slow(i, j) {
						if !drop {
							kept = append(kept, [2]any{j, m})
						}
						continue
					}
					vPut(as[j].p, m)
					moved = true
				}
			}
		}
		if moved {
			quiet = 0
			continue
		}
		quiet++
		for _, k := range kept {
			vPut(as[k[0].(int)].p, k[1].(*protobuf.Message))
			quiet = 0
		}
		kept = nil
	}
}

// rounds explored
func vRounds() int {
	if vrt.Thorough() {
		return 2
	}
	return 1
}

func vRoundOf(a *vAgree, m *protobuf.Message) int {
	b := m.Id[len(a.id):]
	return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
}

func vCommittee(f int, vals [][]byte) []*vAgree {
	n := 3*f + 1
	as := make([]*vAgree, n)
	for i := range as {
		p := vParty(uint32(n), uint32(f), uint32(i))
		vSigner(p)
		as[i] = vStart(p, []byte("agreement"), vals[i], nil)
	}
	return as
}

func vAgreed(as []*vAgree, vals [][]byte, skips ...int) {
	var first []byte
	for i, a := range as {
		skip := false
		for _, k := range skips {
			skip = skip || i == k
		}
		if skip {
			continue
		}
		v, end := a.result()
		vrt.Assert(end, "every party outputs")
		if first == nil {
			first = v
		}
		vrt.Assert(vrt.EqBytes(v, first), "all outputs are the same")
	}
	same := make([]bool, len(vals))
	for i := range vals {
		same[i] = vrt.EqBytes(first, vals[i])
	}
	vrt.Assert(vrt.Or(same...), "the output is one of the proposals")
}

func vProposals(n int) [][]byte {
	vals := make([][]byte, n)
	for i := range vals {
		vals[i] = vrt.Bytes("proposal", 2)
	}
	return vals
}

// all parties honest, one link or one party slow
func Verif_P28_honest() {
	vals := vProposals(4)
	as := vCommittee(1, vals)
	slow, to := vrt.Choose("slow", 5), -1
	if slow < 4 {
		to = vrt.Choose("link", 5) - 1
	}
	vPump(as, slow, to, false)
	vAgreed(as, vals)
}

// one party takes no part: the others still agree
func Verif_P28_silent() {
	vals := vProposals(4)
	as := vCommittee(1, vals)
	dead := vrt.Choose("dead", 4)
	vPump(as, dead, -1, true)
	vAgreed(as, vals, dead)
}

// seven parties, two of them slow or silent
func Verif_P28_seven() {
	var vals [][]byte
	for i := 0; i < 7; i++ {
		vals = append(vals, []byte{'p', byte('0' + i)})
	}
	as := vCommittee(2, vals)
	pairs := [][2]int{{0, 1}, {5, 6}, {-1, -1}, {0, 6}, {2, 4}}
	x := pairs[vrt.Choose("which", vMax(2, len(pairs)))]
	drop := vrt.Choose("silent", 2) == 1
	vPumpIf(as, func(i, j int) bool { return i == x[0] || i == x[1] }, drop)
	if drop {
		vAgreed(as, vals, x[0], x[1])
	} else {
		vAgreed(as, vals)
	}
}

// vRound takes a party through round r with the leader's lock known, 2F+1 votes of which y are yes.
func (a *vAgree) round(r, l, y int, v []byte) {
	a.elect(r)
	for j := 0; j <= int(2*a.p.F); j++ {
		if j < y {
			a.yes(r, l, j, v)
		} else {
			a.noVote(r, j)
		}
	}
	vrt.Quiesce()
}

// Two parties see votes of the same four voters, one of whom may vote either way: if one of them
// decides, the other decides the same or proposes that value, certified, in the next round.
func Verif_P28_two_views()    { vTwoViews(1) }
func Verif_P28_two_views_f2() { vTwoViews(2) }

func vTwoViews(f int) {
	n := 3*f + 1
	x := vMeIn(f)
	l := x.aLeader(0)
	q := vParty(uint32(n), uint32(f), 2)
	vSigner(q)
	y := vStart(q, []byte("agreement"), []byte("other"), []byte("proof"))
	v := vVal(0, l)
	x.elect(0)
	y.elect(0)
	yes := make([]bool, n)
	cheat := make([]bool, n)
	if f == 1 {
		c := vrt.Choose("cheater", n)
		cheat[c] = true
		for j := range yes {
			if j != c {
				yes[j] = vrt.Choose("yes", 2) == 1
			}
		}
	} else { // up to renaming
		for j, k := 0, vrt.Choose("yes votes", n-f+1); j < n; j++ {
			cheat[j] = j >= n-f
			yes[j] = j < k
		}
	}
	for k, a := range []*vAgree{x, y} {
		skip := vrt.Choose("missing", n)
		both := f == 1 || vrt.Thorough()
		b := !both && vrt.Choose("cheat", 2) == 1
		for i := 0; i < n; i++ {
			j := (i + k) % n
			if (j-skip+n)%n < f {
				continue
			}
			if cheat[j] && both {
				b = vrt.Choose("cheat", 2) == 1
			}
			if cheat[j] && b || !cheat[j] && yes[j] {
				a.yes(0, l, j, v)
			} else {
				a.noVote(0, j)
			}
		}
	}
	o1, e1 := x.result()
	o2, e2 := y.result()
	vrt.Assert(!e1 || !e2 || string(o1) == string(o2), "decisions agree")
	if e1 && !e2 {
		y.carries(2, l, o1)
	}
	if e2 && !e1 {
		x.carries(1, l, o2)
	}
}
func (a *vAgree) carries(me, l int, v []byte) {
	a.collect()
	next := a.sent["Value"+string(vCat(a.idj(1, me), []byte{1}))]
	vrt.Assert(len(next) == 1, "the undecided party goes on")
	var val protobuf.Value
	vrt.Assert(proto.Unmarshal(next[0].Data, &val) == nil, "the next proposal decodes")
	vrt.Assert(string(val.Value) == string(v), "the undecided party takes over a value that may have been decided")
}

// In the next round a party endorses only proposals that may not contradict a decision: the certified
// value of the previous leader, or any value if nothing was locked; and it endorses all of those.
func Verif_P28_justified()    { vJustified(1) }
func Verif_P28_justified_f2() { vJustified(2) }

func vJustified(f int) {
	a := vMeIn(f)
	l := a.aLeader(0)
	a.round(0, l, vrt.Choose("yes votes", 2*f+1), vVal(0, l)) // 0: unlocked, 1 to 2F: carried over
	v := vVal(0, l)
	lock := vCert(a.p, a.stage(0, l, 1, v))
	unlock := vCert(a.p, a.unlock(0))
	val, proof, ok := v, lock, true
	switch vrt.Choose("proposal", 10) {
	case 0:
	case 1:
		val, proof = []byte("other"), vCat([]byte("proof"), unlock)
	case 2:
		val, proof = []byte("other"), unlock
	case 3:
		val, ok = []byte("other"), false
	case 4:
		val, proof, ok = []byte("other"), []byte("proof"), false
	case 5:
		val, proof, ok = []byte("other"), nil, false
	case 6:
		proof, ok = vCert(a.p, a.stage(0, (l+1)%(3*f+1), 1, v)), false
	case 7:
		proof, ok = vCert(a.p, a.stage(1, l, 1, v)), false
	case 8:
		val, proof, ok = []byte("other"), vCat([]byte("proof"), vCert(a.p, a.unlock(1))), false
	case 9:
		val, proof, ok = []byte("other"), vCert(a.p, a.stage(0, l, 2, v)), false
	}
	from := 3 * f
	a.collect()
	vPut(a.p, vMsg("Value", vCat(a.idj(1, from), []byte{1}), uint32(from), &protobuf.Value{Value: val, Validation: proof}))
	got := 0
	vrt.Quiesce()
	for _, m := range vSent(a.p.sendChannels[from]) {
		if m.Type == "Echo" {
			got++
			var e protobuf.Echo
			vrt.Assert(proto.Unmarshal(m.Data, &e) == nil, "the endorsement decodes")
			i, good := vShareOK(a.p, a.stage(1, from, 1, val), e.Sigshare)
			vrt.Assert(good && i == 1, "the endorsement is the party's share")
		}
	}
	vrt.Assert(got <= 1 && (got == 1) == ok, "a proposal is endorsed exactly if it cannot contradict a decision of an earlier round")
}

// Two parties go through the same rounds without a decision, each with its own view of the votes:
// each endorses what the other proposes next, and does not without its justification.
func Verif_P28_history() { vHistory(1, 2) }

// three rounds
//
//verif:budget=60s
func Verif_P28_history3() { vHistory(1, 3) }

// seven parties
func Verif_P28_history_f2() { vHistory(2, 2) }

func vHistory(f, rounds int) {
	n := 3*f + 1
	x := vMeIn(f)
	q := vParty(uint32(n), uint32(f), 2)
	vSigner(q)
	y := vStart(q, []byte("agreement"), []byte("other"), []byte("proof"))
	last := []string{"own", "other"}
	carried := []bool{false, false}
	var unlocks []byte
	for r := 0; r < rounds; r++ {
		vrt.Quiesce()
		for j := 0; j < n; j++ { // the first party learns the leader from its locks
			v := vVal(r, j)
			vPut(x.p, vMsg("Value", vCat(x.idj(r, j), []byte{1}), uint32(j), &protobuf.Value{Value: v, Validation: unlocks}))
			vPut(x.p, vMsg("Value", vCat(x.idj(r, j), []byte{2}), uint32(j), &protobuf.Value{Value: v, Validation: vCert(x.p, x.stage(r, j, 1, v))}))
		}
		x.elect(r)
		y.elect(r)
		var pv protobuf.PreVote
		vrt.Assert(x.one("PreVote", r, &pv) && pv.Vote, "the lock of the leader is reported")
		l := 2
		if vrt.Symbolic() {
			vrt.Assume(string(pv.Value) == string(vVal(r, l)))
		}
		for j := 0; j < n; j++ {
			if string(pv.Value) == string(vVal(r, j)) {
				l = j
			}
		}
		v := vVal(r, l)
		for k, a := range []*vAgree{x, y} {
			yes := vrt.Choose("yes votes", vMax(2, 2*f+1))
			for j := 0; j <= 2*f; j++ {
				if j < yes {
					a.yes(r, l, j, v)
				} else {
					a.noVote(r, j)
				}
			}
			if yes > 0 {
				last[k], carried[k] = string(v), true
			}
		}
		vrt.Quiesce()
		unlocks = vCat(unlocks, vCert(x.p, x.unlock(r)))
	}
	sig := len(vCert(x.p, x.unlock(0)))
	for k, a := range []*vAgree{x, y} {
		b := []*vAgree{y, x}[k]
		me := k + 1
		a.collect()
		next := a.sent["Value"+string(vCat(a.idj(rounds, me), []byte{1}))]
		vrt.Assert(len(next) == 1, "the party goes on")
		var val protobuf.Value
		vrt.Assert(proto.Unmarshal(next[0].Data, &val) == nil, "the next proposal decodes")
		vrt.Assert(string(val.Value) == last[k], "the next proposal is the last value that may have been decided, or the own one")
		vrt.Assert(len(val.Validation) >= sig, "the next proposal is justified")
		vrt.Assert(!vEndorses(b, rounds, 0, val.Value, val.Validation[:len(val.Validation)-sig]), "a proposal whose justification ends a round early is not endorsed")
		if carried[k] {
			vrt.Assert(!vEndorses(b, rounds, 3, []byte("zz"), val.Validation), "another value is not endorsed with the same justification")
		}
		vrt.Assert(vEndorses(b, rounds, me, val.Value, val.Validation), "what a party proposes after rounds without a decision is endorsed by the others")
	}
}

// vEndorses presents a proposal of a party to another one.
func vEndorses(b *vAgree, r, from int, value, validation []byte) bool {
	b.collect()
	vPut(b.p, vMsg("Value", vCat(b.idj(r, from), []byte{1}), uint32(from), &protobuf.Value{Value: value, Validation: validation}))
	vrt.Quiesce()
	got := 0
	for _, m := range vSent(b.p.sendChannels[from]) {
		if m.Type == "Echo" {
			got++
		}
	}
	vrt.Assert(got <= 1, "one endorsement")
	return got == 1
}
