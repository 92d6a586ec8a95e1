package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/drand/kyber"
	"google.golang.org/protobuf/proto"
)

// vForged lists signatures that do not certify msg: of another message, a single share, garbage,
// nothing, an arbitrary point.
func vForged(p *HonestParty, kind int, msg []byte) []byte {
	switch kind {
	case 0:
		return vCert(p, vCat(msg, []byte{1}))
	case 1:
		return vShare(p, 2, msg)[2:]
	case 2:
		return []byte("garbage")
	case 3:
		h := vSuite.G1().Point().(interface{ Hash([]byte) kyber.Point }).Hash(msg)
		x := bls.VVar("x")
		vrt.Assume(!bls.VEq(x, bls.VK(1000003)))
		b, _ := vSuite.G1().Point().Mul(vKS(x), h).MarshalBinary()
		return b
	}
	return nil
}

// vSeq goes through sequences of k votes of n kinds: each is of a party not seen before (the next
// in order) or of the first one again, or one of the bad kinds. With F>1, 2F-2 parties' good votes
// come first.
func (a *vAgree) seq(k, kinds, bad int, f func(kind, party int, fresh bool), g func(bad int)) {
	n := int(a.p.N)
	off := vrt.Choose("offset", vMax(1, n))
	used := 0
	for used < 2*int(a.p.F)-2 {
		f(vrt.Choose("earlier", kinds), (off+used)%n, true)
		used++
	}
	for i := 0; i < k; i++ {
		c := vrt.Choose("vote", 2*kinds+bad)
		switch {
		case c >= 2*kinds:
			g(c - 2*kinds)
		case c < kinds && used < n:
			f(c, (off+used)%n, true)
			used++
		case used > 0:
			f(c%kinds, off, false)
		default:
			f(c%kinds, off, true)
			used++
		}
	}
}

// The coin share is revealed after 2F+1 parties finished, or F+1 others revealed theirs.
func Verif_P27_reveal()    { vAtReveal(1) }
func Verif_P27_reveal_f2() { vAtReveal(2) }

func vAtReveal(f int) {
	a := vMeIn(f)
	last := 3 * f
	vrt.Quiesce()
	cnt, bad := 0, -1
	if vrt.Choose("evidence", 2) == 0 {
		a.seq(vMax(5-f, 5), 1, 1, func(_, j int, fresh bool) {
			a.finish(0, j, vVal(0, j))
			if fresh {
				cnt++
			}
		}, func(int) {
			if bad < 0 {
				bad = vrt.Choose("bad", 6)
			}
			v := vVal(0, last)
			sig := vForged(a.p, bad, a.stage(0, last, 2, v))
			if bad == 5 { // of another party
				sig = vCert(a.p, a.stage(0, 2, 2, v))
			}
			vPut(a.p, vMsg("Finish", a.idr(0), uint32(last), &protobuf.Finish{Value: v, Sig: sig}))
		})
		var d protobuf.Done
		got := a.one("Done", 0, &d)
		vrt.Assert(got == (cnt >= 2*f+1), "the coin is revealed exactly after 2F+1 different parties finished")
		if got {
			i, ok := vShareOK(a.p, a.coin(0), d.CoinShare)
			vrt.Assert(ok && i == 1, "the coin share is valid")
		}
		return
	}
	a.seq(3, 1, 1, func(_, j int, fresh bool) {
		a.done(0, j)
		if fresh {
			cnt++
		}
	}, func(int) {
		if bad < 0 {
			bad = vrt.Choose("bad", 4)
		}
		vPut(a.p, vMsg("Done", a.idr(0), uint32(last), &protobuf.Done{CoinShare: vBadShare(a.p, bad, last, a.coin(0))}))
	})
	var d protobuf.Done
	got := a.one("Done", 0, &d)
	vrt.Assert(got == (cnt >= f+1), "the coin is revealed exactly after F+1 different parties did")
	if got {
		i, ok := vShareOK(a.p, a.coin(0), d.CoinShare)
		vrt.Assert(ok && i == 1, "the coin share is valid")
	}
}

// The leader is the same whichever 2F+1 coin shares arrive; fewer, repeated or wrong ones elect nobody.
func Verif_P27_leader()    { vAtLeader(1) }
func Verif_P27_leader_f2() { vAtLeader(2) }

func vAtLeader(f int) {
	a := vMeIn(f)
	last := 3 * f
	l := a.aLeader(0)
	for j := 0; j <= last; j++ {
		a.lock(0, j, vVal(0, j))
	}
	vrt.Quiesce()
	cnt, bad := 0, -1
	a.seq(vMax(5-f, 5), 1, 1, func(_, j int, fresh bool) {
		a.done(0, j)
		if fresh {
			cnt++
		}
	}, func(int) {
		if bad < 0 {
			bad = vrt.Choose("bad", 4)
		}
		vPut(a.p, vMsg("Done", a.idr(0), uint32(last), &protobuf.Done{CoinShare: vBadShare(a.p, bad, last, a.coin(0))}))
	})
	var pv protobuf.PreVote
	got := a.one("PreVote", 0, &pv)
	vrt.Assert(got == (cnt >= 2*f+1), "a leader is elected exactly when 2F+1 different parties revealed their shares")
	if got {
		vrt.Assert(pv.Vote && string(pv.Value) == string(vVal(0, l)), "all parties elect the same leader")
		vrt.Assert(vCertOK(a.p, a.stage(0, l, 1, vVal(0, l)), pv.Sig), "the certificate of the lock verifies")
	}
}

// With the leader's finished value at hand a party decides it; with its lock it pre-votes for it,
// otherwise it pre-votes no.
func Verif_P27_after_election()    { vAtAfterElection(1) }
func Verif_P27_after_election_f2() { vAtAfterElection(2) }

func vAtAfterElection(f int) {
	a := vMeIn(f)
	last := 3 * f
	l := a.leader(0)
	have := 0
	if f == 1 {
		have = vrt.Choose("have", 16)
	} else {
		have = []int{0, 1, 2, 14, 15, 1<<7 - 2, 1<<7 - 1}[vrt.Choose("have", 7)]
	}
	fin := vrt.Choose("finished", 3)
	for i := 0; i <= last; i++ {
		j := (l + i) % (last + 1)
		if have>>uint(i)&1 == 1 {
			a.lock(0, j, vVal(0, j))
			if fin == 1 || fin == 2 && j != l {
				a.finish(0, j, vVal(0, j))
			}
		}
	}
	vrt.Quiesce()
	a.elect(0)
	locked := have&1 == 1
	out, end := a.result()
	var h protobuf.Halt
	var pv protobuf.PreVote
	halted, voted := a.one("Halt", 0, &h), a.one("PreVote", 0, &pv)
	if locked && fin == 1 {
		vrt.Assert(end && halted && !voted, "the leader's finished value is decided")
		vrt.Assert(string(out) == string(vVal(0, l)) && string(h.Value) == string(out) && vCertOK(a.p, a.stage(0, l, 2, out), h.Sig), "the decision is announced with the leader's certificate")
		return
	}
	vrt.Assert(!end && !halted && voted, "without the leader's finished value the round goes on")
	vrt.Assert(pv.Vote == locked, "a pre-vote reports exactly whether the leader's value is locked")
	if locked {
		vrt.Assert(string(pv.Value) == string(vVal(0, l)) && vCertOK(a.p, a.stage(0, l, 1, pv.Value), pv.Sig), "the lock is reported with its certificate")
	} else {
		i, ok := vShareOK(a.p, a.no(0), pv.Sig)
		vrt.Assert(ok && i == 1 && len(pv.Value) == 0, "the absence of a lock is signed")
	}
}

// Votes follow a certified pre-vote for the leader, or 2F+1 different signed pre-votes against.
func Verif_P27_vote()    { vAtVote(1) }
func Verif_P27_vote_f2() { vAtVote(2) }

func vAtVote(f int) {
	a := vMeIn(f)
	last := 3 * f
	l := a.aLeader(0)
	a.elect(0)
	var pv protobuf.PreVote
	vrt.Assert(a.one("PreVote", 0, &pv) && !pv.Vote, "no lock, no yes")
	v := vVal(0, l)
	no, yes, bad := 0, false, -1
	a.seq(vMax(5-f, 5), 1, 3, func(_, j int, fresh bool) {
		a.preNo(0, j)
		if fresh {
			no++
		}
	}, func(c int) {
		switch c {
		case 0:
			a.preYes(0, l, last, v)
			yes = true
		case 1: // a wrong yes
			if bad < 0 {
				bad = vrt.Choose("bad", 6)
			}
			sig := vForged(a.p, bad, a.stage(0, l, 1, v))
			if bad == 5 {
				sig = vCert(a.p, a.stage(0, (l+1)%(last+1), 1, v))
			}
			vPut(a.p, vMsg("PreVote", a.idr(0), uint32(last), &protobuf.PreVote{Vote: true, Value: v, Sig: sig}))
		case 2: // a wrong no
			if bad < 0 {
				bad = vrt.Choose("bad", 4)
			}
			vPut(a.p, vMsg("PreVote", a.idr(0), uint32(last), &protobuf.PreVote{Sig: vBadShare(a.p, bad%4, last, a.no(0))}))
		}
	})
	var vt protobuf.Vote
	got := a.one("Vote", 0, &vt)
	vrt.Assert(got == (yes || no >= 2*f+1), "a vote needs, and follows, a certified lock or 2F+1 different pre-votes against")
	if !got {
		return
	}
	if vt.Vote {
		vrt.Assert(yes && string(vt.Value) == string(v) && vCertOK(a.p, a.stage(0, l, 1, v), vt.Sig), "a yes vote carries the leader's lock")
		i, ok := vShareOK(a.p, a.stage(0, l, 2, v), vt.Sigshare)
		vrt.Assert(ok && i == 1, "a yes vote carries the party's share of the final certificate")
	} else {
		vrt.Assert(no >= 2*f+1 && vCertOK(a.p, a.no(0), vt.Sig), "a no vote carries the certificate of 2F+1 pre-votes against")
		i, ok := vShareOK(a.p, a.unlock(0), vt.Sigshare)
		vrt.Assert(ok && i == 1, "a no vote carries the party's share for unlocking")
	}
}

// vBadVote is an invalid vote of the last party.
func (a *vAgree) badVote(kind, l int, v []byte) {
	last := int(a.p.N) - 1
	m := &protobuf.Vote{Vote: true, Value: v, Sig: vCert(a.p, a.stage(0, l, 1, v)), Sigshare: vShare(a.p, last, a.stage(0, l, 2, v))}
	n := &protobuf.Vote{Sig: vCert(a.p, a.no(0)), Sigshare: vShare(a.p, last, a.unlock(0))}
	switch kind {
	case 0:
		m.Sig = vCert(a.p, a.stage(0, (l+1)%(last+1), 1, v))
	case 1:
		m.Sigshare = vShare(a.p, last, a.stage(0, l, 1, v))
	case 2:
		m.Sig = nil
	case 3:
		m = n
		m.Sig = vForged(a.p, 0, a.no(0))
	case 4:
		m = n
		m.Sigshare = vShare(a.p, last, a.no(0))
	case 5:
		m = n
		m.Sigshare = nil
	}
	vPut(a.p, vMsg("Vote", a.idr(0), uint32(last), m))
}

// Outcome of the votes: 2F+1 yes decide, 2F+1 no unlock, a mixture carries the leader's value over.
func Verif_P27_outcome()    { vAtOutcome(1) }
func Verif_P27_outcome_f2() { vAtOutcome(2) }

func vAtOutcome(f int) {
	a := vMeIn(f)
	l := a.aLeader(0)
	a.elect(0)
	v := vVal(0, l)
	y, n, bad := 0, 0, -1
	a.seq(vMax(5-f, 5), 2, 1, func(kind, j int, fresh bool) {
		if y+n >= 2*f+1 {
			return
		}
		if kind == 0 {
			a.yes(0, l, j, v)
		} else {
			a.noVote(0, j)
		}
		if fresh && kind == 0 {
			y++
		} else if fresh {
			n++
		}
	}, func(int) {
		if bad < 0 {
			bad = vrt.Choose("bad", 6)
		}
		a.badVote(bad, l, v)
	})
	a.checkOutcome(l, y, n, v)
}

func (a *vAgree) checkOutcome(l, y, n int, v []byte) {
	f := int(a.p.F)
	out, end := a.result()
	var h protobuf.Halt
	halted := a.one("Halt", 0, &h)
	vrt.Assert(end == (y >= 2*f+1) && halted == end, "a party decides on 2F+1 different yes votes")
	if end {
		vrt.Assert(string(out) == string(v) && string(h.Value) == string(v) && vCertOK(a.p, a.stage(0, l, 2, v), h.Sig), "the decision carries the leader's final certificate")
		return
	}
	next := a.sent["Value"+string(vCat(a.idj(1, 1), []byte{1}))]
	vrt.Assert((len(next) == 1) == (y+n >= 2*f+1), "2F+1 votes of different parties complete the round")
	if len(next) == 0 {
		return
	}
	var val protobuf.Value
	vrt.Assert(proto.Unmarshal(next[0].Data, &val) == nil, "the next proposal decodes")
	if y > 0 {
		vrt.Assert(string(val.Value) == string(v) && vCertOK(a.p, a.stage(0, l, 1, v), val.Validation), "a locked value is carried over with its certificate")
	} else {
		vrt.Assert(string(val.Value) == "own", "the own proposal stays")
		k := len(val.Validation) - 48
		vrt.Assert(k >= 0 && string(val.Validation[:k]) == "proof" && vCertOK(a.p, a.unlock(0), val.Validation[k:]), "the next proposal carries the unlocking certificate")
	}
}

// Halt messages count only with the leader's final certificate.
func Verif_P27_halt()    { vAtHalt(1) }
func Verif_P27_halt_f2() { vAtHalt(2) }

func vAtHalt(f int) {
	a := vMeIn(f)
	last := 3 * f
	l := a.aLeader(0)
	early := vrt.Choose("early", 2) == 1
	if !early {
		a.elect(0)
	}
	v := vVal(0, l)
	good := false
	for i := 0; i < 2; i++ {
		c := vrt.Choose("halt", 8)
		var sig []byte
		switch c {
		case 5:
			sig = vCert(a.p, a.stage(0, (l+1)%(last+1), 2, v))
		case 6:
			sig = vCert(a.p, a.stage(0, l, 1, v))
		case 7:
			sig, good = vCert(a.p, a.stage(0, l, 2, v)), true
		default:
			sig = vForged(a.p, c, a.stage(0, l, 2, v))
		}
		vPut(a.p, vMsg("Halt", a.idr(0), 2, &protobuf.Halt{Value: v, Sig: sig}))
	}
	if early {
		vrt.Quiesce()
		a.elect(0)
	}
	out, end := a.result()
	vrt.Assert(end == good, "a halt message ends the protocol exactly if it carries the leader's final certificate")
	vrt.Assert(!end || string(out) == string(v), "the certified value is decided")
}
