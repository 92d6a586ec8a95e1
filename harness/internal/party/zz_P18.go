package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func vReduce(id []byte, sender int, c, v, w bls.VS) *protobuf.Message {
	return vMsg("ShareReduce", id, uint32(sender), &protobuf.ShareReduce{C: vPoint(c), V: vScalar(v), W: vPoint(w)})
}

// The message an honest old member sends for the column polynomial b.
func vHonestReduce(id []byte, sender int, b []bls.VS) *protobuf.Message {
	tau, x := bls.VDec(vTau), bls.VK(uint64(sender+1))
	c, v := bls.VEval(b, tau), bls.VEval(b, x)
	return vReduce(id, sender, c, v, bls.VMul(bls.VSub(c, v), bls.VInv(bls.VSub(tau, x))))
}

// An old member that accepted a sharing sends every new member the commitment of that member's column,
// its own value and an opening that verifies.
func Verif_P18_send() {
	f := 1 + vrt.Choose("f", vMax(2, 3))
	n := 3*f + 1
	pid := vrt.Choose("party", n)
	c := vDeal(uint32(n), uint32(f), bls.VFr(bls.VVar("secret")), []byte("vss"))
	p := vParty(uint32(n), uint32(f), uint32(pid))
	vPut(p, vSent(c.sendChannels[pid])[0])
	p.VSSShareReceive([]byte("vss"))
	id := []byte("reduce")
	p.ShareReduceSend(id)
	vCheckReduceSent(p, f, pid, id)
}

// Faulty old members send arbitrary contributions, repeatedly and at any time.  Openings of the honest
// commitment to another value are excluded (binding); everything else is arbitrary.
func Verif_P18_receive() { vReduceRun(1, vMax(5, 6)) }

//verif:budget=150s
func Verif_P18_receive_f2() { vReduceRun(2, vMax(4, 5)) }

// vSpot is the first of F consecutive faulty members.
func vSpot(n, f int) int {
	if f > 1 && !vrt.Thorough() {
		return (n - f) * vrt.Choose("faulty", 2)
	}
	return vrt.Choose("faulty", n-f+1)
}

func vReduceRun(f, steps int) {
	n := 3*f + 1
	id := []byte("reduce")
	p := vParty(uint32(n), uint32(f), uint32(n-1))
	b := make([]bls.VS, f+1)
	for j := range b {
		b[j] = bls.VVar("b")
	}
	tau := bls.VDec(vTau)
	c := bls.VEval(b, tau)
	faulty := vSpot(n, f)
	isBad := func(i int) bool { return i >= faulty && i < faulty+f }
	next := 0
	honest := func() bool {
		for next < n && isBad(next) {
			next++
		}
		if next >= n {
			return false
		}
		vPut(p, vHonestReduce(id, next, b))
		next++
		return true
	}
	// an arbitrary contribution of a faulty member: (C, v, w)
	bad := make([]*protobuf.Message, f)
	for i := range bad {
		x := bls.VK(uint64(faulty + i + 1))
		C, v, w := bls.VVar("C"), bls.VVar("v"), bls.VVar("w")
		if vrt.Choose("commitment", 2) == 0 {
			C = c
			opens := bls.VEq(bls.VSub(C, v), bls.VMul(w, bls.VSub(tau, x)))
			vrt.Assume(vrt.Or(!opens, bls.VEq(v, bls.VEval(b, x))))
		} else {
			vrt.Assume(!bls.VEq(C, c))
		}
		bad[i] = vReduce(id, faulty+i, C, v, w)
	}
	for s := 0; s < steps; s++ {
		k := vrt.Choose("arrival", 2+f)
		switch {
		case k == 0:
			if !honest() {
				s = steps
			}
		case k <= f:
			vPut(p, bad[k-1])
		default:
			// a correct contribution of a faulty member, possibly after or before a wrong one
			vPut(p, vHonestReduce(id, faulty, b))
		}
	}
	for honest() {
	}
	done := vDone(func() { p.ShareReduceReceive(id) })
	vrt.Assert(done, "F+1 honest contributions suffice")
	got := vPoly(p.reducedShare)
	vrt.Assert(len(got) == f+1, "degree of the reduced share")
	for j := range got {
		vrt.Assert(bls.VEq(got[j], b[j]), "the reduced share is the committed column")
	}
}

// F members do not suffice.
func Verif_P18_few() {
	f := 1 + vrt.Choose("f", 2)
	n := 3*f + 1
	id := []byte("reduce")
	p := vParty(uint32(n), uint32(f), 0)
	b := make([]bls.VS, f+1)
	for j := range b {
		b[j] = bls.VVar("b")
	}
	for k := 0; k < f+1; k++ {
		vPut(p, vHonestReduce(id, vrt.Choose("sender", f), b))
	}
	done := vDone(func() { p.ShareReduceReceive(id) })
	vrt.Assert(!done, "F members, however often they repeat it, do not suffice")
}
