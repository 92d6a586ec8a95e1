package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

func vPrepare(id []byte, sender uint32, c []bls.VS) *protobuf.Message {
	m := &protobuf.Prepare{Commitments: [][]byte{nil}}
	for _, x := range c {
		m.Commitments = append(m.Commitments, vPoint(x))
	}
	return vMsg("Prepare", id, sender, m)
}

// An old member tells every new member exactly its own commitments.
func Verif_P19_send() {
	f := 1 + vrt.Choose("f", vMax(2, 3))
	n := 3*f + 1
	pid := vrt.Choose("party", n)
	id := []byte("prep")
	p := vParty(uint32(n), uint32(f), uint32(pid))
	c := make([]bls.VS, 2*f+1)
	for j := range c {
		c[j] = bls.VVar("c")
		p.Proof.PiContents[j+1].CBj = bls.VG1(c[j])
	}
	p.PrepareSend(id)
	for i := 0; i < n; i++ {
		vrt.Assert(len(vSent(p.sendChannels[i])) == 0, "nothing goes to the old committee")
		ms := vSent(p.sendToNextChannels[i])
		vrt.Assert(len(ms) == 1, "every new member is told once")
		// f+1 old members in the same state: their messages make the receiver adopt their commitments
		q := vParty(uint32(n), uint32(f), uint32(i))
		for k := 0; k <= f; k++ {
			vrt.Assert(ms[0].Sender == uint32(pid), "the sender is named")
			m := *ms[0]
			m.Sender = uint32((pid + k) % n)
			vPut(q, &m)
		}
		done := vDone(func() { q.PrepareReceive(id) })
		vrt.Assert(done, "F+1 identical messages suffice")
		for j := range c {
			vrt.Assert(bls.VIsG1(&q.Proof.PiContents[j+1].CBj, c[j]), "the adopted commitments are the ones sent")
		}
	}
}

// Up to F faulty old members send arbitrary commitments, repeatedly and at any time; the new member
// still adopts exactly what the honest ones sent, as soon as F+1 of them (or fewer with agreeing
// faulty ones) did.
func Verif_P19_adopt() { vAdopt(1, vMax(5, 6)) }

//verif:budget=120s
func Verif_P19_adopt_f2() { vAdopt(2, vMax(3, 4)) }

// vSpot is the first of F consecutive faulty members.
func vSpot(n, f int) int {
	if f > 1 && !vrt.Thorough() {
		return (n - f) * vrt.Choose("faulty", 2)
	}
	return vrt.Choose("faulty", n-f+1)
}

func vAdopt(f, steps int) {
	n := 3*f + 1
	id := []byte("prep")
	p := vParty(uint32(n), uint32(f), 0)
	hon := make([]bls.VS, 2*f+1)
	for j := range hon {
		hon[j] = bls.VVar("honest")
	}
	// two arbitrary commitment vectors for the faulty members (they may equal the honest one)
	var bad [2][]bls.VS
	for k := range bad {
		for j := 0; j < 2*f+1; j++ {
			bad[k] = append(bad[k], hon[j])
		}
		which := 2 * f * k
		if f == 1 || vrt.Thorough() {
			which = vrt.Choose("which", 2*f+1)
		}
		bad[k][which] = bls.VVar("bad")
	}
	faulty := vSpot(n, f) // faulty, .., faulty+f-1 are faulty
	isBad := func(i int) bool { return i >= faulty && i < faulty+f }
	next := 0
	honest := func() bool {
		for next < n && isBad(next) {
			next++
		}
		if next >= n {
			return false
		}
		vPut(p, vPrepare(id, uint32(next), hon))
		next++
		return true
	}
	for s := 0; s < steps; s++ {
		k := vrt.Choose("arrival", 1+2*f)
		if k == 0 {
			if !honest() {
				break
			}
			continue
		}
		k--
		vPut(p, vPrepare(id, uint32(faulty+k/2), bad[k%2]))
	}
	for honest() {
	}
	done := vDone(func() { p.PrepareReceive(id) })
	vrt.Assert(done, "the commitments of F+1 honest members are adopted")
	for j := range hon {
		vrt.Assert(bls.VIsG1(&p.Proof.PiContents[j+1].CBj, hon[j]), "the adopted commitments are the honest ones")
	}
}

// F copies, from whoever, are not enough.
func Verif_P19_few() {
	f := 1 + vrt.Choose("f", 2)
	n := 3*f + 1
	id := []byte("prep")
	p := vParty(uint32(n), uint32(f), 0)
	c := make([]bls.VS, 2*f+1)
	for j := range c {
		c[j] = bls.VVar("c")
	}
	for k := 0; k < f+1; k++ {
		vPut(p, vPrepare(id, uint32(vrt.Choose("sender", f)), c))
	}
	done := vDone(func() { p.PrepareReceive(id) })
	vrt.Assert(!done, "F members, however often they repeat it, do not suffice")
}
