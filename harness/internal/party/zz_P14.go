package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
)

type vRow struct{ cb, cz, w0, gf, v, w bls.VS }

// one checks the row equations: for each of them a kept or a broken choice covers all values.
func vRows(n int) []vRow {
	r := make([]vRow, n+1)
	for j := 1; j <= n; j++ {
		r[j] = vRow{bls.VVar("CB"), bls.VVar("CZ"), bls.VVar("WZ0"), bls.VVar("gF"), bls.VVar("v"), bls.VVar("w")}
	}
	return r
}

// Verif_P14_accept: an arbitrary well-formed dealer message is accepted exactly when it is consistent,
// and anything else leaves the party as it was.
func Verif_P14_accept() {
	f := 1
	n := 3*f + 1
	pid := vrt.Choose("party", 4)
	vAccept(f, n, pid)
}

//verif:budget=300s
func Verif_P14_accept_f2() {
	vAccept(2, 7, vrt.Choose("party", 7))
}

func vAccept(f, n, pid int) {
	id := []byte("vss")
	p := vParty(uint32(n), uint32(f), uint32(pid))
	d := 2*f + 1
	// a previous state
	old := make([]bls.VS, d)
	oldw := make([]bls.VS, d)
	oldc := make([]bls.VS, d+1)
	oldg := bls.VVar("oldgs")
	p.Proof.Gs = bls.VG1(oldg)
	for j := 0; j < d; j++ {
		old[j], oldw[j], oldc[j+1] = bls.VVar("old"), bls.VVar("oldw"), bls.VVar("oldc")
		p.fullShare[j] = bls.VFr(old[j])
		p.witness[j] = bls.VG1(oldw[j])
		p.witnessIndexes[j] = bls.VFr(bls.VK(77))
		p.Proof.PiContents[j+1].CBj = bls.VG1(oldc[j+1])
	}

	gs := bls.VVar("gs")
	rows := vRows(d)
	m := &protobuf.VSSSend{Pi: &protobuf.Pi{Gs: vPoint(gs), PiContents: []*protobuf.PiContent{{}}}, BijList: [][]byte{{}}, WBijList: [][]byte{{}}}
	for j := 1; j <= d; j++ {
		r := rows[j]
		m.Pi.PiContents = append(m.Pi.PiContents, &protobuf.PiContent{J: uint32(j), CBj: vPoint(r.cb), CZj: vPoint(r.cz), WZ0: vPoint(r.w0), GFj: vPoint(r.gf)})
		m.BijList = append(m.BijList, vScalar(r.v))
		m.WBijList = append(m.WBijList, vPoint(r.w))
	}
	vPut(p, vMsg("VSSSend", id, 0x7fffffff, m))
	p.VSSShareReceive(id)

	// what a correct party must check
	tau := bls.VDec(vTau)
	x := bls.VK(uint64(pid + 1))
	xs, gfs, vs := make([]bls.VS, d), make([]bls.VS, d), make([]bls.VS, d)
	for j := 1; j <= d; j++ {
		xs[j-1], gfs[j-1], vs[j-1] = bls.VK(uint64(j)), rows[j].gf, rows[j].v
	}
	ok := bls.VEq(gs, vLag(xs, gfs, bls.VK(0)))
	for j := 1; j <= d; j++ {
		r := rows[j]
		ok = vrt.And(ok,
			bls.VEq(r.cz, bls.VMul(r.w0, tau)),
			bls.VEq(r.cb, bls.VAdd(r.cz, r.gf)),
			bls.VEq(bls.VSub(r.cb, r.v), bls.VMul(r.w, bls.VSub(tau, x))))
	}
	for j := 1; j <= d; j++ {
		y := bls.VK(uint64(j))
		keep := vrt.And(bls.VEq(bls.VOf(&p.fullShare[j-1]), old[j-1]), bls.VIsG1(&p.witness[j-1], oldw[j-1]),
			bls.VEq(bls.VOf(&p.witnessIndexes[j-1]), bls.VK(77)),
			bls.VIsG1(&p.Proof.PiContents[j].CBj, oldc[j]), bls.VIsG1(&p.Proof.Gs, oldg))
		vrt.Assert(vrt.Or(ok, keep), "an inconsistent sharing changes nothing")
		c := p.Proof.PiContents[j]
		take := vrt.And(bls.VEq(bls.VEval(vPoly(p.fullShare), y), rows[j].v),
			bls.VIsG1(&p.witness[j-1], rows[j].w), bls.VEq(bls.VOf(&p.witnessIndexes[j-1]), y),
			bls.VIsG1(&c.CBj, rows[j].cb), bls.VIsG1(&p.Proof.Gs, gs))
		vrt.Assert(vrt.Or(!ok, take), "a consistent sharing is stored as sent")
	}
}

// The same after correct sharings were taken by this or another party: what was checked then (the arbitrary
// elements may coincide with it) says nothing about what is received now.
func Verif_P14_history() {
	id := []byte("vss")
	c := vDeal(4, 1, bls.VFr(bls.VVar("secret")), id)
	q := vParty(4, 1, uint32(vrt.Choose("before", 2)))
	out := vSent(c.sendChannels[q.PID])
	vrt.Assert(len(out) == 1, "one message per party")
	vPut(q, out[0])
	q.VSSShareReceive(id)
	vAccept(1, 4, vrt.Choose("party", 2))
}
