package party

import (
	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// The dealer's message decodes to the commitments and values that were put in.
func Verif_P16_vss() {
	f := 1 + vrt.Choose("f", vMax(3, 5))
	d := 2*f + 1
	pi := new(Pi)
	pi.Init(uint32(f))
	vrt.Assert(len(pi.PiContents) == d+1, "one row per index")
	gs := bls.VVar("gs")
	pi.Gs = bls.VG1(gs)
	var cb, cz, w0, gf, b, w []bls.VS
	B := make([]bls.Fr, d+1)
	W := make([]bls.G1Point, d+1)
	for j := 0; j <= d; j++ {
		cb, cz, w0, gf = append(cb, bls.VVar("cb")), append(cz, bls.VVar("cz")), append(w0, bls.VVar("w0")), append(gf, bls.VVar("gf"))
		b, w = append(b, bls.VVar("b")), append(w, bls.VVar("w"))
		pi.PiContents[j] = PiContent{j: uint32(j), CBj: bls.VG1(cb[j]), CZj: bls.VG1(cz[j]), WZ0: bls.VG1(w0[j]), gFj: bls.VG1(gf[j])}
		B[j], W[j] = bls.VFr(b[j]), bls.VG1(w[j])
	}
	var m protobuf.VSSSend
	vrt.Assert(proto.Unmarshal(EncapsulateVSSSend(pi, B, W, uint32(f)), &m) == nil, "the message decodes")
	vrt.Assert(len(m.BijList) == d+1 && len(m.WBijList) == d+1 && len(m.Pi.PiContents) == d+1, "all entries are there")
	q := new(Pi)
	q.Init(uint32(f))
	q.SetFromVSSMessage(m.Pi, uint32(f))
	r := new(Pi)
	r.Init(uint32(f))
	r.Set(q, uint32(f))
	for _, x := range []*Pi{q, r} {
		vrt.Assert(bls.VIsG1(&x.Gs, gs), "commitment of the secret")
		for j := 1; j <= d; j++ {
			c := x.PiContents[j]
			vrt.Assert(c.j == uint32(j) && bls.VIsG1(&c.CBj, cb[j]) && bls.VIsG1(&c.CZj, cz[j]) && bls.VIsG1(&c.WZ0, w0[j]) && bls.VIsG1(&c.gFj, gf[j]), "row commitments")
		}
	}
	for j := 1; j <= d; j++ {
		var x [32]byte
		var v bls.Fr
		copy(x[:], m.BijList[j])
		vrt.Assert(len(m.BijList[j]) == 32 && bls.FrFrom32(&v, x) && bls.VEq(bls.VOf(&v), b[j]), "values")
		p, err := bls.FromCompressedG1(m.WBijList[j])
		vrt.Assert(err == nil && bls.VIsG1(p, w[j]), "witnesses")
	}
}
