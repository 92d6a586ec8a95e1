package party

import (
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// vContribution is what a member commits to in the refresh, by discrete logarithm.
type vContribution struct{ cq, cz, wz, gf []bls.G1Point }

func (c *vContribution) data() []byte {
	var d protobuf.Commit
	for k := range c.cq {
		d.Pi = append(d.Pi, &protobuf.PiContent{J: uint32(k + 1), CBj: bls.ToCompressedG1(&c.cq[k]), CZj: bls.ToCompressedG1(&c.cz[k]), WZ0: bls.ToCompressedG1(&c.wz[k]), GFj: bls.ToCompressedG1(&c.gf[k])})
	}
	b, err := proto.Marshal(&d)
	vrt.Assert(err == nil, "encodes")
	return b
}
func vContributed(data []byte) *vContribution {
	var d protobuf.Commit
	vrt.Assert(proto.Unmarshal(data, &d) == nil, "the commitments decode")
	c := &vContribution{}
	for k, x := range d.Pi {
		vrt.Assert(int(x.J) == k+1, "the commitments are in order")
		c.cq = append(c.cq, vDecG1(x.CBj))
		c.cz = append(c.cz, vDecG1(x.CZj))
		c.wz = append(c.wz, vDecG1(x.WZ0))
		c.gf = append(c.gf, vDecG1(x.GFj))
	}
	return c
}

// good tells whether the commitments are those of sharings of values that themselves share zero.
func (c *vContribution) good() bool {
	ok := []bool{vGEq(vGAt(c.gf, 0), bls.ZeroG1)}
	for k := range c.cq {
		ok = append(ok, vGEq(c.cz[k], vGMul(c.wz[k], bls.VDec(vTau))), vGEq(c.cq[k], vGAdd(c.cz[k], c.gf[k])))
	}
	return vrt.And(ok...)
}

// vOpens: the value is the opening at x of a commitment.
func vOpens(c, w bls.G1Point, x, v bls.VS) bool {
	return vGEq(c, vGAdd(bls.VG1(v), vGMul(w, bls.VSub(bls.VDec(vTau), x))))
}

// vEndorsements returns party i's endorsements of contribution k, by recipient.
type vEndorsed map[[3]int][]*protobuf.Recover

func (e vEndorsed) see(i, j int, m *protobuf.Message) {
	var r protobuf.Recover
	vrt.Assert(proto.Unmarshal(m.Data, &r) == nil && int(m.Sender) == i, "the endorsement decodes")
	at := [3]int{i, j, int(r.Index)}
	e[at] = append(e[at], &r)
}

// check: party i's endorsement of contribution k, whose values for it are v, w: one to every member,
// with the value and witness of that member's column.
func (e vEndorsed) check(p *HonestParty, k int, c *vContribution, v []bls.VS, w []bls.G1Point) {
	i := int(p.PID)
	for j := 0; j < int(p.N); j++ {
		ms := e[[3]int{i, j, k + 1}]
		vrt.Assert(len(ms) == 1, "a valid contribution is endorsed once to everybody")
		l := uint64(j + 1)
		vv, ww := vDecFr(ms[0].V), vDecG1(ms[0].W)
		vrt.Assert(bls.VEq(vv, vAt(v, l)), "the value is the one of the recipient's column")
		vrt.Assert(vGEq(ww, vGAt(w, l)), "the witness is the one of the recipient's column")
		vrt.Assert(vOpens(vGAt(c.cq, l), ww, bls.VK(uint64(i+1)), vv), "the value opens the recipient's commitment")
		s, ok := vShareOK(p, []byte(strconv.Itoa(k+1)), ms[0].SigShare)
		vrt.Assert(ok && s == i, "the endorsement carries the member's share")
	}
}

// every member's contribution is as it should be and is endorsed by everybody
func Verif_P20_honest()    { vContributions(1) }
func Verif_P20_honest_f2() { vContributions(2) }

func vContributions(f int) {
	n := 3*f + 1
	ps, _ := vHolders(uint32(n), uint32(f))
	vAll(ps, vHandoff)
	e := vEndorsed{}
	cs := make([]*vContribution, n)
	v := make([][][]bls.VS, n)
	w := make([][][]bls.G1Point, n)
	for i := range v {
		v[i] = make([][]bls.VS, n)
		w[i] = make([][]bls.G1Point, n)
	}
	late := vrt.Choose("late", 4) // nothing, or one kind of messages
	vCarry(ps, nil, func(i, j int, m *protobuf.Message) (now, later []*protobuf.Message) {
		switch m.Type {
		case "Recover":
			e.see(i, j, m)
			return vLost(m)
		case "Reshare":
			var d protobuf.Reshare
			vrt.Assert(proto.Unmarshal(m.Data, &d) == nil && len(d.Qk) == 2*f+1 && len(d.WQk) == 2*f+1, "the values decode")
			for k := range d.Qk {
				v[i][j] = append(v[i][j], vDecFr(d.Qk[k]))
				w[i][j] = append(w[i][j], vDecG1(d.WQk[k]))
			}
			if late == 1 {
				return vLate(m)
			}
		case "RBCPropose":
			if j == 0 && string(m.Id) == string(vRefreshID(i)) {
				var x protobuf.Message
				vrt.Assert(proto.Unmarshal(m.Data, &x) == nil, "the proposal decodes")
				cs[i] = vContributed(x.Data)
			}
			if late == 2 {
				return vLate(m)
			}
			if late == 3 && j == 1 {
				return vLate(m)
			}
		}
		return vNow(m)
	})
	for k := range ps {
		vrt.Assert(cs[k] != nil && cs[k].good(), "a contribution shares zero")
		for i, p := range ps {
			for l := 0; l < 2*f+1; l++ {
				vrt.Assert(vOpens(cs[k].cq[l], w[k][i][l], bls.VK(uint64(i+1)), v[k][i][l]), "every value opens its commitment")
			}
			e.check(p, k, cs[k], v[k][i], w[k][i])
		}
	}
}

// a member endorses an arbitrary contribution exactly if everything verifies
func Verif_P20_arbitrary() { vArbitrary(1) }

//verif:budget=200s
func Verif_P20_arbitrary_f2() { vArbitrary(2) }

func vArbitrary(f int) {
	n := 3*f + 1
	ps, _ := vHolders(uint32(n), uint32(f))
	vAll(ps, vHandoff)
	c := &vContribution{}
	var v []bls.VS
	var w []bls.G1Point
	for k := 0; k < 2*f+1; k++ {
		c.cq = append(c.cq, bls.VG1(bls.VVar("cq")))
		c.cz = append(c.cz, bls.VG1(bls.VVar("cz")))
		c.wz = append(c.wz, bls.VG1(bls.VVar("wz")))
		c.gf = append(c.gf, bls.VG1(bls.VVar("gf")))
		v = append(v, bls.VVar("v"))
		w = append(w, bls.VG1(bls.VVar("w")))
	}
	bad := n - 1
	if f == 1 || vrt.Thorough() {
		bad *= vrt.Choose("last", 2)
	}
	prop := vProposal(uint32(n), uint32(f), uint32(bad), vRefreshID(bad), &protobuf.Message{Type: "Commit", Id: vID, Sender: uint32(bad), Data: c.data()})
	d := &protobuf.Reshare{}
	for k := range v {
		d.Qk = append(d.Qk, vScalar(v[k]))
		d.WQk = append(d.WQk, bls.ToCompressedG1(&w[k]))
	}
	share := vMsg("Reshare", vID, uint32(bad), d)
	e := vEndorsed{}
	me := 1
	late := (f == 1 || vrt.Thorough()) && vrt.Choose("late", 2) == 1
	vCarry(ps, nil, func(i, j int, m *protobuf.Message) (now, later []*protobuf.Message) {
		switch {
		case m.Type == "Recover":
			e.see(i, j, m)
			return vLost(m)
		case m.Type == "Reshare" && i == bad:
			if j != me {
				return vLost(m)
			}
			if late {
				return vLate(share)
			}
			return vNow(share)
		case m.Type == "RBCPropose" && i == bad:
			return vNow(prop)
		case m.Type == "RBCPropose":
			return vLost(m)
		}
		return vNow(m)
	})
	ok := []bool{c.good()}
	for k := range v {
		ok = append(ok, vOpens(c.cq[k], w[k], bls.VK(uint64(me+1)), v[k]))
	}
	if len(e[[3]int{me, 0, bad + 1}]) > 0 {
		vrt.Assert(vrt.And(ok...), "only contributions that verify in full are endorsed")
		vrt.Reach("endorsed")
	} else {
		vrt.Assert(!vrt.And(ok...), "a contribution that verifies is endorsed")
		vrt.Reach("refused")
	}
	if vrt.And(ok...) {
		e.check(ps[me], bad, c, v, w)
	}
}

// a faulty member that sends its values again and again does not keep others' contributions from
// being endorsed
func Verif_P20_repeats()    { vRepeated(1) }
func Verif_P20_repeats_f2() { vRepeated(2) }

func vRepeated(f int) {
	ps, _ := vHolders(uint32(3*f+1), uint32(f))
	vAll(ps, vHandoff)
	e := vEndorsed{}
	first := true
	rep := vrt.Choose("repeats", 3) + f + 1
	vCarry(ps, nil, func(i, j int, m *protobuf.Message) (now, later []*protobuf.Message) {
		switch m.Type {
		case "Recover":
			e.see(i, j, m)
			return vLost(m)
		case "Reshare":
			if i > 2*f {
				for k := 0; k < rep; k++ {
					now = append(now, m)
				}
				first = false
				return now, nil
			}
			if first || j == 1 {
				return vLate(m)
			}
		}
		return vNow(m)
	})
	for k := 0; k < 2*f+1; k++ {
		for i := range ps {
			if i <= 2*f {
				vrt.Assert(len(e[[3]int{i, 0, k + 1}]) == 1, "an honest contribution is endorsed")
			}
		}
	}
}
