package party

import (
	"strconv"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"google.golang.org/protobuf/proto"
)

// pieces of one contribution reach one member late
func Verif_P21_late_pieces() {
	vLatePieces(1, vrt.Choose("member", 4), vrt.Choose("contribution", vMax(2, 4)))
}

// for F = 2
//
//verif:budget=200s
func Verif_P21_late_pieces_f2() {
	me := vrt.Choose("member", 7)
	if !vrt.Thorough() {
		vLatePieces(2, me, (me+1)%3)
	} else {
		vLatePieces(2, me, vrt.Choose("contribution", 7))
	}
}

func vLatePieces(f, me, k int) {
	r := vRefreshingN(f, 2)
	vrt.Option("sched", "unlock") // interleaves the handlers
	kind := vrt.Choose("what", 3)
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		r.see(i, j, m)
		if j == me && m.Type == "Recover" && kind == 0 {
			var r protobuf.Recover
			if proto.Unmarshal(m.Data, &r) == nil && int(r.Index) == k+1 {
				return vLate(m)
			}
		}
		if j == me && kind == 1 && i == k && m.Type == "Reshare" {
			return vLate(m)
		}
		if j == me && kind == 2 && string(m.Id) == string(vRefreshID(k)) {
			return vLate(m)
		}
		return vNow(m)
	})
	for i := range r.ps {
		r.check(i)
	}
}

// F members misbehave
func Verif_P21_faulty() { vFaulty21(1) }

// for F = 2
//
//verif:budget=200s
func Verif_P21_faulty_f2() { vFaulty21(2) }

func vFaulty21(f int) {
	n := 3*f + 1
	r := vRefreshingN(f, 2)
	r.faulty()
	kind := vrt.Choose("fault", 9)
	var x bls.VS
	if kind == 1 {
		x = bls.VVar("x")
	}
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		r.see(i, j, m)
		if !r.isBad(i) || kind == 0 {
			return vNow(m)
		}
		var d protobuf.Recover
		if m.Type == "Recover" {
			vrt.Assert(proto.Unmarshal(m.Data, &d) == nil, "decodes")
			switch kind {
			case 1: // any value
				if r.among(j, 1) && r.among(int(d.Index)-1, 1) {
					d.V = vScalar(x)
				}
			case 2: // another index
				if r.among(j, 2) && int(d.Index) == j+1 {
					d.Index = d.Index%uint32(n) + 1
				}
			case 3: // another member's signature share
				if int(d.Index) != i+1 {
					d.SigShare = vShare(r.ps[i], r.honest()[0], []byte{byte('0' + d.Index)})
				}
			case 4: // twice
				return []*protobuf.Message{m, m}, nil
			}
			m = vMsg("Recover", m.Id, uint32(i), &d)
		}
		if kind == 5 && m.Type == "Reshare" && r.among(j, 1) { // not to everybody
			return vLost(m)
		}
		if kind == 6 && m.Type == "Reshare" { // nothing
			return vLost(m)
		}
		if kind == 7 && m.Type == "Reshare" && !r.among(j, 1) { // wrong ones
			var s protobuf.Reshare
			vrt.Assert(proto.Unmarshal(m.Data, &s) == nil, "decodes")
			if !r.among(j, 2) {
				return vLost(m)
			}
			s.Qk[2*f] = s.Qk[0]
			m = vMsg("Reshare", m.Id, uint32(i), &s)
		}
		if kind == 8 {
			return vLost(m)
		}
		return vNow(m)
	})
	for _, i := range r.honest() {
		r.check(i)
	}
}

// member 3 is the leader of the agreement and proposes something else
func Verif_P21_proposal() { vProposed(1) }

//verif:budget=200s
func Verif_P21_proposal_f2() { vProposed(2) }

func vProposed(f int) {
	n := 3*f + 1
	lead := n - 1
	r := vRefreshingN(f, lead)
	id := vID
	a := &vAgree{p: r.ps[0], id: id}
	in := &protobuf.MVBAIN{}
	for j := 1; j <= f+1; j++ {
		in.J = append(in.J, uint32(j))
	}
	kind := vrt.Choose("proposal", 8)
	switch kind {
	case 1:
		in.J[f] = 1
	case 2:
		in.J = in.J[:f]
	case 3:
		in.J[f] = uint32(n + 1)
	case 4:
		in.J[0] = 0
	case 5: // one that is not valid
		in.J[f] = uint32(n)
	}
	for _, j := range in.J {
		in.Sig = append(in.Sig, vCert(r.ps[0], []byte(strconv.Itoa(int(j)))))
	}
	switch kind {
	case 5:
		in.Sig[f] = in.Sig[0]
	case 6:
		in.Sig = in.Sig[:f]
	}
	value, err := proto.Marshal(in)
	vrt.Assert(err == nil, "encodes")
	if kind == 7 {
		value = []byte{1, 2, 3}
	}
	stage := func(s byte) string { return string(vCat(a.idj(0, lead), []byte{s})) }
	echoes := 0
	vCarry(r.ps, nil, func(i, j int, m *protobuf.Message) (now, late []*protobuf.Message) {
		if m.Type == "Halt" && i <= 2*f {
			r.see(i, j, m)
		}
		if m.Type == "Reshare" {
			r.see(i, j, m)
			if i == lead {
				return vLost(m)
			}
		}
		switch {
		case i == lead && m.Type == "Value" && string(m.Id) == stage(1):
			return vNow(vMsg("Value", m.Id, uint32(lead), &protobuf.Value{Value: value}))
		case i == lead && (m.Type == "Value" || m.Type == "Finish") && string(m.Id) != stage(2):
			return vLost(m)
		case j == lead && i != lead && m.Type == "Echo" && string(m.Id) == stage(1):
			echoes++
			if echoes == 2*f { // together with its own endorsement it has a certificate
				for k := 0; k < lead; k++ {
					vPut(r.ps[k], vMsg("Value", []byte(stage(2)), uint32(lead), &protobuf.Value{Value: value, Validation: vCert(r.ps[0], a.stage(0, lead, 1, value))}))
				}
			}
			return vLost(m)
		case j == lead && i != lead && m.Type == "Echo" && string(m.Id) == stage(2):
			if i == 0 {
				for k := 0; k < lead; k++ {
					a.p = r.ps[k]
					a.finish(0, lead, value)
				}
			}
			return vLost(m)
		}
		return vNow(m)
	})
	vrt.Assert(kind > 0 || echoes >= 2*f, "a valid proposal is endorsed")
	for i := 0; i < lead; i++ {
		r.check(i)
	}
}
