package party

import (
	"strconv"
	"sync"

	"github.com/DyCAPSTeam/DyCAPS/internal/bls"
	"github.com/DyCAPSTeam/DyCAPS/internal/vrt"
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
	"github.com/drand/kyber"
	kyberbls "github.com/drand/kyber-bls12381"
	"github.com/drand/kyber/share"
	sigbls "github.com/drand/kyber/sign/bls"
	"github.com/drand/kyber/sign/tbls"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"
)

var _ = bls.VK

func vMax(q, t int) int {
	if vrt.Thorough() {
		return t
	}
	return q
}

// vParty is a party without signing keys; what it sends ends up in buffered channels.
func vParty(n, f, pid uint32) *HonestParty {
	p := NewHonestParty(0, n, f, pid, nil, nil, nil, nil, nil, nil)
	vNet(p)
	return p
}
func vNet(p *HonestParty) {
	p.dispatchChannels = new(sync.Map)
	for i := range p.sendChannels {
		p.sendChannels[i] = make(chan *protobuf.Message, 200)
		p.sendToNextChannels[i] = make(chan *protobuf.Message, 200)
	}
}

// vPut delivers a copy of m, as the network would.
func vPut(p *HonestParty, m *protobuf.Message) {
	c := &protobuf.Message{Type: m.Type, Id: append([]byte{}, m.Id...), Sender: m.Sender, Data: append(make([]byte, 0, len(m.Data)), m.Data...)}
	p.GetMessage(c.Type, c.Id) <- c
}

// vSent returns what was sent on a channel so far.
func vSent(c chan *protobuf.Message) []*protobuf.Message {
	var r []*protobuf.Message
	for {
		select {
		case m := <-c:
			r = append(r, m)
		default:
			return r
		}
	}
}

func vMsg(typ string, id []byte, sender uint32, x proto.Message) *protobuf.Message {
	b, err := proto.Marshal(x)
	if err != nil {
		panic(err)
	}
	return &protobuf.Message{Type: typ, Id: id, Sender: sender, Data: b}
}

// vPoly returns the values represented by scalars.
func vPoly(a []bls.Fr) []bls.VS {
	r := make([]bls.VS, len(a))
	for i := range a {
		r[i] = bls.VOf(&a[i])
	}
	return r
}

// vSubsets lists the k-element subsets of 0..n-1.
func vSubsets(n, k int) [][]int {
	var out [][]int
	var rec func(at int, cur []int)
	rec = func(at int, cur []int) {
		if len(cur) == k {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := at; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return out
}

// vLag is the reference value at t of the polynomial through (x[i], y[i]).
func vLag(x, y []bls.VS, t bls.VS) bls.VS {
	r := bls.VK(0)
	for i := range x {
		num, den := y[i], bls.VK(1)
		for j := range x {
			if j != i {
				num = bls.VMul(num, bls.VSub(t, x[j]))
				den = bls.VMul(den, bls.VSub(x[i], x[j]))
			}
		}
		r = bls.VAdd(r, bls.VMul(num, bls.VInv(den)))
	}
	return r
}

// vDeal runs the dealer and returns what each party was sent.
func vDeal(n, f uint32, s bls.Fr, id []byte) *Client {
	c := &Client{HonestParty: vParty(n, f, 0x7fffffff)}
	c.SetSecret(s)
	c.Share(id)
	return c
}

// vCheckSharing checks that the full shares lie on one sharing B(x,y) of degree (f,2f) with B(0,0) = s.
func vCheckSharing(ps []*HonestParty, f int, s bls.VS) {
	sh := make([][]bls.VS, len(ps))
	for i, p := range ps {
		sh[i] = vPoly(p.fullShare)
		vrt.Assert(len(sh[i]) == 2*f+1, "degree of the full share")
	}
	// column k of the coefficients is a polynomial of degree f in the party index: any f+1 parties
	// determine the same one
	for _, sub := range vSubsets(len(ps), f+1) {
		xs := make([]bls.VS, f+1)
		for i, a := range sub {
			xs[i] = bls.VK(uint64(ps[a].PID + 1))
		}
		for k := 0; k <= 2*f; k++ {
			ys := make([]bls.VS, f+1)
			for i, a := range sub {
				ys[i] = sh[a][k]
			}
			if k == 0 {
				vrt.Assert(bls.VEq(vLag(xs, ys, bls.VK(0)), s), "any F+1 full shares reconstruct the secret")
			}
			for i, p := range ps {
				vrt.Assert(bls.VEq(vLag(xs, ys, bls.VK(uint64(p.PID+1))), sh[i][k]), "the full shares lie on one sharing")
			}
		}
	}
}

// encodings of arbitrary group elements and scalars
func vPoint(a bls.VS) []byte {
	g := bls.VG1(a)
	return bls.ToCompressedG1(&g)
}
func vScalar(a bls.VS) []byte {
	x := bls.VFr(a)
	b := bls.FrTo32(&x)
	return append([]byte{}, b[:]...)
}

// vDone runs a protocol step and reports whether it returned on the messages delivered so far.
func vDone(f func()) bool {
	var mu sync.Mutex
	ok := false
	go func() {
		f()
		mu.Lock()
		ok = true
		mu.Unlock()
	}()
	vrt.Quiesce()
	mu.Lock()
	defer mu.Unlock()
	return ok
}

// the trapdoor of the fixed test setup
const vTau = "46015081477078601964787943834255776126696019968430095991502055467779756761969"

// vCheckReduceSent: the commitments are the ones of p.Proof, extended to all columns.
func vCheckReduceSent(p *HonestParty, f, pid int, id []byte) {
	n := 3*f + 1
	for i := 0; i < n; i++ {
		vrt.Assert(len(vSent(p.sendChannels[i])) == 0, "nothing goes to the old committee")
		ms := vSent(p.sendToNextChannels[i])
		vrt.Assert(len(ms) == 1 && ms[0].Sender == uint32(pid) && ms[0].Type == "ShareReduce" && string(ms[0].Id) == string(id), "every new member gets one contribution")
		var d protobuf.ShareReduce
		vrt.Assert(proto.Unmarshal(ms[0].Data, &d) == nil, "the contribution decodes")
		C, e1 := bls.FromCompressedG1(d.C)
		W, e2 := bls.FromCompressedG1(d.W)
		vrt.Assert(e1 == nil && e2 == nil && len(d.V) == 32, "the contribution is well formed")
		var b [32]byte
		var v, x, y, want bls.Fr
		copy(b[:], d.V)
		vrt.Assert(bls.FrFrom32(&v, b), "the value is a scalar")
		bls.AsFr(&x, uint64(pid+1))
		bls.AsFr(&y, uint64(i+1))
		bls.EvalPolyAt(&want, p.fullShare, &y)
		vrt.Assert(bls.EqualFr(&v, &want), "the value is the member's own point of the column")
		vrt.Assert(p.KZG.CheckProofSingle(C, W, &x, &v), "the opening verifies against the sent commitment")
		// the commitment is the interpolation of the public ones: C_i = sum_j L_j(i) CB_j
		acc := bls.ZeroG1
		for j := 1; j <= 2*f+1; j++ {
			l := bls.VK(1)
			for k := 1; k <= 2*f+1; k++ {
				if k != j {
					l = bls.VMul(l, bls.VMul(bls.VSub(bls.VK(uint64(i+1)), bls.VK(uint64(k))), bls.VInv(bls.VSub(bls.VK(uint64(j)), bls.VK(uint64(k))))))
				}
			}
			var t bls.G1Point
			lf := bls.VFr(l)
			bls.MulG1(&t, &p.Proof.PiContents[j].CBj, &lf)
			bls.AddG1(&acc, &acc, &t)
		}
		vrt.Assert(bls.EqualG1(C, &acc), "the commitment is the one of the member's column")
	}
}

// ---- threshold signatures ----

var vSuite = kyberbls.NewBLS12381Suite()

// vKS is the kyber scalar of a value and vKV the value of a kyber scalar.
func vKS(a bls.VS) kyber.Scalar {
	x := bls.VFr(a)
	b := bls.FrTo32(&x)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	s := vSuite.G1().Scalar()
	s.SetBytes(b[:])
	return s
}
func vKV(s kyber.Scalar) bls.VS {
	m, err := s.MarshalBinary()
	vrt.Assert(err == nil && len(m) == 32, "a scalar of 32 bytes")
	var b [32]byte
	for i := range b {
		b[i] = m[31-i]
	}
	var x bls.Fr
	vrt.Assert(bls.FrFrom32(&x, b), "a canonical scalar")
	return bls.VOf(&x)
}

// vKeys are the signing keys of the polynomial with the given coefficients.
func vKeys(n int, coeff []bls.VS) ([]*share.PriShare, *share.PubPoly) {
	c := make([]kyber.Scalar, len(coeff))
	for i := range c {
		c[i] = vKS(coeff[i])
	}
	pp := share.CoefficientsToPriPoly(vSuite.G2(), c)
	return pp.Shares(n), pp.Commit(vSuite.G2().Point().Base())
}

// vSigner gives a party fixed signing keys.
func vSigner(p *HonestParty) {
	var c []bls.VS
	for i := uint64(0); i <= uint64(2*p.F); i++ {
		c = append(c, bls.VK(1000003+7919*i*i+i))
	}
	sks, pk := vKeys(int(p.N), c)
	p.SigPK, p.SigSK = pk, sks[p.PID]
}

// vEchoMsg is what endorsements of a value sign.
func vEchoMsg(id, value []byte) []byte {
	h := sha3.Sum512(value)
	return append(append([]byte("Echo"), id...), h[:]...)
}

// vShare is party j's signature share on a message.
func vShare(p *HonestParty, j int, msg []byte) []byte {
	var c []bls.VS
	for i := uint64(0); i <= uint64(2*p.F); i++ {
		c = append(c, bls.VK(1000003+7919*i*i+i))
	}
	sks, _ := vKeys(int(p.N), c)
	s, err := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(sks[j], msg)
	if err != nil {
		panic(err)
	}
	return s
}

// vCert is the certificate of the whole committee on a message.
func vCert(p *HonestParty, msg []byte) []byte {
	s := bls.VK(1000003)
	h := vSuite.G1().Point().(interface{ Hash([]byte) kyber.Point }).Hash(msg)
	b, _ := vSuite.G1().Point().Mul(vKS(s), h).MarshalBinary()
	return b
}
func vCertOK(p *HonestParty, msg, sig []byte) bool {
	return sigbls.NewSchemeOnG1(kyberbls.NewBLS12381Suite()).Verify(p.SigPK.Commit(), msg, sig) == nil
}
func vShareOK(p *HonestParty, msg, s []byte) (int, bool) {
	ts := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite())
	if ts.VerifyPartial(p.SigPK, msg, s) != nil {
		return 0, false
	}
	i, err := ts.IndexOf(s)
	return i, err == nil
}

// vBadShare lists endorsements that are not valid ones of party j on msg.
func vBadShare(p *HonestParty, kind, j int, msg []byte) []byte {
	switch kind {
	case 0: // another message
		return vShare(p, j, append(append([]byte{}, msg...), 1))
	case 1: // somebody else's share
		s := vShare(p, j, msg)
		s[1] = byte((j + 1) % int(p.N))
		return s
	case 2: // truncated
		return vShare(p, j, msg)[:20]
	}
	return nil
}

// ---- agreement ----

// vAgree is one party in an instance of the agreement protocol.
type vAgree struct {
	p      *HonestParty
	id     []byte
	mu     sync.Mutex
	out    []byte
	ended  bool
	sent   map[string][]*protobuf.Message // per type and instance, what one receiver got
	others bool
}

func vCat(a ...[]byte) []byte {
	var r []byte
	for _, x := range a {
		r = append(r, x...)
	}
	return r
}

// names of rounds, and of party j's instance in one
func (a *vAgree) idr(r int) []byte    { return vCat(a.id, utils.Uint32ToBytes(uint32(r))) }
func (a *vAgree) idj(r, j int) []byte { return vCat(a.idr(r), utils.Uint32ToBytes(uint32(j))) }

// what certificates sign: stage s of party j's value; the coin; no lock; unlocking
func (a *vAgree) stage(r, j, s int, v []byte) []byte {
	return vEchoMsg(vCat(a.idj(r, j), []byte{byte(s)}), v)
}
func (a *vAgree) coin(r int) []byte   { return vCat([]byte("Done"), a.idr(r)) }
func (a *vAgree) no(r int) []byte     { return vCat([]byte{0}, a.idr(r)) }
func (a *vAgree) unlock(r int) []byte { return vCat([]byte("Unlock"), a.idr(r)) }

func vStart(p *HonestParty, id, value, validation []byte) *vAgree {
	a := &vAgree{p: p, id: id, sent: map[string][]*protobuf.Message{}}
	go func() {
		v := MainProcess(p, id, value, validation)
		a.mu.Lock()
		a.out, a.ended = v, true
		a.mu.Unlock()
	}()
	return a
}

// result tells whether the party has decided, and what.
func (a *vAgree) result() ([]byte, bool) {
	vrt.Quiesce()
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.out, a.ended
}

// collect sorts what was sent; broadcasts reach everybody alike.
func (a *vAgree) collect() {
	vrt.Quiesce()
	var first []*protobuf.Message
	for i := range a.p.sendChannels {
		var bc []*protobuf.Message
		for _, m := range vSent(a.p.sendChannels[i]) {
			vrt.Assert(m.Sender == a.p.PID, "messages carry the own identity")
			if m.Type != "Echo" {
				bc = append(bc, m)
			}
		}
		if i == 0 {
			first = bc
		}
		vrt.Assert(len(bc) == len(first), "everybody gets the broadcasts")
		for k := range bc {
			vrt.Assert(bc[k].Type == first[k].Type && string(bc[k].Id) == string(first[k].Id) && vrt.EqBytes(bc[k].Data, first[k].Data), "everybody gets the same broadcasts")
		}
	}
	for _, m := range first {
		a.sent[m.Type+string(m.Id)] = append(a.sent[m.Type+string(m.Id)], m)
	}
}

// one is the single message of the type sent so far in the round, if any.
func (a *vAgree) one(typ string, r int, into proto.Message) bool {
	a.collect()
	ms := a.sent[typ+string(a.idr(r))]
	vrt.Assert(len(ms) <= 1, "at most one "+typ+" per round")
	if len(ms) == 0 {
		return false
	}
	vrt.Assert(proto.Unmarshal(ms[0].Data, into) == nil, "the "+typ+" decodes")
	return true
}

// messages of party j in round r
func (a *vAgree) finish(r, j int, v []byte) {
	vPut(a.p, vMsg("Finish", a.idr(r), uint32(j), &protobuf.Finish{Value: v, Sig: vCert(a.p, a.stage(r, j, 2, v))}))
}
func (a *vAgree) done(r, j int) {
	vPut(a.p, vMsg("Done", a.idr(r), uint32(j), &protobuf.Done{CoinShare: vShare(a.p, j, a.coin(r))}))
}
func (a *vAgree) lock(r, j int, v []byte) {
	vPut(a.p, vMsg("Value", vCat(a.idj(r, j), []byte{1}), uint32(j), &protobuf.Value{Value: v}))
	vPut(a.p, vMsg("Value", vCat(a.idj(r, j), []byte{2}), uint32(j), &protobuf.Value{Value: v, Validation: vCert(a.p, a.stage(r, j, 1, v))}))
}
func (a *vAgree) preYes(r, l, j int, v []byte) {
	vPut(a.p, vMsg("PreVote", a.idr(r), uint32(j), &protobuf.PreVote{Vote: true, Value: v, Sig: vCert(a.p, a.stage(r, l, 1, v))}))
}
func (a *vAgree) preNo(r, j int) {
	vPut(a.p, vMsg("PreVote", a.idr(r), uint32(j), &protobuf.PreVote{Sig: vShare(a.p, j, a.no(r))}))
}
func (a *vAgree) yes(r, l, j int, v []byte) {
	vPut(a.p, vMsg("Vote", a.idr(r), uint32(j), &protobuf.Vote{Vote: true, Value: v, Sig: vCert(a.p, a.stage(r, l, 1, v)), Sigshare: vShare(a.p, j, a.stage(r, l, 2, v))}))
}
func (a *vAgree) noVote(r, j int) {
	vPut(a.p, vMsg("Vote", a.idr(r), uint32(j), &protobuf.Vote{Sig: vCert(a.p, a.no(r)), Sigshare: vShare(a.p, j, a.unlock(r))}))
}

// vVal is the value of party j in round r of the environment.
func vVal(r, j int) []byte { return []byte{'v', byte('0' + r), byte('0' + j)} }

// aLeader is like leader for checks in which the leader's identity plays no role: the solver looks
// at one of them only.
func (a *vAgree) aLeader(r int) int {
	l := a.leader(r)
	if vrt.Symbolic() {
		vrt.Assume(l == 2)
	}
	return l
}

// leader finds the round's leader by watching another party that holds everybody's lock.
func (a *vAgree) leader(r int) int {
	if r > 0 {
		panic("leader of later rounds")
	}
	q := vParty(a.p.N, a.p.F, a.p.N-1)
	vSigner(q)
	b := vStart(q, a.id, []byte("x"), nil)
	vrt.Quiesce()
	for j := 0; j < int(q.N); j++ {
		b.lock(r, j, vVal(r, j))
	}
	vrt.Quiesce()
	for j := 0; j <= int(2*q.F); j++ {
		b.done(r, j)
	}
	var pv protobuf.PreVote
	vrt.Assert(b.one("PreVote", r, &pv), "the leader is elected")
	for j := 0; j < int(q.N); j++ {
		if string(pv.Value) == string(vVal(r, j)) {
			vrt.Assert(pv.Vote && vCertOK(q, a.stage(r, j, 1, vVal(r, j)), pv.Sig), "the lock of the leader is reported with its certificate")
			// end the auxiliary party
			vPut(q, vMsg("Halt", a.idr(r), uint32(j), &protobuf.Halt{Value: vVal(r, j), Sig: vCert(q, a.stage(r, j, 2, vVal(r, j)))}))
			_, end := b.result()
			vrt.Assert(end, "a valid halt ends the instance")
			return j
		}
	}
	vrt.Assert(false, "the pre-vote carries the leader's value")
	vrt.Stop()
	return 0
}

// elect takes the party through the election of the round: two honest finishers, then the coin.
func (a *vAgree) elect(r int) {
	for j := 0; j <= int(2*a.p.F); j++ {
		a.done(r, j)
	}
	vrt.Quiesce()
}

func vMe() *vAgree { return vMeIn(1) }
func vMeIn(f int) *vAgree {
	p := vParty(uint32(3*f+1), uint32(f), 1)
	vSigner(p)
	return vStart(p, []byte("agreement"), []byte("own"), []byte("proof"))
}

// ---- reliable broadcast ----

// vRBC is a party in one broadcast instance.
type vRBC struct {
	p   *HonestParty
	id  []byte
	mu  sync.Mutex
	out *protobuf.Message
	end bool
	vot []*protobuf.RBCReady
}

// vListen starts a party in the instance of the given sender.
func vListen(n, f, pid uint32, id []byte, sender uint32) *vRBC {
	r := &vRBC{p: vParty(n, f, pid), id: id}
	go func() {
		m := r.p.RBCReceiveFrom(id, sender)
		r.mu.Lock()
		r.out, r.end = m, true
		r.mu.Unlock()
	}()
	vrt.Quiesce()
	return r
}
func (r *vRBC) result() (*protobuf.Message, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.out, r.end
}

// votes returns the party's votes so far; every party must have been sent the same ones.
func (r *vRBC) votes() []*protobuf.RBCReady {
	for j, c := range r.p.sendChannels {
		for _, m := range vSent(c) {
			if m.Type != "RBCReady" || j != 0 {
				continue
			}
			var x protobuf.RBCReady
			vrt.Assert(proto.Unmarshal(m.Data, &x) == nil && m.Sender == r.p.PID && string(m.Id) == string(r.id), "the vote decodes and is the party's")
			r.vot = append(r.vot, &x)
		}
	}
	return r.vot
}
func (r *vRBC) put(typ string, from int, x proto.Message) {
	vPut(r.p, vMsg(typ, r.id, uint32(from), x))
}

// vProposal is what the sender of an instance broadcasts for a message.
func vProposal(n, f, pid uint32, id []byte, m *protobuf.Message) *protobuf.Message {
	p := vParty(n, f, pid)
	p.RBCSend(m, id)
	var out *protobuf.Message
	for _, c := range p.sendChannels {
		ms := vSent(c)
		vrt.Assert(len(ms) == 1, "the proposal goes to everybody once")
		out = ms[0]
	}
	return out
}

// vEchoes are the echoes of an honest party that gets the proposal, by recipient.
func vEchoes(n, f, pid uint32, id []byte, prop *protobuf.Message) []*protobuf.RBCEcho {
	r := vListen(n, f, pid, id, prop.Sender)
	vPut(r.p, prop)
	vrt.Quiesce()
	return r.echoes()
}
func (r *vRBC) echoes() []*protobuf.RBCEcho {
	var out []*protobuf.RBCEcho
	for _, c := range r.p.sendChannels {
		ms := vSent(c)
		vrt.Assert(len(ms) == 1 && ms[0].Type == "RBCEcho" && ms[0].Sender == r.p.PID, "a proposal is echoed once to everybody")
		var x protobuf.RBCEcho
		vrt.Assert(proto.Unmarshal(ms[0].Data, &x) == nil, "the echo decodes")
		out = append(out, &x)
	}
	return out
}

// ---- committees ----

// vNow, vLate and vLost are networks that deliver a message at once, after everything else has settled, and never.
func vNow(m *protobuf.Message) (now, late []*protobuf.Message)  { return []*protobuf.Message{m}, nil }
func vLate(m *protobuf.Message) (now, late []*protobuf.Message) { return nil, []*protobuf.Message{m} }
func vLost(m *protobuf.Message) (now, late []*protobuf.Message) { return nil, nil }

// vCarry carries messages inside a committee, and to the next one, until nothing moves. The network
// says what becomes of a message.
func vCarry(ps, next []*HonestParty, net func(from, to int, m *protobuf.Message) (now, late []*protobuf.Message)) {
	type held struct {
		to *HonestParty
		m  *protobuf.Message
	}
	var kept []held
	moved := false
	move := func(from, to int, q *HonestParty, m *protobuf.Message) {
		if m.Type == "Value" && len(m.Id) > len(vID)+4 && vrt.Symbolic() {
			if b := m.Id[len(vID):]; int(b[2])<<8|int(b[3]) > 1 {
				vrt.Stop() // an unlucky leader again and again: no bound on the rounds
			}
		}
		now, late := vNow(m)
		if net != nil {
			now, late = net(from, to, m)
		}
		for _, x := range now {
			vPut(q, x)
			moved = true
		}
		for _, x := range late {
			kept = append(kept, held{q, x})
		}
	}
	for quiet := 0; quiet < 2; {
		vrt.Quiesce()
		moved = false
		for i := range ps {
			for j := range ps {
				for _, m := range vSent(ps[i].sendChannels[j]) {
					move(i, j, ps[j], m)
				}
			}
			for j := range next {
				for _, m := range vSent(ps[i].sendToNextChannels[j]) {
					move(i, j, next[j], m)
				}
			}
		}
		if moved {
			quiet = 0
			continue
		}
		quiet++
		for _, k := range kept {
			vPut(k.to, k.m)
			quiet = 0
		}
		kept = nil
	}
}

// vID names the handoff.
var vID = []byte("handoff")

// vLeaderAt names the handoff such that the given party leads the first round of the agreement.
func vLeaderAt(n, f uint32, l int) {
	p := vParty(n, f, 0)
	vID = []byte("handoff")
	for {
		a := &vAgree{p: p, id: vID}
		now := a.leader(0)
		if vrt.Symbolic() {
			vrt.Assume(now == l)
		}
		if now == l {
			return
		}
		vID = append(vID, 'x')
	}
}

// vHolders gives the members of a new committee shares of one sharing B(x,y) of the returned secret,
// as they have them before the refresh.
func vHolders(n, f uint32) ([]*HonestParty, bls.VS) {
	ps := make([]*HonestParty, n)
	B := make([][]bls.VS, f+1)
	for i := range B {
		B[i] = make([]bls.VS, 2*f+1)
		for j := range B[i] {
			B[i][j] = bls.VVar("B")
		}
	}
	for k := range ps {
		p := vParty(n, f, uint32(k))
		vSigner(p)
		p.e = 1
		for i := range B {
			p.reducedShare[i] = bls.VFr(bls.VEval(B[i], bls.VK(uint64(k+1))))
		}
		for j := uint32(1); j <= 2*f+1; j++ {
			col := make([]bls.Fr, f+1)
			for i := range col {
				col[i] = bls.VFr(bls.VEval(B[i], bls.VK(uint64(j))))
			}
			p.Proof.PiContents[j].CBj = *p.KZG.CommitToPoly(col)
		}
		ps[k] = p
	}
	return ps, B[0][0]
}

// vAll runs a step at every member; the result tells who has returned.
func vAll(ps []*HonestParty, step func(p *HonestParty)) []bool {
	done := make([]bool, len(ps))
	for i := range ps {
		i := i
		go func() {
			step(ps[i])
			done[i] = true
		}()
	}
	return done
}

func vHandoff(p *HonestParty) { p.ProactivizeAndShareDist(vID) }

func vDecG1(b []byte) bls.G1Point {
	p, err := bls.FromCompressedG1(b)
	vrt.Assert(err == nil, "a point decodes")
	return *p
}
func vGAdd(a, b bls.G1Point) (r bls.G1Point) { bls.AddG1(&r, &a, &b); return }
func vGMul(a bls.G1Point, k bls.VS) (r bls.G1Point) {
	x := bls.VFr(k)
	bls.MulG1(&r, &a, &x)
	return
}
func vGEq(a, b bls.G1Point) bool { return bls.EqualG1(&a, &b) }
func vDecFr(b []byte) bls.VS {
	var x bls.Fr
	var a [32]byte
	copy(a[:], b)
	vrt.Assert(len(b) == 32 && bls.FrFrom32(&x, a), "a scalar decodes")
	return bls.VOf(&x)
}

// vAt is the value at t of the polynomial with the given values at 1, 2, ...
func vAt(y []bls.VS, t uint64) bls.VS {
	var x []bls.VS
	for k := range y {
		x = append(x, bls.VK(uint64(k+1)))
	}
	return vLag(x, y, bls.VK(t))
}

func vGAt(y []bls.G1Point, t uint64) bls.G1Point {
	r := bls.ZeroG1
	for k := range y {
		e := make([]bls.VS, len(y))
		for i := range e {
			e[i] = bls.VK(0)
		}
		e[k] = bls.VK(1)
		r = vGAdd(r, vGMul(y[k], vAt(e, t)))
	}
	return r
}

func vRefreshID(k int) []byte { return []byte(string(vID) + "_1," + strconv.Itoa(k+1)) }

// vRefresh is a refresh in a committee; it records what the members agree on and contribute.
type vRefresh struct {
	ps     []*HonestParty
	done   []bool
	old    [][]bls.VS
	n, f   int
	bad    int // the first faulty member
	chosen bool
	cont   [][]map[int]bls.VS // what member i contributes to member j's share, by where it was evaluated
	J      []uint32
}

func vRefreshing(leader int) *vRefresh { return vRefreshingN(1, leader) }
func vRefreshingN(f, leader int) *vRefresh {
	n := 3*f + 1
	vLeaderAt(uint32(n), uint32(f), leader)
	r := &vRefresh{n: n, f: f, cont: make([][]map[int]bls.VS, n)}
	for i := range r.cont {
		r.cont[i] = make([]map[int]bls.VS, n)
	}
	r.ps, _ = vHolders(uint32(n), uint32(f))
	for _, p := range r.ps {
		r.old = append(r.old, vPoly(p.reducedShare))
	}
	r.done = vAll(r.ps, vHandoff)
	return r
}

// faulty chooses who is faulty: the first F members, or the last.
func (r *vRefresh) faulty() {
	r.bad, r.chosen = (2*r.f+1)*(1-vrt.Choose("faulty", 2)), true
}
func (r *vRefresh) isBad(i int) bool { return r.chosen && i >= r.bad && i < r.bad+r.f }

// honest lists 2F+1 members that are not faulty.
func (r *vRefresh) honest() (h []int) {
	for i := 0; i < r.n && len(h) < 2*r.f+1; i++ {
		if !r.isBad(i) {
			h = append(h, i)
		}
	}
	return
}

// among: i is one of the first k honest members.
func (r *vRefresh) among(i, k int) bool {
	for _, x := range r.honest()[:k] {
		if x == i {
			return true
		}
	}
	return false
}

// see looks at a message on its way.
func (r *vRefresh) see(i, j int, m *protobuf.Message) {
	switch m.Type {
	case "Reshare":
		var d protobuf.Reshare
		vrt.Assert(proto.Unmarshal(m.Data, &d) == nil && len(d.Qk) == 2*r.f+1, "the values decode")
		var y []bls.VS
		for _, q := range d.Qk {
			y = append(y, vDecFr(q))
		}
		for k := 0; k < r.n; k++ {
			if r.cont[i][k] == nil {
				r.cont[i][k] = map[int]bls.VS{}
			}
			r.cont[i][k][j+1] = vAt(y, uint64(k+1))
		}
	case "Halt":
		if !r.among(i, 2*r.f+1) {
			return
		}
		var h protobuf.Halt
		var in protobuf.MVBAIN
		vrt.Assert(proto.Unmarshal(m.Data, &h) == nil && proto.Unmarshal(h.Value, &in) == nil, "the decision decodes")
		r.J = in.J
	}
}

// check: member i's refreshed share is the old one plus the contributions agreed on.
func (r *vRefresh) check(i int) {
	vrt.Assert(r.done[i], "the member completes the handoff")
	vrt.Assert(len(r.J) >= r.f+1, "enough contributions are agreed on")
	vrt.Assert(len(r.ps[i].reducedShare) == r.f+1, "degree of the reduced share")
	for x := 1; x <= r.f+1; x++ {
		want := bls.VEval(r.old[i], bls.VK(uint64(x)))
		used := map[uint32]bool{}
		for _, j := range r.J {
			vrt.Assert(j >= 1 && int(j) <= r.n && !used[j], "the agreed contributions are different ones")
			used[j] = true
			want = bls.VAdd(want, r.cont[j-1][i][x])
		}
		vrt.Assert(bls.VEq(bls.VEval(vPoly(r.ps[i].reducedShare), bls.VK(uint64(x))), want), "the refreshed share is the old one plus the agreed contributions")
	}
}

// vHandOver hands the sharing of a committee over to a new one, up to the refresh.
func vHandOver(ps []*HonestParty, net func(from, to int, m *protobuf.Message) (now, late []*protobuf.Message)) []*HonestParty {
	next := make([]*HonestParty, len(ps))
	for i := range next {
		next[i] = vParty(ps[0].N, ps[0].F, uint32(i))
		vSigner(next[i])
		next[i].e = ps[0].e + 1
	}
	vAll(ps, func(p *HonestParty) {
		p.PrepareSend([]byte("prepare"))
		p.ShareReduceSend([]byte("reduce"))
	})
	reduced := vAll(next, func(p *HonestParty) {
		p.PrepareReceive([]byte("prepare"))
		p.ShareReduceReceive([]byte("reduce"))
	})
	vCarry(ps, next, net)
	for i := range next {
		vrt.Assert(reduced[i], "every new member gets its reduced share")
	}
	return next
}

// vRefreshAll runs the refresh to its end.
func vRefreshAll(ps []*HonestParty, net func(from, to int, m *protobuf.Message) (now, late []*protobuf.Message)) {
	done := vAll(ps, vHandoff)
	vCarry(ps, nil, net)
	for i := range ps {
		vrt.Assert(done[i], "every member completes the handoff")
	}
}

// full: member i's full share goes through the refreshed shares of the given members.
func (r *vRefresh) full(i int, members ...int) {
	vrt.Assert(r.done[i], "the member completes the handoff")
	p := r.ps[i]
	vrt.Assert(len(p.fullShare) == 2*r.f+1, "degree of the full share")
	for _, j := range members {
		want := bls.VEval(vPoly(r.ps[j].reducedShare), bls.VK(uint64(i+1)))
		vrt.Assert(bls.VEq(bls.VEval(vPoly(p.fullShare), bls.VK(uint64(j+1))), want), "the full share consists of the members' refreshed shares")
	}
}
