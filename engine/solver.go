package main

// Satisfiability of path conditions: z3 (one process per worker, driven over a pipe)
// decides the bit-vector/boolean structure; atoms "polynomial = 0 over GF(p)" are
// abstracted to booleans and checked by the field theory (theory.go), conflicts being
// returned to z3 as blocking clauses (lazy SMT).

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

type Model struct {
	bv  map[int]*big.Int // by term id of variables (and opaque bytes)
	fld fAssign
}

type Stats struct {
	Queries, Z3, Theory, Sat, Unsat, Unknown, Lemmas, Certs, CertBad int64
	SolverNs, Z3Ns                                                   int64
}

func (a *Stats) add(b *Stats) {
	a.Queries += b.Queries
	a.Z3 += b.Z3
	a.Theory += b.Theory
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Lemmas += b.Lemmas
	a.Certs += b.Certs
	a.CertBad += b.CertBad
	a.SolverNs += b.SolverNs
	a.Z3Ns += b.Z3Ns
}

type Solver struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inPipe  io.WriteCloser
	c       *TCtx
	def     map[int]bool
	sent    int // number of pcs sent to z3
	pcs     []*Term
	kinds   []int // 0 pure bv, 1 field literal, 2 mixed
	nMixed  int
	th      *Theory
	kindM   map[int]int
	vars    []*Term // declared bv variables
	atoms   []*Term // declared field atoms
	st      Stats
	timeout int // ms per z3 query
	bin     string
	mono    map[string]bool // names of int monomials declared (certificates)
	log     io.Writer
	overrun bool   // z3 exceeded its wall-clock limit and was stopped
	model   *Model // a model of the current pcs, if known
}

func newSolver(bin string, timeoutMs int) *Solver {
	return &Solver{timeout: timeoutMs, bin: bin}
}
func (s *Solver) start() {
	if s.cmd != nil {
		return
	}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	ip, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	op, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.Create(p)
		s.log = f
	}
	s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	s.send("(push 1)\n")
}
func (s *Solver) kill() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}
func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}
func (s *Solver) reset(c *TCtx) {
	s.c = c
	s.def = map[int]bool{}
	s.sent = 0
	s.pcs = nil
	s.kinds = nil
	s.nMixed = 0
	s.th = newTheory(c.f)
	s.kindM = map[int]int{}
	s.vars = nil
	s.atoms = nil
	s.model = &Model{bv: map[int]*big.Int{}, fld: fAssign{}}
	if s.cmd != nil {
		s.send("(pop 1)\n(push 1)\n")
	}
}

// kind: bit0 has bv parts, bit1 has field atoms
func (s *Solver) kindOf(t *Term) int {
	if k, ok := s.kindM[t.id]; ok {
		return k
	}
	k := 0
	switch t.op {
	case OFEq:
		k = 2
	case OConst:
		k = 0
	case OVar, OByte:
		k = 1
	default:
		for _, a := range t.a {
			k |= s.kindOf(a)
		}
	}
	s.kindM[t.id] = k
	return k
}
func (s *Solver) litKind(t *Term) int {
	if t.op == OFEq || (t.op == OBNot && t.a[0].op == OFEq) {
		return 1
	}
	if s.kindOf(t)&2 != 0 {
		return 2
	}
	return 0
}

// Assert adds t to the path condition; m, if non-nil, is a model of the extended condition.
func (s *Solver) Assert(t *Term, m *Model) {
	if t.op == OBAnd {
		for _, x := range t.a {
			s.assert1(x)
		}
	} else {
		s.assert1(t)
	}
	if m != nil {
		s.model = m
	} else if s.model != nil && !s.evalBool(t, s.model) {
		s.model = nil
	}
}
func (s *Solver) assert1(t *Term) {
	if t == s.c.T {
		return
	}
	k := s.litKind(t)
	s.pcs = append(s.pcs, t)
	s.kinds = append(s.kinds, k)
	if k == 2 {
		s.nMixed++
	}
	if k == 1 {
		if t.op == OFEq {
			s.th.addEq(t.poly)
		} else {
			s.th.addDis(t.a[0].poly)
		}
	}
}

func tname(t *Term) string { return fmt.Sprintf("t%d", t.id) }
func sortName(w uint16) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func (s *Solver) define(t *Term) {
	if s.def[t.id] || t.op == OConst {
		return
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.a) {
			x := f.t.a[f.i]
			f.i++
			if !s.def[x.id] && x.op != OConst {
				st = append(st, fr{x, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.def[x.id] {
			continue
		}
		s.def[x.id] = true
		switch x.op {
		case OVar, OByte:
			s.vars = append(s.vars, x)
			s.send(fmt.Sprintf("(declare-const t%d %s)\n", x.id, sortName(x.w)))
		case OFEq:
			s.atoms = append(s.atoms, x)
			s.send(fmt.Sprintf("(declare-const t%d Bool)\n", x.id))
		default:
			var sb strings.Builder
			for _, a := range x.a {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(a))
			}
			body := ""
			switch x.op {
			case OExtract:
				body = fmt.Sprintf("((_ extract %d %d)%s)", x.k>>16, x.k&0xffff, sb.String())
			case OZExt:
				body = fmt.Sprintf("((_ zero_extend %d)%s)", x.k, sb.String())
			case OLin:
				body = s.linSMT(x)
			case OSExt:
				body = fmt.Sprintf("((_ sign_extend %d)%s)", x.k, sb.String())
			default:
				body = "(" + opSMT[x.op] + sb.String() + ")"
			}
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortName(x.w), body))
		}
	}
}
func (s *Solver) linSMT(x *Term) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "(bvxor (_ bv%d 8)", x.k)
	for i, t := range x.a {
		for b := 0; b < 8; b++ {
			fmt.Fprintf(&sb, " (ite (= ((_ extract %d %d) %s) #b1) (_ bv%d 8) (_ bv0 8))", b, b, s.ref(t), gfMul(x.name[i], 1<<b))
		}
	}
	return sb.String() + ")"
}
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w > 64 {
			return fmt.Sprintf("((_ zero_extend %d) #x%016x)", t.w-64, t.k)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	}
	return tname(t)
}
func (s *Solver) sync() {
	s.start()
	for ; s.sent < len(s.pcs); s.sent++ {
		if s.kinds[s.sent] == 1 {
			continue
		}
		t := s.pcs[s.sent]
		s.define(t)
		s.send("(assert " + s.ref(t) + ")\n")
	}
}
func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			if s.overrun {
				panic(z3Dead{})
			}
			panic(engineErr("solver died: " + err.Error()))
		}
		if sb.Len() == 0 && (b == '\n' || b == ' ' || b == '\r') {
			continue
		}
		if b == '\n' && depth == 0 {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String()
			}
		}
	}
}
func (s *Solver) checkSat() string {
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	p := s.cmd.Process
	s.overrun = false
	tm := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond+3*time.Second, func() { s.overrun = true; p.Kill() })
	defer tm.Stop()
	r := s.readSexp()
	s.st.Z3++
	s.st.Z3Ns += int64(time.Since(t0))
	if strings.HasPrefix(r, "(error") {
		panic(engineErr("solver error: " + r))
	}
	return r
}
func (s *Solver) getBV() map[int]*big.Int {
	m := map[int]*big.Int{}
	for i := 0; i < len(s.vars); i += 200 {
		j := min(i+200, len(s.vars))
		var sb strings.Builder
		for _, v := range s.vars[i:j] {
			sb.WriteString(" " + tname(v))
		}
		s.send("(get-value (" + sb.String() + "))\n")
		s.in.Flush()
		r := s.readSexp()
		toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(r))
		k := 0
		for _, v := range s.vars[i:j] {
			if k+1 >= len(toks) || toks[k] != tname(v) {
				panic(engineErr("bad model: " + r))
			}
			x := toks[k+1]
			k += 2
			b := new(big.Int)
			switch {
			case x == "true":
				b.SetInt64(1)
			case x == "false":
			case strings.HasPrefix(x, "#x"):
				b.SetString(x[2:], 16)
			case strings.HasPrefix(x, "#b"):
				b.SetString(x[2:], 2)
			default:
				panic(engineErr("bad model value " + x))
			}
			m[v.id] = b
		}
	}
	return m
}
func (s *Solver) getAtoms(atoms []*Term) map[int]bool {
	m := map[int]bool{}
	if len(atoms) == 0 {
		return m
	}
	var sb strings.Builder
	for _, v := range atoms {
		sb.WriteString(" " + tname(v))
	}
	s.send("(get-value (" + sb.String() + "))\n")
	s.in.Flush()
	toks := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(s.readSexp()))
	for i := 0; i+1 < len(toks); i += 2 {
		for _, v := range atoms {
			if toks[i] == tname(v) {
				m[v.id] = toks[i+1] == "true"
			}
		}
	}
	return m
}

func (s *Solver) count(r string) {
	switch r {
	case "sat":
		s.st.Sat++
	case "unsat":
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
}

// Check decides pcs /\ extra.
func (s *Solver) Check(extra *Term) (string, *Model) {
	t0 := time.Now()
	s.st.Queries++
	r, m := s.checkGuard(extra)
	s.st.SolverNs += int64(time.Since(t0))
	s.count(r)
	return r, m
}

type z3Dead struct{}

// checkGuard answers "unknown" when z3 overran its wall-clock limit and was stopped.
func (s *Solver) checkGuard(extra *Term) (r string, m *Model) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(z3Dead); !ok {
				panic(e)
			}
			s.drop()
			r, m = "unknown", nil
		}
	}()
	return s.check(extra)
}
func (s *Solver) checkSatGuard() (r string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(z3Dead); !ok {
				panic(e)
			}
			s.drop()
			r = "unknown"
		}
	}()
	return s.checkSat()
}

// drop forgets the z3 process; the next query starts another and sends the path condition again.
func (s *Solver) drop() {
	s.kill()
	s.def = map[int]bool{}
	s.sent = 0
	s.vars = nil
	s.atoms = nil
}
func (s *Solver) check(extra *Term) (string, *Model) {
	if extra == s.c.F {
		return "unsat", nil
	}
	if s.model != nil && s.evalBool(extra, s.model) {
		return "sat", s.model
	}
	var lits []*Term
	if extra.op == OBAnd {
		lits = extra.a
	} else {
		lits = []*Term{extra}
	}
	anyF, anyB, anyM := false, false, false
	for _, l := range lits {
		switch s.litKind(l) {
		case 0:
			anyB = true
		case 1:
			anyF = true
		case 2:
			anyM = true
		}
	}
	th := s.th
	if anyF {
		th = s.th.clone()
		for _, l := range lits {
			if s.litKind(l) == 1 {
				if l.op == OFEq {
					th.addEq(l.poly)
				} else {
					th.addDis(l.a[0].poly)
				}
			}
		}
	}
	var fm fAssign
	if anyF || s.model == nil || anyM || s.nMixed > 0 {
		s.st.Theory++
		r, m := th.sat()
		if r == "unsat" {
			if anyF {
				s.certify(lits)
			}
			return "unsat", nil
		}
		if r == "unknown" && !(anyM || s.nMixed > 0) {
			return "unknown", nil
		}
		fm = m
	} else {
		fm = s.model.fld
	}
	if !anyB && !anyM && s.nMixed == 0 {
		if s.model != nil {
			return "sat", &Model{bv: s.model.bv, fld: fm}
		}
		hasB := false
		for _, k := range s.kinds {
			if k != 1 {
				hasB = true
			}
		}
		if !hasB {
			return "sat", &Model{bv: map[int]*big.Int{}, fld: fm}
		}
	}
	// need z3
	s.sync()
	for _, l := range lits {
		if s.litKind(l) != 1 {
			s.define(l)
		}
	}
	// field atoms occurring in mixed formulas; literals of the path condition fix some of them
	var atoms []*Term
	if anyM || s.nMixed > 0 {
		seen := map[int]bool{}
		var walk func(t *Term)
		vis := map[int]bool{}
		walk = func(t *Term) {
			if vis[t.id] || s.kindOf(t)&2 == 0 {
				return
			}
			vis[t.id] = true
			if t.op == OFEq && !seen[t.id] {
				seen[t.id] = true
				atoms = append(atoms, t)
			}
			for _, a := range t.a {
				walk(a)
			}
		}
		for i, p := range s.pcs {
			if s.kinds[i] == 2 {
				walk(p)
			}
		}
		for _, l := range lits {
			if s.litKind(l) == 2 {
				walk(l)
			}
		}
	}
	s.send("(push 1)\n")
	defer func() { s.send("(pop 1)\n") }()
	for _, l := range lits {
		if s.litKind(l) != 1 {
			s.send("(assert " + s.ref(l) + ")\n")
		}
	}
	// tell z3 about field literals already decided
	lit := func(l *Term) {
		a := l
		if l.op == OBNot {
			a = l.a[0]
		}
		for _, x := range atoms {
			if x == a {
				if l.op == OBNot {
					s.send("(assert (not " + tname(a) + "))\n")
				} else {
					s.send("(assert " + tname(a) + ")\n")
				}
				return
			}
		}
	}
	if len(atoms) > 0 {
		for i, p := range s.pcs {
			if s.kinds[i] == 1 {
				lit(p)
			}
		}
		for _, l := range lits {
			if s.litKind(l) == 1 {
				lit(l)
			}
		}
	}
	for iter := 0; ; iter++ {
		if iter > 400 {
			return "unknown", nil
		}
		r := s.checkSat()
		if r != "sat" {
			return r, nil
		}
		if len(atoms) == 0 {
			return "sat", &Model{bv: s.getBV(), fld: fm}
		}
		av := s.getAtoms(atoms)
		tr := func(sub []*Term) (string, fAssign) {
			x := th.clone()
			for _, a := range sub {
				if av[a.id] {
					x.addEq(a.poly)
				} else {
					x.addDis(a.poly)
				}
				if len(x.alts) == 0 && !x.unknown {
					return "unsat", nil
				}
			}
			return x.sat()
		}
		s.st.Theory++
		tres, fmm := tr(atoms)
		if tres == "sat" {
			return "sat", &Model{bv: s.getBV(), fld: fmm}
		}
		if tres == "unknown" {
			return "unknown", nil
		}
		core := append([]*Term(nil), atoms...)
		for i := 0; i < len(core) && len(core) > 1; {
			tryc := append(append([]*Term(nil), core[:i]...), core[i+1:]...)
			s.st.Theory++
			if rr, _ := tr(tryc); rr == "unsat" {
				core = tryc
			} else {
				i++
			}
		}
		s.st.Lemmas++
		var sb strings.Builder
		sb.WriteString("(assert (or false")
		for _, a := range core {
			if av[a.id] {
				sb.WriteString(" (not " + tname(a) + ")")
			} else {
				sb.WriteString(" " + tname(a))
			}
		}
		sb.WriteString("))\n")
		s.send(sb.String())
	}
}

// ---- evaluation under a model ----

func (s *Solver) evalBool(t *Term, m *Model) bool {
	memo := map[int]*big.Int{}
	return s.eval(t, m, memo).Sign() != 0
}

var bigOne = big.NewInt(1)
var bigZero = new(big.Int)

func bmask(w uint16) *big.Int {
	x := new(big.Int).Lsh(bigOne, uint(w))
	return x.Sub(x, bigOne)
}
func bsigned(x *big.Int, w uint16) *big.Int {
	if x.Bit(int(w)-1) == 1 {
		return new(big.Int).Sub(x, new(big.Int).Lsh(bigOne, uint(w)))
	}
	return x
}
func b2b(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}
func (s *Solver) eval(t *Term, m *Model, memo map[int]*big.Int) *big.Int {
	switch t.op {
	case OConst:
		return new(big.Int).SetUint64(t.k)
	case OVar, OByte:
		if v, ok := m.bv[t.id]; ok {
			return v
		}
		return bigZero
	case OFEq:
		return b2b(s.c.f.polyEval(t.poly, m.fld) == (fe{}))
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *big.Int
	e := func(i int) *big.Int { return s.eval(t.a[i], m, memo) }
	switch t.op {
	case OLin:
		k := byte(t.k)
		for i := range t.a {
			k ^= gfMul(t.name[i], byte(e(i).Uint64()))
		}
		r = new(big.Int).SetUint64(uint64(k))
	case OBAnd:
		r = bigOne
		for i := range t.a {
			if e(i).Sign() == 0 {
				r = bigZero
				break
			}
		}
	case OBOr:
		r = bigZero
		for i := range t.a {
			if e(i).Sign() != 0 {
				r = bigOne
				break
			}
		}
	case OBNot:
		r = b2b(e(0).Sign() == 0)
	case OIte:
		if e(0).Sign() != 0 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OEq:
		r = b2b(e(0).Cmp(e(1)) == 0)
	case OUlt:
		r = b2b(e(0).Cmp(e(1)) < 0)
	case OUle:
		r = b2b(e(0).Cmp(e(1)) <= 0)
	case OSlt:
		w := t.a[0].w
		r = b2b(bsigned(e(0), w).Cmp(bsigned(e(1), w)) < 0)
	case OSle:
		w := t.a[0].w
		r = b2b(bsigned(e(0), w).Cmp(bsigned(e(1), w)) <= 0)
	case OConcat:
		r = new(big.Int).Lsh(e(0), uint(t.a[1].w))
		r.Or(r, e(1))
	case OExtract:
		r = new(big.Int).Rsh(e(0), uint(t.k&0xffff))
		r.And(r, bmask(t.w))
	case OZExt:
		r = e(0)
	case OSExt:
		r = new(big.Int).And(bsigned(e(0), t.a[0].w), bmask(t.w))
	default:
		x := e(0)
		mk := bmask(t.w)
		r = new(big.Int)
		switch t.op {
		case ONot:
			r.Xor(x, mk)
		case ONeg:
			r.Neg(x)
		default:
			y := e(1)
			switch t.op {
			case OAdd:
				r.Add(x, y)
			case OSub:
				r.Sub(x, y)
			case OMul:
				r.Mul(x, y)
			case OAnd:
				r.And(x, y)
			case OOr:
				r.Or(x, y)
			case OXor:
				r.Xor(x, y)
			case OUDiv:
				if y.Sign() == 0 {
					r.Set(mk)
				} else {
					r.Quo(x, y)
				}
			case OURem:
				if y.Sign() == 0 {
					r.Set(x)
				} else {
					r.Rem(x, y)
				}
			case OSDiv, OSRem:
				xs, ys := bsigned(x, t.w), bsigned(y, t.w)
				if ys.Sign() == 0 {
					if t.op == OSDiv {
						if xs.Sign() < 0 {
							r.SetInt64(1)
						} else {
							r.Set(mk)
						}
					} else {
						r.Set(x)
					}
				} else if t.op == OSDiv {
					r.Quo(xs, ys)
				} else {
					r.Rem(xs, ys)
				}
			case OShl:
				if y.Cmp(big.NewInt(int64(t.w))) < 0 {
					r.Lsh(x, uint(y.Uint64()))
				}
			case OLShr:
				if y.Cmp(big.NewInt(int64(t.w))) < 0 {
					r.Rsh(x, uint(y.Uint64()))
				}
			case OAShr:
				xs := bsigned(x, t.w)
				n := uint(t.w)
				if y.Cmp(big.NewInt(int64(t.w))) < 0 {
					n = uint(y.Uint64())
				}
				r.Rsh(xs, n)
			default:
				panic(engineErr(fmt.Sprintf("eval op %d", t.op)))
			}
		}
		r.And(r, mk)
	}
	memo[t.id] = r
	return r
}

// certify re-checks an unsat verdict of the field theory with z3: when every field literal is
// linear in its monomials the conjunction is restated over integer unknowns (one per monomial,
// plus a quotient per literal) as a linear combination certificate.  Only run when enabled.
func (s *Solver) certify(lits []*Term) {
	if !certifyField {
		return
	}
	// find l among lits that is a disequation whose polynomial is a GF(p)-combination of the equations
	var eqs []*Poly
	for i, p := range s.pcs {
		if s.kinds[i] == 1 && p.op == OFEq {
			eqs = append(eqs, p.poly)
		}
	}
	var g *Poly
	for _, l := range lits {
		if l.op == OFEq {
			eqs = append(eqs, l.poly)
		} else if l.op == OBNot && l.a[0].op == OFEq {
			g = l.a[0].poly
		}
	}
	if g == nil {
		return
	}
	lam := linComb(eqs, g)
	if lam == nil {
		return
	}
	t0 := time.Now()
	s.start()
	s.send("(push 1)\n")
	seen := map[uint32]bool{}
	lin := func(p *Poly) string {
		var sb strings.Builder
		sb.WriteString("(+ 0")
		for _, t := range p.t {
			if !seen[t.m] {
				seen[t.m] = true
				s.send(fmt.Sprintf("(declare-const m%d Int)\n", t.m))
			}
			fmt.Fprintf(&sb, " (* %s m%d)", feToBig(t.c), t.m)
		}
		sb.WriteString(")")
		return sb.String()
	}
	// hypotheses: e_i = p*k_i ; conclusion: g = p*K for K given by the certificate
	var sum strings.Builder
	sum.WriteString("(+ 0")
	tot := map[uint32]*big.Int{}
	for i, e := range eqs {
		if lam[i] == (fe{}) {
			continue
		}
		L := feToBig(lam[i])
		body := lin(e)
		s.send(fmt.Sprintf("(declare-const q%d Int)\n(assert (= %s (* %s q%d)))\n", i, body, pBig, i))
		fmt.Fprintf(&sum, " (* %s q%d)", L, i)
		for _, t := range e.t {
			if tot[t.m] == nil {
				tot[t.m] = new(big.Int)
			}
			tot[t.m].Add(tot[t.m], new(big.Int).Mul(L, feToBig(t.c)))
		}
	}
	// sum_i lam_i e_i - g = p * (quotient form)
	gl := lin(g)
	for _, t := range g.t {
		if tot[t.m] == nil {
			tot[t.m] = new(big.Int)
		}
		tot[t.m].Sub(tot[t.m], feToBig(t.c))
	}
	for m, k := range tot {
		q, r := new(big.Int).DivMod(k, pBig, new(big.Int))
		if r.Sign() != 0 {
			panic(engineErr("field certificate broken"))
		}
		qs := q.String()
		if q.Sign() < 0 {
			qs = "(- " + new(big.Int).Neg(q).String() + ")"
		}
		fmt.Fprintf(&sum, " (* (- 1) %s m%d)", qs, m)
	}
	sum.WriteString(")")
	s.send(fmt.Sprintf("(assert (not (= %s (* %s %s))))\n", gl, pBig, sum.String()))
	r := s.checkSatGuard()
	if s.cmd != nil {
		s.send("(pop 1)\n")
	}
	s.st.SolverNs += int64(time.Since(t0))
	if r == "unsat" {
		s.st.Certs++
	} else {
		s.st.CertBad++
	}
}

var certifyField = true

// linComb finds lam with g = sum lam_i e_i (as polynomials), or nil.
func linComb(es []*Poly, g *Poly) []fe {
	if len(es) > 60 {
		return nil
	}
	type row struct {
		p   *Poly
		lam []fe
	}
	var basis []row
	redu := func(r row) row {
		for _, b := range basis {
			lead := b.p.t[len(b.p.t)-1]
			for _, t := range r.p.t {
				if t.m == lead.m {
					k := feNeg(feMul(t.c, feInv(lead.c)))
					r.p = polyAddScaled(r.p, b.p, k)
					nl := make([]fe, len(es))
					for i := range nl {
						nl[i] = feAdd(r.lam[i], feMul(k, b.lam[i]))
					}
					r.lam = nl
					break
				}
			}
		}
		return r
	}
	for i, e := range es {
		l := make([]fe, len(es))
		l[i] = feOneM
		r := redu(row{e, l})
		if !r.p.isZero() {
			basis = append(basis, r)
		}
	}
	r := redu(row{g, make([]fe, len(es))})
	if !r.p.isZero() {
		return nil
	}
	for i := range r.lam {
		r.lam[i] = feNeg(r.lam[i])
	}
	return r.lam
}
