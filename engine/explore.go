package main

// Path exploration by re-execution: every path is identified by the list of decisions taken
// at its forks; alternatives are queued and executed by a pool of workers, each of which owns
// a solver process.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Harness struct {
	Name     string
	Fn       *ssa.Function
	Prop     string
	MaxPaths int
	MaxIns   int64
	Budget   time.Duration // total wall budget for this harness
	Pkg      string
	Tags     string
	Replay   string
}

type Violation struct {
	Harness string            `json:"harness"`
	Msg     string            `json:"msg"`
	Where   string            `json:"where"`
	Vars    map[string]string `json:"vars"`
	Kind    string            `json:"kind"` // assert, panic, crash, deadlock
	Sched   bool              `json:"sched"`
}
type Witness struct {
	Harness string            `json:"harness"`
	Vars    map[string]string `json:"vars"`
	Obs     []string          `json:"obs"`
}

type HResult struct {
	mu            sync.Mutex
	H             *Harness
	Paths         int64
	Completed     int64
	Infeasible    int64
	Asserts       int64
	Trivial       int64
	Discharged    int64
	Unknown       int64
	Truncated     int64 // paths cut by a budget
	Unsupported   map[string]int64
	Imprecise     int64
	Ends          map[string]int64
	Reached       map[string]int64
	Violations    []Violation
	Witnesses     []Witness
	Instrs        int64
	Funcs         map[*ssa.Function]bool
	Stats         Stats
	PathsCut      bool
	start         time.Time
	Wall          time.Duration
	pending       int
	busy, running time.Duration
	notes         map[string]string
}

type job struct {
	r      *HResult
	prefix []uint64
}
type Explorer struct {
	pr       *Program
	mu       sync.Mutex
	cond     *sync.Cond
	stack    []job
	active   int
	deadline time.Time
	z3       string
	z3ms     int
	vioCap   int
	trace    bool
	tier     string
}

type Worker struct {
	ex    *Explorer
	s     *Solver
	dead  time.Time
	clock int
}

func (w *Worker) expired() bool { return time.Now().After(w.dead) }

type choiceRec struct {
	name string
	v    int
}
type symVar struct {
	name string
	t    *Term
	fv   uint32
	blob *Blob
}
type Path struct {
	w       *Worker
	in      *Interp
	r       *HResult
	s       *Solver
	prefix  []uint64
	pos     int
	trace   []uint64
	names   map[string]int
	choices []choiceRec
	vars    []symVar
	imprec  bool
	obs     []obsRec
	sched   bool
}
type obsRec struct {
	name string
	v    Value
}

func (p *Path) uniq(name string) string {
	n := p.names[name]
	p.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}
func (p *Path) replaying() bool { return p.pos < len(p.prefix) }
func (p *Path) next() uint64 {
	v := p.prefix[p.pos]
	p.pos++
	p.trace = append(p.trace, v)
	return v
}
func (p *Path) fork(alt uint64) {
	pre := append(append([]uint64(nil), p.trace...), alt)
	p.w.ex.push(p.r, pre)
}

func (p *Path) branch(t *Term, fr *frame) bool {
	if p.replaying() {
		d := p.next()
		if d == 1 {
			p.s.Assert(t, nil)
			return true
		}
		p.s.Assert(p.in.c.Not(t), nil)
		return false
	}
	nt := p.in.c.Not(t)
	r1, m1 := p.s.Check(t)
	r2, m2 := "sat", (*Model)(nil)
	if r1 != "unsat" {
		r2, m2 = p.s.Check(nt)
	}
	if r1 == "unknown" || r2 == "unknown" {
		p.imprec = true
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "unknown branch (%s,%s) at %s: %.300s\n", r1, r2, fr.where(), t.String())
		}
	}
	if r1 == "unsat" && r2 == "unsat" {
		panic(pathEnd{"infeasible"})
	}
	switch {
	case r1 == "unsat":
		p.trace = append(p.trace, 0)
		p.s.Assert(nt, m2)
		return false
	case r2 == "unsat":
		p.trace = append(p.trace, 1)
		p.s.Assert(t, m1)
		return true
	}
	// fork
	if os.Getenv("VERIF_FORKS") != "" {
		fmt.Fprintf(os.Stderr, "fork at %s: %.200s\n", fr.where(), t.String())
	}
	p.fork(0)
	p.trace = append(p.trace, 1)
	p.s.Assert(t, m1)
	return true
}

// branchOne follows t when it is possible at all, without forking (used for model picking).
func (p *Path) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		return int(p.next())
	}
	for k := n - 1; k >= 1; k-- {
		p.fork(uint64(k))
	}
	p.trace = append(p.trace, 0)
	return 0
}
func (p *Path) pickValue(t *Term) uint64 {
	if p.replaying() {
		return p.next()
	}
	r, m := p.s.Check(p.in.c.T)
	if r != "sat" || m == nil {
		unsupported("no model when concretising")
	}
	v := p.s.eval(t, m, map[int]*big.Int{}).Uint64()
	p.trace = append(p.trace, v)
	return v
}
func (p *Path) assume(c *Term) {
	if c == p.in.c.T {
		return
	}
	if !p.replaying() {
		r, m := p.s.Check(c)
		if r == "unsat" {
			panic(pathEnd{"infeasible"})
		}
		if r == "unknown" {
			p.imprec = true
		}
		p.s.Assert(c, m)
		return
	}
	if c == p.in.c.F {
		panic(pathEnd{"infeasible"})
	}
	p.s.Assert(c, nil)
}
func (p *Path) assert(c *Term, msg string, fr *frame) {
	if p.replaying() {
		if c == p.in.c.F {
			panic(pathEnd{"assert failed earlier"})
		}
		p.s.Assert(c, nil)
		return
	}
	r := p.r
	r.mu.Lock()
	r.Asserts++
	r.mu.Unlock()
	if c == p.in.c.T {
		r.mu.Lock()
		r.Trivial++
		r.mu.Unlock()
		return
	}
	res, m := p.s.Check(p.in.c.Not(c))
	switch res {
	case "unsat":
		r.mu.Lock()
		r.Discharged++
		r.mu.Unlock()
		p.s.Assert(c, p.s.model)
	case "sat":
		p.violation("assert", msg, fr.where(), m)
		if c == p.in.c.F {
			panic(pathEnd{"assert failed"})
		}
		r2, m2 := p.s.Check(c)
		if r2 == "unsat" {
			panic(pathEnd{"assert failed"})
		}
		p.s.Assert(c, m2)
	default:
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "unknown assert %q at %s: %.400s\n", msg, fr.where(), c.String())
		}
		r.mu.Lock()
		r.Unknown++
		r.mu.Unlock()
		p.s.Assert(c, nil)
	}
}

func (p *Path) modelVars(m *Model) map[string]string {
	out := map[string]string{}
	memo := map[int]*big.Int{}
	for _, v := range p.vars {
		if v.t != nil {
			out[v.name] = p.s.eval(v.t, m, memo).String()
		} else {
			out[v.name] = feToBig(m.fld[v.fv]).String()
		}
	}
	for _, c := range p.choices {
		out[c.name] = fmt.Sprint(c.v)
	}
	return out
}

func (p *Path) violation(kind, msg, where string, m *Model) {
	r := p.r
	vars := p.modelVars(m)
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, v := range r.Violations {
		if v.Msg == msg && v.Kind == kind {
			n++
		}
	}
	if n >= 4 || len(r.Violations) > 60 {
		return
	}
	r.Violations = append(r.Violations, Violation{Harness: r.H.Name, Msg: msg, Where: where, Vars: vars, Kind: kind, Sched: p.sched})
}

// currentModel returns a model of the path condition, or nil.
func (p *Path) currentModel() *Model {
	r, m := p.s.Check(p.in.c.T)
	if r == "sat" {
		if m == nil {
			m = p.s.model
		}
		return m
	}
	return nil
}

func (ex *Explorer) push(r *HResult, pre []uint64) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, job{r, pre})
	r.pending++
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) Run(hs []*Harness, nw int) []*HResult {
	ex.cond = sync.NewCond(&ex.mu)
	var rs []*HResult
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		r := &HResult{H: h, Unsupported: map[string]int64{}, Ends: map[string]int64{}, Reached: map[string]int64{}, Funcs: map[*ssa.Function]bool{}, notes: map[string]string{}}
		rs = append([]*HResult{r}, rs...)
		ex.push(r, nil)
	}
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{ex: ex, s: newSolver(ex.z3, ex.z3ms)}
			defer w.s.kill()
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.active > 0 {
					ex.cond.Wait()
				}
				if len(ex.stack) == 0 {
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				// the newest path of the harness that has used the least time so far
				at := len(ex.stack) - 1
				for i := at - 1; i >= 0; i-- {
					if b := ex.stack[i].r; b.busy+b.running < ex.stack[at].r.busy+ex.stack[at].r.running {
						at = i
					}
				}
				j := ex.stack[at]
				ex.stack = append(ex.stack[:at], ex.stack[at+1:]...)
				ex.active++
				j.r.running += 10 * time.Millisecond
				began := time.Now()
				if j.r.start.IsZero() {
					j.r.start = time.Now()
				}
				cut := j.r.Paths >= int64(j.r.H.MaxPaths) || j.r.busy > j.r.H.Budget*time.Duration(nw) || time.Now().After(ex.deadline)
				if cut {
					j.r.PathsCut = true
				} else {
					j.r.Paths++
				}
				ex.mu.Unlock()
				if !cut {
					w.runPath(j)
				}
				ex.mu.Lock()
				ex.active--
				j.r.running -= 10 * time.Millisecond
				j.r.busy += time.Since(began)
				j.r.pending--
				if j.r.pending == 0 {
					j.r.Wall = time.Since(j.r.start)
				}
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return rs
}

func (w *Worker) runPath(j job) {
	r := j.r
	r.mu.Lock()
	hangs := 0
	for _, v := range r.Violations {
		if v.Kind == "hang" {
			hangs++
		}
	}
	if hangs > 1 { // the rest would take as long
		r.PathsCut = true
	}
	r.mu.Unlock()
	if hangs > 1 {
		return
	}
	c := newTCtx()
	w.s.reset(c)
	w.s.st = Stats{}
	w.dead = time.Now().Add(r.H.Budget)
	if w.ex.deadline.Before(w.dead) {
		w.dead = w.ex.deadline
	}
	in := &Interp{pr: w.ex.pr, c: c, f: c.f, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, maxIns: r.H.MaxIns, funcs: map[*ssa.Function]bool{}, opt: map[string]string{}, trace: w.ex.trace}
	in.nat = newNatState(in)
	p := &Path{w: w, in: in, r: r, s: w.s, prefix: j.prefix, names: map[string]int{}}
	in.p = p
	in.sched = newSched(in)
	why, began := "", time.Now()
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch e := x.(type) {
			case pathEnd:
				why = e.why
			case unsupportedErr:
				why = "unsupported: " + e.msg
			case engineFail:
				why = "engine: " + e.msg
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE %s\n%s\n", e.msg, debug.Stack())
				}
				w.s.kill()
			case targetPanic:
				why = "panic"
				p.escaped("panic", panicText(e), "")
			case uncaught:
				why = "panic"
				p.escaped("panic", panicText(e.tp), "goroutine "+e.g)
			case crash:
				why = "crash"
				p.escaped("crash", e.msg, "")
			case killedErr:
				why = "killed"
			default:
				why = fmt.Sprintf("engine: %v", x)
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "ENGINE %v\n%s\n", x, debug.Stack())
				}
				w.s.kill()
			}
			if strings.HasPrefix(why, "solver") {
				w.s.kill()
			}
		}()
		root := &frame{in: in, g: in.sched.main}
		in.callSSA(root, r.H.Fn, nil, nil)
		why = "ok"
	}()
	in.sched.shutdown()
	if why == "deadlock" {
		p.escaped("deadlock", "deadlock: no goroutine can make progress", "")
	}
	if why == "instruction budget" || why == "time budget" && time.Since(began) > 30*time.Second {
		w.dead = time.Now().Add(10 * time.Second)
		p.escaped("hang", "the run does not end", "") // counts when the real run does not end either
	}
	var wit *Witness
	if why == "ok" && !p.sched {
		r.mu.Lock()
		need := len(r.Witnesses) < 3
		r.mu.Unlock()
		if need {
			func() {
				defer func() { recover() }()
				if m := p.currentModel(); m != nil {
					wit = &Witness{Harness: r.H.Name, Vars: p.modelVars(m)}
					for _, o := range p.obs {
						wit.Obs = append(wit.Obs, o.name+"="+p.obsString(o.v, m))
					}
				}
			}()
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Ends[endKind(why)]++
	switch {
	case why == "ok":
		r.Completed++
	case why == "infeasible":
		r.Infeasible++
	case strings.HasPrefix(why, "unsupported") || strings.HasPrefix(why, "engine"):
		r.Unsupported[why]++
	case why == "instruction budget" || why == "time budget":
		r.Truncated++
	}
	if p.imprec {
		r.Imprecise++
	}
	if wit != nil && len(r.Witnesses) < 3 {
		r.Witnesses = append(r.Witnesses, *wit)
	}
	r.Instrs += in.instrs
	r.Stats.add(&w.s.st)
	for f := range in.funcs {
		r.Funcs[f] = true
	}
}
func endKind(w string) string {
	if i := strings.Index(w, ":"); i > 0 {
		return w[:i]
	}
	return w
}
func panicText(e targetPanic) string {
	if i, ok := e.v.(Iface); ok {
		switch v := i.v.(type) {
		case string:
			return v
		}
		if i.t != nil {
			return "panic value of type " + i.t.String() + ": " + valText(i)
		}
	}
	return "panic"
}

func (p *Path) escaped(kind, msg, extra string) {
	defer func() { recover() }()
	p.sched = p.sched || false
	m := p.currentModel()
	if m == nil {
		p.r.mu.Lock()
		p.r.Unknown++
		p.r.mu.Unlock()
		return
	}
	p.violation(kind, msg, extra, m)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = types.Typ
