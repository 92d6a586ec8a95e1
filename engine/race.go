package main

// Data races.  Along every explored path the happens-before order of the program's own
// synchronisation (go statements, channels, locks, wait groups, atomics, the network) is kept in vector
// clocks, and two accesses of the same memory by functions of the module under test, at least one of them
// a write, that are not ordered are a violation of the property being checked: the path's conditions are
// satisfiable (its model is the counterexample) and nothing orders the two accesses.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}
func (a *vclock) join(b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}
func (a vclock) clone() vclock { return append(vclock(nil), a...) }

type access struct {
	g   int
	c   uint32
	pos token.Pos
	fn  *ssa.Function
}
type shadow struct {
	w access
	r []access // reads not ordered before one another
}
type raceSt struct {
	cells map[*Value]*shadow
	maps  map[*Map]*shadow
	at    map[any]*vclock // synchronisation objects
	seen  map[string]bool
	quiet map[*Value]bool
}

func newRace() *raceSt {
	return &raceSt{cells: map[*Value]*shadow{}, maps: map[*Map]*shadow{}, at: map[any]*vclock{}, seen: map[string]bool{}, quiet: map[*Value]bool{}}
}

// release starts a new epoch of g and returns a copy of its clock before.
func (s *Sched) release(g *Gor) vclock {
	c := g.vc.clone()
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
	return c
}

// syncRel and syncAcq order what g did before with what comes after another goroutine's syncAcq.
func (s *Sched) syncRel(o any) {
	if s.race == nil {
		return
	}
	v := s.race.at[o]
	if v == nil {
		v = &vclock{}
		s.race.at[o] = v
	}
	v.join(s.release(s.cur))
}
func (s *Sched) syncAcq(o any) {
	if s.race == nil {
		return
	}
	if v := s.race.at[o]; v != nil {
		s.cur.vc.join(*v)
	}
}

// acqAll orders everything so far before what the current goroutine does next.
func (s *Sched) acqAll() {
	if s.race == nil {
		return
	}
	for _, g := range s.all {
		if g != s.cur {
			s.cur.vc.join(g.vc)
			// what it does later is a new epoch
			s.release(g)
		}
	}
}

func (c *cfunc) isTracked() bool {
	t := c.track.Load()
	if t == 0 {
		t = 1
		fn := c.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/DyCAPSTeam/DyCAPS/") && !strings.HasPrefix(fn.Pkg.Pkg.Path(), vrtPath) {
			f := fn.Prog.Fset.Position(fn.Pos()).Filename
			if f != "" && !strings.HasPrefix(f[strings.LastIndex(f, "/")+1:], "zz_") {
				t = 2
			}
		}
		c.track.Store(t)
	}
	return t == 2
}

const blsPath = "github.com/DyCAPSTeam/DyCAPS/internal/bls"
const vrtPath = "github.com/DyCAPSTeam/DyCAPS/internal/vrt"

func (fr *frame) racing() bool {
	s := fr.in.sched
	return s.race != nil && len(s.all) > 1 && fr.cf != nil && fr.cf.isTracked()
}

func (fr *frame) touch(p *Value, write bool) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			fr.touch(&v[i], write)
		}
		return
	case Array:
		for i := range v {
			if i < 8 || i == len(v)-1 {
				fr.touch(&v[i], write)
			}
		}
		return
	}
	rs := fr.in.sched.race
	sh := rs.cells[p]
	if sh == nil {
		sh = &shadow{w: access{g: -1}}
		rs.cells[p] = sh
	}
	fr.note(sh, write)
}
func (fr *frame) touchCells(c []Value, write bool) {
	if len(c) == 0 {
		return
	}
	fr.touch(&c[0], write)
	if len(c) > 1 {
		fr.touch(&c[len(c)-1], write)
	}
}
func (fr *frame) touchMap(m *Map, write bool) {
	if m == nil {
		return
	}
	rs := fr.in.sched.race
	sh := rs.maps[m]
	if sh == nil {
		sh = &shadow{w: access{g: -1}}
		rs.maps[m] = sh
	}
	fr.note(sh, write)
}
func (fr *frame) note(sh *shadow, write bool) {
	g := fr.in.sched.cur
	by := fr // a wrapper of the curve library acts for its caller
	for by.caller != nil && by.caller.cf != nil && by.cf.fn.Pkg != nil && by.cf.fn.Pkg.Pkg.Path() == blsPath {
		by = by.caller
	}
	me := access{g.id, g.vc.at(g.id), by.curPos, by.cf.fn}
	before := func(a access) bool { return a.g == g.id || a.c <= g.vc.at(a.g) }
	if sh.w.g >= 0 && !before(sh.w) {
		fr.raceFound(sh.w, me, "written", write)
	}
	if !write {
		for i := range sh.r {
			if sh.r[i].g == g.id {
				sh.r[i] = me
				return
			}
		}
		k := 0
		for _, a := range sh.r {
			if !before(a) {
				sh.r[k] = a
				k++
			}
		}
		sh.r = append(sh.r[:k], me)
		return
	}
	for _, a := range sh.r {
		if !before(a) {
			fr.raceFound(a, me, "read", true)
		}
	}
	sh.r = sh.r[:0]
	sh.w = me
}

// raceFound records the violation once per pair of functions and path.
func (fr *frame) raceFound(a, b access, what string, write bool) {
	rs := fr.in.sched.race
	verb := "reads"
	if write {
		verb = "writes"
	}
	at := func(x access) string {
		p := fr.in.pr.fset.Position(x.pos)
		return fmt.Sprintf("%s (%s:%d)", x.fn.String(), p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
	}
	l := []string{at(a), at(b)}
	sort.Strings(l)
	key := strings.Join(l, "|")
	if rs.seen[key] {
		return
	}
	rs.seen[key] = true
	if m := fr.in.p.currentModel(); m != nil {
		fr.in.p.violation("race", fmt.Sprintf("data race: %s %s what %s has %s, and nothing orders the two", at(b), verb, at(a), what), fr.where(), m)
	}
}

// putVC: g's send was put in the buffer; it comes after the receive that made room for it.
func (s *Sched) putVC(ch *Chan, g *Gor) {
	if s.race == nil {
		return
	}
	s.roomVC(ch, g)
	ch.bvc = append(ch.bvc, s.release(g))
}
func (s *Sched) roomVC(ch *Chan, g *Gor) {
	if ch.nsent++; ch.nsent > ch.cap && len(ch.free) > 0 {
		g.vc.join(ch.free[0])
		ch.free = ch.free[1:]
	}
}

// takeVC: the current goroutine received the first buffered item.
func (s *Sched) takeVC(ch *Chan) {
	if s.race == nil || len(ch.bvc) == 0 {
		return
	}
	s.cur.vc.join(ch.bvc[0])
	ch.bvc = ch.bvc[1:]
	if ch.cap < 100000 {
		ch.free = append(ch.free, s.release(s.cur))
	}
}

// meet: an item goes from the goroutine from to the goroutine to directly.
func (s *Sched) meet(ch *Chan, from, to *Gor) {
	if s.race == nil {
		return
	}
	if ch.cap > 0 {
		s.roomVC(ch, from)
	}
	a, b := s.release(from), s.release(to)
	to.vc.join(a)
	if ch.cap == 0 {
		from.vc.join(b)
	} else if ch.cap < 100000 {
		ch.free = append(ch.free, b)
	}
}

// watched runs an intrinsic and notes which of the cells given by pointer it read or wrote.
func (fr *frame) watched(cf *cfunc, args []Value) Value {
	n := cf.name
	if strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
		if strings.Contains(n, "atomic.") && len(args) > 0 {
			fr.in.sched.syncAcq(args[0])
			fr.in.sched.syncRel(args[0])
		}
		return cf.intr(fr, args)
	}
	var old [4]Value
	var ptr [4]*Value
	for i, a := range args {
		if p, ok := a.(*Value); ok && p != nil && i < 4 {
			switch (*p).(type) {
			case *FE, *Pt, *BigV, uint64, bool, string, *Term, []Value:
				ptr[i], old[i] = p, *p
			}
		}
	}
	var bytes [4][]Value
	var ends [4][2]Value
	for i, a := range args {
		if c, ok := a.([]Value); ok && len(c) > 0 && i < 4 && isFlat(c[0]) && isFlat(c[len(c)-1]) {
			bytes[i], ends[i] = c, [2]Value{c[0], c[len(c)-1]}
		}
	}
	pos := fr.curPos
	r := cf.intr(fr, args)
	if _, ok := r.(fallthroughV); ok {
		return r
	}
	fr.curPos = pos
	for i, c := range bytes {
		if c != nil {
			fr.touchCells(c, c[0] != ends[i][0] || c[len(c)-1] != ends[i][1])
		}
	}
	if n == "google.golang.org/protobuf/proto.Marshal" {
		fr.touchDeep(args[0], 0)
	}
	for i, p := range ptr {
		if p == nil {
			continue
		}
		w := inPlace[n] != 0 && inPlace[n]>>i&1 == 1
		if !w {
			switch o := old[i].(type) {
			case []Value:
			default:
				w = o != *p
			}
		}
		if g := fr.in.sched.race.quiet; w && g[p] {
			w = false
		}
		fr.touch(p, w)
	}
	return r
}

func isFlat(v Value) bool {
	switch v.(type) {
	case uint64, bool, string, *Term:
		return true
	}
	return false
}

// touchDeep reads everything a message holds.
func (fr *frame) touchDeep(v Value, depth int) {
	if depth > 6 {
		return
	}
	switch x := v.(type) {
	case Iface:
		fr.touchDeep(x.v, depth+1)
	case *Value:
		if x != nil {
			fr.touch(x, false)
			fr.touchDeep(*x, depth+1)
		}
	case Struct:
		for _, f := range x {
			fr.touchDeep(f, depth+1)
		}
	case []Value:
		if len(x) == 0 {
			return
		}
		fr.touchCells(x, false)
		if !isFlat(x[0]) {
			for _, e := range x {
				fr.touchDeep(e, depth+1)
			}
		}
	}
}

// Operations of the curve library that bring their operand to affine form in place (bit per argument).
var inPlace = map[string]uint{
	"(*github.com/kilic/bls12-381.G1).ToCompressed": 2, "(*github.com/kilic/bls12-381.G2).ToCompressed": 2,
	"(*github.com/kilic/bls12-381.G1).ToUncompressed": 2, "(*github.com/kilic/bls12-381.G2).ToUncompressed": 2,
	"(*github.com/kilic/bls12-381.G1).ToBytes": 2, "(*github.com/kilic/bls12-381.G2).ToBytes": 2,
	"(*github.com/kilic/bls12-381.Engine).AddPair": 6, "(*github.com/kilic/bls12-381.Engine).AddPairInv": 4,
}
