package main

// Cooperative scheduler for interpreted goroutines: exactly one runs at a time.

import (
	"fmt"
	"go/types"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Gor struct {
	id      int
	wake    chan struct{}
	name    string
	done    bool
	waitOn  string
	spin    map[string]int64
	spinVer int64
	spinN   int
	sliceV  int64
	fr      *frame
	vc      vclock
}
type Chan struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter

	// happens-before
	bvc   []vclock // of the buffered items
	nsent int
	free  []vclock // of the receives that made room
	cvc   vclock   // of the close
}
type selSt struct {
	fired bool
	idx   int
	val   Value
	ok    bool
}
type waiter struct {
	g   *Gor
	val Value
	sel *selSt
	idx int
}
type sleeper struct {
	g    *Gor
	at   int64
	seq  int
	fire func()
}
type Sched struct {
	in       *Interp
	cur      *Gor
	main     *Gor
	runq     []*Gor
	spinq    []*Gor
	sleep    []sleeper
	now      int64
	seq      int
	all      []*Gor
	nchan    int
	quiesce  *Gor
	killed   bool
	fatal    any
	wg       sync.WaitGroup
	delays   int // remaining scheduling deviations
	sliceLen int
	idleOK   bool
	switches int64
	race     *raceSt
}

type killedErr struct{}
type crash struct{ msg string }

func newSched(in *Interp) *Sched {
	s := &Sched{in: in, sliceLen: 200000}
	m := &Gor{id: 0, wake: make(chan struct{}, 1), name: "main", spin: map[string]int64{}}
	s.main, s.cur = m, m
	s.all = []*Gor{m}
	m.vc = vclock{1}
	if os.Getenv("VERIF_NORACE") == "" {
		s.race = newRace()
	}
	in.slice = s.sliceLen
	return s
}
func (s *Sched) newChan(n int) *Chan {
	s.nchan++
	return &Chan{id: s.nchan, cap: n}
}
func (s *Sched) spawn(fr *frame, fn Value, args []Value) {
	s.in.version++
	g := &Gor{id: len(s.all), wake: make(chan struct{}, 1), spin: map[string]int64{}}
	if c, ok := fn.(*Closure); ok && c != nil && c.fn != nil {
		g.name = c.fn.String()
	}
	if len(s.all) > 5000 {
		unsupported("too many goroutines")
	}
	s.all = append(s.all, g)
	if s.race != nil {
		g.vc = s.release(s.cur)
		for len(g.vc) <= g.id {
			g.vc = append(g.vc, 0)
		}
		g.vc[g.id] = 1
	}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		<-g.wake
		defer func() {
			g.done = true
			if r := recover(); r != nil {
				if _, ok := r.(killedErr); ok {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					r = uncaught{tp, g.name}
				}
				if s.fatal == nil {
					s.fatal = r
				}
				s.killed = true
				s.cur = s.main
				s.main.wake <- struct{}{}
				return
			}
			if s.killed {
				return
			}
			s.in.version++
			s.handOff()
		}()
		if s.killed {
			panic(killedErr{})
		}
		root := &frame{in: s.in, g: g}
		g.fr = root
		s.in.call(root, fn, args)
	}()
	s.runq = append(s.runq, g)
}

type uncaught struct {
	tp targetPanic
	g  string
}

// handOff gives the baton to the next goroutine (the current one has finished).
func (s *Sched) handOff() {
	n := s.pick()
	if n == nil {
		s.killed = true
		if s.fatal == nil {
			s.fatal = pathEnd{"deadlock"}
		}
		n = s.main
	}
	s.cur = n
	s.in.slice = s.sliceLen
	n.wake <- struct{}{}
}

// switchAway parks the current goroutine until it gets the baton again.
func (s *Sched) switchAway() {
	g := s.cur
	n := s.pick()
	if n == nil {
		if g == s.main {
			panic(pathEnd{"deadlock"})
		}
		s.killed = true
		if s.fatal == nil {
			s.fatal = pathEnd{"deadlock"}
		}
		n = s.main
	}
	s.give(g, n)
}

// give hands the baton from g to n and waits to get it back.
func (s *Sched) give(g, n *Gor) {
	s.switches++
	if n == g {
		s.in.slice = s.sliceLen
		return
	}
	s.cur = n
	s.in.slice = s.sliceLen
	n.wake <- struct{}{}
	<-g.wake
	if s.killed {
		if g == s.main && s.fatal != nil {
			f := s.fatal
			s.fatal = nil
			panic(f)
		}
		panic(killedErr{})
	}
}

// preempt is a possible scheduling deviation before an operation other goroutines can observe.
func (s *Sched) preempt() {
	if s.delays <= 0 || len(s.runq) == 0 || s.in.opt["preempt"] == "" {
		return
	}
	if s.in.p.choose(2, "preempt") == 0 {
		return
	}
	s.delays--
	k := 0
	if len(s.runq) > 1 {
		k = s.in.p.choose(len(s.runq), "preemptk")
	}
	g := s.runq[k]
	rest := append(append([]*Gor(nil), s.runq[:k]...), s.runq[k+1:]...)
	s.runq = append(append([]*Gor{g}, rest...), s.cur)
	d := s.delays
	s.delays = 0 // the choice was made here
	s.switchAway2(d)
}
func (s *Sched) switchAway2(d int) {
	g := s.cur
	n := s.runq[0]
	s.runq = s.runq[1:]
	s.delays = d
	s.give(g, n)
}

const spinRetries = 40

func (s *Sched) pick() *Gor {
	for {
		if len(s.runq) > 0 {
			k := 0
			if s.in.opt["sched"] == "last" {
				k = len(s.runq) - 1
			}
			if s.delays > 0 && len(s.runq) > 1 {
				k = s.in.p.choose(2, "sched")
				if k == 1 {
					s.delays--
					k = 1 + s.in.p.choose(len(s.runq)-1, "schedk")
				}
			}
			g := s.runq[k]
			s.runq = append(append([]*Gor(nil), s.runq[:k]...), s.runq[k+1:]...)
			return g
		}
		// spinning goroutines become runnable when the state changed
		var keep []*Gor
		for _, g := range s.spinq {
			if g.spinVer != s.in.version {
				g.spinN = 0
				s.runq = append(s.runq, g)
			} else if g.spinN < spinRetries {
				g.spinN++
				s.runq = append(s.runq, g)
			} else {
				keep = append(keep, g)
			}
		}
		s.spinq = keep
		if len(s.runq) > 0 {
			continue
		}
		if len(s.sleep) > 0 {
			b := 0
			for i, x := range s.sleep {
				if x.at < s.sleep[b].at || (x.at == s.sleep[b].at && x.seq < s.sleep[b].seq) {
					b = i
				}
			}
			x := s.sleep[b]
			s.sleep = append(s.sleep[:b:b], s.sleep[b+1:]...)
			if x.at > s.now {
				s.now = x.at
			}
			s.in.version++
			if x.fire != nil {
				x.fire()
			} else {
				s.runq = append(s.runq, x.g)
			}
			continue
		}
		if s.quiesce != nil {
			g := s.quiesce
			s.quiesce = nil
			return g
		}
		return nil
	}
}
func (s *Sched) ready(g *Gor) {
	s.runq = append(s.runq, g)
}
func (s *Sched) yield() {
	g := s.cur
	if len(s.runq) == 0 && len(s.spinq) == 0 && len(s.sleep) == 0 {
		return
	}
	s.runq = append(s.runq, g)
	s.switchAway()
}

// timeslice is called when the current slice is used up.
func (s *Sched) timeslice(fr *frame) {
	s.in.slice = s.sliceLen
	g := s.cur
	if len(s.all) == 1 {
		return
	}
	if g.sliceV == s.in.version {
		s.spinPark(g)
		return
	}
	g.sliceV = s.in.version
	s.runq = append(s.runq, g)
	s.switchAway()
}
func (s *Sched) spinPark(g *Gor) {
	if len(s.all) == 1 {
		return
	}
	if g.spinVer != s.in.version {
		g.spinN = 0
	}
	g.spinVer = s.in.version
	s.spinq = append(s.spinq, g)
	s.switchAway()
}

// spinCheck is called at lock operations: revisiting the same point with no state change in
// between means the goroutine is polling.
func (s *Sched) spinCheck(fr *frame) {
	if len(s.all) == 1 {
		return
	}
	g := s.cur
	key := fmt.Sprintf("%p/%d", fr, fr.curPos)
	if v, ok := g.spin[key]; ok && v == s.in.version {
		s.spinPark(g)
	}
	g.spin[key] = s.in.version
}

func (in *Interp) noteStore(p *Value, v Value) {
	switch o := (*p).(type) {
	case uint64:
		if n, ok := v.(uint64); ok && n == o {
			return
		}
	case bool:
		if n, ok := v.(bool); ok && n == o {
			return
		}
	case string:
		if n, ok := v.(string); ok && n == o {
			return
		}
	case *Value:
		if n, ok := v.(*Value); ok && n == o {
			return
		}
	case *FE:
		if n, ok := v.(*FE); ok && n == o {
			return
		}
	case *Pt:
		if n, ok := v.(*Pt); ok && n == o {
			return
		}
	}
	in.version++
}

func firstLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}
func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}
func (s *Sched) fire(w *waiter, v Value, ok bool) {
	w.sel.fired = true
	w.sel.idx = w.idx
	w.sel.val = v
	w.sel.ok = ok
	s.ready(w.g)
}

func (s *Sched) trySend(fr *frame, ch *Chan, v Value) bool {
	if ch.closed {
		panic(targetPanic{Iface{t: runtimeErrType, v: "send on closed channel at " + fr.where()}})
	}
	if w := firstLive(&ch.recvq); w != nil {
		s.in.version++
		s.meet(ch, s.cur, w.g)
		s.fire(w, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		s.in.version++
		ch.buf = append(ch.buf, v)
		s.putVC(ch, s.cur)
		return true
	}
	return false
}
func (s *Sched) tryRecv(ch *Chan) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		s.in.version++
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		s.takeVC(ch)
		if w := firstLive(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			s.putVC(ch, w.g)
			s.fire(w, nil, true)
		}
		return v, true, true
	}
	if w := firstLive(&ch.sendq); w != nil {
		s.in.version++
		v := w.val
		s.meet(ch, w.g, s.cur)
		s.fire(w, nil, true)
		return v, true, true
	}
	if ch.closed {
		if s.race != nil {
			s.cur.vc.join(ch.cvc)
		}
		return nil, false, true
	}
	return nil, false, false
}

func (s *Sched) send(fr *frame, ch *Chan, v Value) {
	if ch == nil {
		s.blockForever(fr, "send on nil channel")
	}
	s.preempt()
	if s.trySend(fr, ch, v) {
		if s.in.opt["sched"] == "send" && s.cur != s.main {
			s.yield()
		}
		return
	}
	st := &selSt{}
	ch.sendq = append(ch.sendq, &waiter{g: s.cur, val: v, sel: st})
	s.cur.waitOn = "send at " + s.pos(fr)
	for !st.fired {
		s.switchAway()
	}
	if !st.ok {
		panic(targetPanic{Iface{t: runtimeErrType, v: "send on closed channel at " + fr.where()}})
	}
}
func (s *Sched) pos(fr *frame) string {
	return "" // filled lazily by Dump
}
func (s *Sched) blockForever(fr *frame, why string) {
	for {
		s.cur.waitOn = why
		s.switchAway()
	}
}
func (s *Sched) recv(fr *frame, ch *Chan) (Value, bool) {
	if ch == nil {
		s.blockForever(fr, "receive from nil channel")
	}
	s.preempt()
	if v, ok, rdy := s.tryRecv(ch); rdy {
		return v, ok
	}
	st := &selSt{}
	ch.recvq = append(ch.recvq, &waiter{g: s.cur, sel: st})
	for !st.fired {
		s.switchAway()
	}
	return st.val, st.ok
}
func (s *Sched) close(fr *frame, ch *Chan) {
	if ch == nil {
		panic(targetPanic{Iface{t: runtimeErrType, v: "close of nil channel"}})
	}
	if ch.closed {
		panic(targetPanic{Iface{t: runtimeErrType, v: "close of closed channel at " + fr.where()}})
	}
	s.in.version++
	ch.closed = true
	if s.race != nil {
		ch.cvc = s.release(s.cur)
	}
	for {
		w := firstLive(&ch.recvq)
		if w == nil {
			break
		}
		if s.race != nil {
			w.g.vc.join(ch.cvc)
		}
		s.fire(w, nil, false)
	}
	for {
		w := firstLive(&ch.sendq)
		if w == nil {
			break
		}
		s.fire(w, nil, false)
	}
}

func (fr *frame) selectStmt(i *ssa.Select, ci *cinstr) Value {
	s := fr.in.sched
	type cse struct {
		ch   *Chan
		send bool
		v    Value
	}
	cs := make([]cse, len(i.States))
	k := 0
	for n, st := range i.States {
		cs[n].ch = fr.get(&ci.ops[k]).(*Chan)
		k++
		if st.Dir == types.SendOnly {
			cs[n].send = true
			cs[n].v = copyVal(fr.get(&ci.ops[k]))
		}
		k++
	}
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{uint64(int64(idx)), ok}
		for n, st := range i.States {
			if st.Dir == types.RecvOnly {
				if n == idx && ok {
					t = append(t, v)
				} else {
					t = append(t, fr.in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	isReady := func(c cse) bool {
		if c.ch == nil {
			return false
		}
		if c.send {
			return c.ch.closed || len(c.ch.buf) < c.ch.cap || hasLive(c.ch.recvq)
		}
		return len(c.ch.buf) > 0 || hasLive(c.ch.sendq) || c.ch.closed
	}
	var rdy []int
	for n := range cs {
		if isReady(cs[n]) {
			rdy = append(rdy, n)
		}
	}
	if len(rdy) > 0 {
		n := rdy[0]
		if len(rdy) > 1 && fr.in.opt["select"] == "all" {
			n = rdy[fr.in.p.choose(len(rdy), "select")]
		}
		if cs[n].send {
			s.trySend(fr, cs[n].ch, cs[n].v)
			return result(n, nil, false)
		}
		v, ok, _ := s.tryRecv(cs[n].ch)
		return result(n, v, ok)
	}
	if !i.Blocking {
		s.spinCheck(fr)
		return result(-1, nil, false)
	}
	st := &selSt{}
	for n, c := range cs {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: s.cur, val: c.v, sel: st, idx: n}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	for !st.fired {
		s.switchAway()
	}
	if cs[st.idx].send {
		if !st.ok {
			panic(targetPanic{Iface{t: runtimeErrType, v: "send on closed channel"}})
		}
		return result(st.idx, nil, false)
	}
	return result(st.idx, st.val, st.ok)
}

// ---- locks ----

type lockSt struct {
	w       bool
	readers int
	q       []*Gor
	count   int64
	done    bool

	notified int64 // of a sync.Cond
}

func (s *Sched) lockState(p *Value) *lockSt {
	l := s.in.nat.locks[p]
	if l == nil {
		l = &lockSt{}
		s.in.nat.locks[p] = l
	}
	return l
}
func (s *Sched) lock(fr *frame, p *Value) {
	s.spinCheck(fr)
	s.preempt()
	l := s.lockState(p)
	for l.w || l.readers > 0 {
		l.q = append(l.q, s.cur)
		s.switchAway()
	}
	l.w = true
	s.syncAcq(l)
}
func (s *Sched) rlock(fr *frame, p *Value) {
	s.spinCheck(fr)
	l := s.lockState(p)
	for l.w {
		l.q = append(l.q, s.cur)
		s.switchAway()
	}
	l.readers++
	s.syncAcq(&l.w) // not with the other readers
}
func (s *Sched) unlock(fr *frame, p *Value, read bool) {
	l := s.lockState(p)
	if read {
		if l.readers == 0 {
			panic(crash{"fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		l.readers--
		s.syncRel(l)
	} else {
		if !l.w {
			panic(crash{"fatal error: sync: unlock of unlocked mutex at " + fr.where()})
		}
		l.w = false
		s.syncRel(l)
		s.syncRel(&l.w)
	}
	q := l.q
	l.q = nil
	for _, g := range q {
		s.ready(g)
	}
	if s.in.opt["sched"] == "unlock" && fr != nil && s.cur != s.main {
		s.yield()
	}
}
func (s *Sched) wgAdd(fr *frame, p *Value, n int64) {
	l := s.lockState(p)
	l.count += n
	if n < 0 {
		s.syncRel(l)
	}
	s.in.version++
	if l.count < 0 {
		panic(targetPanic{Iface{t: runtimeErrType, v: "sync: negative WaitGroup counter"}})
	}
	if l.count == 0 {
		q := l.q
		l.q = nil
		for _, g := range q {
			s.ready(g)
		}
	}
}
func (s *Sched) wgWait(p *Value) {
	l := s.lockState(p)
	for l.count > 0 {
		l.q = append(l.q, s.cur)
		s.switchAway()
	}
	s.syncAcq(l)
}
func (s *Sched) sleepFor(d int64) {
	s.seq++
	s.sleep = append(s.sleep, sleeper{g: s.cur, at: s.now + max(d, 0), seq: s.seq})
	s.switchAway()
	if s.cur == s.main {
		s.acqAll() // the harness inspects the parties after a pause
	}
}
func (s *Sched) after(d int64, f func()) {
	s.seq++
	s.sleep = append(s.sleep, sleeper{at: s.now + max(d, 0), seq: s.seq, fire: f})
}

// waitQuiesce blocks the harness until no other goroutine can make progress.
func (s *Sched) waitQuiesce() {
	s.quiesce = s.cur
	s.switchAway()
	s.acqAll()
}

// shutdown ends all goroutines of the path.
func (s *Sched) shutdown() {
	s.killed = true
	for _, g := range s.all[1:] {
		if !g.done {
			g.done = true
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	s.wg.Wait()
}
