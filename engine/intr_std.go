package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
	"time"
)

var basicInt64 = types.Typ[types.Int64]
var basicInt = types.Typ[types.Int]

const vrtP = "github.com/DyCAPSTeam/DyCAPS/internal/vrt."

func (p *Path) symInt(name string, w uint16) *Term {
	n := p.uniq(name)
	t := p.in.c.Var(w, n)
	p.vars = append(p.vars, symVar{name: n, t: t})
	return t
}

func (p *Path) obsString(v Value, m *Model) string {
	memo := map[int]interface{}{}
	_ = memo
	switch x := v.(type) {
	case uint64:
		return fmt.Sprint(x)
	case bool:
		if x {
			return "1"
		}
		return "0"
	case *Term:
		return p.s.eval(x, m, map[int]*bigInt{}).String()
	case *FE:
		num := p.in.f.polyEval(x.num, m.fld)
		if x.den != nil {
			num = feMul(num, feInv(p.in.f.polyEval(x.den, m.fld)))
		}
		return feToBig(num).String()
	case string:
		return x
	}
	return fmt.Sprintf("%T", v)
}

func init() {
	V := func(name string, f intrinsic) { reg(vrtP+name, f) }
	V("Symbolic", func(fr *frame, a []Value) Value { return true })
	sym := func(w uint16) intrinsic {
		return func(fr *frame, a []Value) Value { return fr.in.p.symInt(a[0].(string), w) }
	}
	V("U64", sym(64))
	V("U32", sym(32))
	V("U16", sym(16))
	V("U8", sym(8))
	V("Int", func(fr *frame, a []Value) Value {
		t := fr.in.p.symInt(a[0].(string), 64)
		lo, hi := a[1].(uint64), a[2].(uint64)
		c := fr.in.c
		fr.in.p.assume(c.And(c.Cmp(OSle, c.Const(64, lo), t), c.Cmp(OSle, t, c.Const(64, hi))))
		return t
	})
	V("Bool", func(fr *frame, a []Value) Value {
		n := fr.in.p.uniq(a[0].(string))
		t := fr.in.c.Var(0, n)
		fr.in.p.vars = append(fr.in.p.vars, symVar{name: n, t: t})
		return t
	})
	V("Bytes", func(fr *frame, a []Value) Value {
		n := int(a[1].(uint64))
		out := make([]Value, n)
		base := fr.in.p.uniq(a[0].(string))
		for i := range out {
			nm := fmt.Sprintf("%s[%d]", base, i)
			t := fr.in.c.Var(8, nm)
			fr.in.p.vars = append(fr.in.p.vars, symVar{name: nm, t: t})
			out[i] = t
		}
		return out
	})
	V("Choose", func(fr *frame, a []Value) Value {
		n := fr.intArg(a[1], basicInt)
		k := fr.in.p.choose(int(n), a[0].(string))
		fr.in.p.choices = append(fr.in.p.choices, choiceRec{fr.in.p.uniq(a[0].(string)), k})
		return uint64(k)
	})
	V("Concrete", func(fr *frame, a []Value) Value {
		return uint64(fr.intArg(a[0], basicInt))
	})
	V("Assume", func(fr *frame, a []Value) Value { fr.in.p.assume(fr.in.boolTerm(a[0])); return nil })
	V("Assert", func(fr *frame, a []Value) Value {
		fr.in.p.assert(fr.in.boolTerm(a[0]), concStr(a[1]), fr)
		return nil
	})
	V("And", func(fr *frame, a []Value) Value {
		var ts []*Term
		for _, x := range a[0].([]Value) {
			ts = append(ts, fr.in.boolTerm(x))
		}
		return normT(fr.in.c.And(ts...))
	})
	V("Or", func(fr *frame, a []Value) Value {
		var ts []*Term
		for _, x := range a[0].([]Value) {
			ts = append(ts, fr.in.boolTerm(x))
		}
		return normT(fr.in.c.Or(ts...))
	})
	V("Iff", func(fr *frame, a []Value) Value {
		return normT(fr.in.c.Eq(fr.in.boolTerm(a[0]), fr.in.boolTerm(a[1])))
	})
	V("EqBytes", func(fr *frame, a []Value) Value {
		return normT(fr.in.eqBytes(a[0].([]Value), a[1].([]Value)))
	})
	V("Reach", func(fr *frame, a []Value) Value {
		r := fr.in.p.r
		r.mu.Lock()
		r.Reached[concStr(a[0])]++
		r.mu.Unlock()
		return nil
	})
	V("Stop", func(fr *frame, a []Value) Value { panic(pathEnd{"ok"}) })
	V("Quiesce", func(fr *frame, a []Value) Value { fr.in.sched.waitQuiesce(); return nil })
	V("Option", func(fr *frame, a []Value) Value {
		fr.in.opt[a[0].(string)] = a[1].(string)
		if a[0].(string) == "delays" {
			fmt.Sscan(a[1].(string), &fr.in.sched.delays)
			fr.in.p.sched = fr.in.sched.delays > 0
		}
		return nil
	})
	V("Failures", func(fr *frame, a []Value) Value { return uint64(0) })
	V("Repeat", func(fr *frame, a []Value) Value { return uint64(1) })
	V("ObsU64", func(fr *frame, a []Value) Value {
		fr.in.p.obs = append(fr.in.p.obs, obsRec{concStr(a[0]), a[1]})
		return nil
	})
	V("ObsBool", func(fr *frame, a []Value) Value {
		fr.in.p.obs = append(fr.in.p.obs, obsRec{concStr(a[0]), a[1]})
		return nil
	})
	V("Debug", func(fr *frame, a []Value) Value {
		fmt.Printf("DEBUG %v\n", nativeArgs(fr, a[0]))
		return nil
	})
	V("Panics", func(fr *frame, a []Value) (res Value) {
		// runs f and reports whether it panicked (log.Fatal counts as a crash, not a panic)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(targetPanic); ok {
					res = true
					return
				}
				panic(r)
			}
		}()
		fr.in.call(fr, a[0], nil)
		return false
	})
	V("Crashes", func(fr *frame, a []Value) (res Value) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(targetPanic); ok {
					res = true
					return
				}
				if _, ok := r.(crash); ok {
					res = true
					return
				}
				panic(r)
			}
		}()
		fr.in.call(fr, a[0], nil)
		return false
	})
	V("Goroutines", func(fr *frame, a []Value) Value {
		n := 0
		for _, g := range fr.in.sched.all {
			if !g.done {
				n++
			}
		}
		return uint64(n)
	})

	// ---- sync ----
	reg("(*sync.Mutex).Lock", func(fr *frame, a []Value) Value { fr.in.sched.lock(fr, fr.deref(a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(fr *frame, a []Value) Value { fr.in.sched.unlock(fr, fr.deref(a[0]), false); return nil })
	reg("(*sync.Mutex).TryLock", func(fr *frame, a []Value) Value {
		l := fr.in.sched.lockState(fr.deref(a[0]))
		if l.w {
			return false
		}
		l.w = true
		fr.in.sched.syncAcq(l)
		return true
	})
	reg("(*sync.RWMutex).Lock", func(fr *frame, a []Value) Value { fr.in.sched.lock(fr, fr.deref(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(fr *frame, a []Value) Value { fr.in.sched.unlock(fr, fr.deref(a[0]), false); return nil })
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []Value) Value { fr.in.sched.rlock(fr, fr.deref(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []Value) Value { fr.in.sched.unlock(fr, fr.deref(a[0]), true); return nil })
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []Value) Value {
		fr.in.sched.wgAdd(fr, fr.deref(a[0]), fr.intArg(a[1], basicInt))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []Value) Value { fr.in.sched.wgAdd(fr, fr.deref(a[0]), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []Value) Value { fr.in.sched.wgWait(fr.deref(a[0])); return nil })
	reg("(*sync.WaitGroup).Go", func(fr *frame, a []Value) Value {
		p := fr.deref(a[0])
		fr.in.sched.wgAdd(fr, p, 1)
		f := a[1]
		fr.in.sched.spawn(fr, &Closure{nat: func(fr2 *frame, _ []Value) Value {
			fr2.in.call(fr2, f, nil)
			fr2.in.sched.wgAdd(fr2, p, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Once).Do", func(fr *frame, a []Value) Value {
		p := fr.deref(a[0])
		if fr.in.nat.once[p] == 0 {
			fr.in.nat.once[p] = 1
			fr.in.call(fr, a[1], nil)
			fr.in.sched.syncRel(fr.in.sched.lockState(p))
		}
		fr.in.sched.syncAcq(fr.in.sched.lockState(p))
		return nil
	})
	smap := func(fr *frame, v Value) *Map {
		fr.in.sched.preempt()
		p := fr.deref(v)
		m := fr.in.nat.smap[p]
		if m == nil {
			m = newMap()
			fr.in.nat.smap[p] = m
		}
		fr.in.sched.syncAcq(m)
		fr.in.sched.syncRel(m)
		return m
	}
	reg("(*sync.Map).Load", func(fr *frame, a []Value) Value {
		v, ok := fr.in.mapGet(fr, smap(fr, a[0]), a[1])
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []Value) Value { fr.in.mapSet(fr, smap(fr, a[0]), a[1], a[2]); return nil })
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		if v, ok := fr.in.mapGet(fr, m, a[1]); ok {
			return Tuple{v, true}
		}
		fr.in.mapSet(fr, m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		v, ok := fr.in.mapGet(fr, m, a[1])
		if !ok {
			return Tuple{Iface{}, false}
		}
		fr.in.mapDelete(fr, m, a[1])
		return Tuple{v, true}
	})
	reg("(*sync.Map).Delete", func(fr *frame, a []Value) Value { fr.in.mapDelete(fr, smap(fr, a[0]), a[1]); return nil })
	reg("(*sync.Map).Swap", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		v, ok := fr.in.mapGet(fr, m, a[1])
		fr.in.mapSet(fr, m, a[1], a[2])
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	})
	reg("(*sync.Map).CompareAndSwap", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		v, ok := fr.in.mapGet(fr, m, a[1])
		if !ok || !fr.in.branchT(fr, fr.eq(nil, v, a[2])) {
			return false
		}
		fr.in.mapSet(fr, m, a[1], a[3])
		return true
	})
	reg("(*sync.Map).CompareAndDelete", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		v, ok := fr.in.mapGet(fr, m, a[1])
		if !ok || !fr.in.branchT(fr, fr.eq(nil, v, a[2])) {
			return false
		}
		fr.in.mapDelete(fr, m, a[1])
		return true
	})
	reg("(*sync.Map).Clear", func(fr *frame, a []Value) Value { *smap(fr, a[0]) = *newMap(); return nil })
	reg("maps.clone", func(fr *frame, a []Value) Value {
		x := a[0].(Iface)
		m, ok := x.v.(*Map)
		if !ok || m == nil {
			return x
		}
		c := newMap()
		for i, k := range m.keys {
			if m.vals[i] != nil {
				fr.in.mapSet(fr, c, k, *m.vals[i])
			}
		}
		return Iface{t: x.t, v: c}
	})
	reg("(*sync.Map).Range", func(fr *frame, a []Value) Value {
		m := smap(fr, a[0])
		for i := 0; i < len(m.keys); i++ {
			if m.vals[i] == nil {
				continue
			}
			if !fr.in.branchV(fr, fr.in.call(fr, a[1], []Value{m.keys[i], *m.vals[i]})) {
				break
			}
		}
		return nil
	})
	// what was put comes back first: that is what an idle pool does, and what shows a stale value
	reg("(*sync.Pool).Get", func(fr *frame, a []Value) Value {
		p := fr.deref(a[0])
		if q := fr.in.nat.pool[p]; len(q) > 0 {
			fr.in.nat.pool[p] = q[:len(q)-1]
			fr.in.sched.syncAcq(fr.in.sched.lockState(p))
			return q[len(q)-1]
		}
		s := (*p).(Struct)
		if c, ok := s[len(s)-1].(*Closure); ok && c != nil {
			return fr.in.call(fr, c, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(fr *frame, a []Value) Value {
		p := fr.deref(a[0])
		fr.in.sched.syncRel(fr.in.sched.lockState(p))
		if x, ok := a[1].(Iface); ok && x.t != nil {
			fr.in.nat.pool[p] = append(fr.in.nat.pool[p], x)
		}
		return nil
	})
	// sync.Cond is interpreted down to its notify list
	reg("sync.runtime_notifyListAdd", func(fr *frame, a []Value) Value {
		l := fr.in.sched.lockState(fr.deref(a[0]))
		l.count++
		return uint64(l.count - 1)
	})
	reg("sync.runtime_notifyListWait", func(fr *frame, a []Value) Value {
		s := fr.in.sched
		l := s.lockState(fr.deref(a[0]))
		for t := int64(a[1].(uint64)); t >= l.notified; {
			l.q = append(l.q, s.cur)
			s.switchAway()
		}
		s.syncAcq(l)
		return nil
	})
	notify := func(all bool) func(fr *frame, a []Value) Value {
		return func(fr *frame, a []Value) Value {
			s := fr.in.sched
			l := s.lockState(fr.deref(a[0]))
			s.syncRel(l)
			s.in.version++
			if all {
				l.notified = l.count
			} else if l.notified < l.count {
				l.notified++
			}
			q := l.q
			l.q = nil
			for _, g := range q {
				s.ready(g)
			}
			return nil
		}
	}
	reg("sync.runtime_notifyListNotifyAll", notify(true))
	reg("sync.runtime_notifyListNotifyOne", notify(false))

	// ---- atomics ----
	for _, w := range []struct {
		n string
		w uint16
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}} {
		w := w
		reg("sync/atomic.Load"+w.n, func(fr *frame, a []Value) Value { return *fr.deref(a[0]) })
		reg("sync/atomic.Store"+w.n, func(fr *frame, a []Value) Value {
			p := fr.deref(a[0])
			fr.in.noteStore(p, a[1])
			*p = a[1]
			return nil
		})
		reg("sync/atomic.Add"+w.n, func(fr *frame, a []Value) Value {
			p := fr.deref(a[0])
			fr.in.version++
			*p = normT(fr.in.c.Bin(OAdd, fr.in.term(*p, w.w), fr.in.term(a[1], w.w)))
			return *p
		})
		reg("sync/atomic.Swap"+w.n, func(fr *frame, a []Value) Value {
			p := fr.deref(a[0])
			o := *p
			fr.in.noteStore(p, a[1])
			*p = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+w.n, func(fr *frame, a []Value) Value {
			p := fr.deref(a[0])
			if fr.in.branchT(fr, fr.eq(nil, *p, a[1])) {
				fr.in.noteStore(p, a[2])
				*p = a[2]
				return true
			}
			return false
		})
	}
	reg("sync/atomic.LoadPointer", func(fr *frame, a []Value) Value { return *fr.deref(a[0]) })
	reg("sync/atomic.StorePointer", func(fr *frame, a []Value) Value { fr.in.version++; *fr.deref(a[0]) = a[1]; return nil })
	reg("sync/atomic.CompareAndSwapPointer", func(fr *frame, a []Value) Value {
		p := fr.deref(a[0])
		if *p == a[1] {
			fr.in.version++
			*p = a[2]
			return true
		}
		return false
	})
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []Value) Value { return (*fr.deref(a[0])).(Struct)[0] })
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []Value) Value {
		fr.in.version++
		(*fr.deref(a[0])).(Struct)[0] = a[1]
		return nil
	})

	// ---- time ----
	reg("time.Sleep", func(fr *frame, a []Value) Value { fr.in.sched.sleepFor(fr.intArg(a[0], basicInt64)); return nil })
	// a time with a monotonic reading, as time.Now gives it
	now := func(fr *frame) Value {
		n := fr.in.sched.now
		return Struct{uint64(1)<<63 | uint64(4000000000+n/1e9)<<30 | uint64(n%1e9), uint64(n), (*Value)(nil)}
	}
	reg("time.Now", func(fr *frame, a []Value) Value { return now(fr) })
	reg("time.Since", func(fr *frame, a []Value) Value {
		return uint64(fr.in.sched.now - int64(a[0].(Struct)[1].(uint64)))
	})
	reg("time.Until", func(fr *frame, a []Value) Value {
		return uint64(int64(a[0].(Struct)[1].(uint64)) - fr.in.sched.now)
	})
	reg("(time.Time).String", func(fr *frame, a []Value) Value { return "time" })
	reg("(time.Time).Format", func(fr *frame, a []Value) Value { return "time" })
	tick := func(fr *frame, ch *Chan) {
		s := fr.in.sched
		if w := firstLive(&ch.recvq); w != nil {
			s.fire(w, now(fr), true)
		} else if len(ch.buf) < 1 {
			ch.buf = append(ch.buf, now(fr))
		}
	}
	// timers: the struct's cell identifies the timer; arming or stopping it makes earlier alarms void
	type timer struct {
		gen, n int64
		armed  bool
		ch     *Chan
		f      Value
		period int64
		vc     vclock
	}
	timers := func(fr *frame, v Value) *timer {
		t, _ := fr.in.nat.ext["timers"].(map[*Value]*timer)
		if t == nil {
			t = map[*Value]*timer{}
			fr.in.nat.ext["timers"] = t
		}
		p := fr.deref(v)
		if t[p] == nil {
			t[p] = &timer{}
		}
		return t[p]
	}
	var arm func(fr *frame, t *timer, d int64)
	arm = func(fr *frame, t *timer, d int64) {
		s := fr.in.sched
		t.gen++
		t.armed = true
		g := t.gen
		if s.race != nil && t.period == 0 {
			t.vc = s.release(s.cur)
		}
		s.after(d, func() {
			if t.gen != g {
				return
			}
			t.armed = t.period > 0
			if t.f != nil {
				s.spawn(fr, t.f, nil)
				if s.race != nil {
					s.all[len(s.all)-1].vc.join(t.vc)
				}
				return
			}
			tick(fr, t.ch)
			if t.period > 0 {
				if t.n++; t.n > 300 {
					unsupported("a ticker that nobody stops")
				}
				arm(fr, t, t.period)
			}
		})
	}
	after := func(fr *frame, d int64) *Chan {
		t := &timer{ch: fr.in.sched.newChan(1)}
		arm(fr, t, d)
		return t.ch
	}
	mkTimer := func(fr *frame, f Value, d, period int64) Value {
		p := new(Value)
		t := timers(fr, p)
		t.f, t.period = f, period
		var c Value = (*Chan)(nil)
		if f == nil {
			t.ch = fr.in.sched.newChan(1)
			c = t.ch
		}
		*p = Struct{c, true}
		arm(fr, t, d)
		return p
	}
	reg("time.NewTimer", func(fr *frame, a []Value) Value { return mkTimer(fr, nil, fr.intArg(a[0], basicInt64), 0) })
	reg("time.AfterFunc", func(fr *frame, a []Value) Value { return mkTimer(fr, a[1], fr.intArg(a[0], basicInt64), 0) })
	reg("time.NewTicker", func(fr *frame, a []Value) Value {
		d := fr.intArg(a[0], basicInt64)
		if d <= 0 {
			panic(targetPanic{fr.in.mkErr(fr, "non-positive interval for NewTicker")})
		}
		return mkTimer(fr, nil, d, d)
	})
	reg("time.Tick", func(fr *frame, a []Value) Value {
		d := fr.intArg(a[0], basicInt64)
		if d <= 0 {
			return (*Chan)(nil)
		}
		return (*mkTimer(fr, nil, d, d).(*Value)).(Struct)[0]
	})
	stop := func(fr *frame, v Value) bool {
		t := timers(fr, v)
		was := t.armed
		t.gen++
		t.armed = false
		if t.ch != nil {
			t.ch.buf = nil
		}
		return was
	}
	reg("(*time.Timer).Stop", func(fr *frame, a []Value) Value { return stop(fr, a[0]) })
	reg("(*time.Ticker).Stop", func(fr *frame, a []Value) Value { stop(fr, a[0]); return nil })
	reg("(*time.Timer).Reset", func(fr *frame, a []Value) Value {
		was := stop(fr, a[0])
		arm(fr, timers(fr, a[0]), fr.intArg(a[1], basicInt64))
		return was
	})
	reg("(*time.Ticker).Reset", func(fr *frame, a []Value) Value {
		stop(fr, a[0])
		t := timers(fr, a[0])
		t.period = fr.intArg(a[1], basicInt64)
		arm(fr, t, t.period)
		return nil
	})
	reg("time.After", func(fr *frame, a []Value) Value { return after(fr, fr.intArg(a[0], basicInt64)) })
	_ = time.Now

	// ---- runtime ----
	reg("runtime.Gosched", func(fr *frame, a []Value) Value { fr.in.sched.yield(); return nil })
	reg("runtime.GOMAXPROCS", func(fr *frame, a []Value) Value { return uint64(4) })
	reg("runtime.NumCPU", func(fr *frame, a []Value) Value { return uint64(4) })
	reg("runtime.KeepAlive", func(fr *frame, a []Value) Value { return nil })
	reg("runtime.SetFinalizer", func(fr *frame, a []Value) Value { return nil })
	reg("runtime.Caller", func(fr *frame, a []Value) Value { return Tuple{uint64(0), "", uint64(0), false} })
	reg("os.Getenv", func(fr *frame, a []Value) Value { return "" })
	reg("internal/godebug.New", func(fr *frame, a []Value) Value { p := new(Value); *p = Struct{}; return p })
	reg("(*internal/godebug.Setting).Value", func(fr *frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault", func(fr *frame, a []Value) Value { return nil })
	reg("os.Exit", func(fr *frame, a []Value) Value { panic(crash{"os.Exit at " + fr.where()}) })

	// ---- log / fmt ----
	nop := func(fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"Print", "Printf", "Println", "SetFlags", "SetPrefix", "SetOutput"} {
		reg("log."+n, nop)
		reg("(*log.Logger)."+n, nop)
	}
	for _, n := range []string{"Fatal", "Fatalln", "Fatalf"} {
		f := func(fr *frame, a []Value) Value {
			panic(crash{"log.Fatal: " + fmt.Sprint(nativeArgs(fr, a[len(a)-1])...) + " at " + fr.where()})
		}
		reg("log."+n, f)
		reg("(*log.Logger)."+n, f)
	}
	for _, n := range []string{"Panic", "Panicln", "Panicf"} {
		reg("log."+n, func(fr *frame, a []Value) Value {
			panic(targetPanic{Iface{t: types.Typ[types.String], v: "log.Panic: " + fmt.Sprint(nativeArgs(fr, a[len(a)-1])...) + " at " + fr.where()}})
		})
	}
	for _, n := range []string{"Print", "Printf", "Println"} {
		reg("fmt."+n, func(fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} })
	}
	for _, n := range []string{"Fprint", "Fprintf", "Fprintln"} {
		n := n
		reg("fmt."+n, func(fr *frame, a []Value) Value {
			w := a[0].(Iface)
			if w.t == nil {
				return Tuple{uint64(0), Iface{}}
			}
			var s string
			switch n {
			case "Fprintf":
				s = fmt.Sprintf(concStr(a[1]), nativeArgs(fr, a[2])...)
			case "Fprint":
				s = fmt.Sprint(nativeArgs(fr, a[1])...)
			default:
				s = fmt.Sprintln(nativeArgs(fr, a[1])...)
			}
			if w.t.String() == "*os.File" {
				return fr.fileWrite(w.v, strCells(s))
			}
			fn := fr.in.pr.prog.LookupMethod(w.t, nil, "Write")
			return fr.in.callSSA(fr, fn, []Value{w.v, strCells(s)}, nil)
		})
	}
	reg("errors.Is", func(fr *frame, a []Value) Value {
		target := a[1].(Iface)
		var is func(e Iface) bool
		is = func(e Iface) bool {
			if e.t == nil || target.t == nil {
				return e.t == nil && target.t == nil
			}
			if types.Comparable(target.t) && types.Identical(e.t, target.t) && fr.in.branchT(fr, fr.eq(nil, e, target)) {
				return true
			}
			ms := types.NewMethodSet(e.t)
			if ms.Lookup(nil, "Is") != nil && fr.in.branchV(fr, fr.in.callM(fr, e, "Is", target)) {
				return true
			}
			if ms.Lookup(nil, "Unwrap") == nil {
				return false
			}
			switch u := fr.in.callM(fr, e, "Unwrap").(type) {
			case Iface:
				return u.t != nil && is(u)
			case []Value:
				for _, x := range u {
					if is(x.(Iface)) {
						return true
					}
				}
			}
			return false
		}
		return is(a[0].(Iface))
	})
	reg("errors.As", func(fr *frame, a []Value) Value {
		tg := a[1].(Iface)
		pt, ok := tg.t.(*types.Pointer)
		if !ok {
			panic(targetPanic{fr.in.mkErr(fr, "errors: target must be a non-nil pointer")})
		}
		dst, want := fr.deref(tg.v), pt.Elem()
		var as func(e Iface) bool
		as = func(e Iface) bool {
			if e.t == nil {
				return false
			}
			if types.AssignableTo(e.t, want) {
				fr.in.version++
				if types.IsInterface(want) {
					*dst = e
				} else {
					*dst = e.v
				}
				return true
			}
			ms := types.NewMethodSet(e.t)
			if ms.Lookup(nil, "As") != nil {
				if fr.in.branchV(fr, fr.in.callM(fr, e, "As", tg)) {
					return true
				}
			}
			if ms.Lookup(nil, "Unwrap") == nil {
				return false
			}
			switch u := fr.in.callM(fr, e, "Unwrap").(type) {
			case Iface:
				return as(u)
			case []Value:
				for _, x := range u {
					if as(x.(Iface)) {
						return true
					}
				}
			}
			return false
		}
		return as(a[0].(Iface))
	})
	reg("fmt.Sprintf", func(fr *frame, a []Value) Value {
		return fmt.Sprintf(strArg(fr, a[0]), nativeArgs(fr, a[1])...)
	})
	reg("fmt.Sprint", func(fr *frame, a []Value) Value { return fmt.Sprint(nativeArgs(fr, a[0])...) })
	reg("fmt.Sprintln", func(fr *frame, a []Value) Value { return fmt.Sprintln(nativeArgs(fr, a[0])...) })
	reg("fmt.Errorf", func(fr *frame, a []Value) Value {
		format := concStr(a[0])
		msg := strings.ReplaceAll(fmt.Sprintf(strings.ReplaceAll(format, "%w", "%v"), nativeArgs(fr, a[1])...), "%!", "%%!")
		if strings.Count(format, "%w") == 1 {
			n := strings.Count(strings.ReplaceAll(format[:strings.Index(format, "%w")], "%%", ""), "%")
			if args, ok := a[1].([]Value); ok && n < len(args) {
				e, ok := args[n].(Iface)
				if p := fr.in.pr.byPath["fmt"]; ok && e.t != nil && p != nil && p.Type("wrapError") != nil {
					fr.in.pr.ensureBuilt(p)
					c := new(Value)
					*c = Struct{msg, e}
					return Iface{t: types.NewPointer(p.Type("wrapError").Type()), v: c}
				}
			}
		}
		return fr.in.mkErr(fr, msg)
	})

	// ---- byte and string primitives ----
	reg("bytes.Equal", func(fr *frame, a []Value) Value { return normT(fr.in.eqBytes(a[0].([]Value), a[1].([]Value))) })
	reg("internal/bytealg.Equal", func(fr *frame, a []Value) Value { return normT(fr.in.eqBytes(a[0].([]Value), a[1].([]Value))) })
	reg("crypto/subtle.ConstantTimeCompare", func(fr *frame, a []Value) Value {
		if fr.in.branchT(fr, fr.in.eqBytes(a[0].([]Value), a[1].([]Value))) {
			return uint64(1)
		}
		return uint64(0)
	})
	cmp := func(fr *frame, a []Value) Value {
		x, ok1 := allConc(a[0].([]Value))
		y, ok2 := allConc(a[1].([]Value))
		if !ok1 || !ok2 {
			if fr.in.branchT(fr, fr.in.eqBytes(a[0].([]Value), a[1].([]Value))) {
				return uint64(0)
			}
			unsupported("ordering of symbolic bytes")
		}
		return uint64(int64(bytes.Compare(x, y)))
	}
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.IndexByte", func(fr *frame, a []Value) Value {
		b, ok := allConc(a[0].([]Value))
		if !ok {
			unsupported("IndexByte symbolic")
		}
		return uint64(int64(bytes.IndexByte(b, byte(a[1].(uint64)))))
	})
	reg("internal/bytealg.IndexByteString", func(fr *frame, a []Value) Value {
		return uint64(int64(strings.IndexByte(strArg(fr, a[0]), byte(a[1].(uint64)))))
	})
	reg("internal/bytealg.CountString", func(fr *frame, a []Value) Value {
		return uint64(strings.Count(strArg(fr, a[0]), string([]byte{byte(a[1].(uint64))})))
	})
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []Value) Value {
		n := fr.intArg(a[0], basicInt)
		out := make([]Value, n)
		for i := range out {
			out[i] = uint64(0)
		}
		return out
	})
	reg("strings.Index", func(fr *frame, a []Value) Value {
		return uint64(int64(strings.Index(strArg(fr, a[0]), strArg(fr, a[1]))))
	})
	reg("strings.Contains", func(fr *frame, a []Value) Value {
		return strings.Contains(strArg(fr, a[0]), strArg(fr, a[1]))
	})
	reg("strings.Split", func(fr *frame, a []Value) Value {
		var out []Value
		for _, s := range strings.Split(strArg(fr, a[0]), strArg(fr, a[1])) {
			out = append(out, s)
		}
		return out
	})
	reg("strings.Join", func(fr *frame, a []Value) Value {
		var ss []string
		for _, x := range a[0].([]Value) {
			ss = append(ss, strArg(fr, x))
		}
		return strings.Join(ss, strArg(fr, a[1]))
	})
	reg("internal/stringslite.Index", func(fr *frame, a []Value) Value {
		return uint64(int64(strings.Index(strArg(fr, a[0]), strArg(fr, a[1]))))
	})
	reg("strconv.Itoa", func(fr *frame, a []Value) Value { return fmt.Sprint(fr.intArg(a[0], basicInt)) })
	reg("strconv.FormatInt", func(fr *frame, a []Value) Value {
		return bigText(fr.intArg(a[0], basicInt64), int(a[1].(uint64)))
	})
	reg("internal/abi.NoEscape", func(fr *frame, a []Value) Value { return a[0] })
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/race.Enable", nop)
	reg("internal/abi.Escape", func(fr *frame, a []Value) Value { return a[0] })

	// ---- hex ----
	hexEnc := func(fr *frame, b []Value) []Value {
		const d = "0123456789abcdef"
		c := fr.in.c
		var out []Value
		nib := func(t *Term) Value {
			x := c.ZExt(t, 8)
			ch := c.Ite(c.Cmp(OUlt, x, c.Const(8, 10)), c.Bin(OAdd, x, c.Const(8, '0')), c.Bin(OAdd, x, c.Const(8, 'a'-10)))
			fr.in.nat.hexNib[ch] = t
			return ch
		}
		for _, v := range b {
			switch x := v.(type) {
			case uint64:
				out = append(out, uint64(d[x>>4]), uint64(d[x&15]))
			case *Term:
				out = append(out, nib(c.Extract(x, 7, 4)), nib(c.Extract(x, 3, 0)))
			}
		}
		return out
	}
	reg("encoding/hex.EncodeToString", func(fr *frame, a []Value) Value { return mkStr(hexEnc(fr, a[0].([]Value))) })
	reg("encoding/hex.DecodeString", func(fr *frame, a []Value) Value {
		cs := strCells(a[0])
		c := fr.in.c
		var out []Value
		if len(cs)%2 == 1 {
			return Tuple{[]Value(nil), fr.in.mkErr(fr, "encoding/hex: odd length hex string")}
		}
		dig := func(v Value) (Value, bool) {
			switch x := v.(type) {
			case uint64:
				i := strings.IndexByte("0123456789abcdef", byte(x))
				if i < 0 {
					i = strings.IndexByte("0123456789ABCDEF", byte(x))
				}
				return uint64(i), i >= 0
			case *Term:
				if t, ok := fr.in.nat.hexNib[x]; ok {
					return t, true
				}
			}
			unsupported("hex decoding of symbolic text")
			return nil, false
		}
		for i := 0; i < len(cs); i += 2 {
			h, ok1 := dig(cs[i])
			l, ok2 := dig(cs[i+1])
			if !ok1 || !ok2 {
				return Tuple{out, fr.in.mkErr(fr, "encoding/hex: invalid byte")}
			}
			if hk, ok := h.(uint64); ok {
				if lk, ok := l.(uint64); ok {
					out = append(out, hk<<4|lk)
					continue
				}
			}
			out = append(out, normT(c.Concat(fr.in.term(h, 4), fr.in.term(l, 4))))
		}
		return Tuple{out, Iface{}}
	})

	// ---- sort ----
	sortSlice := func(fr *frame, a []Value) Value {
		s := a[0].(Iface).v.([]Value)
		less := func(i, j int) bool { return fr.in.branchV(fr, fr.in.call(fr, a[1], []Value{uint64(i), uint64(j)})) }
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				x := copyVal(s[j])
				storeInto(&s[j], copyVal(s[j-1]))
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	sortInts := func(fr *frame, a []Value) Value {
		s := a[0].([]Value)
		allc := true
		for _, x := range s {
			if _, ok := x.(uint64); !ok {
				allc = false
			}
		}
		if !allc {
			unsupported("sort of symbolic ints")
		}
		sort.Slice(s, func(i, j int) bool { return int64(s[i].(uint64)) < int64(s[j].(uint64)) })
		fr.in.version++
		return nil
	}
	reg("sort.Ints", sortInts)

	// ---- math ----
	reg("math.Ceil", func(fr *frame, a []Value) Value { return math.Ceil(a[0].(float64)) })
	reg("math.Floor", func(fr *frame, a []Value) Value { return math.Floor(a[0].(float64)) })
	reg("math.Log2", func(fr *frame, a []Value) Value { return math.Log2(a[0].(float64)) })
	reg("math.Log", func(fr *frame, a []Value) Value { return math.Log(a[0].(float64)) })
	reg("math.Sqrt", func(fr *frame, a []Value) Value { return math.Sqrt(a[0].(float64)) })
	reg("math.Pow", func(fr *frame, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) })
	reg("math.Float64bits", func(fr *frame, a []Value) Value { return math.Float64bits(a[0].(float64)) })
	reg("math.Float64frombits", func(fr *frame, a []Value) Value { return math.Float64frombits(a[0].(uint64)) })

	// ---- hashing ----
	reg("crypto/sha256.Sum256", func(fr *frame, a []Value) Value {
		return Array(fr.in.hash("sha256", 32, a[0].([]Value)))
	})
	reg("crypto/sha512.Sum512", func(fr *frame, a []Value) Value {
		return Array(fr.in.hash("sha512", 64, a[0].([]Value)))
	})
	hashObj := func(alg string, n int) intrinsic {
		ht := &natType{name: "hash." + alg, methods: map[string]func(fr *frame, a []Value) Value{}}
		ht.methods["Write"] = func(fr *frame, a []Value) Value {
			p := a[0].(*Value)
			b := a[1].([]Value)
			*p = append(append([]Value(nil), (*p).([]Value)...), b...)
			return Tuple{uint64(len(b)), Iface{}}
		}
		ht.methods["Sum"] = func(fr *frame, a []Value) Value {
			p := a[0].(*Value)
			return append(append([]Value(nil), a[1].([]Value)...), fr.in.hash(alg, n, (*p).([]Value))...)
		}
		ht.methods["Reset"] = func(fr *frame, a []Value) Value { *(a[0].(*Value)) = []Value(nil); return nil }
		ht.methods["Size"] = func(fr *frame, a []Value) Value { return uint64(n) }
		ht.methods["BlockSize"] = func(fr *frame, a []Value) Value { return uint64(64) }
		return func(fr *frame, a []Value) Value {
			p := new(Value)
			*p = []Value(nil)
			return Iface{t: ht, v: p}
		}
	}
	reg("crypto/sha256.New", hashObj("sha256", 32))
	reg("crypto/sha512.New", hashObj("sha512", 64))
	reg("golang.org/x/crypto/sha3.New256", hashObj("sha3-256", 32))
	reg("golang.org/x/crypto/sha3.Sum256", func(fr *frame, a []Value) Value { return Array(fr.in.hash("sha3-256", 32, a[0].([]Value))) })
	reg("golang.org/x/crypto/sha3.Sum512", func(fr *frame, a []Value) Value { return Array(fr.in.hash("sha3-512", 64, a[0].([]Value))) })

	// ---- math/rand (deterministic in the model) ----
	reg("math/rand.Seed", nop)
	reg("math/rand.Intn", func(fr *frame, a []Value) Value {
		n := fr.intArg(a[0], basicInt)
		return uint64(fr.in.p.choose(int(n), "rand"))
	})
	reg("crypto/rand.Read", func(fr *frame, a []Value) Value {
		b := a[0].([]Value)
		for i := range b {
			b[i] = fr.in.freshByte("rndb")
		}
		return Tuple{uint64(len(b)), Iface{}}
	})
	reg("crypto/rand.Int", func(fr *frame, a []Value) Value {
		m := bigAt(fr, a[1]).conc(fr)
		if m.Cmp(pBig) != 0 {
			unsupported("crypto/rand.Int with another modulus")
		}
		p := new(Value)
		*p = &BigV{fe: fr.in.freshFE("rnd")}
		return Tuple{p, Iface{}}
	})

	// ---- math/bits: interpretable, but common ones are cheap here ----
	b64 := func(f func(uint64) int) intrinsic {
		return func(fr *frame, a []Value) Value {
			x, ok := a[0].(uint64)
			if !ok {
				return fallthroughV{}
			}
			return uint64(f(x))
		}
	}
	reg("math/bits.LeadingZeros64", b64(bits.LeadingZeros64))
	reg("math/bits.TrailingZeros64", b64(bits.TrailingZeros64))
	reg("math/bits.Len64", b64(bits.Len64))
	reg("math/bits.OnesCount64", b64(bits.OnesCount64))

	// scalars that encode an already canonical value are valid (contract proved by P01)
	reg("github.com/DyCAPSTeam/DyCAPS/internal/bls.ValidFr", func(fr *frame, a []Value) Value {
		arr := a[0].(Array)
		rev := make([]Value, len(arr))
		for i := range arr {
			rev[len(arr)-1-i] = arr[i]
		}
		if b := fullBlob(rev); b != nil && b.kind == "fr" {
			return true
		}
		return fallthroughV{}
	})
}

func bigText(v int64, base int) string {
	return newBigInt(v).Text(base)
}
