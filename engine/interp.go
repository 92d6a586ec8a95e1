package main

// Symbolic interpreter for Go SSA (golang.org/x/tools/go/ssa).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// representation:
//
//	integers            uint64 (masked to width) or *Term
//	bool                bool or *Term (w=0)
//	float               float64
//	string              string or *SymStr
//	pointer             *Value or *SymPtr
//	struct/array/slice  Struct / Array / []Value
//	map                 *Map
//	interface           Iface
//	func                *Closure
//	chan                *Chan
//	abstract            *FE (field), *Pt (curve point), *BigV ...
type Struct []Value
type Array []Value
type Tuple []Value
type SymStr struct{ cells []Value }
type SymPtr struct {
	cells []Value
	idx   *Term
	w     uint16
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(fr *frame, args []Value) Value
}

type targetPanic struct{ v Value }
type unsupportedErr struct{ msg string }
type engineFail struct{ msg string }

// pathEnd terminates the current path.
type pathEnd struct{ why string }

func unsupported(f string, a ...any) { panic(unsupportedErr{fmt.Sprintf(f, a...)}) }
func engineErr(m string) engineFail  { return engineFail{m} }

// ---- program-level (shared between workers) ----

type opref struct {
	kind int8 // 0 nil, 1 env slot, 2 constant, 3 global, 4 function, 5 builtin
	slot int
	val  Value
	g    *ssa.Global
}
type cinstr struct {
	ins ssa.Instruction
	ops []opref
	dst int
}
type cblock struct{ ins []cinstr }
type cfunc struct {
	fn     *ssa.Function
	nslot  int
	params []int
	free   []int
	blocks []cblock
	intr   intrinsic
	hasI   bool
	name   string
	track  atomic.Int32 // 1: not part of the module under test, 2: part of it
}

type Program struct {
	prog   *ssa.Program
	pkgs   []*ssa.Package
	byPath map[string]*ssa.Package
	cf     sync.Map // *ssa.Function -> *cfunc
	bmu    sync.Mutex
	built  sync.Map
	sizes  types.Sizes
	fset   *token.FileSet
	abs    map[string]string // qualified type name -> abstract kind
	plain  bool              // scalars are not in Montgomery form
	absTn  sync.Map          // types.Type -> string
}

type intrinsic func(fr *frame, args []Value) Value

func (pr *Program) ensureBuilt(p *ssa.Package) {
	if p == nil {
		return
	}
	if _, ok := pr.built.Load(p); ok {
		return
	}
	pr.bmu.Lock()
	defer pr.bmu.Unlock()
	if _, ok := pr.built.Load(p); ok {
		return
	}
	p.Build()
	pr.built.Store(p, true)
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (pr *Program) compile(fn *ssa.Function) *cfunc {
	if c, ok := pr.cf.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn, name: fnKey(fn)}
	if i, ok := intrinsics[c.name]; ok {
		c.intr, c.hasI = i, true
	} else if i := prefixIntrinsic(c.name); i != nil {
		c.intr, c.hasI = i, true
	}
	{
		if fn.Pkg != nil {
			pr.ensureBuilt(fn.Pkg)
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			pr.ensureBuilt(o.Pkg)
		}
		if fn.Blocks != nil {
			pr.compileBody(c)
		}
	}
	a, _ := pr.cf.LoadOrStore(fn, c)
	return a.(*cfunc)
}
func (pr *Program) compileBody(c *cfunc) {
	fn := c.fn
	slots := map[ssa.Value]int{}
	slot := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		s := len(slots)
		slots[v] = s
		return s
	}
	for _, p := range fn.Params {
		c.params = append(c.params, slot(p))
	}
	for _, p := range fn.FreeVars {
		c.free = append(c.free, slot(p))
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				slot(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		cb := cblock{}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = slots[v]
			}
			for _, op := range i.Operands(nil) {
				v := *op
				o := opref{}
				switch v := v.(type) {
				case nil:
				case *ssa.Const:
					o.kind, o.val = 2, pr.constValue(v)
				case *ssa.Global:
					o.kind, o.g = 3, v
				case *ssa.Function:
					o.kind, o.val = 4, &Closure{fn: v}
				case *ssa.Builtin:
					o.kind, o.val = 5, v
				default:
					s, ok := slots[v]
					if !ok {
						panic(engineErr("no slot for " + v.String()))
					}
					o.kind, o.slot = 1, s
				}
				ci.ops = append(ci.ops, o)
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	c.nslot = len(slots)
}

func (pr *Program) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return constZeroMarker{c.Type()}
	}
	switch t := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case t.Info()&types.IsInteger != 0:
			w, signed := intWidth(t)
			if signed {
				x := constant.ToInt(c.Value)
				i, _ := constant.Int64Val(x)
				return uint64(i) & mask(w)
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return u & mask(w)
		case t.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case t.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Info()&types.IsComplex != 0:
			return complexUnsupported{}
		}
	case *types.TypeParam:
	}
	panic(engineErr("const " + c.String() + " of type " + c.Type().String()))
}

type complexUnsupported struct{}
type constZeroMarker struct{ t types.Type }

func intWidth(t types.Type) (uint16, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engineErr("intWidth of " + t.String()))
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	panic(engineErr("intWidth of " + t.String()))
}

// absKind returns the abstract kind of a (named) type, or "".
func (pr *Program) absKind(t types.Type) string {
	if k, ok := pr.absTn.Load(t); ok {
		return k.(string)
	}
	k := ""
	if n, ok := types.Unalias(t).(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			k = pr.abs[o.Pkg().Path()+"."+o.Name()]
		}
	}
	pr.absTn.Store(t, k)
	return k
}

// ---- per-path interpreter ----

type Interp struct {
	pr      *Program
	c       *TCtx
	f       *FCtx
	p       *Path
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	instrs  int64
	maxIns  int64
	sched   *Sched
	funcs   map[*ssa.Function]bool // functions executed
	trace   bool
	opt     map[string]string
	nat     *natState
	slice   int // instructions left in the current time slice
	version int64
	depth   int
}

type frame struct {
	in        *Interp
	cf        *cfunc
	env       []Value
	caller    *frame
	g         *Gor
	defers    []deferred
	result    Value
	panicking bool
	panicv    any
	recovered bool
	curPos    token.Pos
	depth     int
	seq       int64
	iters     int64
}
type deferred struct {
	fn   Value
	args []Value
}

func (in *Interp) zero(t types.Type) Value {
	if k := in.pr.absKind(t); k != "" {
		return in.absZero(k)
	}
	switch t := t.(type) {
	case *types.Named:
		return in.zero(t.Underlying())
	case *types.Alias:
		return in.zero(types.Unalias(t))
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return uint64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = in.zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = in.zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = in.zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		unsupported("zero of type param")
	}
	unsupported("zero of %s", t)
	return nil
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// store writes v into the cell, keeping the identity of sub-cells of aggregates.
func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (fr *frame) get(o *opref) Value {
	switch o.kind {
	case 1:
		return fr.env[o.slot]
	case 2:
		if z, ok := o.val.(constZeroMarker); ok {
			return fr.in.zero(z.t)
		}
		return o.val
	case 3:
		return fr.in.global(o.g)
	case 4, 5:
		return o.val
	}
	return nil
}

func (in *Interp) global(g *ssa.Global) *Value {
	if c, ok := in.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
	in.globals[g] = c
	if in.sched != nil && in.sched.race != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == blsPath {
		in.sched.race.quiet[c] = true
	}
	if g.Pkg != nil {
		if over := globalOverride(in, g); over != nil {
			*c = over
			return c
		}
		in.initPkg(g.Pkg)
	}
	return c
}

// initPkg lazily runs the package initialiser (dependencies initialise on demand).
func (in *Interp) initPkg(p *ssa.Package) {
	if in.inited[p] != 0 {
		return
	}
	in.inited[p] = 1
	if skipInit[p.Pkg.Path()] {
		in.initErrors(p)
		in.inited[p] = 2
		return
	}
	in.pr.ensureBuilt(p)
	fn := p.Func("init")
	if fn == nil {
		return
	}
	g := in.sched.cur
	save := in.slice
	in.slice = 1 << 60
	in.callSSA(&frame{in: in, g: g}, fn, nil, nil)
	in.slice = save
	in.inited[p] = 2
}

func (fr *frame) where() string {
	var parts []string
	n := 0
	for f := fr; f != nil && f.cf != nil && n < 14; f = f.caller {
		pos := fr.in.pr.fset.Position(f.curPos)
		fn := pos.Filename
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		parts = append(parts, fmt.Sprintf("%s (%s:%d)", f.cf.name, fn, pos.Line))
		n++
	}
	return strings.Join(parts, " < ")
}

func (in *Interp) rtPanic(fr *frame, msg string) {
	panic(targetPanic{Iface{t: runtimeErrType, v: "runtime error: " + msg + " at " + fr.where()}})
}

var runtimeErrType = types.NewNamed(types.NewTypeName(0, types.NewPackage("runtime", "runtime"), "vErrorString", nil), types.Typ[types.String], nil)

func (in *Interp) call(caller *frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *Closure:
		if f == nil {
			in.rtPanic(caller, "invalid memory address or nil pointer dereference (nil func)")
		}
		if f.nat != nil {
			return f.nat(caller, args)
		}
		return in.callSSA(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return in.callBuiltin(caller, f, args, nil)
	}
	panic(engineErr(fmt.Sprintf("call of %T", fn)))
}

func (in *Interp) callSSA(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	cf := in.pr.compile(fn)
	if in.trace {
		fmt.Fprintf(os.Stderr, "%*scall %s\n", caller.depth, "", cf.name)
	}
	if cf.hasI {
		var r Value
		if caller.racing() {
			r = caller.watched(cf, args)
		} else {
			r = cf.intr(caller, args)
		}
		if _, ok := r.(fallthroughV); !ok {
			return r
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil && fn.Signature.Recv() == nil && caller.cf != nil && caller.cf.fn.Pkg != fn.Pkg {
		// dependency initialisers run lazily
		return nil
	}
	if cf.blocks == nil {
		unsupported("call of %s (no body) from %s", cf.name, caller.where())
	}
	if in.funcs != nil && !in.funcs[fn] {
		in.funcs[fn] = true
	}
	fr := &frame{in: in, cf: cf, env: make([]Value, cf.nslot), caller: caller, g: caller.g, depth: caller.depth + 1}
	if fr.depth > 2000 {
		unsupported("call depth exceeded at %s", cf.name)
	}
	for i, s := range cf.params {
		fr.env[s] = args[i]
	}
	for i, s := range cf.free {
		fr.env[s] = env[i]
	}
	fr.run(0, -1)
	return fr.result
}

// run executes from block b; it handles panics/defers.
func (fr *frame) run(b, prev int) {
	if fr.cf.fn.Recover == nil && !hasDefer(fr.cf) {
		fr.exec(b, prev)
		return
	}
	done := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			r := recover()
			switch r.(type) {
			case targetPanic, crash:
			default:
				panic(r) // engine-level control flow
			}
			if _, isCrash := r.(crash); isCrash {
				panic(r)
			}
			fr.panicking = true
			fr.panicv = r
		}()
		fr.exec(b, prev)
		return true
	}()
	if done {
		return
	}
	fr.runDefers()
	if fr.panicking {
		panic(fr.panicv)
	}
	// recovered
	if rb := fr.cf.fn.Recover; rb != nil {
		fr.exec(rb.Index, -1)
		return
	}
	fr.result = zeroResult(fr.in, fr.cf.fn)
}
func zeroResult(in *Interp, fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

func hasDefer(c *cfunc) bool {
	for _, b := range c.blocks {
		for _, i := range b.ins {
			if _, ok := i.ins.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					fr.panicking = true
					fr.panicv = tp
					return
				}
				panic(r)
			}()
			fr.in.call(fr, d.fn, d.args)
		}()
	}
}

func (fr *frame) exec(bi, prev int) {
	in := fr.in
	for {
		blk := &fr.cf.blocks[bi]
		// phis first
		n := 0
		ins := blk.ins
		if prev >= 0 {
			b := fr.cf.fn.Blocks[bi]
			pi := -1
			var vals [16]Value
			cnt := 0
			var extra []Value
			for n < len(ins) {
				if _, ok := ins[n].ins.(*ssa.Phi); !ok {
					break
				}
				if pi < 0 {
					for k, pb := range b.Preds {
						if pb.Index == prev {
							pi = k
							break
						}
					}
				}
				v := fr.get(&ins[n].ops[pi])
				if cnt < 16 {
					vals[cnt] = v
				} else {
					extra = append(extra, v)
				}
				cnt++
				n++
			}
			for k := 0; k < cnt; k++ {
				if k < 16 {
					fr.env[ins[k].dst] = vals[k]
				} else {
					fr.env[ins[k].dst] = extra[k-16]
				}
			}
		}
		for ; n < len(ins); n++ {
			ci := &ins[n]
			in.instrs++
			in.slice--
			if in.slice <= 0 {
				in.tick(fr)
			}
			switch i := ci.ins.(type) {
			case *ssa.Jump:
				prev, bi = bi, fr.cf.fn.Blocks[bi].Succs[0].Index
				goto next
			case *ssa.If:
				fr.curPos = condPos(i)
				c := in.branchV(fr, fr.get(&ci.ops[0]))
				k := 1
				if c {
					k = 0
				}
				prev, bi = bi, fr.cf.fn.Blocks[bi].Succs[k].Index
				goto next
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(&ci.ops[k])
					}
					fr.result = t
				}
				return
			default:
				fr.visit(ci)
			}
		}
		panic(engineErr("fell off block in " + fr.cf.name))
	next:
	}
}
func condPos(i *ssa.If) token.Pos { return i.Cond.Pos() }

func (in *Interp) tick(fr *frame) {
	if in.instrs > in.maxIns {
		panic(pathEnd{"instruction budget"})
	}
	if in.p.w.expired() {
		panic(pathEnd{"time budget"})
	}
	in.sched.timeslice(fr)
}

func (fr *frame) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if sp, ok := v.(*SymPtr); ok {
			// concretise
			i := fr.in.concretize(fr, sp.idx)
			return &sp.cells[i]
		}
		panic(engineErr(fmt.Sprintf("deref of %T at %s", v, fr.where())))
	}
	if p == nil {
		fr.in.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return p
}

func (fr *frame) visit(ci *cinstr) {
	in := fr.in
	if p := ci.ins.Pos(); p.IsValid() {
		fr.curPos = p
	}
	switch i := ci.ins.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(i.Type().Underlying().(*types.Pointer).Elem())
		fr.env[ci.dst] = p
	case *ssa.UnOp:
		fr.env[ci.dst] = fr.unop(i, fr.get(&ci.ops[0]))
	case *ssa.BinOp:
		fr.env[ci.dst] = fr.binop(i.Op, i.X.Type(), i.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
	case *ssa.Call:
		fn, args := fr.prepCall(&i.Call, ci)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.env[ci.dst] = in.callBuiltin(fr, b, args, &i.Call)
		} else {
			fr.env[ci.dst] = in.call(fr, fn, args)
		}
	case *ssa.ChangeInterface:
		fr.env[ci.dst] = fr.get(&ci.ops[0])
	case *ssa.ChangeType:
		fr.env[ci.dst] = fr.changeType(i.X.Type(), i.Type(), fr.get(&ci.ops[0]))
	case *ssa.Convert:
		fr.env[ci.dst] = fr.convert(i.X.Type(), i.Type(), fr.get(&ci.ops[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = fr.convert(i.X.Type(), i.Type(), fr.get(&ci.ops[0]))
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: i.X.Type(), v: copyVal(fr.get(&ci.ops[0]))}
	case *ssa.Extract:
		fr.env[ci.dst] = fr.get(&ci.ops[0]).(Tuple)[i.Index]
	case *ssa.Slice:
		fr.env[ci.dst] = fr.slice(i, ci)
	case *ssa.Store:
		v := fr.get(&ci.ops[1])
		a := fr.get(&ci.ops[0])
		if sp, ok := a.(*SymPtr); ok {
			in.symStore(sp, v)
			return
		}
		p := fr.deref(a)
		in.noteStore(p, v)
		if fr.racing() {
			fr.touch(p, true)
		}
		storeInto(p, v)
	case *ssa.FieldAddr:
		p := fr.deref(fr.get(&ci.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			unsupported("field of abstract value %T at %s", *p, fr.where())
		}
		fr.env[ci.dst] = &s[i.Field]
	case *ssa.Field:
		fr.env[ci.dst] = fr.get(&ci.ops[0]).(Struct)[i.Field]
	case *ssa.IndexAddr:
		x := fr.get(&ci.ops[0])
		var cells []Value
		switch x := x.(type) {
		case []Value:
			cells = x
		case *Value:
			a, ok := (*fr.deref(x)).(Array)
			if !ok {
				if b, big := (*fr.deref(x)).(*BigV); big && onlyRead(i) {
					a, ok = fr.in.limbsOf(fr, b), true
				}
			}
			if !ok {
				unsupported("indexing abstract value %T at %s", *x, fr.where())
			}
			cells = a
		default:
			panic(engineErr(fmt.Sprintf("indexaddr %T", x)))
		}
		fr.env[ci.dst] = fr.indexAddr(cells, fr.get(&ci.ops[1]), i.Index.Type(), i.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Index:
		x := fr.get(&ci.ops[0])
		switch x := x.(type) {
		case Array:
			p := fr.indexAddr([]Value(x), fr.get(&ci.ops[1]), i.Index.Type(), elemOf(i))
			fr.env[ci.dst] = fr.load(p)
		case string, *SymStr:
			cells := strCells(x)
			p := fr.indexAddr(cells, fr.get(&ci.ops[1]), i.Index.Type(), elemOf(i))
			fr.env[ci.dst] = fr.load(p)
		case []Value:
			p := fr.indexAddr(x, fr.get(&ci.ops[1]), i.Index.Type(), elemOf(i))
			fr.env[ci.dst] = fr.load(p)
		default:
			unsupported("index of %T", x)
		}
	case *ssa.Lookup:
		x := fr.get(&ci.ops[0])
		if m, ok := x.(*Map); ok {
			if fr.racing() {
				fr.touchMap(m, false)
			}
			v, found := in.mapGet(fr, m, fr.get(&ci.ops[1]))
			if !found {
				v = in.zero(i.X.Type().Underlying().(*types.Map).Elem())
			}
			v = copyVal(v)
			if i.CommaOk {
				fr.env[ci.dst] = Tuple{v, found}
			} else {
				fr.env[ci.dst] = v
			}
			return
		}
		cells := strCells(x)
		p := fr.indexAddr(cells, fr.get(&ci.ops[1]), i.Index.Type(), elemOf(i))
		fr.env[ci.dst] = fr.load(p)
	case *ssa.MapUpdate:
		m := fr.get(&ci.ops[0]).(*Map)
		if m == nil {
			panic(targetPanic{Iface{t: runtimeErrType, v: "assignment to entry in nil map at " + fr.where()}})
		}
		if fr.racing() {
			fr.touchMap(m, true)
		}
		in.mapSet(fr, m, copyVal(fr.get(&ci.ops[1])), copyVal(fr.get(&ci.ops[2])))
	case *ssa.MakeMap:
		fr.env[ci.dst] = newMap()
	case *ssa.MakeSlice:
		n := fr.intArg(fr.get(&ci.ops[0]), i.Len.Type())
		c := fr.intArg(fr.get(&ci.ops[1]), i.Cap.Type())
		if n < 0 || c < n {
			in.rtPanic(fr, "makeslice: len out of range")
		}
		if c > 1<<24 {
			unsupported("makeslice of %d elements", c)
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		a := make([]Value, c)
		fillZero(in, a, et)
		fr.env[ci.dst] = a[:n]
	case *ssa.MakeChan:
		n := fr.intArg(fr.get(&ci.ops[0]), i.Size.Type())
		fr.env[ci.dst] = in.sched.newChan(int(n))
	case *ssa.MakeClosure:
		var bs []Value
		for k := 1; k < len(ci.ops); k++ {
			bs = append(bs, fr.get(&ci.ops[k]))
		}
		fr.env[ci.dst] = &Closure{fn: i.Fn.(*ssa.Function), env: bs}
	case *ssa.TypeAssert:
		fr.env[ci.dst] = fr.typeAssert(i, fr.get(&ci.ops[0]).(Iface))
	case *ssa.Panic:
		v := fr.get(&ci.ops[0])
		panic(targetPanic{v})
	case *ssa.Defer:
		fn, args := fr.prepCall(&i.Call, ci)
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			v := fr.panicv
			panic(v)
		}
	case *ssa.Go:
		fn, args := fr.prepCall(&i.Call, ci)
		in.sched.spawn(fr, fn, args)
	case *ssa.Send:
		ch := fr.get(&ci.ops[0]).(*Chan)
		in.sched.send(fr, ch, copyVal(fr.get(&ci.ops[1])))
	case *ssa.Select:
		fr.env[ci.dst] = fr.selectStmt(i, ci)
	case *ssa.Range:
		fr.env[ci.dst] = fr.rangeIter(fr.get(&ci.ops[0]))
	case *ssa.Next:
		it := fr.get(&ci.ops[0]).(*rangeIt)
		if it.m != nil && fr.racing() {
			fr.touchMap(it.m, false)
		}
		fr.env[ci.dst] = it.next(in, i)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&ci.ops[0]).([]Value)
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic(fr, "cannot convert slice to array pointer: length")
		}
		// shares backing store
		p := new(Value)
		*p = Array(s[:n:n])
		fr.env[ci.dst] = p
	case *ssa.Phi:
		panic(engineErr("phi"))
	default:
		unsupported("instruction %T", ci.ins)
	}
}

func fillZero(in *Interp, a []Value, et types.Type) {
	if len(a) == 0 {
		return
	}
	z := in.zero(et)
	switch z.(type) {
	case Struct, Array:
		a[0] = z
		for k := 1; k < len(a); k++ {
			a[k] = copyVal(z)
		}
	default:
		for k := range a {
			a[k] = z
		}
	}
}

func (fr *frame) load(p Value) Value {
	switch p := p.(type) {
	case *SymPtr:
		return fr.in.symLoad(p)
	case *Value:
		q := fr.deref(p)
		if fr.racing() {
			fr.touch(q, false)
		}
		return copyVal(*q)
	}
	panic(engineErr(fmt.Sprintf("load %T", p)))
}

func (fr *frame) indexAddr(cells []Value, idx Value, it, et types.Type) Value {
	in := fr.in
	switch x := idx.(type) {
	case uint64:
		w, s := intWidth(it)
		k := int64(x)
		if s {
			k = sext(x, w)
		}
		if k < 0 || k >= int64(len(cells)) {
			in.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", k, len(cells)))
		}
		return &cells[k]
	case *Term:
		w, s := intWidth(it)
		t := x
		if w < 64 {
			if s {
				t = in.c.SExt(t, 64)
			} else {
				t = in.c.ZExt(t, 64)
			}
		}
		if !in.branchT(fr, in.c.Cmp(OUlt, t, in.c.Const(64, uint64(len(cells))))) {
			in.rtPanic(fr, fmt.Sprintf("index out of range [symbolic] with length %d", len(cells)))
		}
		if len(cells) == 1 {
			return &cells[0]
		}
		if isC(t) {
			return &cells[t.k]
		}
		if len(cells) <= 300 {
			if b, ok := et.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ew, _ := intWidth(b)
				return &SymPtr{cells: cells, idx: t, w: ew}
			}
		}
		k := in.concretize(fr, t)
		return &cells[k]
	}
	panic(engineErr(fmt.Sprintf("index %T", idx)))
}
func (in *Interp) symLoad(p *SymPtr) Value { return normT(in.muxTree(p.cells, p.idx, p.w)) }

func (in *Interp) muxTree(cells []Value, idx *Term, w uint16) *Term {
	get := func(i int) *Term {
		switch v := cells[i].(type) {
		case uint64:
			return in.c.Const(w, v)
		case *Term:
			return v
		}
		panic(engineErr("mux"))
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return get(lo)
		}
		mid := (lo + hi) / 2
		return in.c.Ite(in.c.Cmp(OUlt, idx, in.c.Const(64, uint64(mid))), rec(lo, mid), rec(mid, hi))
	}
	if t := in.affineTable(cells, idx, w); t != nil {
		return t
	}
	return rec(0, len(cells))
}

// affineTable reads a constant table of 2^k <= 256 entries as an XOR of index bits (plus the
// few entries that differ), which the solver handles far better than nested selections.  The
// index is below len(cells) on this path (the bounds check has been taken).
func (in *Interp) affineTable(cells []Value, idx *Term, w uint16) *Term {
	n := len(cells)
	if n < 8 || n > 256 || n&(n-1) != 0 {
		return nil
	}
	k := uint16(0)
	for 1<<k < n {
		k++
	}
	tab := make([]uint64, n)
	for i, c := range cells {
		v, ok := c.(uint64)
		if !ok {
			return nil
		}
		tab[i] = v
	}
	fit := func(base int) ([]uint64, []int) {
		col := make([]uint64, k)
		for j := range col {
			col[j] = tab[base] ^ tab[base^1<<j]
		}
		var bad []int
		for i := range tab {
			x := tab[base]
			for j := range col {
				if (i^base)>>j&1 == 1 {
					x ^= col[j]
				}
			}
			if x != tab[i] {
				bad = append(bad, i)
				if len(bad) > 8 {
					break
				}
			}
		}
		return col, bad
	}
	base := 0
	col, bad := fit(0)
	if len(bad) > 8 {
		base = n - 1
		col, bad = fit(base)
	}
	if len(bad) > 8 {
		return nil
	}
	// constant part: value at index 0 of the affine function
	c0 := tab[base]
	for j := range col {
		if base>>j&1 == 1 {
			c0 ^= col[j]
		}
	}
	bit := make([]*Term, k)
	for j := uint16(0); j < k; j++ {
		bit[j] = in.c.Extract(idx, j, j)
	}
	var r *Term
	for b := int(w) - 1; b >= 0; b-- {
		x := in.c.Const(1, c0>>b&1)
		for j := uint16(0); j < k; j++ {
			if col[j]>>b&1 == 1 {
				x = in.c.Bin(OXor, x, bit[j])
			}
		}
		if r == nil {
			r = x
		} else {
			r = in.c.Concat(r, x)
		}
	}
	for _, i := range bad {
		r = in.c.Ite(in.c.Eq(idx, in.c.Const(64, uint64(i))), in.c.Const(w, tab[i]), r)
	}
	return r
}
func (in *Interp) symStore(p *SymPtr, v Value) {
	w := p.w
	for i := range p.cells {
		var old *Term
		switch x := p.cells[i].(type) {
		case uint64:
			old = in.c.Const(w, x)
		case *Term:
			old = x
		}
		var nv *Term
		switch x := v.(type) {
		case uint64:
			nv = in.c.Const(w, x)
		case *Term:
			nv = x
		default:
			unsupported("symbolic store of %T", v)
		}
		p.cells[i] = normT(in.c.Ite(in.c.Eq(p.idx, in.c.Const(64, uint64(i))), nv, old))
	}
}
func elemOf(v ssa.Value) types.Type {
	if t, ok := v.Type().(*types.Tuple); ok {
		return t.At(0).Type()
	}
	return v.Type()
}
func normT(t *Term) Value {
	if t.op == OConst && t.w <= 64 {
		if t.w == 0 {
			return t.k == 1
		}
		return t.k
	}
	return t
}

func (fr *frame) prepCall(c *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	v := fr.get(&ci.ops[0])
	if c.Method == nil {
		args := make([]Value, len(c.Args))
		for k := range c.Args {
			args[k] = copyVal(fr.get(&ci.ops[k+1]))
		}
		return v, args
	}
	recv := v.(Iface)
	if recv.t == nil {
		fr.in.rtPanic(fr, "invalid memory address or nil pointer dereference (method "+c.Method.Name()+" on nil interface)")
	}
	args := make([]Value, 1+len(c.Args))
	args[0] = recv.v
	for k := range c.Args {
		args[k+1] = copyVal(fr.get(&ci.ops[k+1]))
	}
	fn := fr.in.lookupMethod(recv.t, c.Method)
	if fn.nat == nil && fn.fn == nil {
		unsupported("no method %s on %s", c.Method.Name(), recv.t)
	}
	return fn, args
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *Closure {
	if n := natMethod(in, t, m.Name()); n != nil {
		return &Closure{nat: n}
	}
	fn := in.pr.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		unsupported("method %s of %s not found", m.Name(), t)
	}
	return &Closure{fn: fn}
}

// intArg returns a concrete signed integer, forking over feasible values when symbolic.
func (fr *frame) intArg(v Value, t types.Type) int64 {
	switch x := v.(type) {
	case nil:
		return 0
	case uint64:
		w, s := intWidth(t)
		if s {
			return sext(x, w)
		}
		if x > 1<<62 {
			return 1 << 62
		}
		return int64(x)
	case *Term:
		w, s := intWidth(t)
		k := fr.in.concretize(fr, x)
		if s {
			return sext(k, w)
		}
		return int64(k)
	}
	panic(engineErr(fmt.Sprintf("intArg %T at %s", v, fr.where())))
}

func (fr *frame) slice(i *ssa.Slice, ci *cinstr) Value {
	in := fr.in
	x := fr.get(&ci.ops[0])
	lo, hi, mx := int64(0), int64(-1), int64(-1)
	if i.Low != nil {
		lo = fr.intArg(fr.get(&ci.ops[1]), i.Low.Type())
	}
	if i.High != nil {
		hi = fr.intArg(fr.get(&ci.ops[2]), i.High.Type())
		if hi < 0 {
			in.rtPanic(fr, fmt.Sprintf("slice bounds out of range [:%d]", hi))
		}
	}
	if i.Max != nil {
		mx = fr.intArg(fr.get(&ci.ops[3]), i.Max.Type())
		if mx < 0 {
			in.rtPanic(fr, fmt.Sprintf("slice bounds out of range [::%d]", mx))
		}
	}
	var s []Value
	switch x := x.(type) {
	case string, *SymStr:
		cells := strCells(x)
		n := int64(len(cells))
		if hi < 0 {
			hi = n
		}
		if hi > n || lo < 0 || lo > hi {
			in.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		if str, ok := x.(string); ok {
			return str[lo:hi]
		}
		return mkStr(cells[lo:hi])
	case []Value:
		s = x
	case *Value:
		a, ok := (*fr.deref(x)).(Array)
		if !ok {
			unsupported("slicing abstract %T at %s", *x, fr.where())
		}
		s = []Value(a)
	default:
		panic(engineErr(fmt.Sprintf("slice %T", x)))
	}
	n, c := int64(len(s)), int64(cap(s))
	if hi < 0 {
		hi = n
	}
	if mx < 0 {
		mx = c
	}
	if mx > c || hi > mx || lo < 0 || lo > hi {
		in.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, c))
	}
	return s[lo:hi:mx]
}

func (fr *frame) typeAssert(i *ssa.TypeAssert, x Iface) Value {
	var v Value
	ok := false
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && fr.in.implements(x.t, it) {
			v, ok = x, true
		}
	} else if x.t != nil && identical(x.t, i.AssertedType) {
		v, ok = copyVal(x.v), true
	}
	if i.CommaOk {
		if !ok {
			v = fr.in.zero(i.AssertedType)
		}
		return Tuple{v, ok}
	}
	if !ok {
		fr.in.rtPanic(fr, fmt.Sprintf("interface conversion: %v is not %v", x.t, i.AssertedType))
	}
	return v
}
func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	if t == runtimeErrType {
		return it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
	}
	if nt, ok := t.(*natType); ok {
		for k := 0; k < it.NumMethods(); k++ {
			if nt.methods[it.Method(k).Name()] == nil {
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

func identical(a, b types.Type) bool {
	if _, ok := a.(*natType); ok {
		return a == b
	}
	if _, ok := b.(*natType); ok {
		return a == b
	}
	return types.Identical(a, b)
}
