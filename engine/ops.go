package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- coercions ----

func (in *Interp) term(v Value, w uint16) *Term {
	switch x := v.(type) {
	case uint64:
		return in.c.Const(w, x)
	case *Term:
		if x.w != w {
			panic(engineErr(fmt.Sprintf("term width %d want %d", x.w, w)))
		}
		return x
	case bool:
		return in.c.Bool(x)
	}
	panic(engineErr(fmt.Sprintf("term of %T", v)))
}
func (in *Interp) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return in.c.Bool(x)
	case *Term:
		return x
	}
	panic(engineErr(fmt.Sprintf("boolTerm of %T", v)))
}

func (in *Interp) branchV(fr *frame, v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.branchT(fr, x)
	}
	panic(engineErr(fmt.Sprintf("branch on %T", v)))
}
func (in *Interp) branchT(fr *frame, t *Term) bool {
	if t == in.c.T {
		return true
	}
	if t == in.c.F {
		return false
	}
	return in.p.branch(t, fr)
}
func (in *Interp) concretize(fr *frame, t *Term) uint64 {
	if isC(t) {
		return t.k
	}
	for n := 0; ; n++ {
		if n > 300 {
			unsupported("too many values when concretising at %s", fr.where())
		}
		v := in.p.pickValue(t)
		if in.p.branch(in.c.Eq(t, in.c.Const(t.w, v)), fr) {
			return v
		}
	}
}

// ---- strings ----

func strCells(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = uint64(s[i])
		}
		return out
	case *SymStr:
		return s.cells
	}
	panic(engineErr(fmt.Sprintf("strCells %T", v)))
}
func mkStr(cells []Value) Value {
	b := make([]byte, len(cells))
	for i, c := range cells {
		k, ok := c.(uint64)
		if !ok {
			return &SymStr{append([]Value(nil), cells...)}
		}
		b[i] = byte(k)
	}
	return string(b)
}
func concStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	if s, ok := v.(*SymStr); ok {
		return fmt.Sprintf("<sym:%d>", len(s.cells))
	}
	return fmt.Sprintf("<%T>", v)
}
func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.cells)
	}
	panic(engineErr(fmt.Sprintf("strLen %T", v)))
}

// eqBytes compares byte strings, treating complete opaque blobs as units.
func (in *Interp) eqBytes(a, b []Value) *Term {
	if len(a) != len(b) {
		return in.c.F
	}
	var conj []*Term
	for i := 0; i < len(a); {
		if n, t := in.eqBlobAt(a[i:], b[i:]); n > 0 {
			if t == in.c.F {
				return t
			}
			conj = append(conj, t)
			i += n
			continue
		}
		t := in.c.Eq(in.term(a[i], 8), in.term(b[i], 8))
		if t == in.c.F {
			return t
		}
		conj = append(conj, t)
		i++
	}
	return in.c.And(conj...)
}

// fullBlob reports whether cells start with a complete blob.
func fullBlob(cells []Value) *Blob {
	if len(cells) == 0 {
		return nil
	}
	t, ok := cells[0].(*Term)
	if !ok || t.op != OByte || t.k != 0 || len(cells) < t.blob.n {
		return nil
	}
	for i := 1; i < t.blob.n; i++ {
		x, ok := cells[i].(*Term)
		if !ok || x.op != OByte || x.blob != t.blob || x.k != uint64(i) {
			return nil
		}
	}
	return t.blob
}
func allConc(cells []Value) ([]byte, bool) {
	b := make([]byte, len(cells))
	for i, c := range cells {
		k, ok := c.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(k)
	}
	return b, true
}

func (in *Interp) eqBlobAt(a, b []Value) (int, *Term) {
	x, y := fullBlob(a), fullBlob(b)
	if x == nil && y == nil {
		// two concrete digests compare as bytes
		return 0, nil
	}
	if x == nil {
		x, y = y, x
		a, b = b, a
	}
	n := x.n
	if len(b) < n {
		return 0, nil
	}
	if y != nil {
		if x == y {
			return n, in.c.T
		}
		if x.kind != y.kind {
			// different kinds of opaque encodings never coincide (stated assumption)
			if x.n == y.n {
				return n, in.c.F
			}
			return 0, nil
		}
		switch x.kind {
		case "hash":
			return n, in.eqBytes(x.pre, y.pre)
		default:
			return n, in.c.FEq(x.fe, y.fe)
		}
	}
	cb, ok := allConc(b[:n])
	if !ok {
		return 0, nil
	}
	switch x.kind {
	case "hash":
		if pre, ok := in.nat.digests[string(cb)]; ok {
			return n, in.eqBytes(x.pre, pre)
		}
		return n, in.c.F
	case "fr":
		k := bigFromBE(cb)
		if k.Cmp(pBig) >= 0 {
			return n, in.c.F
		}
		return n, in.c.FEq(x.fe, FEBig(k))
	}
	if fe := in.nat.pointFromBytes(x.kind, cb); fe != nil {
		return n, in.c.FEq(x.fe, fe)
	}
	return n, in.c.F
}

// ---- equality ----

func (fr *frame) eq(t types.Type, x, y Value) *Term {
	in := fr.in
	c := in.c
	switch a := x.(type) {
	case uint64:
		if b, ok := y.(uint64); ok {
			return c.Bool(a == b)
		}
		return c.Eq(y.(*Term), c.Const(y.(*Term).w, a))
	case *Term:
		switch b := y.(type) {
		case uint64:
			return c.Eq(a, c.Const(a.w, b))
		case bool:
			return c.Eq(a, c.Bool(b))
		case *Term:
			return c.Eq(a, b)
		}
	case bool:
		return c.Eq(c.Bool(a), in.boolTerm(y))
	case float64:
		return c.Bool(a == y.(float64))
	case string:
		if b, ok := y.(string); ok {
			return c.Bool(a == b)
		}
		return in.eqBytes(strCells(x), strCells(y))
	case *SymStr:
		return in.eqBytes(a.cells, strCells(y))
	case *Value:
		if b, ok := y.(*Value); ok {
			return c.Bool(a == b)
		}
		return c.F
	case *SymPtr:
		return c.Bool(x == y)
	case *Map:
		return c.Bool(a == y.(*Map))
	case *Chan:
		return c.Bool(a == y.(*Chan))
	case *Closure:
		return c.Bool(a == y.(*Closure))
	case []Value:
		b := y.([]Value)
		if a == nil || b == nil {
			return c.Bool((a == nil) == (b == nil))
		}
		unsupported("slice comparison")
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !identical(a.t, b.t) {
			return c.F
		}
		if _, nt := a.t.(*natType); !nt && !types.Comparable(a.t) {
			in.rtPanic(fr, "comparing uncomparable type "+a.t.String())
		}
		return fr.eq(a.t, a.v, b.v)
	case Struct:
		b := y.(Struct)
		var cs []*Term
		st := t.Underlying().(*types.Struct)
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, fr.eq(st.Field(i).Type(), a[i], b[i]))
		}
		return c.And(cs...)
	case Array:
		if _, ok := y.(*BigV); ok {
			return fr.eq(t, y, x)
		}
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return in.eqBytes([]Value(a), []Value(b))
		}
		var cs []*Term
		for i := range a {
			cs = append(cs, fr.eq(et, a[i], b[i]))
		}
		return c.And(cs...)
	case *FE:
		return c.FEq(a, y.(*FE))
	case *Pt:
		return c.FEq(a.dl, y.(*Pt).dl)
	case *BigV:
		b, ok := y.(*BigV)
		if l, arr := y.(Array); arr {
			b, ok = limbs(fr, l), true
		}
		if !ok {
			unsupported("comparison at %s", fr.where())
		}
		return c.Bool(in.bigCmp(fr, a, b) == 0)
	case nil:
		return c.Bool(y == nil)
	}
	if x == y {
		return c.T
	}
	unsupported("comparison of %T and %T", x, y)
	return nil
}

// ---- operators ----

func (fr *frame) unop(i *ssa.UnOp, x Value) Value {
	in := fr.in
	switch i.Op {
	case token.MUL:
		return fr.load(x)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return normT(in.c.Not(b))
		}
	case token.SUB:
		switch v := x.(type) {
		case uint64:
			w, _ := intWidth(i.X.Type())
			return (-v) & mask(w)
		case float64:
			return -v
		case *Term:
			return normT(in.c.BV1(ONeg, v))
		}
	case token.XOR:
		switch v := x.(type) {
		case uint64:
			w, _ := intWidth(i.X.Type())
			return (^v) & mask(w)
		case *Term:
			return normT(in.c.BV1(ONot, v))
		}
	case token.ARROW:
		ch := x.(*Chan)
		v, ok := in.sched.recv(fr, ch)
		if !ok {
			v = in.zero(i.X.Type().Underlying().(*types.Chan).Elem())
		}
		if i.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	unsupported("unop %s on %T", i.Op, x)
	return nil
}

func (fr *frame) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	in := fr.in
	c := in.c
	switch op {
	case token.EQL:
		return normT(fr.eq(tx, x, y))
	case token.NEQ:
		return normT(c.Not(fr.eq(tx, x, y)))
	}
	switch a := x.(type) {
	case string, *SymStr:
		return in.strOp(fr, op, x, y)
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return roundF(tx, a+b)
		case token.SUB:
			return roundF(tx, a-b)
		case token.MUL:
			return roundF(tx, a*b)
		case token.QUO:
			return roundF(tx, a/b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool:
		// && || are compiled to branches; & | on bools do not exist
	case uint64:
		if b, ok := y.(uint64); ok {
			return fr.intOp(op, tx, ty, a, b)
		}
	}
	// symbolic integers
	w, signed := intWidth(tx)
	xt := in.term(x, w)
	switch op {
	case token.SHL, token.SHR:
		wy, sy := intWidth(ty)
		yt := in.term(y, wy)
		if sy {
			if in.branchT(fr, c.Cmp(OSlt, yt, c.Const(wy, 0))) {
				in.rtPanic(fr, "negative shift amount")
			}
		}
		// normalise the shift amount to width w, saturating
		var sh *Term
		if wy > w {
			big := c.Not(c.Cmp(OUlt, yt, c.Const(wy, uint64(w))))
			sh = c.Ite(big, c.Const(w, uint64(w)), c.Extract(yt, w-1, 0))
		} else {
			sh = c.ZExt(yt, w)
		}
		switch {
		case op == token.SHL:
			return normT(c.Bin(OShl, xt, sh))
		case signed:
			return normT(c.Bin(OAShr, xt, sh))
		default:
			return normT(c.Bin(OLShr, xt, sh))
		}
	}
	yt := in.term(y, w)
	switch op {
	case token.ADD:
		return normT(c.Bin(OAdd, xt, yt))
	case token.SUB:
		return normT(c.Bin(OSub, xt, yt))
	case token.MUL:
		return normT(c.Bin(OMul, xt, yt))
	case token.QUO, token.REM:
		if in.branchT(fr, c.Eq(yt, c.Const(w, 0))) {
			in.rtPanic(fr, "integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return normT(c.Bin(o, xt, yt))
	case token.AND:
		return normT(c.Bin(OAnd, xt, yt))
	case token.OR:
		return normT(c.Bin(OOr, xt, yt))
	case token.XOR:
		return normT(c.Bin(OXor, xt, yt))
	case token.AND_NOT:
		return normT(c.Bin(OAnd, xt, c.BV1(ONot, yt)))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		lt, le := OUlt, OUle
		if signed {
			lt, le = OSlt, OSle
		}
		switch op {
		case token.LSS:
			return normT(c.Cmp(lt, xt, yt))
		case token.GTR:
			return normT(c.Cmp(lt, yt, xt))
		case token.LEQ:
			return normT(c.Cmp(le, xt, yt))
		default:
			return normT(c.Cmp(le, yt, xt))
		}
	}
	unsupported("binop %s on %T %T", op, x, y)
	return nil
}
func roundF(t types.Type, f float64) float64 {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (fr *frame) intOp(op token.Token, tx, ty types.Type, a, b uint64) Value {
	w, signed := intWidth(tx)
	m := mask(w)
	switch op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO, token.REM:
		if b == 0 {
			fr.in.rtPanic(fr, "integer divide by zero")
		}
		if signed {
			x, y := sext(a, w), sext(b, w)
			if y == -1 {
				if op == token.QUO {
					return uint64(-x) & m
				}
				return uint64(0)
			}
			if op == token.QUO {
				return uint64(x/y) & m
			}
			return uint64(x%y) & m
		}
		if op == token.QUO {
			return a / b
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL, token.SHR:
		wy, sy := intWidth(ty)
		if sy && sext(b, wy) < 0 {
			fr.in.rtPanic(fr, "negative shift amount")
		}
		if op == token.SHL {
			if b >= 64 {
				return uint64(0)
			}
			return (a << b) & m
		}
		if signed {
			if b >= 64 {
				b = 63
			}
			return uint64(sext(a, w)>>b) & m
		}
		if b >= 64 {
			return uint64(0)
		}
		return a >> b
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		var lt, eq bool
		if signed {
			x, y := sext(a, w), sext(b, w)
			lt, eq = x < y, x == y
		} else {
			lt, eq = a < b, a == b
		}
		switch op {
		case token.LSS:
			return lt
		case token.GTR:
			return !lt && !eq
		case token.LEQ:
			return lt || eq
		default:
			return !lt
		}
	}
	unsupported("int op %s", op)
	return nil
}

func (in *Interp) strOp(fr *frame, op token.Token, x, y Value) Value {
	a, aok := x.(string)
	b, bok := y.(string)
	if op == token.ADD {
		if aok && bok {
			return a + b
		}
		return mkStr(append(append([]Value(nil), strCells(x)...), strCells(y)...))
	}
	if aok && bok {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	unsupported("string op %s on symbolic strings at %s", op, fr.where())
	return nil
}

// ---- conversions ----

// limbs is the integer that four limbs denote.
func limbs(fr *frame, l Array) *BigV {
	z := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		k, ok := l[i].(uint64)
		if !ok || len(l) != 4 {
			unsupported("symbolic limbs at %s", fr.where())
		}
		z.Or(z.Lsh(z, 64), new(big.Int).SetUint64(k))
	}
	return &BigV{b: z}
}
func (fr *frame) changeType(from, to types.Type, v Value) Value {
	pr := fr.in.pr
	if a, b := pr.absKind(from), pr.absKind(to); a != b {
		if l, ok := v.(Array); ok && b == "big" && len(l) == 4 { // limbs of a fixed-size integer
			return limbs(fr, l)
		}
		unsupported("conversion between %s and %s", from, to)
	}
	return v
}

func (fr *frame) convert(from, to types.Type, v Value) Value {
	in := fr.in
	uf, ut := from.Underlying(), to.Underlying()
	if tp, ok := ut.(*types.Pointer); ok {
		// unsafe.Pointer -> *T : reinterpretation keeps the cell
		_ = tp
		return v
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if _, isInt := v.(uint64); isInt {
			unsupported("integer to unsafe.Pointer")
		}
		return v
	}
	switch ft := uf.(type) {
	case *types.Basic:
		if ft.Info()&types.IsString != 0 {
			if st, ok := ut.(*types.Slice); ok {
				if bt, ok := st.Elem().Underlying().(*types.Basic); ok {
					if bt.Kind() == types.Uint8 {
						return strCells(v)
					}
					s, ok := v.(string)
					if !ok {
						unsupported("runes of symbolic string")
					}
					var out []Value
					for _, r := range s {
						out = append(out, uint64(uint32(r)))
					}
					return out
				}
			}
			if bt, ok := ut.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
				return v
			}
		}
		tb, ok := ut.(*types.Basic)
		if !ok {
			break
		}
		if ft.Kind() == types.UnsafePointer && tb.Kind() == types.Uintptr {
			return uint64(0x1000)
		}
		fi, ff := ft.Info()&types.IsInteger != 0, ft.Info()&types.IsFloat != 0
		ti, tf := tb.Info()&types.IsInteger != 0, tb.Info()&types.IsFloat != 0
		switch {
		case fi && ti:
			w1, s1 := intWidth(ft)
			w2, _ := intWidth(tb)
			switch x := v.(type) {
			case uint64:
				if s1 {
					return uint64(sext(x, w1)) & mask(w2)
				}
				return x & mask(w2)
			case *Term:
				switch {
				case w2 < w1:
					return normT(in.c.Extract(x, w2-1, 0))
				case w2 == w1:
					return x
				case s1:
					return normT(in.c.SExt(x, w2))
				default:
					return normT(in.c.ZExt(x, w2))
				}
			}
		case fi && tf:
			x, ok := v.(uint64)
			if !ok {
				unsupported("symbolic int to float at %s", fr.where())
			}
			w1, s1 := intWidth(ft)
			if s1 {
				return roundF(tb, float64(sext(x, w1)))
			}
			return roundF(tb, float64(x))
		case ff && tf:
			return roundF(tb, v.(float64))
		case ff && ti:
			w2, s2 := intWidth(tb)
			f := v.(float64)
			if s2 || f < 0 {
				return uint64(int64(f)) & mask(w2)
			}
			return uint64(f) & mask(w2)
		case fi && tb.Info()&types.IsString != 0:
			x, ok := v.(uint64)
			if !ok {
				unsupported("symbolic rune to string")
			}
			w1, _ := intWidth(ft)
			r := sext(x, w1)
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			return string(rune(r))
		}
	case *types.Slice:
		if tb, ok := ut.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			if bt, ok := ft.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				return mkStr(v.([]Value))
			}
			var sb strings.Builder
			for _, c := range v.([]Value) {
				k, ok := c.(uint64)
				if !ok {
					unsupported("symbolic runes")
				}
				sb.WriteRune(rune(int32(k)))
			}
			return sb.String()
		}
		if at, ok := ut.(*types.Array); ok {
			s := v.([]Value)
			if int64(len(s)) < at.Len() {
				in.rtPanic(fr, "cannot convert slice to array: length")
			}
			return copyVal(Array(s[:at.Len()]))
		}
	case *types.Pointer:
		return v
	}
	if types.Identical(uf, ut) {
		return v
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

// ---- builtins ----

func (in *Interp) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s := args[0].([]Value)
		switch y := args[1].(type) {
		case string, *SymStr:
			return append(s, strCells(y)...)
		case []Value:
			n := len(s)
			if fr.racing() {
				fr.touchCells(y, false)
				if len(y) > 0 && n+len(y) <= cap(s) {
					fr.touchCells(s[n:n+len(y)], true)
				}
			}
			r := append(s, y...)
			// elements are values: copy aggregates
			for i := n; i < len(r); i++ {
				r[i] = copyVal(r[i])
			}
			if cap(r) > cap(s) && cap(r) > len(r) {
				// spare capacity must hold proper zero values
				ex := r[len(r):cap(r)]
				if sl, ok := b.Type().(*types.Signature); ok {
					if st, ok := sl.Params().At(0).Type().Underlying().(*types.Slice); ok {
						fillZero(in, ex, st.Elem())
					}
				}
			}
			return r
		}
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = strCells(y)
		case []Value:
			src = y
		}
		n := min(len(dst), len(src))
		if fr.racing() {
			if _, ok := args[1].([]Value); ok {
				fr.touchCells(src[:n], false)
			}
			fr.touchCells(dst[:n], true)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&dst[i], tmp[i])
		}
		return uint64(n)
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case []Value:
			return uint64(len(x))
		case *Map:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return uint64(cap(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.cap)
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(len((*x).(Array)))
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			in.mapDelete(fr, m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				*x = *newMap()
			}
		case []Value:
			if cc != nil {
				fillZero(in, x, cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			}
		}
		return nil
	case "close":
		in.sched.close(fr, args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// called directly by a deferred function: its caller frame is panicking
		for f := fr.caller; f != nil; f = f.caller {
			if f.panicking {
				f.panicking = false
				if tp, ok := f.panicv.(targetPanic); ok {
					if i, ok := tp.v.(Iface); ok {
						return i
					}
					return Iface{t: types.Typ[types.String], v: "panic"}
				}
			}
			break
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			if in.branchV(fr, fr.binop(token.LSS, t, t, a, r)) == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic(fr, fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return (*Value)(nil)
	case "SliceData", "String", "StringData", "Slice", "Add", "Offsetof", "Sizeof":
		switch b.Name() {
		case "SliceData":
			s := args[0].([]Value)
			if cap(s) == 0 {
				return (*Value)(nil)
			}
			in.nat.backing[&s[:1][0]] = s[:cap(s)]
			return &s[:1][0]
		case "StringData":
			c := strCells(args[0])
			if len(c) == 0 {
				return (*Value)(nil)
			}
			in.nat.backing[&c[0]] = c
			return &c[0]
		case "String":
			p := args[0].(*Value)
			n := args[1].(uint64)
			if p == nil || n == 0 {
				return ""
			}
			return mkStr(in.nat.backing[p][:n])
		case "Slice":
			p := args[0].(*Value)
			n := args[1].(uint64)
			if p == nil {
				return []Value(nil)
			}
			bk, ok := in.nat.backing[p]
			if !ok {
				unsupported("unsafe.Slice at %s", fr.where())
			}
			return bk[:n]
		}
	}
	unsupported("builtin %s on %T at %s", b.Name(), args[0], fr.where())
	return nil
}

// ---- maps ----

type Map struct {
	keys []Value
	vals []*Value // nil when deleted
	idx  map[string]int
	n    int
	sym  bool // has symbolic keys
}

func newMap() *Map { return &Map{idx: map[string]int{}} }

// hashKey returns a canonical string for a concrete key.
func hashKey(v Value) (string, bool) {
	switch x := v.(type) {
	case uint64:
		return fmt.Sprintf("i%d", x), true
	case bool:
		return fmt.Sprintf("b%v", x), true
	case string:
		return "s" + x, true
	case float64:
		return fmt.Sprintf("f%x", math.Float64bits(x)), true
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := hashKey(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case Struct:
		var sb strings.Builder
		for _, f := range x {
			k, ok := hashKey(f)
			if !ok {
				return "", false
			}
			sb.WriteString(fmt.Sprintf("%d:%s,", len(k), k))
		}
		return "S" + sb.String(), true
	case Array:
		var sb strings.Builder
		for _, f := range x {
			k, ok := hashKey(f)
			if !ok {
				return "", false
			}
			sb.WriteString(fmt.Sprintf("%d:%s,", len(k), k))
		}
		return "A" + sb.String(), true
	}
	return "", false
}

func (in *Interp) mapFind(fr *frame, m *Map, k Value) int {
	if m == nil {
		return -1
	}
	h, ok := hashKey(k)
	if ok {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if !m.sym {
			return -1
		}
	}
	for i := range m.keys {
		if m.vals[i] == nil {
			continue
		}
		if ok {
			if _, conc := hashKey(m.keys[i]); conc {
				continue
			}
		}
		if in.branchT(fr, in.keyEq(fr, m.keys[i], k)) {
			return i
		}
	}
	return -1
}
func (in *Interp) keyEq(fr *frame, a, b Value) *Term {
	switch x := a.(type) {
	case Struct:
		var cs []*Term
		for i := range x {
			cs = append(cs, in.keyEq(fr, x[i], b.(Struct)[i]))
		}
		return in.c.And(cs...)
	case Array:
		return in.eqBytes([]Value(x), []Value(b.(Array)))
	}
	return fr.eq(nil, a, b)
}
func (in *Interp) mapGet(fr *frame, m *Map, k Value) (Value, bool) {
	i := in.mapFind(fr, m, k)
	if i < 0 {
		return nil, false
	}
	return *m.vals[i], true
}
func (in *Interp) mapSet(fr *frame, m *Map, k, v Value) {
	in.version++
	i := in.mapFind(fr, m, k)
	if i >= 0 {
		*m.vals[i] = v
		return
	}
	h, ok := hashKey(k)
	if ok {
		m.idx[h] = len(m.keys)
	} else {
		m.sym = true
	}
	m.keys = append(m.keys, k)
	p := new(Value)
	*p = v
	m.vals = append(m.vals, p)
	m.n++
}
func (in *Interp) mapDelete(fr *frame, m *Map, k Value) {
	in.version++
	i := in.mapFind(fr, m, k)
	if i < 0 {
		return
	}
	if h, ok := hashKey(m.keys[i]); ok {
		delete(m.idx, h)
	}
	m.vals[i] = nil
	m.n--
}

// ---- range ----

type rangeIt struct {
	m   *Map
	i   int
	str string
	s   bool
}

func (fr *frame) rangeIter(v Value) Value {
	switch x := v.(type) {
	case *Map:
		return &rangeIt{m: x}
	case string:
		return &rangeIt{str: x, s: true}
	}
	unsupported("range over %T", v)
	return nil
}
func (r *rangeIt) next(in *Interp, i *ssa.Next) Value {
	if r.s {
		if r.i >= len(r.str) {
			return Tuple{false, uint64(0), uint64(0)}
		}
		c, n := utf8.DecodeRuneInString(r.str[r.i:])
		t := Tuple{true, uint64(r.i), uint64(uint32(c))}
		r.i += n
		return t
	}
	if r.m != nil {
		for r.i < len(r.m.keys) {
			k := r.i
			r.i++
			if r.m.vals[k] != nil {
				return Tuple{true, r.m.keys[k], copyVal(*r.m.vals[k])}
			}
		}
	}
	return Tuple{false, nil, nil}
}
