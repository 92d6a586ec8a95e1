package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"strings"
)

// Text of values formatted by the code under check. A concrete value is given to the native fmt as a value of
// the same shape, so its text is the text the code sees. A symbolic part becomes a token that is the same for the
// same term, so text used as a key (of a memo, say) separates what the code separates.

type natErr struct{ s string }

func (e natErr) Error() string { return e.s }

func symTok(kind, key string) string {
	h := sha256.Sum256([]byte(key))
	return fmt.Sprintf("<%s %x>", kind, h[:8])
}

func leafTok(v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("<sym %d>", x.id)
	case *FE:
		return symTok("fe", x.key())
	case *BigV:
		if x.b != nil {
			return x.b.String()
		}
		return symTok("big", x.fe.key()+"."+x.lo.String()+"."+x.hi.String())
	case SymStr:
		return symCellsTok(x.cells)
	case *SymStr:
		return symCellsTok(x.cells)
	}
	return valText(v)
}

func symCellsTok(cs []Value) string {
	var b strings.Builder
	for _, c := range cs {
		if k, ok := c.(uint64); ok {
			fmt.Fprintf(&b, "%d,", k)
		} else {
			b.WriteString(leafTok(c) + ",")
		}
	}
	return symTok("str", b.String())
}

// natVal returns a native value whose fmt text is that of v, of type t.
func natVal(fr *frame, v Value, t types.Type, top bool) any {
	in := fr.in
	if in.pr.absKind(t) != "" {
		if x, ok := v.(*FE); ok && in.pr.absKind(t) == "fr" {
			if k, ok := x.isConst(); ok {
				var l [4]uint64
				b := feToBig(k)
				m := new(big.Int).SetUint64(^uint64(0))
				for i := range l {
					l[i] = new(big.Int).And(new(big.Int).Rsh(b, uint(64*i)), m).Uint64()
				}
				return l
			}
		}
		return leafTok(v)
	}
	if _, ok := t.(*natType); ok || t == runtimeErrType {
		return valText(v)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case uint64:
			if u.Info()&types.IsInteger == 0 {
				return x
			}
			w, s := intWidth(u)
			switch {
			case s && w == 8:
				return int8(sext(x, w))
			case s && w == 16:
				return int16(sext(x, w))
			case s && w == 32:
				return int32(sext(x, w))
			case s:
				return sext(x, w)
			case w == 8:
				return uint8(x)
			case w == 16:
				return uint16(x)
			case w == 32:
				return uint32(x)
			}
			return x
		case bool, string, float64:
			return x
		}
		return leafTok(v)
	case *types.Interface:
		x, ok := v.(Iface)
		if !ok || x.t == nil {
			return nil
		}
		return nativeArg(fr, x)
	case *types.Slice, *types.Array:
		var cells []Value
		var et types.Type
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			x, ok := v.([]Value)
			if !ok {
				return leafTok(v)
			}
			cells = x
		} else {
			et = u.(*types.Array).Elem()
			x, ok := v.(Array)
			if !ok {
				return leafTok(v)
			}
			cells = x
		}
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if bs, ok := allConc(cells); ok {
				return bs
			}
		}
		out := make([]any, len(cells))
		same := true
		for i, c := range cells {
			out[i] = natVal(fr, c, et, false)
			same = same && out[i] != nil && reflect.TypeOf(out[i]) == reflect.TypeOf(out[0])
		}
		if same && len(out) > 0 {
			s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(out[0])), len(out), len(out))
			for i := range out {
				s.Index(i).Set(reflect.ValueOf(out[i]))
			}
			return s.Interface()
		}
		return out
	case *types.Struct:
		x, ok := v.(Struct)
		if !ok || len(x) != u.NumFields() {
			return leafTok(v)
		}
		fs := make([]reflect.StructField, len(x))
		for i := range x {
			fs[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf((*any)(nil)).Elem()}
		}
		s := reflect.New(reflect.StructOf(fs))
		for i, f := range x {
			if n := natVal(fr, f, u.Field(i).Type(), false); n != nil {
				s.Elem().Field(i).Set(reflect.ValueOf(n))
			}
		}
		return s.Elem().Interface()
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			return leafTok(v)
		}
		if p == nil {
			return nil
		}
		if b, ok := (*p).(*BigV); ok {
			if b.b != nil {
				return new(big.Int).Set(b.b)
			}
			return leafTok(b)
		}
		if !top {
			return fmt.Sprintf("%p", p)
		}
		e := natVal(fr, *p, u.Elem(), false)
		if e == nil {
			return "<ptr>"
		}
		switch reflect.TypeOf(e).Kind() {
		case reflect.Struct, reflect.Slice, reflect.Array:
			q := reflect.New(reflect.TypeOf(e))
			q.Elem().Set(reflect.ValueOf(e))
			return q.Interface()
		case reflect.String:
			return "&" + e.(string)
		}
		return fmt.Sprintf("%p", p)
	case *types.Map:
		m, ok := v.(*Map)
		if !ok || m == nil {
			return map[string]int{}
		}
		out := map[any]any{}
		for i, k := range m.keys {
			if m.vals[i] == nil {
				continue
			}
			n := natVal(fr, k, u.Key(), false)
			if n == nil || !reflect.TypeOf(n).Comparable() {
				n = fmt.Sprint(n)
			}
			out[n] = natVal(fr, *m.vals[i], u.Elem(), false)
		}
		return out
	}
	if p := fmt.Sprintf("%p", v); !strings.HasPrefix(p, "%!") {
		return p
	}
	return valText(v)
}
