package main

// A model of google.golang.org/protobuf's proto.Marshal and proto.Unmarshal for generated
// messages: the exact proto3 wire format, driven by the struct tags of the message types.
// Contents may be symbolic; lengths of byte strings and lists are concrete per path.

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

type pbField struct {
	idx    int // index in the Go struct
	num    uint64
	kind   string // "string" "bytes" "varint" "bool" "msg"
	rep    bool
	w      uint16
	elem   types.Type // element message struct type
	packed bool
}
type pbMsg struct {
	fields  []pbField
	byNum   map[uint64]*pbField
	unknown int
}

var pbMu sync.Mutex
var pbCache = map[*types.Struct]*pbMsg{}

func pbInfo(in *Interp, t types.Type) *pbMsg {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		unsupported("proto message type %s", t)
	}
	pbMu.Lock()
	defer pbMu.Unlock()
	if m, ok := pbCache[st]; ok {
		return m
	}
	m := &pbMsg{byNum: map[uint64]*pbField{}, unknown: -1}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == "unknownFields" {
			m.unknown = i
		}
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		ps := strings.Split(tag, ",")
		n, _ := strconv.ParseUint(ps[1], 10, 32)
		pf := pbField{idx: i, num: n, rep: ps[2] == "rep"}
		for _, p := range ps[3:] {
			if p == "packed" {
				pf.packed = true
			}
		}
		ft := f.Type()
		if pf.rep {
			ft = ft.Underlying().(*types.Slice).Elem()
		}
		switch u := ft.Underlying().(type) {
		case *types.Pointer:
			pf.kind, pf.elem = "msg", u.Elem()
		case *types.Slice:
			pf.kind = "bytes"
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				pf.kind = "string"
			case u.Info()&types.IsBoolean != 0:
				pf.kind = "bool"
			case u.Info()&types.IsInteger != 0 && ps[0] == "varint":
				pf.kind = "varint"
				pf.w, _ = intWidth(u)
			}
		}
		if pf.kind == "" {
			unsupported("proto field %s of %s", f.Name(), t)
		}
		m.fields = append(m.fields, pf)
	}
	sort.Slice(m.fields, func(i, j int) bool { return m.fields[i].num < m.fields[j].num })
	for i := range m.fields {
		m.byNum[m.fields[i].num] = &m.fields[i]
	}
	pbCache[st] = m
	return m
}

func (in *Interp) pbVarint(fr *frame, v Value, w uint16) []Value {
	if k, ok := v.(uint64); ok {
		var out []Value
		for k >= 0x80 {
			out = append(out, k&0x7f|0x80)
			k >>= 7
		}
		return append(out, k)
	}
	t := v.(*Term)
	c := in.c
	var out []Value
	for lo := uint16(0); lo < w; lo += 7 {
		hi := lo + 6
		last := hi >= w-1
		if hi > w-1 {
			hi = w - 1
		}
		if !last && in.branchT(fr, c.Eq(c.Extract(t, w-1, hi+1), c.Const(w-1-hi, 0))) {
			last = true
		}
		b := c.ZExt(c.Extract(t, hi, lo), 8)
		if !last {
			b = c.Bin(OOr, b, c.Const(8, 0x80))
		}
		out = append(out, normT(b))
		if last {
			break
		}
	}
	return out
}

// pbMarshal encodes the struct cell.
func (in *Interp) pbMarshal(fr *frame, t types.Type, p *Value) ([]Value, string) {
	if p == nil {
		return nil, ""
	}
	m := pbInfo(in, t)
	s := (*p).(Struct)
	var out []Value
	tag := func(n, wt uint64) { out = append(out, in.pbVarint(fr, n<<3|wt, 64)...) }
	lenb := func(b []Value) {
		out = append(out, in.pbVarint(fr, uint64(len(b)), 64)...)
		out = append(out, b...)
	}
	for _, f := range m.fields {
		v := s[f.idx]
		one := func(v Value, always bool) string {
			switch f.kind {
			case "bytes":
				b, _ := v.([]Value)
				if len(b) > 0 || always {
					tag(f.num, 2)
					lenb(b)
				}
			case "string":
				b := strCells(v)
				if len(b) > 0 || always {
					if cb, ok := allConc(b); ok {
						if !utf8.Valid(cb) {
							return "proto: string field contains invalid UTF-8"
						}
					} else {
						unsupported("symbolic proto string")
					}
					tag(f.num, 2)
					lenb(b)
				}
			case "varint":
				if !always {
					if k, ok := v.(uint64); ok {
						if k == 0 {
							return ""
						}
					} else if in.branchT(fr, in.c.Eq(v.(*Term), in.c.Const(f.w, 0))) {
						return ""
					}
				}
				tag(f.num, 0)
				out = append(out, in.pbVarint(fr, v, f.w)...)
			case "bool":
				if !always && !in.branchV(fr, v) {
					return ""
				}
				tag(f.num, 0)
				if always {
					if in.branchV(fr, v) {
						out = append(out, uint64(1))
					} else {
						out = append(out, uint64(0))
					}
				} else {
					out = append(out, uint64(1))
				}
			case "msg":
				q, _ := v.(*Value)
				if q == nil && !always {
					return ""
				}
				b, e := in.pbMarshal(fr, f.elem, q)
				if e != "" {
					return e
				}
				tag(f.num, 2)
				lenb(b)
			}
			return ""
		}
		if !f.rep {
			if e := one(v, false); e != "" {
				return nil, e
			}
			continue
		}
		l, _ := v.([]Value)
		if f.packed {
			if len(l) == 0 {
				continue
			}
			var body []Value
			for _, x := range l {
				switch f.kind {
				case "varint":
					body = append(body, in.pbVarint(fr, x, f.w)...)
				default:
					unsupported("packed proto field of kind %s", f.kind)
				}
			}
			tag(f.num, 2)
			lenb(body)
			continue
		}
		for _, x := range l {
			if e := one(x, true); e != "" {
				return nil, e
			}
		}
	}
	if m.unknown >= 0 {
		if b, ok := s[m.unknown].([]Value); ok {
			out = append(out, b...)
		}
	}
	return out, ""
}

type pbReader struct {
	in *Interp
	fr *frame
	b  []Value
}

const pbEOF = "unexpected EOF"

// varint reads a varint; symbolic bytes fork on their continuation bits.
func (r *pbReader) varint() (Value, string) {
	c := r.in.c
	var parts []Value
	for i := 0; i < 10; i++ {
		if len(r.b) == 0 {
			return nil, pbEOF
		}
		x := r.b[0]
		r.b = r.b[1:]
		more := false
		if k, ok := x.(uint64); ok {
			more = k >= 0x80
			if i == 9 && k > 1 {
				return nil, "variable length integer overflow"
			}
		} else {
			t := x.(*Term)
			more = r.in.branchT(r.fr, c.Eq(c.Extract(t, 7, 7), c.Const(1, 1)))
			if i == 9 && (more || !r.in.branchT(r.fr, c.Cmp(OUlt, t, c.Const(8, 2)))) {
				return nil, "variable length integer overflow"
			}
		}
		parts = append(parts, x)
		if !more {
			conc := true
			var k uint64
			for j, p := range parts {
				if v, ok := p.(uint64); ok {
					k |= (v & 0x7f) << (7 * uint(j))
				} else {
					conc = false
				}
			}
			if conc {
				return k, ""
			}
			var t *Term
			for j, p := range parts {
				y := c.ZExt(c.Extract(r.in.term(p, 8), 6, 0), 64)
				if j > 0 {
					y = c.Bin(OShl, y, c.Const(64, uint64(7*j)))
				}
				if t == nil {
					t = y
				} else {
					t = c.Bin(OOr, t, y)
				}
			}
			return normT(t), ""
		}
	}
	return nil, "variable length integer overflow"
}

// small makes v concrete among 0..max; anything larger gives max+1.
func (r *pbReader) small(v Value, max uint64) uint64 {
	if k, ok := v.(uint64); ok {
		if k > max {
			return max + 1
		}
		return k
	}
	t := v.(*Term)
	c := r.in.c
	if !r.in.branchT(r.fr, c.Not(c.Cmp(OUlt, c.Const(64, max), t))) {
		return max + 1
	}
	for k := uint64(0); k < max; k++ {
		if r.in.branchT(r.fr, c.Eq(t, c.Const(64, k))) {
			return k
		}
	}
	return max
}

func (r *pbReader) take() ([]Value, string) {
	n, e := r.varint()
	if e != "" {
		return nil, e
	}
	k := r.small(n, uint64(len(r.b)))
	if k > uint64(len(r.b)) {
		return nil, pbEOF
	}
	b := r.b[:k:k]
	r.b = r.b[k:]
	return b, ""
}

// tag reads the tag of a field that no message type declares.
func (r *pbReader) tag() (Value, uint64, string) {
	tg, e := r.varint()
	if e != "" {
		return nil, 0, e
	}
	c := r.in.c
	tt := r.in.term(tg, 64)
	num := c.Extract(tt, 63, 3)
	if !r.in.branchT(r.fr, c.And(c.Cmp(OUlt, c.Const(61, 0), num), c.Cmp(OUlt, num, c.Const(61, 1<<29)))) {
		return nil, 0, "invalid field number"
	}
	wt := uint64(0)
	for ; wt < 7; wt++ {
		if r.in.branchT(r.fr, c.Eq(c.Extract(tt, 2, 0), c.Const(3, wt))) {
			break
		}
	}
	return tg, wt, ""
}

// skip skips the value of an unknown field with the given tag.
func (r *pbReader) skip(tg Value, wt uint64, depth int) string {
	switch wt {
	case 0:
		_, e := r.varint()
		return e
	case 1, 5:
		n := 8
		if wt == 5 {
			n = 4
		}
		if len(r.b) < n {
			return pbEOF
		}
		r.b = r.b[n:]
		return ""
	case 2:
		_, e := r.take()
		return e
	case 3:
		if depth > 100 {
			unsupported("deep proto group")
		}
		c := r.in.c
		for {
			t2, w2, e := r.tag()
			if e != "" {
				return e
			}
			if w2 == 4 {
				if !r.in.branchT(r.fr, c.Eq(c.Extract(r.in.term(tg, 64), 63, 3), c.Extract(r.in.term(t2, 64), 63, 3))) {
					return "mismatching end group marker"
				}
				return ""
			}
			if e := r.skip(t2, w2, depth+1); e != "" {
				return e
			}
		}
	}
	return "cannot parse reserved wire type"
}

func (in *Interp) pbUnmarshal(fr *frame, t types.Type, p *Value, b []Value) string {
	m := pbInfo(in, t)
	s := (*p).(Struct)
	r := &pbReader{in, fr, b}
	c := in.c
	fresh := func(b []Value) []Value { return append(make([]Value, 0, len(b)), b...) }
	trunc := func(v Value, w uint16) Value {
		if k, ok := v.(uint64); ok {
			if w < 64 {
				k &= 1<<w - 1
			}
			return k
		}
		if w == 64 {
			return v
		}
		return normT(c.Extract(v.(*Term), w-1, 0))
	}
	for len(r.b) > 0 {
		start := r.b
		tg, e := r.varint()
		if e != "" {
			return e
		}
		// which field and wire type
		var f *pbField
		var num, wt uint64
		if k, ok := tg.(uint64); ok {
			num, wt = k>>3, k&7
			if num == 0 || num > 1<<29-1 {
				return "invalid field number"
			}
			f = m.byNum[num]
		} else {
			tt := tg.(*Term)
			found := false
			for i := range m.fields {
				if in.branchT(fr, c.Eq(c.Extract(tt, 63, 3), c.Const(61, m.fields[i].num))) {
					f, found = &m.fields[i], true
					break
				}
			}
			if !found && !in.branchT(fr, c.And(c.Cmp(OUlt, c.Const(61, 0), c.Extract(tt, 63, 3)), c.Cmp(OUlt, c.Extract(tt, 63, 3), c.Const(61, 1<<29)))) {
				return "invalid field number"
			}
			for wt = 0; wt < 7; wt++ {
				if in.branchT(fr, c.Eq(c.Extract(tt, 2, 0), c.Const(3, wt))) {
					break
				}
			}
		}
		if f != nil {
			want := uint64(2)
			if f.kind == "varint" || f.kind == "bool" {
				want = 0
			}
			switch {
			case wt == 2 && want == 0 && f.rep:
				body, e := r.take()
				if e != "" {
					return e
				}
				rr := &pbReader{in, fr, body}
				l, _ := s[f.idx].([]Value)
				for len(rr.b) > 0 {
					v, e := rr.varint()
					if e != "" {
						return e
					}
					l = append(l, trunc(v, f.w))
				}
				s[f.idx] = l
				continue
			case wt == want:
				var v Value
				switch f.kind {
				case "varint":
					x, e := r.varint()
					if e != "" {
						return e
					}
					v = trunc(x, f.w)
				case "bool":
					x, e := r.varint()
					if e != "" {
						return e
					}
					if k, ok := x.(uint64); ok {
						v = k != 0
					} else {
						v = normT(c.Not(c.Eq(x.(*Term), c.Const(64, 0))))
					}
				case "bytes", "string":
					x, e := r.take()
					if e != "" {
						return e
					}
					if f.kind == "string" {
						if cb, ok := allConc(x); ok && !utf8.Valid(cb) {
							return "string field contains invalid UTF-8"
						}
						v = mkStr(x)
					} else if len(x) == 0 {
						v = []Value{}
						if !f.rep {
							v = []Value(nil)
						}
					} else {
						v = fresh(x)
					}
				case "msg":
					x, e := r.take()
					if e != "" {
						return e
					}
					var q *Value
					if !f.rep {
						q, _ = s[f.idx].(*Value)
					}
					if q == nil {
						q = new(Value)
						*q = in.zero(f.elem)
					}
					if e := in.pbUnmarshal(fr, f.elem, q, x); e != "" {
						if f.rep {
							l, _ := s[f.idx].([]Value)
							s[f.idx] = append(l, q)
						} else {
							s[f.idx] = q
						}
						return e
					}
					v = q
				}
				if f.rep {
					l, _ := s[f.idx].([]Value)
					s[f.idx] = append(l, v)
				} else {
					s[f.idx] = v
				}
				continue
			}
		}
		// unknown field
		if e := r.skip(tg, wt, 0); e != "" {
			return e
		}
		if m.unknown >= 0 {
			u, _ := s[m.unknown].([]Value)
			s[m.unknown] = append(append([]Value(nil), u...), start[:len(start)-len(r.b)]...)
		}
	}
	return ""
}

func pbTarget(v Value) (types.Type, *Value) {
	i := v.(Iface)
	if i.t == nil {
		return nil, nil
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		unsupported("proto message %s", i.t)
	}
	p, _ := i.v.(*Value)
	return pt.Elem(), p
}

func init() {
	const P = "google.golang.org/protobuf/proto."
	reg(P+"Marshal", func(fr *frame, a []Value) Value {
		t, p := pbTarget(a[0])
		if t == nil || p == nil {
			return Tuple{[]Value(nil), Iface{}}
		}
		b, e := fr.in.pbMarshal(fr, t, p)
		if e != "" {
			return Tuple{[]Value(nil), fr.in.mkErr(fr, e)}
		}
		if b == nil {
			b = []Value{}
		}
		return Tuple{b[:len(b):len(b)], Iface{}}
	})
	reg(P+"Unmarshal", func(fr *frame, a []Value) Value {
		t, p := pbTarget(a[1])
		if p == nil {
			fr.in.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		fr.in.version++
		*p = fr.in.zero(t)
		if e := fr.in.pbUnmarshal(fr, t, p, a[0].([]Value)); e != "" {
			return Tuple1(fr.in.mkErr(fr, "proto: "+e))
		}
		return Iface{}
	})
	reg(P+"Size", func(fr *frame, a []Value) Value {
		t, p := pbTarget(a[0])
		if p == nil {
			return uint64(0)
		}
		b, _ := fr.in.pbMarshal(fr, t, p)
		return uint64(len(b))
	})
	_ = fmt.Sprint
}

// Tuple1 is a single result.
func Tuple1(v Value) Value { return v }
