package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// github.com/klauspost/reedsolomon is interpreted from source, apart from GF(256) arithmetic: bytes
// are linear forms over the symbolic bytes, so decoding consistent shards yields the original bytes.

const rsPkg = "github.com/klauspost/reedsolomon"

func gfMul(a, b byte) byte {
	var r byte
	for ; b != 0; b >>= 1 {
		if b&1 != 0 {
			r ^= a
		}
		hi := a & 0x80
		a <<= 1
		if hi != 0 {
			a ^= 0x1d
		}
	}
	return r
}
func gfExp(a byte, n int) byte {
	r := byte(1)
	for ; n > 0; n-- {
		r = gfMul(r, a)
	}
	return r
}

// gfForm is c0 + sum of c[t]*t over GF(256).
type gfForm struct {
	c0 byte
	c  map[*Term]byte
}

func (f *gfForm) add(in *Interp, k byte, v Value) {
	if k == 0 {
		return
	}
	switch x := v.(type) {
	case uint64:
		f.c0 ^= gfMul(k, byte(x))
	case *Term:
		if x.op == OLin {
			f.c0 ^= gfMul(k, byte(x.k))
			for i, t := range x.a {
				f.put(t, gfMul(k, x.name[i]))
			}
			return
		}
		f.put(x, k)
	default:
		unsupported("reed-solomon over %T", v)
	}
}
func (f *gfForm) put(t *Term, c byte) {
	if c ^= f.c[t]; c == 0 {
		delete(f.c, t)
	} else {
		f.c[t] = c
	}
}
func (f *gfForm) value(in *Interp) Value {
	if len(f.c) == 0 {
		return uint64(f.c0)
	}
	ts := make([]*Term, 0, len(f.c))
	for t, c := range f.c {
		if len(f.c) == 1 && c == 1 && f.c0 == 0 {
			return t
		}
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	co := make([]byte, len(ts))
	for i, t := range ts {
		co[i] = f.c[t]
	}
	return in.c.mk(&Term{op: OLin, w: 8, k: uint64(f.c0), name: string(co), a: ts})
}

func init() {
	b1 := func(v Value) byte {
		x, ok := v.(uint64)
		if !ok {
			unsupported("reed-solomon matrix with symbolic entries")
		}
		return byte(x)
	}
	reg(rsPkg+".galMultiply", func(fr *frame, a []Value) Value {
		return uint64(gfMul(b1(a[0]), b1(a[1])))
	})
	reg(rsPkg+".galDivide", func(fr *frame, a []Value) Value {
		x, y := b1(a[0]), b1(a[1])
		if y == 0 {
			fr.in.rtPanic(fr, "Argument 'divisor' is 0")
		}
		return uint64(gfMul(x, gfExp(y, 254)))
	})
	reg(rsPkg+".galExp", func(fr *frame, a []Value) Value {
		return uint64(gfExp(b1(a[0]), int(a[1].(uint64))))
	})
	reg("(*"+rsPkg+".reedSolomon).codeSomeShards", func(fr *frame, a []Value) Value {
		rows, ins, outs := a[1].([]Value), a[2].([]Value), a[3].([]Value)
		n := int(a[4].(uint64))
		for i := range outs {
			out := outs[i].([]Value)
			row := rows[i].([]Value)
			res := make([]Value, n)
			for k := range res {
				f := gfForm{c: map[*Term]byte{}}
				for c := range ins {
					f.add(fr.in, b1(row[c]), ins[c].([]Value)[k])
				}
				res[k] = f.value(fr.in)
			}
			copy(out, res)
		}
		return nil
	})
}

// initErrors gives the error variables of a package whose initialiser is not interpreted distinct values.
func (in *Interp) initErrors(p *ssa.Package) {
	if p.Pkg.Path() != rsPkg {
		return
	}
	for name, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(strings.ToLower(name), "err") {
			if g.Type().Underlying().(*types.Pointer).Elem().String() == "error" {
				*in.global(g) = in.mkErr(&frame{in: in, g: in.sched.cur}, "reedsolomon: "+name)
			}
		}
	}
}
