package main

// Bit-vector / boolean terms (hash-consed per worker).

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OByte // byte i of opaque blob
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // k = hi<<16|lo
	OZExt
	OSExt
	OIte
	// boolean
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OFEq // poly == 0 over GF(p)
	OLin // k + sum of name[i]*a[i] over GF(256)
)

var opSMT = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

type Term struct {
	op   Op
	w    uint16 // 0 = Bool
	id   int
	k    uint64
	a    []*Term
	name string
	poly *Poly
	blob *Blob
}

// Blob is an opaque byte string (e.g. the encoding of a scalar or point, or a digest).
type Blob struct {
	kind string // "fr" (32 bytes, big endian), "g1", "g2", "g1u", "hash"
	n    int
	id   int
	fe   *FE     // for fr/g1/g2
	pre  []Value // preimage for hash
	key  string
}

type TCtx struct {
	buf    []byte
	tab    map[string]*Term
	nextID int
	blobs  map[string]*Blob
	nblob  int
	f      *FCtx
	T, F   *Term
}

func newTCtx() *TCtx {
	c := &TCtx{tab: map[string]*Term{}, blobs: map[string]*Blob{}, f: newFCtx()}
	c.T = c.mk(&Term{op: OConst, w: 0, k: 1})
	c.F = c.mk(&Term{op: OConst, w: 0, k: 0})
	return c
}
func (c *TCtx) mk(t *Term) *Term {
	k := c.buf[:0]
	k = append(k, byte(t.op), byte(t.w), byte(t.w>>8))
	k = binary.LittleEndian.AppendUint64(k, t.k)
	k = append(k, t.name...)
	k = append(k, 0, byte(len(t.a)))
	for _, x := range t.a {
		k = binary.LittleEndian.AppendUint32(k, uint32(x.id))
	}
	if t.poly != nil {
		k = append(k, '|')
		k = append(k, t.poly.key()...)
	}
	if t.blob != nil {
		k = append(k, '|', 'b')
		k = binary.LittleEndian.AppendUint32(k, uint32(t.blob.id))
	}
	c.buf = k
	if o, ok := c.tab[string(k)]; ok {
		return o
	}
	t.id = c.nextID
	c.nextID++
	c.tab[string(k)] = t
	return t
}
func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}
func (c *TCtx) Const(w uint16, k uint64) *Term  { return c.mk(&Term{op: OConst, w: w, k: k & mask(w)}) }
func (c *TCtx) Var(w uint16, name string) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }
func (c *TCtx) Byte(b *Blob, i int) *Term {
	return c.mk(&Term{op: OByte, w: 8, k: uint64(i), blob: b})
}
func (c *TCtx) Blob(kind string, n int, key string, mk func(b *Blob)) *Blob {
	k := kind + ":" + key
	if b, ok := c.blobs[k]; ok {
		return b
	}
	b := &Blob{kind: kind, n: n, id: c.nblob, key: k}
	c.nblob++
	if mk != nil {
		mk(b)
	}
	c.blobs[k] = b
	return b
}
func isC(t *Term) bool { return t.op == OConst }
func sext(k uint64, w uint16) int64 {
	if w >= 64 {
		return int64(k)
	}
	sh := 64 - w
	return int64(k<<sh) >> sh
}

func (c *TCtx) Bin(op Op, x, y *Term) *Term {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", x.w, y.w, op))
	}
	if isC(x) && isC(y) && w <= 64 {
		if r, ok := foldBin(op, x.k, y.k, w); ok {
			return c.Const(w, r)
		}
	}
	switch op {
	case OAdd:
		if isC(x) && x.k == 0 && w <= 64 {
			return y
		}
		if isC(y) && y.k == 0 && w <= 64 {
			return x
		}
		// (a + c1) + c2
		if isC(y) && x.op == OAdd && isC(x.a[1]) && w <= 64 {
			return c.Bin(OAdd, x.a[0], c.Const(w, x.a[1].k+y.k))
		}
		if isC(x) {
			x, y = y, x
		}
	case OSub:
		if isC(y) && y.k == 0 && w <= 64 {
			return x
		}
		if x == y {
			return c.Const(w, 0)
		}
	case OAnd:
		if x == y {
			return x
		}
		if isC(x) {
			x, y = y, x
		}
		if isC(y) && w <= 64 {
			if y.k == 0 {
				return y
			}
			if y.k == mask(w) {
				return x
			}
		}
	case OOr:
		if x == y {
			return x
		}
		if isC(x) {
			x, y = y, x
		}
		if isC(y) && y.k == 0 && w <= 64 {
			return x
		}
	case OXor:
		if x == y {
			return c.Const(w, 0)
		}
		if isC(x) {
			x, y = y, x
		}
		if isC(y) && y.k == 0 && w <= 64 {
			return x
		}
	case OShl, OLShr, OAShr:
		if isC(y) && y.k == 0 && w <= 64 {
			return x
		}
	case OMul:
		if isC(x) {
			x, y = y, x
		}
		if isC(y) && w <= 64 {
			if y.k == 0 {
				return y
			}
			if y.k == 1 {
				return x
			}
		}
	}
	return c.mk(&Term{op: op, w: w, a: []*Term{x, y}})
}
func foldBin(op Op, a, b uint64, w uint16) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OAnd:
		return a & b, true
	case OOr:
		return a | b, true
	case OXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		s := b
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(a, w)>>s) & m, true
	}
	return 0, false
}
func (c *TCtx) BV1(op Op, x *Term) *Term {
	if isC(x) && x.w <= 64 {
		if op == ONot {
			return c.Const(x.w, ^x.k)
		}
		return c.Const(x.w, -x.k)
	}
	return c.mk(&Term{op: op, w: x.w, a: []*Term{x}})
}
func (c *TCtx) Extract(x *Term, hi, lo uint16) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	w := hi - lo + 1
	if isC(x) && x.w <= 64 {
		return c.Const(w, x.k>>lo)
	}
	switch x.op {
	case OZExt, OSExt:
		in := x.a[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if x.op == OZExt && lo >= in.w {
			return c.Const(w, 0)
		}
	case OConcat:
		lw := x.a[1].w
		if hi < lw {
			return c.Extract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(x.a[0], hi-lw, lo-lw)
		}
	case OExtract:
		l0 := uint16(x.k & 0xffff)
		return c.Extract(x.a[0], hi+l0, lo+l0)
	case OLShr:
		if isC(x.a[1]) && x.w <= 64 {
			s := uint16(x.a[1].k)
			if uint64(s) == x.a[1].k && hi+s < x.w {
				return c.Extract(x.a[0], hi+s, lo+s)
			}
		}
	case OShl:
		if isC(x.a[1]) && x.w <= 64 {
			s := x.a[1].k
			if s <= uint64(lo) {
				return c.Extract(x.a[0], hi-uint16(s), lo-uint16(s))
			}
			if uint64(hi) < s {
				return c.Const(w, 0)
			}
		}
	case OOr, OXor, OAnd:
		if w <= 8 || x.a[0].op == OShl || x.a[1].op == OShl || x.a[0].op == OZExt || x.a[1].op == OZExt {
			return c.Bin(x.op, c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
		}
	}
	return c.mk(&Term{op: OExtract, w: w, k: uint64(hi)<<16 | uint64(lo), a: []*Term{x}})
}
func (c *TCtx) ZExt(x *Term, w uint16) *Term {
	if w == x.w {
		return x
	}
	if isC(x) && w <= 64 {
		return c.Const(w, x.k)
	}
	if x.op == OZExt {
		return c.ZExt(x.a[0], w)
	}
	return c.mk(&Term{op: OZExt, w: w, k: uint64(w - x.w), a: []*Term{x}})
}
func (c *TCtx) SExt(x *Term, w uint16) *Term {
	if w == x.w {
		return x
	}
	if isC(x) && w <= 64 {
		return c.Const(w, uint64(sext(x.k, x.w)))
	}
	return c.mk(&Term{op: OSExt, w: w, k: uint64(w - x.w), a: []*Term{x}})
}
func (c *TCtx) Concat(x, y *Term) *Term {
	if isC(x) && isC(y) && x.w+y.w <= 64 {
		return c.Const(x.w+y.w, x.k<<y.w|y.k)
	}
	// adjacent extracts of the same term
	if x.op == OExtract && y.op == OExtract && x.a[0] == y.a[0] {
		xl, yh := uint16(x.k&0xffff), uint16(y.k>>16)
		if xl == yh+1 {
			return c.Extract(x.a[0], uint16(x.k>>16), uint16(y.k&0xffff))
		}
	}
	return c.mk(&Term{op: OConcat, w: x.w + y.w, a: []*Term{x, y}})
}
func (c *TCtx) Ite(b, x, y *Term) *Term {
	if b == c.T {
		return x
	}
	if b == c.F {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		return c.Or(c.And(b, x), c.And(c.Not(b), y))
	}
	return c.mk(&Term{op: OIte, w: x.w, a: []*Term{b, x, y}})
}
func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *TCtx) Not(x *Term) *Term {
	if x == c.T {
		return c.F
	}
	if x == c.F {
		return c.T
	}
	if x.op == OBNot {
		return x.a[0]
	}
	return c.mk(&Term{op: OBNot, a: []*Term{x}})
}
func (c *TCtx) And(xs ...*Term) *Term { return c.nary(OBAnd, xs) }
func (c *TCtx) Or(xs ...*Term) *Term  { return c.nary(OBOr, xs) }
func (c *TCtx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OBOr {
		unit, zero = c.F, c.T
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if x.op == OBNot && seen[x.a[0].id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: op, a: out})
}
func (c *TCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.T
	}
	if x.w == 0 {
		if isC(x) {
			x, y = y, x
		}
		if y == c.T {
			return x
		}
		if y == c.F {
			return c.Not(x)
		}
		return c.Or(c.And(x, y), c.And(c.Not(x), c.Not(y)))
	}
	if x.w != y.w {
		panic("eq width")
	}
	if isC(x) && isC(y) && x.w <= 64 {
		return c.Bool(x.k == y.k)
	}
	if isC(x) {
		x, y = y, x
	}
	if isC(y) && x.w <= 64 {
		switch x.op {
		case OZExt:
			in := x.a[0]
			if y.k > mask(in.w) {
				return c.F
			}
			return c.Eq(in, c.Const(in.w, y.k))
		case OConcat:
			lw := x.a[1].w
			return c.And(c.Eq(x.a[0], c.Const(x.a[0].w, y.k>>lw)), c.Eq(x.a[1], c.Const(lw, y.k)))
		case OIte:
			if isC(x.a[1]) && isC(x.a[2]) {
				return c.Ite(x.a[0], c.Bool(x.a[1].k == y.k), c.Bool(x.a[2].k == y.k))
			}
		case OAdd:
			if isC(x.a[1]) {
				return c.Eq(x.a[0], c.Const(x.w, y.k-x.a[1].k))
			}
		}
	}
	if x.op == OZExt && y.op == OZExt && x.a[0].w == y.a[0].w {
		return c.Eq(x.a[0], y.a[0])
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(&Term{op: OEq, a: []*Term{x, y}})
}
func (c *TCtx) Cmp(op Op, x, y *Term) *Term {
	if isC(x) && isC(y) && x.w <= 64 {
		switch op {
		case OUlt:
			return c.Bool(x.k < y.k)
		case OUle:
			return c.Bool(x.k <= y.k)
		case OSlt:
			return c.Bool(sext(x.k, x.w) < sext(y.k, y.w))
		case OSle:
			return c.Bool(sext(x.k, x.w) <= sext(y.k, y.w))
		}
	}
	if x == y {
		return c.Bool(op == OUle || op == OSle)
	}
	if op == OUlt && isC(y) && y.k == 0 && y.w <= 64 {
		return c.F
	}
	if op == OUle && isC(x) && x.k == 0 && x.w <= 64 {
		return c.T
	}
	// zero-extended operands against constants
	if isC(y) && x.op == OZExt && x.w <= 64 {
		in := x.a[0]
		m := mask(in.w)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && sext(y.k, y.w) < 0 {
				return c.F
			}
			if y.k > m {
				return c.T
			}
			return c.Cmp(OUlt, in, c.Const(in.w, y.k))
		case OUle, OSle:
			if op == OSle && sext(y.k, y.w) < 0 {
				return c.F
			}
			if y.k >= m {
				return c.T
			}
			return c.Cmp(OUle, in, c.Const(in.w, y.k))
		}
	}
	if isC(x) && y.op == OZExt && y.w <= 64 {
		in := y.a[0]
		m := mask(in.w)
		switch op {
		case OUlt, OSlt:
			if op == OSlt && sext(x.k, x.w) < 0 {
				return c.T
			}
			if x.k >= m {
				return c.F
			}
			return c.Cmp(OUlt, c.Const(in.w, x.k), in)
		case OUle, OSle:
			if op == OSle && sext(x.k, x.w) < 0 {
				return c.T
			}
			if x.k > m {
				return c.F
			}
			return c.Cmp(OUle, c.Const(in.w, x.k), in)
		}
	}
	return c.mk(&Term{op: op, a: []*Term{x, y}})
}
func (c *TCtx) FEqZero(p *Poly) *Term {
	if p.isZero() {
		return c.T
	}
	if _, ok := p.isConst(); ok {
		return c.F
	}
	if c.f.anyGeneric(p) {
		// hash-to-curve outputs satisfy no relation that anybody knows: the coefficient of every
		// monomial in them must vanish
		t := c.T
		for _, q := range c.f.genericCoeffs(p) {
			t = c.And(t, c.FEqZero(q))
		}
		return t
	}
	return c.mk(&Term{op: OFEq, poly: p.monic()})
}
func (c *TCtx) FEq(a, b *FE) *Term { return c.FEqZero(c.f.diff(a, b)) }

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	case OByte:
		return fmt.Sprintf("%s#%d[%d]", t.blob.kind, t.blob.id, t.k)
	case OFEq:
		return "FEq0"
	case OLin:
		return fmt.Sprintf("gf%d%x%v", t.k, t.name, t.a)
	case OExtract:
		return fmt.Sprintf("%v[%d:%d]", t.a[0], t.k>>16, t.k&0xffff)
	}
	s := opSMT[t.op]
	if t.op == OZExt {
		s = "zext"
	}
	if t.op == OSExt {
		s = "sext"
	}
	var xs []string
	for _, a := range t.a {
		xs = append(xs, a.String())
	}
	return "(" + s + " " + strings.Join(xs, " ") + ")"
}

var _ = bits.Len
