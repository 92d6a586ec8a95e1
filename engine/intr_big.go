package main

import (
	"go/token"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A symbolic integer is known by its residue modulo p and an interval that holds it; without an
// interval it is the canonical representative, in [0,p). What depends on more than that (a carry, an
// order) forks, and an assertion about a scalar requires that it is reduced.
func bigOfFE(x *FE) *BigV {
	if k, ok := x.isConst(); ok {
		return &BigV{b: feToBig(k)}
	}
	return &BigV{fe: x}
}

var (
	big0    = new(big.Int)
	bigPm1  = new(big.Int).Sub(pBig, big.NewInt(1))
	big2256 = new(big.Int).Lsh(big.NewInt(1), 256)
)

func (b *BigV) rng() (lo, hi *big.Int) {
	switch {
	case b.b != nil:
		return b.b, b.b
	case b.lo == nil:
		return big0, bigPm1
	}
	return b.lo, b.hi
}

// reduced tells whether the integer is certainly the canonical representative.
func (b *BigV) reduced() bool {
	lo, hi := b.rng()
	return lo.Sign() >= 0 && hi.Cmp(pBig) < 0
}
func (in *Interp) bigIn(fe *FE, lo, hi *big.Int) *BigV {
	if lo.Cmp(hi) == 0 {
		in.p.assume(in.c.FEq(fe, FEBig(lo)))
		return &BigV{b: lo}
	}
	if lo.Sign() >= 0 && hi.Cmp(pBig) < 0 {
		if k, ok := fe.isConst(); ok {
			return &BigV{b: feToBig(k)}
		}
	}
	if l := new(big.Int).Sub(lo, big.NewInt(1)); l.Div(l, pBig).Cmp(new(big.Int).Div(hi, pBig)) == 0 {
		in.p.assume(in.c.Not(in.c.FEqZero(fe.num))) // no multiple of the order in the interval
	}
	return &BigV{fe: fe, lo: lo, hi: hi}
}

// split forks until the integer lies within one multiple of the step, and gives that multiple.
func (in *Interp) bigSplit(fr *frame, b *BigV, step *big.Int) (*big.Int, *BigV) {
	lo, hi := b.rng()
	k, n := new(big.Int).Div(lo, step), new(big.Int).Div(hi, step)
	if new(big.Int).Sub(n, k).Cmp(big.NewInt(3)) > 0 {
		unsupported("wide integer at %s", fr.where())
	}
	var v *Term
	for k.Cmp(n) < 0 {
		if v == nil { // the same integer carries the same way
			id := b.fe.key() + lo.String() + ":" + hi.String() + ":" + step.String()
			v, _ = in.nat.ext[id].(*Term)
			if v == nil {
				v = in.freshByte("carry").(*Term)
				in.nat.ext[id] = v
			}
		}
		if in.branchT(fr, in.c.Eq(v, in.c.Const(8, new(big.Int).Sub(n, k).Uint64()))) {
			break
		}
		k = new(big.Int).Add(k, big.NewInt(1))
	}
	l, h := new(big.Int).Mul(k, step), new(big.Int).Mul(new(big.Int).Add(k, big.NewInt(1)), step)
	h.Sub(h, big.NewInt(1))
	if l.Cmp(lo) < 0 {
		l = lo
	}
	if h.Cmp(hi) > 0 {
		h = hi
	}
	if b.b != nil {
		return k, b
	}
	return k, in.bigIn(b.fe, l, h)
}

// wrap reduces an integer modulo 2^256.
func (in *Interp) bigWrap(fr *frame, b *BigV) (*BigV, bool) {
	k, b := in.bigSplit(fr, b, big2256)
	if k.Sign() == 0 {
		return b, false
	}
	d := new(big.Int).Mul(k, big2256)
	if b.b != nil {
		return &BigV{b: new(big.Int).Sub(b.b, d)}, true
	}
	lo, hi := b.rng()
	return in.bigIn(in.f.Sub(b.fe, FEBig(d)), new(big.Int).Sub(lo, d), new(big.Int).Sub(hi, d)), true
}
func (in *Interp) bigAdd(x, y *BigV) *BigV {
	if x.b != nil && y.b != nil {
		return &BigV{b: new(big.Int).Add(x.b, y.b)}
	}
	xl, xh := x.rng()
	yl, yh := y.rng()
	return in.bigIn(in.f.Add(x.asFE(nil), y.asFE(nil)), new(big.Int).Add(xl, yl), new(big.Int).Add(xh, yh))
}
func (in *Interp) bigNeg(x *BigV) *BigV {
	if x.b != nil {
		return &BigV{b: new(big.Int).Neg(x.b)}
	}
	l, h := x.rng()
	return in.bigIn(in.f.Neg(x.fe), new(big.Int).Neg(h), new(big.Int).Neg(l))
}
func (in *Interp) bigMul(x, y *BigV) *BigV {
	if x.b != nil && y.b != nil {
		return &BigV{b: new(big.Int).Mul(x.b, y.b)}
	}
	xl, xh := x.rng()
	yl, yh := y.rng()
	var lo, hi *big.Int
	for _, a := range []*big.Int{xl, xh} {
		for _, b := range []*big.Int{yl, yh} {
			m := new(big.Int).Mul(a, b)
			if lo == nil || m.Cmp(lo) < 0 {
				lo = m
			}
			if hi == nil || m.Cmp(hi) > 0 {
				hi = m
			}
		}
	}
	return in.bigIn(in.f.Mul(x.asFE(nil), y.asFE(nil)), lo, hi)
}

// canon gives the integer as its canonical representative plus k times the order.
func (in *Interp) bigCanon(fr *frame, b *BigV) (*BigV, *big.Int) {
	if b.reduced() {
		return b, big0
	}
	k, b := in.bigSplit(fr, b, pBig)
	if b.b != nil {
		return &BigV{b: new(big.Int).Mod(b.b, pBig)}, k
	}
	return bigOfFE(b.fe), k
}
func (in *Interp) bigCmp(fr *frame, x, y *BigV) int {
	if x.b != nil && y.b != nil {
		return x.b.Cmp(y.b)
	}
	xl, xh := x.rng()
	yl, yh := y.rng()
	if xh.Cmp(yl) < 0 {
		return -1
	}
	if xl.Cmp(yh) > 0 {
		return 1
	}
	x, i := in.bigCanon(fr, x)
	y, j := in.bigCanon(fr, y)
	if i.Cmp(j) != 0 {
		return i.Cmp(j)
	}
	if in.branchT(fr, in.c.FEq(x.asFE(fr), y.asFE(fr))) {
		return 0
	}
	for k, c := range []*BigV{x, y} {
		if c.b != nil && (c.b.Sign() == 0 || c.b.Cmp(bigPm1) == 0) {
			if (c.b.Sign() == 0) == (k == 0) {
				return -1
			}
			return 1
		}
	}
	a, b, s := x.asFE(fr).key(), y.asFE(fr).key(), -1
	if a > b {
		a, b, s = b, a, 1
	}
	id := "order:" + a + ":" + b
	v, _ := in.nat.ext[id].(*Term)
	if v == nil {
		v = in.freshByte("order").(*Term)
		in.nat.ext[id] = v
	}
	if in.branchT(fr, in.c.Eq(v, in.c.Const(8, 0))) {
		return s
	}
	return -s
}

// bigOfBytes is the integer that big-endian bytes denote.
func (in *Interp) bigOfBytes(fr *frame, b []Value) *BigV {
	if cb, ok := allConc(b); ok {
		return &BigV{b: bigFromBE(cb)}
	}
	fe := in.feFromBytesBE(fr, b)
	i := 0
	for i < len(b) {
		if k, ok := b[i].(uint64); !ok || k != 0 {
			break
		}
		i++
	}
	r := b[i:]
	if bl := fullBlob(r); bl != nil && bl.kind == "fr" && bl.n == len(r) || len(r) < 32 {
		if len(r) < 32 {
			h := new(big.Int).Lsh(big.NewInt(1), uint(8*len(r)))
			return in.bigIn(fe, big0, h.Sub(h, big.NewInt(1)))
		}
		return bigOfFE(fe)
	}
	if len(r) > 32 { // a coordinate
		h := new(big.Int).Lsh(big.NewInt(1), uint(8*len(r)))
		return in.bigIn(fe, big0, h.Sub(h, big.NewInt(1)))
	}
	var t *Term
	for _, v := range r {
		x := in.term(v, 8)
		if t == nil {
			t = x
		} else {
			t = in.c.Concat(t, x)
		}
	}
	if in.branchT(fr, in.c.Cmp(OUlt, t, in.c.bigConst(pBig, 256))) {
		return bigOfFE(fe)
	}
	return &BigV{fe: fe, lo: pBig, hi: new(big.Int).Sub(big2256, big.NewInt(1))}
}
func put(fr *frame, p Value, b *BigV) Value {
	c := fr.deref(p)
	fr.in.noteStore(c, b)
	*c = b
	return p
}

func bigAt(fr *frame, v Value) *BigV {
	x, ok := (*fr.deref(v)).(*BigV)
	if !ok {
		unsupported("big.Int expected")
	}
	return x
}
func (b *BigV) asFE(fr *frame) *FE {
	if b.fe != nil {
		return b.fe
	}
	return FEBig(b.b)
}
func (b *BigV) conc(fr *frame) *big.Int {
	if b.b == nil {
		unsupported("symbolic big.Int at %s", fr.where())
	}
	return b.b
}
func setBig(fr *frame, p Value, b *big.Int) Value {
	c := fr.deref(p)
	fr.in.version++
	*c = &BigV{b: b}
	return p
}
func newBig(b *big.Int) Value {
	p := new(Value)
	*p = &BigV{b: b}
	return p
}
func bigBool(fr *frame, b *BigV) (*big.Int, bool) { return b.b, b.b != nil }

func init() {
	B := func(name string, f intrinsic) { reg("(*math/big.Int)."+name, f) }
	reg("math/big.NewInt", func(fr *frame, a []Value) Value {
		x, ok := a[0].(uint64)
		if !ok {
			x = fr.in.concretize(fr, a[0].(*Term))
		}
		return newBig(big.NewInt(int64(x)))
	})
	bin := func(g func(z, x, y *big.Int), h func(f *FCtx, x, y *FE) *FE) intrinsic {
		return func(fr *frame, a []Value) Value {
			x, y := bigAt(fr, a[1]), bigAt(fr, a[2])
			if x.b != nil && y.b != nil {
				z := new(big.Int)
				g(z, x.b, y.b)
				return setBig(fr, a[0], z)
			}
			if h == nil {
				unsupported("symbolic big.Int operation at %s", fr.where())
			}
			return put(fr, a[0], &BigV{fe: h(fr.in.f, x.asFE(fr), y.asFE(fr))})
		}
	}
	ar := func(f func(in *Interp, x, y *BigV) *BigV) intrinsic {
		return func(fr *frame, a []Value) Value { return put(fr, a[0], f(fr.in, bigAt(fr, a[1]), bigAt(fr, a[2]))) }
	}
	B("Add", ar((*Interp).bigAdd))
	B("Sub", ar(func(in *Interp, x, y *BigV) *BigV { return in.bigAdd(x, in.bigNeg(y)) }))
	B("Mul", ar((*Interp).bigMul))
	divz := func(g func(z, x, y *big.Int)) func(z, x, y *big.Int) {
		return func(z, x, y *big.Int) {
			if y.Sign() == 0 {
				panic(targetPanic{Iface{t: runtimeErrType, v: "division by zero"}})
			}
			g(z, x, y)
		}
	}
	B("Div", bin(divz(func(z, x, y *big.Int) { z.Div(x, y) }), nil))
	B("Quo", bin(divz(func(z, x, y *big.Int) { z.Quo(x, y) }), nil))
	B("Rem", bin(divz(func(z, x, y *big.Int) { z.Rem(x, y) }), nil))
	B("And", bin(func(z, x, y *big.Int) { z.And(x, y) }, nil))
	B("Or", bin(func(z, x, y *big.Int) { z.Or(x, y) }, nil))
	B("Xor", bin(func(z, x, y *big.Int) { z.Xor(x, y) }, nil))
	B("Mod", func(fr *frame, a []Value) Value {
		x, y := bigAt(fr, a[1]), bigAt(fr, a[2])
		m := y.conc(fr)
		if x.b != nil {
			if m.Sign() == 0 {
				panic(targetPanic{Iface{t: runtimeErrType, v: "division by zero"}})
			}
			return setBig(fr, a[0], new(big.Int).Mod(x.b, m))
		}
		if m.Cmp(pBig) != 0 {
			unsupported("symbolic big.Int modulo another modulus")
		}
		return put(fr, a[0], bigOfFE(x.fe))
	})
	B("ModInverse", func(fr *frame, a []Value) Value {
		x, y := bigAt(fr, a[1]), bigAt(fr, a[2])
		m := y.conc(fr)
		if x.b != nil {
			z := new(big.Int).ModInverse(x.b, m)
			if z == nil {
				return (*Value)(nil)
			}
			return setBig(fr, a[0], z)
		}
		if m.Cmp(pBig) != 0 {
			unsupported("symbolic ModInverse")
		}
		if fr.in.feIsZero(fr, x.fe) {
			return (*Value)(nil)
		}
		return put(fr, a[0], bigOfFE(fr.in.f.Inv(x.fe)))
	})
	B("Exp", func(fr *frame, a []Value) Value {
		x, y := bigAt(fr, a[1]), bigAt(fr, a[2])
		var m *big.Int // nil: no modulus
		if mb, ok := a[3].(*Value); ok && mb != nil {
			m = (*mb).(*BigV).conc(fr)
		}
		e := y.conc(fr)
		if x.b != nil {
			return setBig(fr, a[0], new(big.Int).Exp(x.b, e, m))
		}
		if m == nil || m.Cmp(pBig) != 0 || e.Sign() < 0 || e.BitLen() > 12 {
			unsupported("symbolic Exp")
		}
		r := feOneV
		for i := e.BitLen() - 1; i >= 0; i-- {
			r = fr.in.f.Mul(r, r)
			if e.Bit(i) == 1 {
				r = fr.in.f.Mul(r, x.fe)
			}
		}
		return put(fr, a[0], bigOfFE(r))
	})
	B("DivMod", func(fr *frame, a []Value) Value {
		x, y := bigAt(fr, a[1]).conc(fr), bigAt(fr, a[2]).conc(fr)
		q, r := new(big.Int).DivMod(x, y, new(big.Int))
		setBig(fr, a[0], q)
		setBig(fr, a[3], r)
		return Tuple{a[0], a[3]}
	})
	B("Set", func(fr *frame, a []Value) Value { return put(fr, a[0], bigAt(fr, a[1])) })
	B("Neg", func(fr *frame, a []Value) Value { return put(fr, a[0], fr.in.bigNeg(bigAt(fr, a[1]))) })
	B("Abs", func(fr *frame, a []Value) Value { return setBig(fr, a[0], new(big.Int).Abs(bigAt(fr, a[1]).conc(fr))) })
	B("SetInt64", func(fr *frame, a []Value) Value {
		return setBig(fr, a[0], big.NewInt(fr.intArg(a[1], basicInt64)))
	})
	B("SetUint64", func(fr *frame, a []Value) Value {
		x, ok := a[1].(uint64)
		if !ok {
			return put(fr, a[0], fr.in.bigOfBytes(fr, fr.in.beBytes(a[1].(*Term))))
		}
		return setBig(fr, a[0], new(big.Int).SetUint64(x))
	})
	B("SetBytes", func(fr *frame, a []Value) Value {
		return put(fr, a[0], fr.in.bigOfBytes(fr, a[1].([]Value)))
	})
	B("UnmarshalText", func(fr *frame, a []Value) Value {
		cb, ok := allConc(a[1].([]Value))
		if !ok {
			unsupported("symbolic number at %s", fr.where())
		}
		z := new(big.Int)
		if err := z.UnmarshalText(cb); err != nil {
			return fr.in.mkErr(fr, err.Error())
		}
		setBig(fr, a[0], z)
		return Iface{}
	})
	B("SetString", func(fr *frame, a []Value) Value {
		if fe := decOf(a[1]); fe != nil && a[2] == Value(uint64(10)) {
			return Tuple{put(fr, a[0], bigOfFE(fe)), true}
		}
		z, ok := new(big.Int).SetString(strArg(fr, a[1]), int(a[2].(uint64)))
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		setBig(fr, a[0], z)
		return Tuple{a[0], true}
	})
	B("SetBit", func(fr *frame, a []Value) Value {
		return setBig(fr, a[0], new(big.Int).SetBit(bigAt(fr, a[1]).conc(fr), int(a[2].(uint64)), uint(a[3].(uint64))))
	})
	B("Lsh", func(fr *frame, a []Value) Value {
		return setBig(fr, a[0], new(big.Int).Lsh(bigAt(fr, a[1]).conc(fr), uint(a[2].(uint64))))
	})
	B("Rsh", func(fr *frame, a []Value) Value {
		return setBig(fr, a[0], new(big.Int).Rsh(bigAt(fr, a[1]).conc(fr), uint(a[2].(uint64))))
	})
	B("Cmp", func(fr *frame, a []Value) Value {
		x, y := bigAt(fr, a[0]), bigAt(fr, a[1])
		return uint64(int64(fr.in.bigCmp(fr, x, y)))
	})
	B("Sign", func(fr *frame, a []Value) Value {
		x := bigAt(fr, a[0])
		if x.b != nil {
			return uint64(int64(x.b.Sign()))
		}
		return uint64(int64(fr.in.bigCmp(fr, x, &BigV{b: big0})))
	})
	B("BitLen", func(fr *frame, a []Value) Value { return uint64(bigAt(fr, a[0]).conc(fr).BitLen()) })
	B("Bit", func(fr *frame, a []Value) Value {
		return uint64(bigAt(fr, a[0]).conc(fr).Bit(int(a[1].(uint64))))
	})
	B("Int64", func(fr *frame, a []Value) Value { return uint64(bigAt(fr, a[0]).conc(fr).Int64()) })
	B("Uint64", func(fr *frame, a []Value) Value {
		if x := bigAt(fr, a[0]); x.b == nil {
			return fr.in.limbsOf(fr, x)[0]
		}
		return bigAt(fr, a[0]).conc(fr).Uint64()
	})
	B("IsInt64", func(fr *frame, a []Value) Value { return bigAt(fr, a[0]).conc(fr).IsInt64() })
	B("IsUint64", func(fr *frame, a []Value) Value { return bigAt(fr, a[0]).conc(fr).IsUint64() })
	B("Bytes", func(fr *frame, a []Value) Value {
		x := bigAt(fr, a[0])
		if x.b != nil {
			return toCells(x.b.Bytes())
		}
		// minimal big-endian encoding: length depends on the value.  Either it has all 32 bytes
		// (overwhelmingly) or it is shorter; both cases are explored.
		return fr.in.minimalBytes(fr, x)
	})
	B("FillBytes", func(fr *frame, a []Value) Value {
		x := bigAt(fr, a[0])
		buf := a[1].([]Value)
		if x.b != nil {
			if (x.b.BitLen()+7)/8 > len(buf) {
				panic(targetPanic{Iface{t: runtimeErrType, v: "math/big: buffer too small to fit value"}})
			}
			b := make([]byte, len(buf))
			x.b.FillBytes(b)
			copy(buf, toCells(b))
			return buf
		}
		bs := fr.in.bytes32(fr, x)
		if len(buf) < 32 {
			unsupported("FillBytes short")
		}
		for i := range buf {
			buf[i] = uint64(0)
		}
		copy(buf[len(buf)-32:], bs)
		return buf
	})
	str := func(fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return "<nil>"
		}
		x := bigAt(fr, a[0])
		if x.b != nil {
			if len(a) > 1 {
				return x.b.Text(int(a[1].(uint64)))
			}
			return x.b.String()
		}
		if !x.reduced() { // the text of a number of which the residue is known
			return fr.in.decBlob(x.fe, wideKey)
		}
		return fr.in.decString(fr, x.fe)
	}
	B("String", str)
	B("Text", str)
}

// bytes32 is the integer in 32 big-endian bytes.
func (in *Interp) bytes32(fr *frame, x *BigV) []Value {
	if x.b != nil {
		return toCells(x.b.FillBytes(make([]byte, 32)))
	}
	if !x.reduced() {
		if b, ok := in.nat.frBytes[x.fe.key()]; ok && len(b) == 32 && x.lo.Cmp(pBig) == 0 {
			return b
		}
		unsupported("bytes of an unreduced integer at %s", fr.where())
	}
	return in.bytesOfFE(x.fe)
}

// minimalBytes models (*big.Int).Bytes for a symbolic value.
func (in *Interp) minimalBytes(fr *frame, x *BigV) []Value {
	full := in.bytes32(fr, x)
	i := 0
	for i < 32 {
		if !in.branchV(fr, normT(in.c.Eq(in.term(full[i], 8), in.c.Const(8, 0)))) {
			break
		}
		i++
	}
	return full[i:]
}

// decString is the (injective) decimal rendering of a symbolic scalar, kept opaque.
func (in *Interp) decString(fr *frame, x *FE) Value {
	return in.decBlob(x, "")
}

const wideKey = "#wide"

func (in *Interp) decBlob(x *FE, suffix string) Value {
	bl := in.c.Blob("fr", 32, x.key()+suffix, func(b *Blob) { b.fe = x })
	out := make([]Value, 32)
	for i := range out {
		out[i] = in.c.Byte(bl, i)
	}
	return &SymStr{cells: out}
}

// decOf is the scalar whose decimal rendering the string is.
func decOf(v Value) *FE {
	s, ok := v.(*SymStr)
	if !ok {
		return nil
	}
	if b := fullBlob(s.cells); b != nil && b.kind == "fr" && b.n == len(s.cells) && !strings.HasSuffix(b.key, wideKey) {
		return b.fe
	}
	return nil
}

// limbsOf gives the four little-endian limbs of a fixed-size integer.
func (in *Interp) limbsOf(fr *frame, x *BigV) Array {
	b := in.bytes32(fr, x)
	r := make(Array, 4)
	for i := range r {
		var t *Term
		for _, c := range b[32-8*i-8 : 32-8*i] {
			if t == nil {
				t = in.term(c, 8)
			} else {
				t = in.c.Concat(t, in.term(c, 8))
			}
		}
		r[i] = normT(t)
	}
	return r
}

// onlyRead tells whether the address is used for loads only.
func onlyRead(i *ssa.IndexAddr) bool {
	for _, r := range *i.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}
