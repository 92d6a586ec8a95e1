package main

// Symbolic arithmetic over GF(p), p = order of the BLS12-381 scalar field.
// A field element is a fraction of multivariate polynomials over GF(p) in
// named field variables.

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type fe [4]uint64 // Montgomery form, R = 2^256

var pBig, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
var pLimbs [4]uint64
var pInv uint64 // -p^-1 mod 2^64
var feOneM, feR2 fe
var rBig = new(big.Int).Lsh(big.NewInt(1), 256)

func bigToLimbs(x *big.Int) (r [4]uint64) {
	var b [32]byte
	x.FillBytes(b[:])
	for i := 0; i < 4; i++ {
		r[i] = binary.BigEndian.Uint64(b[24-8*i : 32-8*i])
	}
	return
}
func limbsToBig(r [4]uint64) *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(b[24-8*i:32-8*i], r[i])
	}
	return new(big.Int).SetBytes(b[:])
}

func init() {
	pLimbs = bigToLimbs(pBig)
	inv := uint64(1)
	for i := 0; i < 6; i++ {
		inv *= 2 - pLimbs[0]*inv
	}
	pInv = -inv
	feOneM = fe(bigToLimbs(new(big.Int).Mod(rBig, pBig)))
	feR2 = fe(bigToLimbs(new(big.Int).Mod(new(big.Int).Mul(rBig, rBig), pBig)))
	kR = feFromBig(rBig)
	kRinv = feInv(kR)
	kR2 = feMul(kR, kR)
}

var kR, kRinv, kR2 fe // the constant R (as a field value), and friends

func feReduceOnce(r *[4]uint64, carry uint64) {
	var t [4]uint64
	var b uint64
	t[0], b = bits.Sub64(r[0], pLimbs[0], 0)
	t[1], b = bits.Sub64(r[1], pLimbs[1], b)
	t[2], b = bits.Sub64(r[2], pLimbs[2], b)
	t[3], b = bits.Sub64(r[3], pLimbs[3], b)
	if carry != 0 || b == 0 {
		*r = t
	}
}
func feAdd(a, b fe) fe {
	var r [4]uint64
	var c uint64
	r[0], c = bits.Add64(a[0], b[0], 0)
	r[1], c = bits.Add64(a[1], b[1], c)
	r[2], c = bits.Add64(a[2], b[2], c)
	r[3], c = bits.Add64(a[3], b[3], c)
	feReduceOnce(&r, c)
	return fe(r)
}
func feNeg(a fe) fe {
	if a == (fe{}) {
		return a
	}
	var r [4]uint64
	var b uint64
	r[0], b = bits.Sub64(pLimbs[0], a[0], 0)
	r[1], b = bits.Sub64(pLimbs[1], a[1], b)
	r[2], b = bits.Sub64(pLimbs[2], a[2], b)
	r[3], _ = bits.Sub64(pLimbs[3], a[3], b)
	return fe(r)
}
func feSub(a, b fe) fe { return feAdd(a, feNeg(b)) }
func feMul(a, b fe) fe {
	var t [6]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[j], b[i])
			var cc uint64
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j] = lo
			c = hi
		}
		var cc uint64
		t[4], cc = bits.Add64(t[4], c, 0)
		t[5] = cc
		m := t[0] * pInv
		hi, lo := bits.Mul64(m, pLimbs[0])
		_, cc = bits.Add64(lo, t[0], 0)
		c = hi + cc
		for j := 1; j < 4; j++ {
			hi, lo := bits.Mul64(m, pLimbs[j])
			lo, cc = bits.Add64(lo, t[j], 0)
			hi += cc
			lo, cc = bits.Add64(lo, c, 0)
			hi += cc
			t[j-1] = lo
			c = hi
		}
		t[3], cc = bits.Add64(t[4], c, 0)
		t[4] = t[5] + cc
	}
	r := [4]uint64{t[0], t[1], t[2], t[3]}
	feReduceOnce(&r, t[4])
	return fe(r)
}
func feFromBig(x *big.Int) fe {
	return feMul(fe(bigToLimbs(new(big.Int).Mod(x, pBig))), feR2)
}
func feFromInt(x int64) fe { return feFromBig(big.NewInt(x)) }
func feToBig(a fe) *big.Int {
	return limbsToBig([4]uint64(feMul(a, fe{1, 0, 0, 0})))
}
func feInv(a fe) fe {
	if a == (fe{}) {
		return a
	}
	return feFromBig(new(big.Int).ModInverse(feToBig(a), pBig))
}

// ---- monomials and polynomials ----

type mono struct {
	vars []uint32 // sorted, with repetition
}
type pterm struct {
	m uint32
	c fe
}
type Poly struct {
	t   []pterm // sorted by monomial id, no zero coefficients
	str string
}

type FCtx struct {
	monos   []mono
	monoIdx map[string]uint32
	vars    []string // index 1..
	varIdx  map[string]uint32
	mulMemo map[uint64]uint32
	generic map[uint32]bool
}

func newFCtx() *FCtx {
	c := &FCtx{monoIdx: map[string]uint32{}, varIdx: map[string]uint32{}, mulMemo: map[uint64]uint32{}}
	c.monos = append(c.monos, mono{})
	c.monoIdx[""] = 0
	c.vars = append(c.vars, "")
	return c
}
func monoKey(v []uint32) string {
	b := make([]byte, 4*len(v))
	for i, x := range v {
		binary.LittleEndian.PutUint32(b[4*i:], x)
	}
	return string(b)
}
func (c *FCtx) internMono(v []uint32) uint32 {
	k := monoKey(v)
	if id, ok := c.monoIdx[k]; ok {
		return id
	}
	id := uint32(len(c.monos))
	c.monos = append(c.monos, mono{append([]uint32(nil), v...)})
	c.monoIdx[k] = id
	return id
}
func (c *FCtx) mulMono(a, b uint32) uint32 {
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	if a > b {
		a, b = b, a
	}
	key := uint64(a)<<32 | uint64(b)
	if r, ok := c.mulMemo[key]; ok {
		return r
	}
	va, vb := c.monos[a].vars, c.monos[b].vars
	out := make([]uint32, 0, len(va)+len(vb))
	i, j := 0, 0
	for i < len(va) || j < len(vb) {
		if j >= len(vb) || (i < len(va) && va[i] <= vb[j]) {
			out = append(out, va[i])
			i++
		} else {
			out = append(out, vb[j])
			j++
		}
	}
	r := c.internMono(out)
	c.mulMemo[key] = r
	return r
}

func (c *FCtx) varID(name string) uint32 {
	if id, ok := c.varIdx[name]; ok {
		return id
	}
	id := uint32(len(c.vars))
	c.vars = append(c.vars, name)
	c.varIdx[name] = id
	return id
}

var polyZero = &Poly{}

func polyConst(a fe) *Poly {
	if a == (fe{}) {
		return polyZero
	}
	return &Poly{t: []pterm{{0, a}}}
}
func (p *Poly) isZero() bool { return len(p.t) == 0 }
func (p *Poly) isConst() (fe, bool) {
	if len(p.t) == 0 {
		return fe{}, true
	}
	if len(p.t) == 1 && p.t[0].m == 0 {
		return p.t[0].c, true
	}
	return fe{}, false
}
func (c *FCtx) polyVar(id uint32) *Poly {
	return &Poly{t: []pterm{{c.internMono([]uint32{id}), feOneM}}}
}
func polyAddScaled(a, b *Poly, s fe) *Poly { // a + s*b
	if len(b.t) == 0 || s == (fe{}) {
		return a
	}
	out := make([]pterm, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	one := s == feOneM
	for i < len(a.t) || j < len(b.t) {
		if j >= len(b.t) || (i < len(a.t) && a.t[i].m < b.t[j].m) {
			out = append(out, a.t[i])
			i++
		} else {
			bc := b.t[j].c
			if !one {
				bc = feMul(bc, s)
			}
			if i < len(a.t) && a.t[i].m == b.t[j].m {
				bc = feAdd(bc, a.t[i].c)
				i++
			}
			if bc != (fe{}) {
				out = append(out, pterm{b.t[j].m, bc})
			}
			j++
		}
	}
	return &Poly{t: out}
}
func polyAdd(a, b *Poly) *Poly {
	if len(a.t) == 0 {
		return b
	}
	return polyAddScaled(a, b, feOneM)
}
func polySub(a, b *Poly) *Poly { return polyAddScaled(a, b, feNeg(feOneM)) }
func polyScale(a *Poly, s fe) *Poly {
	if s == feOneM {
		return a
	}
	if s == (fe{}) {
		return polyZero
	}
	out := make([]pterm, len(a.t))
	for i, t := range a.t {
		out[i] = pterm{t.m, feMul(t.c, s)}
	}
	return &Poly{t: out}
}

const maxPolyTerms = 60000

func (c *FCtx) polyMul(a, b *Poly) *Poly {
	if k, ok := a.isConst(); ok {
		return polyScale(b, k)
	}
	if k, ok := b.isConst(); ok {
		return polyScale(a, k)
	}
	acc := map[uint32]fe{}
	for _, x := range a.t {
		for _, y := range b.t {
			m := c.mulMono(x.m, y.m)
			acc[m] = feAdd(acc[m], feMul(x.c, y.c))
		}
		if len(acc) > maxPolyTerms {
			unsupported("field polynomial too large (%d terms)", len(acc))
		}
	}
	return polyFromMap(acc)
}
func polyFromMap(acc map[uint32]fe) *Poly {
	out := make([]pterm, 0, len(acc))
	for m, k := range acc {
		if k != (fe{}) {
			out = append(out, pterm{m, k})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].m < out[j].m })
	return &Poly{t: out}
}
func polyEq(a, b *Poly) bool {
	if a == b {
		return true
	}
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}
func (p *Poly) key() string {
	if p.str == "" {
		b := make([]byte, 36*len(p.t)+1)
		for i, t := range p.t {
			binary.LittleEndian.PutUint32(b[36*i:], t.m)
			for j := 0; j < 4; j++ {
				binary.LittleEndian.PutUint64(b[36*i+4+8*j:], t.c[j])
			}
		}
		b[len(b)-1] = '.'
		p.str = string(b)
	}
	return p.str
}
func (p *Poly) monic() *Poly {
	if len(p.t) == 0 {
		return p
	}
	return polyScale(p, feInv(p.t[len(p.t)-1].c))
}

// substitute variables according to sub (var id -> poly); nil entries untouched
func (c *FCtx) polySubst(p *Poly, sub map[uint32]*Poly) *Poly {
	if len(sub) == 0 {
		return p
	}
	need := false
	for _, t := range p.t {
		for _, v := range c.monos[t.m].vars {
			if sub[v] != nil {
				need = true
			}
		}
	}
	if !need {
		return p
	}
	keep := &Poly{}
	var rest []*Poly
	for _, t := range p.t {
		hit := false
		for _, v := range c.monos[t.m].vars {
			if sub[v] != nil {
				hit = true
				break
			}
		}
		if !hit {
			keep.t = append(keep.t, t)
			continue
		}
		var untouched []uint32
		r := polyConst(t.c)
		for _, v := range c.monos[t.m].vars {
			if s := sub[v]; s != nil {
				r = c.polyMul(r, s)
			} else {
				untouched = append(untouched, v)
			}
		}
		if len(untouched) > 0 {
			r = c.polyMul(r, &Poly{t: []pterm{{c.internMono(untouched), feOneM}}})
		}
		rest = append(rest, r)
	}
	// sum via map when many
	acc := map[uint32]fe{}
	for _, t := range keep.t {
		acc[t.m] = t.c
	}
	for _, r := range rest {
		for _, t := range r.t {
			acc[t.m] = feAdd(acc[t.m], t.c)
		}
	}
	return polyFromMap(acc)
}
func (c *FCtx) polyVars(p *Poly, into map[uint32]bool) {
	for _, t := range p.t {
		for _, v := range c.monos[t.m].vars {
			into[v] = true
		}
	}
}
func (c *FCtx) polyEval(p *Poly, asg map[uint32]fe) fe {
	var r fe
	for _, t := range p.t {
		k := t.c
		for _, v := range c.monos[t.m].vars {
			k = feMul(k, asg[v])
		}
		r = feAdd(r, k)
	}
	return r
}
func (c *FCtx) polyString(p *Poly) string {
	if p.isZero() {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.t {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if i > 6 {
			fmt.Fprintf(&sb, "...(%d terms)", len(p.t))
			break
		}
		b := feToBig(t.c)
		nb := new(big.Int).Sub(pBig, b)
		if nb.BitLen() < 64 && b.BitLen() > 64 {
			fmt.Fprintf(&sb, "-%s", nb)
		} else {
			fmt.Fprintf(&sb, "%s", b)
		}
		for _, v := range c.monos[t.m].vars {
			sb.WriteString("*" + c.vars[v])
		}
	}
	return sb.String()
}

// ---- field element values ----

// FE is an immutable symbolic element of GF(p): num/den.
type FE struct {
	num *Poly
	den *Poly // nil means 1
}

var feZeroV = &FE{num: polyZero}
var feOneV = &FE{num: polyConst1()}

func polyConst1() *Poly  { return polyConst(fe(bigToLimbs(new(big.Int).Mod(rBigInit(), pBigInit())))) }
func rBigInit() *big.Int { return new(big.Int).Lsh(big.NewInt(1), 256) }
func pBigInit() *big.Int {
	x, _ := new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
	return x
}

func FEConst(a fe) *FE     { return &FE{num: polyConst(a)} }
func FEBig(b *big.Int) *FE { return FEConst(feFromBig(b)) }
func (a *FE) isConst() (fe, bool) {
	if a.den != nil {
		return fe{}, false
	}
	return a.num.isConst()
}
func (c *FCtx) norm(n, d *Poly) *FE {
	if d == nil {
		return &FE{num: n}
	}
	if n.isZero() {
		return feZeroV
	}
	if k, ok := d.isConst(); ok {
		return &FE{num: polyScale(n, feInv(k))}
	}
	// trivial cancellation: n = k*d
	if len(n.t) == len(d.t) {
		k := feMul(n.t[0].c, feInv(d.t[0].c))
		if polyEq(n, polyScale(d, k)) {
			return FEConst(k)
		}
	}
	// make denominator monic
	k := feInv(d.t[len(d.t)-1].c)
	return &FE{num: polyScale(n, k), den: polyScale(d, k)}
}
func (c *FCtx) Add(a, b *FE) *FE {
	if a.den == nil && b.den == nil {
		return &FE{num: polyAdd(a.num, b.num)}
	}
	if a.den != nil && b.den != nil && polyEq(a.den, b.den) {
		return c.norm(polyAdd(a.num, b.num), a.den)
	}
	if a.den == nil {
		return c.norm(polyAdd(c.polyMul(a.num, b.den), b.num), b.den)
	}
	if b.den == nil {
		return c.norm(polyAdd(c.polyMul(b.num, a.den), a.num), a.den)
	}
	return c.norm(polyAdd(c.polyMul(a.num, b.den), c.polyMul(b.num, a.den)), c.polyMul(a.den, b.den))
}
func (c *FCtx) Neg(a *FE) *FE { return &FE{num: polyScale(a.num, feNeg(feOneM)), den: a.den} }
func (c *FCtx) Sub(a, b *FE) *FE {
	if a.den == nil && b.den == nil {
		return &FE{num: polySub(a.num, b.num)}
	}
	return c.Add(a, c.Neg(b))
}
func (c *FCtx) Mul(a, b *FE) *FE {
	if a.den == nil && b.den == nil {
		return &FE{num: c.polyMul(a.num, b.num)}
	}
	an, ad, bn, bd := a.num, a.den, b.num, b.den
	if bd != nil && polyEq(an, bd) {
		return c.norm(bn, ad)
	}
	if ad != nil && polyEq(bn, ad) {
		return c.norm(an, bd)
	}
	d := ad
	if d == nil {
		d = bd
	} else if bd != nil {
		d = c.polyMul(ad, bd)
	}
	return c.norm(c.polyMul(an, bn), d)
}
func (c *FCtx) MulC(a *FE, k fe) *FE { return &FE{num: polyScale(a.num, k), den: a.den} }

// Inv assumes a != 0.
func (c *FCtx) Inv(a *FE) *FE {
	if k, ok := a.isConst(); ok {
		return FEConst(feInv(k))
	}
	d := a.den
	if d == nil {
		d = polyConst(feOneM)
	}
	return c.norm(d, a.num)
}

// diff returns a polynomial that is zero iff a == b (given denominators are nonzero).
func (c *FCtx) diff(a, b *FE) *Poly {
	if a.den == nil && b.den == nil {
		return polySub(a.num, b.num)
	}
	an, bn := a.num, b.num
	if a.den != nil && b.den != nil && polyEq(a.den, b.den) {
		return polySub(an, bn)
	}
	if b.den != nil {
		an = c.polyMul(an, b.den)
	}
	if a.den != nil {
		bn = c.polyMul(bn, a.den)
	}
	return polySub(an, bn)
}
func (a *FE) key() string {
	if a.den == nil {
		return a.num.key()
	}
	return a.num.key() + "/" + a.den.key()
}
func (c *FCtx) feString(a *FE) string {
	if a.den == nil {
		return c.polyString(a.num)
	}
	return "(" + c.polyString(a.num) + ")/(" + c.polyString(a.den) + ")"
}

func (c *FCtx) anyGeneric(p *Poly) bool {
	if len(c.generic) == 0 {
		return false
	}
	for _, t := range p.t {
		for _, v := range c.monos[t.m].vars {
			if c.generic[v] {
				return true
			}
		}
	}
	return false
}

// genericCoeffs splits p into its coefficients as a polynomial in the generic variables.
func (c *FCtx) genericCoeffs(p *Poly) []*Poly {
	acc := map[uint32]map[uint32]fe{}
	var order []uint32
	for _, t := range p.t {
		var g, o []uint32
		for _, v := range c.monos[t.m].vars {
			if c.generic[v] {
				g = append(g, v)
			} else {
				o = append(o, v)
			}
		}
		gm := c.internMono(g)
		if acc[gm] == nil {
			acc[gm] = map[uint32]fe{}
			order = append(order, gm)
		}
		acc[gm][c.internMono(o)] = t.c
	}
	var r []*Poly
	for _, g := range order {
		r = append(r, polyFromMap(acc[g]))
	}
	return r
}
