package main

// Intrinsics: the harness runtime (vrt), field and curve primitives (kilic), big.Int, hashing,
// and the parts of the standard library that cannot be interpreted from source.

import (
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Pt struct{ dl *FE }
type EngV struct{ acc *FE }
type BigV struct {
	b  *big.Int
	fe *FE // residue of an integer in [lo,hi]; canonical without an interval
	lo *big.Int
	hi *big.Int
}
type natType struct {
	types.Type
	name    string
	methods map[string]func(fr *frame, args []Value) Value
}

func (n *natType) String() string         { return n.name }
func (n *natType) Underlying() types.Type { return n }

type fallthroughV struct{}

const kb = "github.com/kilic/bls12-381."
const kbp = "(*github.com/kilic/bls12-381."

type natState struct {
	in      *Interp
	locks   map[*Value]*lockSt
	digests map[string][]Value
	backing map[*Value][]Value
	h2c     []h2cRec
	frBytes map[string][]Value // FE key -> big-endian byte cells
	hexNib  map[*Term]*Term
	nrand   int
	smap    map[*Value]*Map
	once    map[*Value]int
	rs      map[*Value]*rsCodec
	quietLg bool
	xof     map[*Value][]Value
	pool    map[*Value][]Value
	ext     map[string]any
}
type h2cRec struct {
	kind string
	msg  []Value
	dl   *FE
}

func newNatState(in *Interp) *natState {
	return &natState{in: in, locks: map[*Value]*lockSt{}, digests: map[string][]Value{}, backing: map[*Value][]Value{}, frBytes: map[string][]Value{}, hexNib: map[*Term]*Term{}, smap: map[*Value]*Map{}, once: map[*Value]int{}, rs: map[*Value]*rsCodec{}, xof: map[*Value][]Value{}, pool: map[*Value][]Value{}, ext: map[string]any{}}
}

func (in *Interp) absZero(k string) Value {
	switch k {
	case "fr":
		return feZeroV
	case "pt":
		return &Pt{feZeroV}
	case "eng":
		return &EngV{feZeroV}
	case "big":
		return &BigV{b: new(big.Int)}
	}
	panic(engineErr("absZero " + k))
}

var absTypes = map[string]string{
	"github.com/kilic/bls12-381.Fr":                     "fr",
	"github.com/kilic/bls12-381.PointG1":                "pt",
	"github.com/kilic/bls12-381.PointG2":                "pt",
	"github.com/kilic/bls12-381.E":                      "pt",
	"github.com/kilic/bls12-381.Engine":                 "eng",
	"github.com/DyCAPSTeam/DyCAPS/internal/bls.G1Point": "pt",
	"github.com/DyCAPSTeam/DyCAPS/internal/bls.G2Point": "pt",
	"github.com/DyCAPSTeam/DyCAPS/internal/bls.VS":      "fr",
	"github.com/DyCAPSTeam/DyCAPS/internal/bls.Fr":      "fr",
	"math/big.Int":                               "big",
	"github.com/holiman/uint256.Int":             "big",
	"github.com/herumi/bls-eth-go-binary/bls.Fr": "fr",
	"github.com/herumi/bls-eth-go-binary/bls.G1": "pt",
	"github.com/herumi/bls-eth-go-binary/bls.G2": "pt",
}

// absFor is absTypes for a build: the representation of scalars depends on its tag.
func absFor(tag string) map[string]string {
	m := map[string]string{}
	for k, v := range absTypes {
		m[k] = v
	}
	if tag == "bignum_pure" || tag == "bignum_hol256" {
		m["github.com/DyCAPSTeam/DyCAPS/internal/bls.Fr"] = "big"
	}
	return m
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "time": true, "reflect": true, "net": true, "testing": true, "sync": true,
	"github.com/kilic/bls12-381": true, "math/big": true, "github.com/holiman/uint256": true, "github.com/herumi/bls-eth-go-binary/bls": true, "crypto/rand": true, "crypto/sha256": true, "crypto/sha512": true, "log": true, "fmt": true, "math/rand": true, "internal/cpu": true,
	"internal/godebug": true, "unicode": true, "github.com/klauspost/cpuid/v2": true, "github.com/klauspost/reedsolomon": true,
	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf": true, "golang.org/x/sys/cpu": true, "internal/poll": true, "io/fs": false, "crypto": false, "sync/atomic": true,
	"google.golang.org/protobuf/proto": true, "internal/reflectlite": true, "strconv": false, "golang.org/x/crypto/blake2b": true, "golang.org/x/crypto/blake2s": true, "encoding/binary": false,
}

// globalOverride returns the initial value of a global whose initialiser is not interpreted.
func globalOverride(in *Interp, g *ssa.Global) Value {
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "crypto/rand.Reader":
		return Iface{t: randReaderT, v: nil}
	case "encoding/binary.structSize":
		return nil
	case "io.EOF":
		return nil
	}
	return nil
}

var randReaderT = &natType{name: "rand.Reader", methods: map[string]func(fr *frame, args []Value) Value{}}

func init() {
	randReaderT.methods["Read"] = func(fr *frame, args []Value) Value {
		b := args[1].([]Value)
		for i := range b {
			b[i] = fr.in.freshByte("rnd")
		}
		return Tuple{uint64(len(b)), Iface{}}
	}
}
func (in *Interp) freshByte(base string) Value {
	in.nat.nrand++
	n := in.p.uniq(base)
	t := in.c.Var(8, n)
	in.p.vars = append(in.p.vars, symVar{name: n, t: t})
	return t
}

func natMethod(in *Interp, t types.Type, name string) func(fr *frame, args []Value) Value {
	if nt, ok := t.(*natType); ok {
		return nt.methods[name]
	}
	if t == runtimeErrType && name == "Error" {
		return func(fr *frame, args []Value) Value { return args[0] }
	}
	if t == runtimeErrType && name == "RuntimeError" {
		return func(fr *frame, args []Value) Value { return nil }
	}
	return nil
}

func bigFromBE(b []byte) *big.Int { return new(big.Int).SetBytes(b) }
func (n *natState) pointFromBytes(kind string, b []byte) *FE {
	if (kind == "g1" || kind == "g2") && len(b) > 0 && b[0] == 0xc0 {
		for _, x := range b[1:] {
			if x != 0 {
				return nil
			}
		}
		return feZeroV
	}
	return nil
}

// mkErr builds an error value.
func (in *Interp) mkErr(fr *frame, msg string) Value {
	p := in.pr.byPath["errors"]
	in.pr.ensureBuilt(p)
	return in.callSSA(fr, p.Func("New"), []Value{msg}, nil)
}

// ---- field elements and bytes ----

func fePtr(fr *frame, v Value) *Value { return fr.deref(v) }
func feAt(fr *frame, v Value) *FE {
	x, ok := (*fr.deref(v)).(*FE)
	if !ok {
		unsupported("field element expected, have %T at %s", *fr.deref(v), fr.where())
	}
	return x
}
func setFE(fr *frame, p Value, x *FE) {
	c := fr.deref(p)
	fr.in.noteStore(c, x)
	*c = x
}
func ptAt(fr *frame, v Value) *FE {
	x, ok := (*fr.deref(v)).(*Pt)
	if !ok {
		unsupported("point expected, have %T at %s", *fr.deref(v), fr.where())
	}
	return x.dl
}
func setPt(fr *frame, p Value, x *FE) {
	c := fr.deref(p)
	fr.in.version++
	*c = &Pt{x}
}

// feZero decides (forking if needed) whether x is zero.
func (in *Interp) feIsZero(fr *frame, x *FE) bool { return in.branchT(fr, in.c.FEqZero(x.num)) }

// feFromBytesBE interprets bytes (big endian) as an integer mod p.
func (in *Interp) feFromBytesBE(fr *frame, b []Value) *FE {
	if cb, ok := allConc(b); ok {
		return FEBig(bigFromBE(cb))
	}
	// strip leading concrete zeros before a blob
	i := 0
	for i < len(b) {
		if k, ok := b[i].(uint64); ok && k == 0 {
			i++
			continue
		}
		break
	}
	if bl := fullBlob(b[i:]); bl != nil && bl.n == len(b)-i && bl.kind == "fr" {
		return bl.fe
	}
	// generic: an opaque field variable determined by the bytes
	var key strings.Builder
	for _, c := range b[i:] {
		switch x := c.(type) {
		case uint64:
			fmt.Fprintf(&key, "c%d,", x)
		case *Term:
			fmt.Fprintf(&key, "t%d,", x.id)
		}
	}
	k := key.String()
	if x, ok := in.nat.ext["int:"+k]; ok {
		return x.(*FE)
	}
	id := in.f.varID(in.p.uniq("$int"))
	x := &FE{num: in.f.polyVar(id)}
	in.nat.ext["int:"+k] = x
	in.nat.frBytes[x.key()] = append([]Value(nil), b[i:]...)
	return x
}

// bytesOfFE gives the 32-byte big-endian encoding of the canonical representative.
func (in *Interp) bytesOfFE(x *FE) []Value {
	if k, ok := x.isConst(); ok {
		var b [32]byte
		feToBig(k).FillBytes(b[:])
		out := make([]Value, 32)
		for i := range out {
			out[i] = uint64(b[i])
		}
		return out
	}
	if b, ok := in.nat.frBytes[x.key()]; ok {
		return in.canonBytes(b)
	}
	bl := in.c.Blob("fr", 32, x.key(), func(b *Blob) { b.fe = x })
	out := make([]Value, 32)
	for i := range out {
		out[i] = in.c.Byte(bl, i)
	}
	return out
}

// canonBytes reduces a big-endian byte string (at most 32 bytes) modulo p.
func (in *Interp) canonBytes(b []Value) []Value {
	if len(b) > 32 {
		unsupported("canonical bytes of a long integer")
	}
	c := in.c
	var t *Term
	for i := 0; i < 32; i++ {
		var x *Term
		if i < 32-len(b) {
			x = c.Const(8, 0)
		} else {
			x = in.term(b[i-(32-len(b))], 8)
		}
		if t == nil {
			t = x
		} else {
			t = c.Concat(t, x)
		}
	}
	if len(b) == 32 {
		pl := c.bigConst(pBig, 256)
		p2 := c.bigConst(new(big.Int).Lsh(pBig, 1), 256)
		t = c.Ite(c.Cmp(OUlt, t, pl), t, c.Ite(c.Cmp(OUlt, t, p2), c.Bin(OSub, t, pl), c.Bin(OSub, t, p2)))
	}
	out := make([]Value, 32)
	for i := range out {
		out[i] = normT(c.Extract(t, uint16(255-8*i), uint16(248-8*i)))
	}
	return out
}
func (c *TCtx) bigConst(x *big.Int, w uint16) *Term {
	var t *Term
	for i := int(w)/64 - 1; i >= 0; i-- {
		l := c.Const(64, new(big.Int).And(new(big.Int).Rsh(x, uint(64*i)), new(big.Int).SetUint64(math.MaxUint64)).Uint64())
		if t == nil {
			t = l
		} else {
			t = c.Concat(t, l)
		}
	}
	return t
}

func (in *Interp) pointBytes(kind string, n int, x *FE) []Value {
	if k, ok := x.isConst(); ok && k == (fe{}) {
		out := make([]Value, n)
		for i := range out {
			out[i] = uint64(0)
		}
		out[0] = uint64(0xc0)
		if kind == "g1u" || kind == "g2u" {
			out[0] = uint64(0x40)
		}
		return out
	}
	bl := in.c.Blob(kind, n, x.key(), func(b *Blob) { b.fe = x })
	out := make([]Value, n)
	for i := range out {
		out[i] = in.c.Byte(bl, i)
	}
	return out
}

func (in *Interp) pointDecode(fr *frame, kind string, n int, b []Value) (*FE, string) {
	if len(b) != n {
		return nil, "input string length must be equal to the point size"
	}
	if bl := fullBlob(b); bl != nil && bl.n == n {
		if bl.kind == kind {
			return bl.fe, ""
		}
		return nil, "point is not on curve"
	}
	if cb, ok := allConc(b); ok {
		if fe := in.nat.pointFromBytes(kind, cb); fe != nil {
			return fe, ""
		}
		return nil, "point is not on curve"
	}
	// A corrupted encoding: assumed not to decode (stated assumption).
	return nil, "point is not on curve"
}

func (in *Interp) freshFE(base string) *FE {
	n := in.p.uniq(base)
	id := in.f.varID(n)
	in.p.vars = append(in.p.vars, symVar{name: n, fv: id})
	return &FE{num: in.f.polyVar(id)}
}

func (in *Interp) hashToCurve(fr *frame, kind string, msg []Value) *FE {
	for _, r := range in.nat.h2c {
		if r.kind != kind {
			continue
		}
		if in.branchT(fr, in.eqBytes(r.msg, msg)) {
			return r.dl
		}
	}
	x := in.freshFE("$h2c")
	for _, v := range in.f.monos[x.num.t[0].m].vars {
		if in.f.generic == nil {
			in.f.generic = map[uint32]bool{}
		}
		in.f.generic[v] = true
	}
	in.nat.h2c = append(in.nat.h2c, h2cRec{kind, append([]Value(nil), msg...), x})
	return x
}

// ideal or concrete hash of a byte string
func (in *Interp) hash(alg string, n int, data []Value) []Value {
	if cb, ok := allConc(data); ok {
		var d []byte
		switch alg {
		case "sha256":
			x := sha256.Sum256(cb)
			d = x[:]
		case "sha512":
			x := sha512.Sum512(cb)
			d = x[:]
		default:
			// an unspecified but fixed function
			x := sha512.Sum512(append([]byte(alg+"|"), cb...))
			d = append(x[:], x[:]...)[:n]
		}
		if _, ok := in.nat.digests[string(d)]; !ok {
			in.nat.digests[string(d)] = append([]Value(nil), data...)
		}
		out := make([]Value, len(d))
		for i := range d {
			out[i] = uint64(d[i])
		}
		return out
	}
	var key strings.Builder
	key.WriteString(alg)
	for _, c := range data {
		switch x := c.(type) {
		case uint64:
			fmt.Fprintf(&key, "%d,", x)
		case *Term:
			fmt.Fprintf(&key, "t%d,", x.id)
		}
	}
	pre := append([]Value(nil), data...)
	bl := in.c.Blob("hash", n, key.String(), func(b *Blob) { b.pre = pre })
	out := make([]Value, n)
	for i := range out {
		out[i] = in.c.Byte(bl, i)
	}
	return out
}

func toCells(b []byte) []Value {
	out := make([]Value, len(b))
	for i := range b {
		out[i] = uint64(b[i])
	}
	return out
}

var intrinsics = map[string]intrinsic{}

// prefixIntrinsic matches families of functions.
func prefixIntrinsic(name string) intrinsic {
	for p, f := range prefixIntr {
		if strings.HasPrefix(name, p) {
			return f
		}
	}
	return nil
}

var prefixIntr = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func strArg(fr *frame, v Value) string {
	s, ok := v.(string)
	if !ok {
		unsupported("symbolic string argument at %s", fr.where())
	}
	return s
}

func valText(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return valText(x.v)
	case string:
		return x
	case uint64:
		return fmt.Sprint(int64(x))
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if s, ok := (*x).(Struct); ok && len(s) > 0 {
			return "&" + valText(s)
		}
		return "<ptr>"
	case Struct:
		var ps []string
		for _, f := range x {
			ps = append(ps, valText(f))
		}
		return "{" + strings.Join(ps, " ") + "}"
	}
	return fmt.Sprintf("<%T>", v)
}

// nativeArgs converts ...interface{} arguments for formatting.
func nativeArgs(fr *frame, v Value) []any {
	var out []any
	for _, a := range v.([]Value) {
		i := a.(Iface)
		out = append(out, nativeArg(fr, i))
	}
	return out
}
func nativeArg(fr *frame, i Iface) any {
	if i.t == nil {
		return nil
	}
	if _, ok := i.t.(*natType); !ok && i.t != runtimeErrType && fr.in.pr.absKind(i.t) == "" && !isAbsPtr(fr.in, i.t) {
		for _, m := range []string{"Error", "String"} {
			sel := fr.in.pr.prog.MethodSets.MethodSet(i.t).Lookup(nil, m)
			if sel == nil {
				continue
			}
			sg, ok := sel.Obj().Type().(*types.Signature)
			if !ok || sg.Params().Len() != 0 || sg.Results().Len() != 1 {
				continue
			}
			if _, basic := i.t.Underlying().(*types.Basic); m == "String" && !basic {
				continue
			}
			if _, ok := i.v.(*Term); ok {
				continue
			}
			if fn := fr.in.pr.prog.MethodValue(sel); fn != nil {
				return natErr{concStr(fr.in.callSSA(fr, fn, []Value{i.v}, nil))}
			}
		}
	}
	return natVal(fr, i.v, i.t, true)
}
func isAbsPtr(in *Interp, t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && in.pr.absKind(p.Elem()) != ""
}

func init() {
	F := func(name string, f intrinsic) { reg(kbp+"Fr)."+name, f) }
	bin := func(g func(in *Interp, fr *frame, a, b *FE) *FE) intrinsic {
		return func(fr *frame, a []Value) Value {
			setFE(fr, a[0], g(fr.in, fr, feAt(fr, a[1]), feAt(fr, a[2])))
			return nil
		}
	}
	F("Set", func(fr *frame, a []Value) Value { setFE(fr, a[0], feAt(fr, a[1])); return a[0] })
	F("Zero", func(fr *frame, a []Value) Value { setFE(fr, a[0], feZeroV); return a[0] })
	F("One", func(fr *frame, a []Value) Value { setFE(fr, a[0], feOneV); return a[0] })
	F("RedOne", func(fr *frame, a []Value) Value { setFE(fr, a[0], FEConst(kR)); return a[0] })
	F("FromBytes", func(fr *frame, a []Value) Value {
		setFE(fr, a[0], fr.in.feFromBytesBE(fr, a[1].([]Value)))
		return a[0]
	})
	F("RedFromBytes", func(fr *frame, a []Value) Value {
		setFE(fr, a[0], fr.in.f.MulC(fr.in.feFromBytesBE(fr, a[1].([]Value)), kR))
		return a[0]
	})
	F("ToBytes", func(fr *frame, a []Value) Value { return fr.in.bytesOfFE(feAt(fr, a[0])) })
	F("RedToBytes", func(fr *frame, a []Value) Value { return fr.in.bytesOfFE(fr.in.f.MulC(feAt(fr, a[0]), kRinv)) })
	mkBig := func(x *FE) Value {
		p := new(Value)
		*p = bigOfFE(x)
		return p
	}
	F("ToBig", func(fr *frame, a []Value) Value { return mkBig(feAt(fr, a[0])) })
	F("RedToBig", func(fr *frame, a []Value) Value { return mkBig(fr.in.f.MulC(feAt(fr, a[0]), kRinv)) })
	F("IsZero", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEqZero(feAt(fr, a[0]).num)) })
	F("IsOne", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(feAt(fr, a[0]), feOneV)) })
	F("IsRedOne", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(feAt(fr, a[0]), FEConst(kR))) })
	F("Equal", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(feAt(fr, a[0]), feAt(fr, a[1]))) })
	F("FromRed", func(fr *frame, a []Value) Value { setFE(fr, a[0], fr.in.f.MulC(feAt(fr, a[0]), kRinv)); return nil })
	F("ToRed", func(fr *frame, a []Value) Value { setFE(fr, a[0], fr.in.f.MulC(feAt(fr, a[0]), kR)); return nil })
	F("Add", bin(func(in *Interp, fr *frame, a, b *FE) *FE { return in.f.Add(a, b) }))
	F("Sub", bin(func(in *Interp, fr *frame, a, b *FE) *FE { return in.f.Sub(a, b) }))
	F("Mul", bin(func(in *Interp, fr *frame, a, b *FE) *FE { return in.f.Mul(a, b) }))
	F("RedMul", bin(func(in *Interp, fr *frame, a, b *FE) *FE { return in.f.MulC(in.f.Mul(a, b), kRinv) }))
	F("Neg", func(fr *frame, a []Value) Value { setFE(fr, a[0], fr.in.f.Neg(feAt(fr, a[1]))); return nil })
	F("Double", func(fr *frame, a []Value) Value { x := feAt(fr, a[1]); setFE(fr, a[0], fr.in.f.Add(x, x)); return nil })
	F("Square", func(fr *frame, a []Value) Value { x := feAt(fr, a[1]); setFE(fr, a[0], fr.in.f.Mul(x, x)); return nil })
	F("RedSquare", func(fr *frame, a []Value) Value {
		x := feAt(fr, a[1])
		setFE(fr, a[0], fr.in.f.MulC(fr.in.f.Mul(x, x), kRinv))
		return nil
	})
	inv := func(scale fe) intrinsic {
		return func(fr *frame, a []Value) Value {
			x := feAt(fr, a[1])
			if fr.in.feIsZero(fr, x) {
				setFE(fr, a[0], feZeroV)
				return nil
			}
			setFE(fr, a[0], fr.in.f.MulC(fr.in.f.Inv(x), scale))
			return nil
		}
	}
	F("Inverse", inv(feOneM))
	F("RedInverse", inv(kR2))
	F("Rand", func(fr *frame, a []Value) Value {
		var x *FE
		if cs, ok := fr.in.nat.ext["coins"].([]Value); ok {
			n := fr.in.nat.ext["coinsUsed"].(int)
			fr.in.nat.ext["coinsUsed"] = n + 1
			x = feZeroV
			if n < len(cs) {
				x = cs[n].(*FE)
			}
		} else {
			x = fr.in.freshFE("rnd")
		}
		setFE(fr, a[0], x)
		return Tuple{a[0], Iface{}}
	})

	// curve groups
	for _, g := range []struct {
		G, P, kind string
		n          int
	}{{"G1", "PointG1", "g1", 48}, {"G2", "PointG2", "g2", 96}} {
		g := g
		M := func(name string, f intrinsic) { reg(kbp+g.G+")."+name, f) }
		reg(kb+"New"+g.G, func(fr *frame, a []Value) Value {
			p := new(Value)
			*p = Struct{}
			return p
		})
		newp := func(x *FE) Value {
			p := new(Value)
			*p = &Pt{x}
			return p
		}
		M("New", func(fr *frame, a []Value) Value { return newp(feZeroV) })
		M("Zero", func(fr *frame, a []Value) Value { return newp(feZeroV) })
		M("One", func(fr *frame, a []Value) Value { return newp(feOneV) })
		M("Q", func(fr *frame, a []Value) Value {
			p := new(Value)
			*p = &BigV{b: new(big.Int).Set(pBig)}
			return p
		})
		M("Add", func(fr *frame, a []Value) Value {
			setPt(fr, a[1], fr.in.f.Add(ptAt(fr, a[2]), ptAt(fr, a[3])))
			return a[1]
		})
		M("AddMixed", func(fr *frame, a []Value) Value {
			setPt(fr, a[1], fr.in.f.Add(ptAt(fr, a[2]), ptAt(fr, a[3])))
			return a[1]
		})
		M("Sub", func(fr *frame, a []Value) Value {
			setPt(fr, a[1], fr.in.f.Sub(ptAt(fr, a[2]), ptAt(fr, a[3])))
			return a[1]
		})
		M("Neg", func(fr *frame, a []Value) Value { setPt(fr, a[1], fr.in.f.Neg(ptAt(fr, a[2]))); return a[1] })
		M("Double", func(fr *frame, a []Value) Value {
			x := ptAt(fr, a[2])
			setPt(fr, a[1], fr.in.f.Add(x, x))
			return a[1]
		})
		M("MulScalar", func(fr *frame, a []Value) Value {
			setPt(fr, a[1], fr.in.f.Mul(ptAt(fr, a[2]), feAt(fr, a[3])))
			return a[1]
		})
		M("MulScalarBig", func(fr *frame, a []Value) Value {
			setPt(fr, a[1], fr.in.f.Mul(ptAt(fr, a[2]), bigAt(fr, a[3]).asFE(fr)))
			return a[1]
		})
		M("MultiExp", func(fr *frame, a []Value) Value {
			ps, ss := a[2].([]Value), a[3].([]Value)
			if len(ps) != len(ss) {
				return Tuple{(*Value)(nil), fr.in.mkErr(fr, "point and scalar vectors should be in same length")}
			}
			acc := feZeroV
			for i := range ps {
				acc = fr.in.f.Add(acc, fr.in.f.Mul(ptAt(fr, ps[i]), feAt(fr, ss[i])))
			}
			setPt(fr, a[1], acc)
			return Tuple{a[1], Iface{}}
		})
		M("Equal", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(ptAt(fr, a[1]), ptAt(fr, a[2]))) })
		M("IsZero", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEqZero(ptAt(fr, a[1]).num)) })
		M("InCorrectSubgroup", func(fr *frame, a []Value) Value { ptAt(fr, a[1]); return true })
		M("IsOnCurve", func(fr *frame, a []Value) Value { ptAt(fr, a[1]); return true })
		M("Affine", func(fr *frame, a []Value) Value { ptAt(fr, a[1]); return a[1] })
		M("ToCompressed", func(fr *frame, a []Value) Value { return fr.in.pointBytes(g.kind, g.n, ptAt(fr, a[1])) })
		M("ToUncompressed", func(fr *frame, a []Value) Value { return fr.in.pointBytes(g.kind+"u", 2*g.n, ptAt(fr, a[1])) })
		M("FromCompressed", func(fr *frame, a []Value) Value {
			x, e := fr.in.pointDecode(fr, g.kind, g.n, a[1].([]Value))
			if e != "" {
				return Tuple{(*Value)(nil), fr.in.mkErr(fr, e)}
			}
			return Tuple{newp(x), Iface{}}
		})
		M("FromUncompressed", func(fr *frame, a []Value) Value {
			x, e := fr.in.pointDecode(fr, g.kind+"u", 2*g.n, a[1].([]Value))
			if e != "" {
				return Tuple{(*Value)(nil), fr.in.mkErr(fr, e)}
			}
			return Tuple{newp(x), Iface{}}
		})
		M("HashToCurve", func(fr *frame, a []Value) Value {
			return Tuple{newp(fr.in.hashToCurve(fr, g.kind, a[1].([]Value))), Iface{}}
		})
		reg(kbp+g.P+").Set", func(fr *frame, a []Value) Value { setPt(fr, a[0], ptAt(fr, a[1])); return a[0] })
		reg(kbp+g.P+").Zero", func(fr *frame, a []Value) Value { setPt(fr, a[0], feZeroV); return a[0] })
		reg(kbp+g.P+").IsAffine", func(fr *frame, a []Value) Value { ptAt(fr, a[0]); return true })
	}
	// pairing
	reg(kb+"NewEngine", func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = &EngV{feZeroV}
		return p
	})
	E := func(name string, f intrinsic) { reg(kbp+"Engine)."+name, f) }
	addp := func(neg bool) intrinsic {
		return func(fr *frame, a []Value) Value {
			c := fr.deref(a[0])
			x := fr.in.f.Mul(ptAt(fr, a[1]), ptAt(fr, a[2]))
			if neg {
				x = fr.in.f.Neg(x)
			}
			*c = &EngV{fr.in.f.Add((*c).(*EngV).acc, x)}
			return a[0]
		}
	}
	E("AddPair", addp(false))
	E("AddPairInv", addp(true))
	E("Reset", func(fr *frame, a []Value) Value { *fr.deref(a[0]) = &EngV{feZeroV}; return a[0] })
	E("Check", func(fr *frame, a []Value) Value {
		return normT(fr.in.c.FEqZero((*fr.deref(a[0])).(*EngV).acc.num))
	})
	E("Result", func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = &Pt{(*fr.deref(a[0])).(*EngV).acc}
		return p
	})
	reg(kbp+"E).Set", func(fr *frame, a []Value) Value { setPt(fr, a[0], ptAt(fr, a[1])); return a[0] })
	reg(kbp+"E).Equal", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(ptAt(fr, a[0]), ptAt(fr, a[1]))) })
	reg(kbp+"E).IsOne", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEqZero(ptAt(fr, a[0]).num)) })
	reg(kb+"NewGT", func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = Struct{}
		return p
	})
}

var _ = bits.Len
