package main

import "math/big"

// The scalar libraries behind the other build tags: holiman/uint256 (integers modulo 2^256, see
// intr_big.go) and the herumi scalars (field elements).

func init() {
	U := func(name string, f intrinsic) { reg("(*github.com/holiman/uint256.Int)."+name, f) }
	wrap := func(f func(in *Interp, x, y *BigV) *BigV) intrinsic {
		return func(fr *frame, a []Value) Value {
			b, _ := fr.in.bigWrap(fr, f(fr.in, bigAt(fr, a[1]), bigAt(fr, a[2])))
			return put(fr, a[0], b)
		}
	}
	over := func(f func(in *Interp, x, y *BigV) *BigV) intrinsic {
		return func(fr *frame, a []Value) Value {
			b, o := fr.in.bigWrap(fr, f(fr.in, bigAt(fr, a[1]), bigAt(fr, a[2])))
			return Tuple{put(fr, a[0], b), o}
		}
	}
	sub := func(in *Interp, x, y *BigV) *BigV { return in.bigAdd(x, in.bigNeg(y)) }
	U("Add", wrap((*Interp).bigAdd))
	U("AddOverflow", over((*Interp).bigAdd))
	U("Sub", wrap(sub))
	U("SubOverflow", over(sub))
	U("Neg", func(fr *frame, a []Value) Value {
		b, _ := fr.in.bigWrap(fr, fr.in.bigNeg(bigAt(fr, a[1])))
		return put(fr, a[0], b)
	})
	mod := func(f func(in *Interp, x, y *BigV) *BigV) intrinsic {
		return func(fr *frame, a []Value) Value {
			x, m := f(fr.in, bigAt(fr, a[1]), bigAt(fr, a[2])), bigAt(fr, a[3]).conc(fr)
			if m.Sign() == 0 {
				return put(fr, a[0], &BigV{b: new(big.Int)})
			}
			if x.b != nil {
				return put(fr, a[0], &BigV{b: new(big.Int).Mod(x.b, m)})
			}
			if m.Cmp(pBig) != 0 {
				unsupported("symbolic integer modulo another modulus at %s", fr.where())
			}
			return put(fr, a[0], bigOfFE(x.fe))
		}
	}
	U("AddMod", mod((*Interp).bigAdd))
	U("MulMod", mod((*Interp).bigMul))
	U("Mod", func(fr *frame, a []Value) Value {
		return mod(func(in *Interp, x, _ *BigV) *BigV { return x })(fr, []Value{a[0], a[1], a[1], a[2]})
	})
	U("Set", func(fr *frame, a []Value) Value { return put(fr, a[0], bigAt(fr, a[1])) })
	U("Clone", func(fr *frame, a []Value) Value {
		p := new(Value)
		*p = bigAt(fr, a[0])
		return p
	})
	U("Clear", func(fr *frame, a []Value) Value { return put(fr, a[0], &BigV{b: new(big.Int)}) })
	U("SetOne", func(fr *frame, a []Value) Value { return put(fr, a[0], &BigV{b: big.NewInt(1)}) })
	same := func(name, other string) {
		U(name, func(fr *frame, a []Value) Value { return intrinsics["(*math/big.Int)."+other](fr, a) })
	}
	same("SetUint64", "SetUint64")
	same("Cmp", "Cmp")
	same("Bytes", "Bytes")
	same("BitLen", "BitLen")
	same("Uint64", "Uint64")
	same("IsUint64", "IsUint64")
	U("SetBytes", func(fr *frame, a []Value) Value {
		b := a[1].([]Value)
		if len(b) > 32 {
			b = b[len(b)-32:]
		}
		return put(fr, a[0], fr.in.bigOfBytes(fr, b))
	})
	U("SetFromBig", func(fr *frame, a []Value) Value {
		b, o := fr.in.bigWrap(fr, bigAt(fr, a[1]))
		put(fr, a[0], b)
		return o
	})
	U("ToBig", func(fr *frame, a []Value) Value {
		if a[0].(*Value) == nil {
			return (*Value)(nil)
		}
		p := new(Value)
		*p = bigAt(fr, a[0])
		return p
	})
	cmp := func(name string, ok func(c int) bool) {
		U(name, func(fr *frame, a []Value) Value { return ok(fr.in.bigCmp(fr, bigAt(fr, a[0]), bigAt(fr, a[1]))) })
	}
	cmp("Eq", func(c int) bool { return c == 0 })
	cmp("Lt", func(c int) bool { return c < 0 })
	cmp("Gt", func(c int) bool { return c > 0 })
	U("IsZero", func(fr *frame, a []Value) Value {
		return fr.in.bigCmp(fr, bigAt(fr, a[0]), &BigV{b: big0}) == 0
	})
	U("Bytes32", func(fr *frame, a []Value) Value { return Array(fr.in.bytes32(fr, bigAt(fr, a[0]))) })
	U("PaddedBytes", func(fr *frame, a []Value) Value {
		n, ok := a[1].(uint64)
		if !ok || n < 32 {
			unsupported("PaddedBytes at %s", fr.where())
		}
		return append(toCells(make([]byte, n-32)), fr.in.bytes32(fr, bigAt(fr, a[0]))...)
	})
	U("WriteToArray32", func(fr *frame, a []Value) Value {
		copy((*fr.deref(a[1])).(Array), fr.in.bytes32(fr, bigAt(fr, a[0])))
		return nil
	})
	U("WriteToSlice", func(fr *frame, a []Value) Value {
		d, b := a[1].([]Value), fr.in.bytes32(fr, bigAt(fr, a[0]))
		for i, e := len(d)-1, 31; i >= 0 && e >= 0; i, e = i-1, e-1 {
			d[i] = b[e]
		}
		return nil
	})

	const h = "github.com/herumi/bls-eth-go-binary/bls."
	H := func(name string, f intrinsic) { reg("(*"+h+"Fr)."+name, f) }
	F := func(name string, f intrinsic) { reg(h+name, f) }
	reg(h+"Init", func(fr *frame, a []Value) Value { return Iface{} })
	reg("github.com/DyCAPSTeam/DyCAPS/internal/bls.initG1G2", func(fr *frame, a []Value) Value {
		if fr.in.pr.plain {
			return nil // constants of the library's curve representation
		}
		return fallthroughV{}
	})
	reg("(*"+h+"G1).Clear", func(fr *frame, a []Value) Value { setPt(fr, a[0], feZeroV); return nil })
	reg("(*"+h+"G2).Clear", func(fr *frame, a []Value) Value { setPt(fr, a[0], feZeroV); return nil })
	H("SetString", func(fr *frame, a []Value) Value {
		if fe := decOf(a[1]); fe != nil && a[2] == Value(uint64(10)) {
			setFE(fr, a[0], fe)
			return Iface{}
		}
		x, ok := new(big.Int).SetString(strArg(fr, a[1]), int(a[2].(uint64)))
		if !ok || x.CmpAbs(pBig) >= 0 {
			return fr.in.mkErr(fr, "err mclBnFr_setStr -1")
		}
		setFE(fr, a[0], FEBig(x.Mod(x, pBig)))
		return Iface{}
	})
	H("SetLittleEndian", func(fr *frame, a []Value) Value {
		b := revBytes(a[1].([]Value))
		x := fr.in.bigOfBytes(fr, b)
		for _, m := range []uint64{0x7f, 0x3f} { // the library masks a number that is not below the order
			if x.reduced() {
				break
			}
			b = append([]Value(nil), b[len(b)-32:]...)
			b[0] = normT(fr.in.c.Bin(OAnd, fr.in.term(b[0], 8), fr.in.c.Const(8, m)))
			x = fr.in.bigOfBytes(fr, b)
		}
		setFE(fr, a[0], x.asFE(fr))
		return Iface{}
	})
	H("Serialize", func(fr *frame, a []Value) Value { return fr.in.bytesOfFE(feAt(fr, a[0])) })
	H("SetInt64", func(fr *frame, a []Value) Value {
		x, ok := a[1].(uint64)
		if ok {
			b := big.NewInt(int64(x))
			setFE(fr, a[0], FEBig(b.Mod(b, pBig)))
			return nil
		}
		t := a[1].(*Term)
		fe := fr.in.bigOfBytes(fr, fr.in.beBytes(t)).asFE(fr)
		if fr.in.branchT(fr, fr.in.c.Cmp(OSlt, t, fr.in.c.Const(64, 0))) {
			fe = fr.in.f.Sub(fe, FEBig(new(big.Int).Lsh(big.NewInt(1), 64)))
		}
		setFE(fr, a[0], fe)
		return nil
	})
	H("GetString", func(fr *frame, a []Value) Value {
		x := feAt(fr, a[0])
		if k, ok := x.isConst(); ok {
			return feToBig(k).Text(int(a[1].(uint64)))
		}
		return fr.in.decString(fr, x)
	})
	H("Clear", func(fr *frame, a []Value) Value { setFE(fr, a[0], feZeroV); return nil })
	H("IsZero", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEqZero(feAt(fr, a[0]).num)) })
	H("IsOne", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(feAt(fr, a[0]), feOneV)) })
	H("IsEqual", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(feAt(fr, a[0]), feAt(fr, a[1]))) })
	H("SetByCSPRNG", func(fr *frame, a []Value) Value { setFE(fr, a[0], fr.in.freshFE("rnd")); return nil })
	op := func(name string, f func(c *FCtx, x, y *FE) *FE) {
		F(name, func(fr *frame, a []Value) Value {
			setFE(fr, a[0], f(fr.in.f, feAt(fr, a[1]), feAt(fr, a[2])))
			return nil
		})
	}
	op("FrAdd", (*FCtx).Add)
	op("FrSub", (*FCtx).Sub)
	op("FrMul", (*FCtx).Mul)
	inv := func(fr *frame, x *FE) *FE {
		if fr.in.feIsZero(fr, x) {
			return feZeroV
		}
		return fr.in.f.Inv(x)
	}
	F("FrInv", func(fr *frame, a []Value) Value { setFE(fr, a[0], inv(fr, feAt(fr, a[1]))); return nil })
	F("FrDiv", func(fr *frame, a []Value) Value {
		setFE(fr, a[0], fr.in.f.Mul(feAt(fr, a[1]), inv(fr, feAt(fr, a[2]))))
		return nil
	})
	F("FrNeg", func(fr *frame, a []Value) Value { setFE(fr, a[0], fr.in.f.Neg(feAt(fr, a[1]))); return nil })
	F("FrSqr", func(fr *frame, a []Value) Value {
		x := feAt(fr, a[1])
		setFE(fr, a[0], fr.in.f.Mul(x, x))
		return nil
	})
	F("FrEvaluatePolynomial", func(fr *frame, a []Value) Value {
		p, _ := a[1].([]Value)
		x, r := feAt(fr, a[2]), feZeroV
		for i := len(p) - 1; i >= 0; i-- {
			c, ok := p[i].(*FE)
			if !ok {
				unsupported("coefficients at %s", fr.where())
			}
			r = fr.in.f.Add(fr.in.f.Mul(r, x), c)
		}
		setFE(fr, a[0], r)
		return Iface{}
	})
}
