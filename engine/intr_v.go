package main

// Oracle scalars of the harnesses (package bls, file zz_verif.go).

func init() {
	const b = "github.com/DyCAPSTeam/DyCAPS/internal/bls."
	V := func(n string, f intrinsic) { reg(b+n, f) }
	fe := func(v Value) *FE { return v.(*FE) }
	V("VVar", func(fr *frame, a []Value) Value { return fr.in.freshFE(concStr(a[0])) })
	V("VK", func(fr *frame, a []Value) Value {
		k, ok := a[0].(uint64)
		if !ok {
			return fr.in.feFromBytesBE(fr, fr.in.beBytes(a[0].(*Term)))
		}
		return FEBig(new(bigInt).SetUint64(k))
	})
	V("vFromLE", func(fr *frame, a []Value) Value { return fr.in.feFromBytesBE(fr, revBytes(a[0].([]Value))) })
	V("vIsLE", func(fr *frame, a []Value) Value {
		b := a[0].([]Value)
		w := fr.in.bytesOfFE(fe(a[1]))
		if len(b) != len(w) {
			return false
		}
		w = revBytes(w)
		t := fr.in.c.Bool(true)
		for i := range b {
			t = fr.in.c.And(t, fr.in.c.Eq(fr.in.term(b[i], 8), fr.in.term(w[i], 8)))
		}
		return normT(t)
	})
	V("VDec", func(fr *frame, a []Value) Value {
		x, _ := new(bigInt).SetString(concStr(a[0]), 10)
		return FEBig(x)
	})
	V("VAdd", func(fr *frame, a []Value) Value { return fr.in.f.Add(fe(a[0]), fe(a[1])) })
	V("VSub", func(fr *frame, a []Value) Value { return fr.in.f.Sub(fe(a[0]), fe(a[1])) })
	V("VMul", func(fr *frame, a []Value) Value { return fr.in.f.Mul(fe(a[0]), fe(a[1])) })
	V("VInv", func(fr *frame, a []Value) Value {
		if fr.in.feIsZero(fr, fe(a[0])) {
			unsupported("oracle inverse of zero at %s", fr.where())
		}
		return fr.in.f.Inv(fe(a[0]))
	})
	V("VEq", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(fe(a[0]), fe(a[1]))) })
	V("VZero", func(fr *frame, a []Value) Value { return normT(fr.in.c.FEqZero(fe(a[0]).num)) })
	V("VCoins", func(fr *frame, a []Value) Value {
		l, _ := a[0].([]Value)
		fr.in.nat.ext["coins"] = append(make([]Value, 0), l...)
		fr.in.nat.ext["coinsUsed"] = 0
		return nil
	})
	V("VCoinsUsed", func(fr *frame, a []Value) Value { return uint64(fr.in.nat.ext["coinsUsed"].(int)) })
	V("VObs", func(fr *frame, a []Value) Value {
		fr.in.p.obs = append(fr.in.p.obs, obsRec{concStr(a[0]), a[1]})
		return nil
	})
	V("VOf", func(fr *frame, a []Value) Value {
		if b, ok := (*fr.deref(a[0])).(*BigV); ok {
			if !b.reduced() {
				_, k := fr.in.bigCanon(fr, b)
				fr.in.p.assert(fr.in.c.Bool(k.Sign() == 0), "scalars are reduced", fr)
			}
			return b.asFE(fr)
		}
		if fr.in.pr.plain {
			return feAt(fr, a[0])
		}
		return fr.in.f.MulC(feAt(fr, a[0]), kRinv)
	})
	V("VFr", func(fr *frame, a []Value) Value {
		if fr.in.pr.abs[b+"Fr"] == "big" {
			return bigOfFE(fe(a[0]))
		}
		if fr.in.pr.plain {
			return fe(a[0])
		}
		return fr.in.f.MulC(fe(a[0]), kR)
	})
	pt := func(fr *frame, a []Value) Value { return &Pt{fe(a[0])} }
	V("VG1", pt)
	V("VG2", pt)
	is := func(fr *frame, a []Value) Value { return normT(fr.in.c.FEq(ptAt(fr, a[0]), fe(a[1]))) }
	V("VIsG1", is)
	V("VIsG2", is)
	reg(vrtP+"Thorough", func(fr *frame, a []Value) Value { return fr.in.p.w.ex.tier == "thorough" })
}

func revBytes(b []Value) []Value {
	out := make([]Value, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

// beBytes splits a term into its bytes, most significant first.
func (in *Interp) beBytes(t *Term) []Value {
	var out []Value
	for i := int(t.w)/8 - 1; i >= 0; i-- {
		out = append(out, normT(in.c.Extract(t, uint16(8*i+7), uint16(8*i))))
	}
	return out
}
