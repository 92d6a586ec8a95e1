package main

// github.com/drand/kyber is interpreted from source, apart from its random scalars and the
// fixed-width encoding of symbolic ones; encoding/gob and the files it is used with are modelled.

func init() {
	reg("github.com/drand/kyber/util/random.Int", func(fr *frame, a []Value) Value {
		if m := bigAt(fr, a[0]).conc(fr); m.Cmp(pBig) != 0 {
			unsupported("random integer below another modulus")
		}
		p := new(Value)
		if l, ok := fr.in.nat.ext["coins"].([]Value); ok {
			n := fr.in.nat.ext["coinsUsed"].(int)
			fr.in.nat.ext["coinsUsed"] = n + 1
			x := feZeroV
			if n < len(l) {
				x = l[n].(*FE)
			}
			*p = bigOfFE(x)
			return p
		}
		x := fr.in.freshFE("kyrnd")
		fr.in.p.assume(fr.in.c.Not(fr.in.c.FEqZero(x.num)))
		*p = bigOfFE(x)
		return p
	})
	reg("github.com/drand/kyber/util/random.New", func(fr *frame, a []Value) Value {
		return Iface{t: randReaderT}
	})
	reg("(*github.com/drand/kyber/group/mod.Int).MarshalBinary", func(fr *frame, a []Value) Value {
		s := (*fr.deref(a[0])).(Struct)
		x := s[0].(*BigV)
		if x.b != nil {
			return fallthroughV{}
		}
		return Tuple{fr.in.bytesOfFE(x.fe), Iface{}}
	})
}

// ---- files and gob (only [][]byte values, as SigKeyGenFix stores them) ----

type gobState struct {
	rw   map[*Value]Iface
	file map[string][]Value
}

func (in *Interp) gob() *gobState {
	s, ok := in.nat.ext["gob"].(*gobState)
	if !ok {
		s = &gobState{rw: map[*Value]Iface{}, file: map[string][]Value{}}
		in.nat.ext["gob"] = s
	}
	return s
}
func (in *Interp) callM(fr *frame, x Iface, name string, args ...Value) Value {
	if n := natMethod(in, x.t, name); n != nil {
		return n(fr, append([]Value{x.v}, args...))
	}
	fn := in.pr.prog.LookupMethod(x.t, nil, name)
	if fn == nil {
		unsupported("method %s of %s not found", name, x.t)
	}
	return in.callSSA(fr, fn, append([]Value{x.v}, args...), nil)
}

func init() {
	open := func(fr *frame, a []Value) Value {
		p := new(Value)
		fr.in.gob().rw[p] = a[0].(Iface)
		return p
	}
	reg("encoding/gob.NewEncoder", open)
	reg("encoding/gob.NewDecoder", open)
	num := func(n int) []Value {
		return []Value{uint64(n >> 24 & 255), uint64(n >> 16 & 255), uint64(n >> 8 & 255), uint64(n & 255)}
	}
	isBB := func(t string) bool { return t == "[][]byte" || t == "*[][]byte" }
	reg("(*encoding/gob.Encoder).Encode", func(fr *frame, a []Value) Value {
		x := a[1].(Iface)
		if x.t == nil || !isBB(x.t.String()) {
			unsupported("gob value")
		}
		v := x.v
		if p, ok := v.(*Value); ok {
			v = *fr.deref(p)
		}
		l, _ := v.([]Value)
		out := append([]Value{}, toCells([]byte("GOB1"))...)
		out = append(out, num(len(l))...)
		for _, b := range l {
			bb, _ := b.([]Value)
			out = append(append(out, num(len(bb))...), bb...)
		}
		r := fr.in.callM(fr, fr.in.gob().rw[a[0].(*Value)], "Write", out)
		return r.(Tuple)[1]
	})
	reg("(*encoding/gob.Decoder).Decode", func(fr *frame, a []Value) Value {
		x := a[1].(Iface)
		if x.t == nil || x.t.String() != "*[][]byte" {
			unsupported("gob value")
		}
		rd := fr.in.gob().rw[a[0].(*Value)]
		read := func(n int) ([]Value, bool) {
			b := make([]Value, n)
			for i := range b {
				b[i] = uint64(0)
			}
			if n == 0 {
				return b, true
			}
			r := fr.in.callM(fr, rd, "Read", b).(Tuple)
			return b, r[0] == uint64(n)
		}
		bad := func() Value { return fr.in.mkErr(fr, "gob: bad data") }
		get := func() (int, bool) {
			b, ok := read(4)
			c, ok2 := allConc(b)
			if !ok || !ok2 {
				return 0, false
			}
			return int(c[0])<<24 | int(c[1])<<16 | int(c[2])<<8 | int(c[3]), true
		}
		h, ok := read(4)
		if c, ok2 := allConc(h); !ok || !ok2 || string(c) != "GOB1" {
			return bad()
		}
		n, ok := get()
		if !ok {
			return bad()
		}
		l := make([]Value, 0, n)
		for i := 0; i < n; i++ {
			k, ok := get()
			if !ok {
				return bad()
			}
			b, ok := read(k)
			if !ok {
				return bad()
			}
			l = append(l, b)
		}
		*fr.deref(x.v) = l
		return Iface{}
	})
	read := func(fr *frame, a []Value) Value {
		b, ok := fr.in.gob().file[concStr(a[0])]
		if !ok {
			return Tuple{[]Value(nil), fr.in.mkErr(fr, "no such file")}
		}
		return Tuple{append([]Value{}, b...), Iface{}}
	}
	write := func(fr *frame, a []Value) Value {
		fr.in.gob().file[concStr(a[0])] = append([]Value{}, a[1].([]Value)...)
		return Iface{}
	}
	reg("io/ioutil.ReadFile", read)
	reg("os.ReadFile", read)
	reg("io/ioutil.WriteFile", write)
	reg("os.WriteFile", write)
	reg(vrtP+"Scratch", func(fr *frame, a []Value) Value { return nil })
}
