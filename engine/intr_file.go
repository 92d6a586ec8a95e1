package main

// A model of files that are opened, appended to and closed (the contents live beside those of
// os.ReadFile and os.WriteFile).

type fhandle struct{ name string }

func (in *Interp) files() map[*Value]*fhandle {
	if s, ok := in.nat.ext["files"].(map[*Value]*fhandle); ok {
		return s
	}
	s := map[*Value]*fhandle{}
	in.nat.ext["files"] = s
	return s
}

// fileWrite appends to an open file; the standard streams are discarded.
func (fr *frame) fileWrite(v Value, b []Value) Value {
	p, _ := v.(*Value)
	if p == nil {
		return Tuple{uint64(0), fr.in.mkErr(fr, "invalid argument")}
	}
	if h := fr.in.files()[p]; h != nil {
		f := fr.in.gob().file
		f[h.name] = append(f[h.name][:len(f[h.name]):len(f[h.name])], b...)
		fr.in.version++
	}
	return Tuple{uint64(len(b)), Iface{}}
}

func init() {
	open := func(fr *frame, name string, flags uint64) Value {
		f := fr.in.gob().file
		_, ok := f[name]
		if !ok && flags&0x40 == 0 { // O_CREATE
			return Tuple{(*Value)(nil), fr.in.mkErr(fr, "no such file or directory")}
		}
		if !ok || flags&0x200 != 0 { // O_TRUNC
			f[name] = nil
		}
		t := fr.in.pr.byPath["os"].Type("File")
		p := new(Value)
		*p = fr.in.zero(t.Type())
		fr.in.files()[p] = &fhandle{name}
		fr.in.version++
		return Tuple{p, Iface{}}
	}
	reg("os.OpenFile", func(fr *frame, a []Value) Value {
		return open(fr, concStr(a[0]), uint64(fr.intArg(a[1], basicInt64)))
	})
	reg("os.Create", func(fr *frame, a []Value) Value { return open(fr, concStr(a[0]), 0x240) })
	nop := func(fr *frame, a []Value) Value {
		if p, _ := a[0].(*Value); p == nil {
			return fr.in.mkErr(fr, "invalid argument")
		}
		return Iface{}
	}
	reg("(*os.File).Close", nop)
	reg("(*os.File).Sync", nop)
	reg("(*os.File).Write", func(fr *frame, a []Value) Value { return fr.fileWrite(a[0], a[1].([]Value)) })
	reg("(*os.File).WriteString", func(fr *frame, a []Value) Value {
		return fr.fileWrite(a[0], strCells(concStr(a[1])))
	})
	reg("os.MkdirAll", func(fr *frame, a []Value) Value { return Iface{} })
	reg("os.Mkdir", func(fr *frame, a []Value) Value { return Iface{} })
}
