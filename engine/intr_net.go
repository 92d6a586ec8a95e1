package main

// A model of the TCP parts of package net that the code uses: reliable, ordered byte streams
// between a listener and a dialler of the same interpreted program.  A read returns whatever has
// arrived (at most the length of the buffer), so the reader sees the fragmentation of the writes.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nstream struct {
	buf    []Value
	closed bool
	sig    *Chan
}
type nconn struct{ in, out *nstream }
type nstate struct {
	lis   map[string]*Chan // port -> pending connections
	lisOf map[*Value]*Chan
	conn  map[*Value]*nconn
	addr  map[*Value]string
}

func (in *Interp) net() *nstate {
	if s, ok := in.nat.ext["net"].(*nstate); ok {
		return s
	}
	s := &nstate{lis: map[string]*Chan{}, lisOf: map[*Value]*Chan{}, conn: map[*Value]*nconn{}, addr: map[*Value]string{}}
	in.nat.ext["net"] = s
	return s
}
func (in *Interp) netNew(typ string) *Value {
	t := in.pr.byPath["net"].Type(typ)
	p := new(Value)
	*p = in.zero(t.Type())
	return p
}
func (in *Interp) globalVal(pkg, name string) Value {
	p := in.pr.byPath[pkg]
	in.pr.ensureBuilt(p)
	return *in.global(p.Members[name].(*ssa.Global))
}

func (in *Interp) newConn(a, b *nstream) *Value {
	p := in.netNew("TCPConn")
	c := &nconn{a, b}
	in.net().conn[p] = c
	// &p.conn is what promoted methods are called on
	if s, ok := (*p).(Struct); ok && len(s) > 0 {
		in.net().conn[&s[0]] = c
	}
	return p
}

func init() {
	port := func(s string) string { return s[strings.LastIndex(s, ":")+1:] }
	reg("net.ResolveTCPAddr", func(fr *frame, a []Value) Value {
		s := strArg(fr, a[1])
		if !strings.Contains(s, ":") {
			return Tuple{(*Value)(nil), fr.in.mkErr(fr, "missing port in address")}
		}
		p := fr.in.netNew("TCPAddr")
		fr.in.net().addr[p] = port(s)
		return Tuple{p, Iface{}}
	})
	reg("net.ListenTCP", func(fr *frame, a []Value) Value {
		p, _ := a[1].(*Value)
		st := fr.in.net()
		if p == nil || st.lis[st.addr[p]] != nil {
			return Tuple{(*Value)(nil), fr.in.mkErr(fr, "address already in use")}
		}
		ch := fr.in.sched.newChan(1 << 20)
		st.lis[st.addr[p]] = ch
		l := fr.in.netNew("TCPListener")
		st.lisOf[l] = ch
		fr.in.version++
		return Tuple{l, Iface{}}
	})
	accept := func(fr *frame, a []Value) Value {
		ch := fr.in.net().lisOf[a[0].(*Value)]
		v, ok := fr.in.sched.recv(fr, ch)
		if !ok {
			return Tuple{(*Value)(nil), fr.in.mkErr(fr, "use of closed network connection")}
		}
		return Tuple{v, Iface{}}
	}
	reg("(*net.TCPListener).AcceptTCP", accept)
	dial := func(fr *frame, prt string) (*Value, Value) {
		ch := fr.in.net().lis[prt]
		if ch == nil {
			return nil, fr.in.mkErr(fr, "connect: connection refused")
		}
		x := &nstream{sig: fr.in.sched.newChan(1 << 20)}
		y := &nstream{sig: fr.in.sched.newChan(1 << 20)}
		fr.in.sched.send(fr, ch, fr.in.newConn(x, y))
		return fr.in.newConn(y, x), Iface{}
	}
	reg("net.DialTCP", func(fr *frame, a []Value) Value {
		p, _ := a[2].(*Value)
		if p == nil {
			return Tuple{(*Value)(nil), fr.in.mkErr(fr, "missing address")}
		}
		c, e := dial(fr, fr.in.net().addr[p])
		return Tuple{c, e}
	})
	conn := func(fr *frame, v Value) *nconn {
		c := fr.in.net().conn[fr.deref(v)]
		if c == nil {
			unsupported("unknown connection at %s", fr.where())
		}
		return c
	}
	read := func(fr *frame, a []Value) Value {
		c := conn(fr, a[0])
		b := a[1].([]Value)
		if len(b) == 0 {
			return Tuple{uint64(0), Iface{}}
		}
		for len(c.in.buf) == 0 {
			if c.in.closed {
				return Tuple{uint64(0), fr.in.globalVal("io", "EOF")}
			}
			fr.in.sched.recv(fr, c.in.sig)
		}
		fr.in.sched.syncAcq(c.in)
		if fr.racing() {
			fr.touchCells(b[:min(len(b), len(c.in.buf))], true)
		}
		n := copy(b, c.in.buf)
		c.in.buf = c.in.buf[n:]
		fr.in.version++
		return Tuple{uint64(n), Iface{}}
	}
	write := func(fr *frame, a []Value) Value {
		c := conn(fr, a[0])
		b := a[1].([]Value)
		if c.out.closed {
			return Tuple{uint64(0), fr.in.mkErr(fr, "write: broken pipe")}
		}
		fr.in.sched.syncRel(c.out)
		if fr.racing() {
			fr.touchCells(b, false)
		}
		c.out.buf = append(c.out.buf[:len(c.out.buf):len(c.out.buf)], b...)
		fr.in.sched.send(fr, c.out.sig, true)
		return Tuple{uint64(len(b)), Iface{}}
	}
	closeC := func(fr *frame, a []Value) Value {
		c := conn(fr, a[0])
		for _, s := range []*nstream{c.in, c.out} {
			if !s.closed {
				s.closed = true
				fr.in.sched.send(fr, s.sig, true)
			}
		}
		return Iface{}
	}
	nilErr := func(fr *frame, a []Value) Value {
		if p, _ := a[0].(*Value); p == nil {
			return fr.in.mkErr(fr, "invalid argument")
		}
		return Iface{}
	}
	for _, t := range []string{"(*net.conn).", "(*net.TCPConn)."} {
		reg(t+"Read", read)
		reg(t+"Write", write)
		reg(t+"Close", closeC)
		for _, n := range []string{"SetKeepAlive", "SetNoDelay", "SetDeadline", "SetReadDeadline", "SetWriteDeadline", "SetLinger", "SetReadBuffer", "SetWriteBuffer", "SetKeepAlivePeriod"} {
			reg(t+n, nilErr)
		}
	}
	reg("(*net.TCPListener).Close", func(fr *frame, a []Value) Value {
		st := fr.in.net()
		ch := st.lisOf[a[0].(*Value)]
		for k, v := range st.lis {
			if v == ch {
				delete(st.lis, k)
			}
		}
		fr.in.sched.close(fr, ch)
		return Iface{}
	})
	reg(vrtP+"Port", func(fr *frame, a []Value) Value {
		n, _ := fr.in.nat.ext["port"].(int)
		fr.in.nat.ext["port"] = n + 1
		return strconv.Itoa(40001 + n)
	})
}

var _ types.Type
