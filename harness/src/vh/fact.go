package main

// Products of factories: several objects side by side (kind "multi"), and
// servers with the factories they were built with (kind "wire").

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"thrift"
)

func init() {
	kinds["multi"] = runMulti
	kinds["wire"] = runWire
}

// cObj is a protocol under observation.
type cObj struct {
	c    *CodecCase
	m    *memTrans
	p    thrift.TProtocol
	x    *reader
	dead bool
}

type multiCase struct {
	Objs []json.RawMessage `json:"objs"`
	Ops  []json.RawMessage `json:"ops"`
}

type facs map[string]interface{}

func (f facs) get(key string, mk func() interface{}) (interface{}, bool) {
	if x, ok := f[key]; ok {
		return x, false
	}
	f[key] = mk()
	return f[key], true
}

func (f facs) protocol(c *CodecCase, fac int, m *memTrans) thrift.TProtocol {
	x, _ := f.get(fmt.Sprint("p", fac), func() interface{} {
		switch c.Proto {
		case "bin":
			return thrift.NewTBinaryProtocolFactory(c.SR == 1, c.SW == 1)
		case "com":
			return thrift.NewTCompactProtocolFactory()
		case "json":
			return thrift.NewTJSONProtocolFactory()
		}
		return thrift.NewTSimpleJSONProtocolFactory()
	})
	return x.(thrift.TProtocolFactory).GetProtocol(m)
}

// parts are the streams a stream transport is made of.
func parts(mode string, m *memTrans) (io.Reader, io.Writer, bool) {
	switch mode {
	case "r":
		return onlyReader{m}, nil, false
	case "w":
		return nil, m, false
	case "randw":
		return onlyReader{m}, m, false
	case "rw":
		return m, m, true
	}
	return nil, nil, false
}

func other() thrift.TTransport { return &memTrans{in: []byte{9, 9, 9, 9, 9, 9}} }

// transport makes an object by its factory.
func (f facs) transport(c *TCase) *tObj {
	must := func(e error) {
		if e != nil {
			panic("harness: " + e.Error())
		}
	}
	x := &tObj{c: c, under: c.stream(), cleanup: func() {}}
	x.pos = func() int { return x.under.pos }
	same := c.GV == "same" || c.GV == "closed"
	key := fmt.Sprint("t", c.Fac)
	given := func(mk func() thrift.TTransport) thrift.TTransport {
		switch c.GV {
		case "same":
			return mk()
		case "closed":
			t := mk()
			must(t.Close())
			return t
		case "other":
			return other()
		}
		return nil
	}
	switch c.Kind {
	case "framed":
		// its factory wraps what an inner one makes of the given transport
		fa, _ := f.get(key, func() interface{} {
			inner := thrift.NewTTransportFactory()
			if c.Inner == "io" {
				inner = thrift.NewTIOStreamTransportFactory(nil, nil, false)
			}
			return thrift.NewTFramedTransportFactory(inner)
		})
		var base thrift.TTransport = x.under
		if c.Inner == "io" {
			base = thrift.NewTIOStreamTransportRW(x.under)
		}
		x.t = fa.(thrift.TTransportFactory).GetTransport(base)
	case "membuf":
		fa, _ := f.get(key, func() interface{} { return thrift.NewTMemoryBufferTransportFactory(c.F.Size) })
		x.t = fa.(thrift.TTransportFactory).GetTransport(given(func() thrift.TTransport {
			b := thrift.NewTMemoryBufferLen(c.G.Size)
			b.Write([]byte{1, 2, 3})
			return b
		}))
	case "iostream":
		fa, fresh := f.get(key, func() interface{} {
			m := x.under
			if same {
				m = c.stream()
				m.in = []byte{200, 201, 202}
				x.spare = m
			}
			rd, wr, both := parts(c.F.Mode, m)
			return thrift.NewTIOStreamTransportFactory(rd, wr, both)
		})
		if !fresh && !same {
			panic("harness: a factory's streams cannot be shared")
		}
		x.t = fa.(thrift.TTransportFactory).GetTransport(given(func() thrift.TTransport {
			rd, wr, both := parts(c.G.Mode, x.under)
			switch {
			case both:
				return thrift.NewTIOStreamTransportRW(rd.(io.ReadWriter))
			case rd != nil && wr != nil:
				return thrift.NewTIOStreamTransportRAndW(rd, wr)
			case rd != nil:
				return thrift.NewTIOStreamTransportR(rd)
			case wr != nil:
				return thrift.NewTIOStreamTransportW(wr)
			}
			return thrift.NewTIOStreamTransportDefault()
		}))
	case "sock":
		x.t, x.extra, x.cleanup = mkSock(c, func(addr net.Addr) thrift.TTransport {
			fa, fresh := f.get(key, func() interface{} {
				a := addr
				if same {
					a = freeAddr() // nobody listens
				}
				return thrift.NewTNonblockingSocketTransportFactory(a)
			})
			if !fresh && !same {
				panic("harness: a factory's address cannot be shared")
			}
			t := fa.(thrift.TTransportFactory).GetTransport(given(func() thrift.TTransport {
				t, e := thrift.NewTNonblockingSocketAddrTimeout(addr, int64(c.G.Tmo)*int64(time.Millisecond))
				if e != nil {
					must(e)
				}
				return t
			}))
			if !same && c.F.Tmo > 0 {
				t.(*thrift.TNonblockingSocket).SetTimeout(int64(c.F.Tmo) * int64(time.Millisecond))
			}
			return t
		})
	case "http":
		x.t, x.extra, x.cleanup = mkHTTP(c, func(url string) thrift.TTransport {
			mk := func(post int, u string) (thrift.TTransport, error) {
				if post == 1 {
					return thrift.NewTHttpPostClient(u)
				}
				return thrift.NewTHttpClient(u)
			}
			fa, fresh := f.get(key, func() interface{} {
				u := url
				if same {
					u = "http://" + freeAddr().String() + "/"
				}
				if c.F.Post == 1 {
					return thrift.NewTHttpPostClientTransportFactory(u)
				}
				return thrift.NewTHttpClientTransportFactory(u)
			})
			if !fresh && !same {
				panic("harness: a factory's address cannot be shared")
			}
			return fa.(thrift.TTransportFactory).GetTransport(given(func() thrift.TTransport {
				t, e := mk(c.G.Post, url)
				must(e)
				return t
			}))
		})
	default:
		panic("unknown transport " + c.Kind)
	}
	return x
}

func runMulti(raw []byte, r *Rec) M {
	var c multiCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	f := facs{}
	ts, cs := map[int]*tObj{}, map[int]*cObj{}
	must := func(e error) {
		if e != nil {
			panic(e)
		}
	}
	defer func() {
		for _, x := range ts {
			x.cleanup()
		}
	}()
	out := M{}
	must(json.Unmarshal(raw, &out))
	outs := out["objs"].([]interface{})
	r.keep = true
	defer func() { r.keep = false }()
	mk := func(i int) {
		var h struct {
			Kind string `json:"kind"`
			Fac  int    `json:"fac"`
		}
		must(json.Unmarshal(c.Objs[i], &h))
		r.callThen(M{"o": "Make", "ob": i + 1}, func(M) error {
			if h.Kind == "w" || h.Kind == "r" {
				cc := &CodecCase{}
				must(json.Unmarshal(c.Objs[i], cc))
				m := cc.trans()
				o := &cObj{c: cc, m: m, p: f.protocol(cc, h.Fac, m)}
				o.x = &reader{p: o.p, r: r, skips: map[int]bool{}, budget: 8000}
				cs[i] = o
			} else {
				tc := &TCase{}
				must(json.Unmarshal(c.Objs[i], tc))
				ts[i] = f.transport(tc)
			}
			return nil
		}, nil)
	}
	for _, ro := range c.Ops {
		var h struct {
			O  string `json:"o"`
			Ob int    `json:"ob"`
		}
		must(json.Unmarshal(ro, &h))
		i := h.Ob - 1
		if h.O == "Make" {
			mk(i)
			continue
		}
		if x := ts[i]; x != nil {
			var o TOp
			must(json.Unmarshal(ro, &o))
			if x.step(&o, M{"ob": h.Ob}, r) >= PANIC {
				break
			}
		} else if x := cs[i]; x != nil && !x.dead {
			var o Op
			must(json.Unmarshal(ro, &o))
			if x.c.Kind == "w" {
				ev := o.event()
				ev["ob"] = h.Ob
				if r.callThen(ev, func(M) error { return doWrite(x.p, &o) }, func(ev M, err error) {
					if o.O == "Flush" {
						ev["n"] = len(x.m.out)
					}
				}) != OK {
					x.dead = true
				}
			} else {
				n := len(r.ops)
				r.keep = false
				x.dead = !x.x.op(&o)
				r.keep = true
				for ; n < len(r.ops); n++ {
					r.ops[n]["ob"] = h.Ob
				}
			}
		}
	}
	for i, x := range cs {
		m := outs[i].(map[string]interface{})
		if x.c.Kind == "w" {
			m["wire"], m["rem"] = nb(x.m.out), -1
		} else {
			m["rem"] = len(x.m.in) - x.m.pos
			if x.dead || x.c.Proto == "json" || x.c.Proto == "sjson" {
				m["rem"] = -1
			}
		}
	}
	return M{"kind": "multi", "objs": outs}
}

// ------------------------------------------------------------------- servers

type wireCase struct {
	Server string   `json:"server"`
	Ctor   int      `json:"ctor"`
	Fn     int      `json:"fn"` // requests of every client
	N      int      `json:"n"`  // clients
	Protos []string `json:"protos"`
	Framed []int    `json:"framed"`
	Name   B        `json:"name"`
}

// tagT and tagP remember the factory they come from and what it was given.
type tagT struct {
	thrift.TTransport
	tag []string
}
type tagP struct {
	thrift.TProtocol
	tag []string
}

func tagOf(x interface{}) []string {
	switch t := x.(type) {
	case *tagT:
		return t.tag
	case *tagP:
		return t.tag
	case *wireConn:
		return []string{t.name}
	case nil:
		return []string{"nil"}
	}
	return []string{"other"}
}

type wireWorld struct {
	mu    sync.Mutex
	calls map[string][]M // by client
	left  int
	done  chan bool
}

func (w *wireWorld) note(tag []string, m M) {
	w.mu.Lock()
	k := tag[len(tag)-1]
	w.calls[k] = append(w.calls[k], m)
	w.mu.Unlock()
}

type wireTF struct {
	w      *wireWorld
	name   string
	framed bool
}

func (f *wireTF) GetTransport(t thrift.TTransport) thrift.TTransport {
	tag := tagOf(t)
	f.w.note(tag, M{"f": f.name, "a": tag})
	if f.framed {
		t = thrift.NewTFramedTransport(t)
	}
	return &tagT{t, append([]string{f.name}, tag...)}
}

type wirePF struct {
	w    *wireWorld
	name string
	pf   thrift.TProtocolFactory
}

func (f *wirePF) GetProtocol(t thrift.TTransport) thrift.TProtocol {
	tag := tagOf(t)
	f.w.note(tag, M{"f": f.name, "a": tag})
	return &tagP{f.pf.GetProtocol(t), append([]string{f.name}, tag...)}
}

type wireProcF struct {
	w *wireWorld
	p *wireProc
}

func (f *wireProcF) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	tag := tagOf(t)
	f.w.note(tag, M{"f": "pf", "a": tag})
	return f.p
}

type wireProc struct{ w *wireWorld }

func (p *wireProc) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	it, ot := tagOf(in), tagOf(out)
	if it[0] == "other" { // of a default factory: its transport tells
		it, ot = append([]string{"def"}, tagOf(in.Transport())...), append([]string{"def"}, tagOf(out.Transport())...)
	}
	name, _, seq, err := in.ReadMessageBegin()
	if err == nil {
		in.ReadStructBegin()
		if _, t, _, e := in.ReadFieldBegin(); e != nil || t.ThriftTypeId() != thrift.STOP {
			err = thrift.NewTProtocolException(0, "harness: bad request")
		}
		in.ReadStructEnd()
		in.ReadMessageEnd()
	}
	if err != nil {
		return false, err
	}
	p.w.note(it, M{"f": "proc", "a": it, "b": ot, "name": B(name), "seq": int(seq)})
	out.WriteMessageBegin(name, thrift.REPLY, seq)
	out.WriteStructBegin("r")
	out.WriteFieldStop()
	out.WriteStructEnd()
	out.WriteMessageEnd()
	out.Flush()
	return true, nil
}

// wireConn is a client's connection.
type wireConn struct {
	*memTrans
	name string
	w    *wireWorld
	mu   sync.Mutex
	shut bool
}

func (c *wireConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.shut {
		c.shut = true
		c.w.mu.Lock()
		if c.w.left--; c.w.left == 0 {
			close(c.w.done)
		}
		c.w.mu.Unlock()
	}
	return nil
}

type wireST struct {
	conns []*wireConn
	quit  chan bool
	once  sync.Once
	i     int
}

func (s *wireST) Listen() error { return nil }
func (s *wireST) Accept() (thrift.TTransport, error) {
	if s.i < len(s.conns) {
		s.i++
		return s.conns[s.i-1], nil
	}
	<-s.quit
	return nil, errors.New("closed")
}
func (s *wireST) stop() error      { s.once.Do(func() { close(s.quit) }); return nil }
func (s *wireST) Close() error     { return s.stop() }
func (s *wireST) Interrupt() error { return s.stop() }

func wireProto(name string) thrift.TProtocolFactory {
	switch name {
	case "bin":
		return thrift.NewTBinaryProtocolFactory(true, true)
	case "bin0":
		return thrift.NewTBinaryProtocolFactory(false, false)
	case "com":
		return thrift.NewTCompactProtocolFactory()
	case "json":
		return thrift.NewTJSONProtocolFactory()
	}
	return thrift.NewTSimpleJSONProtocolFactory()
}

// binOf says what kind of binary protocol a factory makes.
func binOf(f thrift.TProtocolFactory) string {
	b := thrift.NewTMemoryBuffer()
	p := f.GetProtocol(b)
	p.WriteMessageBegin("x", thrift.CALL, 1)
	p.Flush()
	sw := -1
	if bytes.Equal(b.Bytes(), []byte{0x80, 1, 0, 1, 0, 0, 0, 1, 'x', 0, 0, 0, 1}) {
		sw = 1
	} else if bytes.Equal(b.Bytes(), []byte{0, 0, 0, 1, 'x', 1, 0, 0, 0, 1}) {
		sw = 0
	}
	_, _, _, err := f.GetProtocol(&memTrans{in: []byte{0, 0, 0, 1, 'x', 1, 0, 0, 0, 1}}).ReadMessageBegin()
	return fmt.Sprintf("bin%d%d", b2i(err != nil), sw)
}

func runWire(raw []byte, r *Rec) M {
	var c wireCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	w := &wireWorld{calls: map[string][]M{}, left: c.N, done: make(chan bool)}
	pr := &wireProc{w}
	pf := &wireProcF{w, pr}
	tf := func(name string, i int) *wireTF { return &wireTF{w, name, c.Framed[i] == 1} }
	pp := func(name string, i int) *wirePF { return &wirePF{w, name, wireProto(c.Protos[i])} }
	ti, to, tb := tf("ti", 0), tf("to", 1), tf("tb", 0)
	pi, po, pb := pp("pi", 0), pp("po", 1), pp("pb", 0)
	rp, wp, rf, wf := wireProto(c.Protos[0]), wireProto(c.Protos[1]), c.Framed[0], c.Framed[1]
	switch c.Ctor {
	case 1, 4:
		wp, wf = rp, rf
	case 2, 5:
		rp, wp, rf, wf = wireProto("bin0"), wireProto("bin"), 0, 0
	}
	st := &wireST{quit: make(chan bool)}
	for k := 0; k < c.N; k++ {
		m := &memTrans{}
		var t thrift.TTransport = m
		if rf == 1 {
			t = thrift.NewTFramedTransport(m)
		}
		p := rp.GetProtocol(t)
		for q := 0; q < c.Fn; q++ {
			p.WriteMessageBegin(string(c.Name), thrift.CALL, int32(100*k+q))
			p.WriteStructBegin("a")
			p.WriteFieldStop()
			p.WriteStructEnd()
			p.WriteMessageEnd()
			p.Flush()
		}
		st.conns = append(st.conns, &wireConn{memTrans: &memTrans{in: m.out}, name: fmt.Sprint("c", k+1), w: w})
	}
	var sv thrift.TServer
	s := c.Server == "simple"
	r.call(M{"o": "New"}, func(ev M) error {
		switch c.Ctor {
		case 0:
			if sv = thrift.NewTNonblockingServerFactory6(pf, st, ti, to, pi, po); s {
				sv = thrift.NewTSimpleServerFactory6(pf, st, ti, to, pi, po)
			}
		case 1:
			if sv = thrift.NewTNonblockingServerFactory4(pf, st, tb, pb); s {
				sv = thrift.NewTSimpleServerFactory4(pf, st, tb, pb)
			}
		case 2:
			if sv = thrift.NewTNonblockingServerFactory2(pf, st); s {
				sv = thrift.NewTSimpleServerFactory2(pf, st)
			}
		case 3:
			if sv = thrift.NewTNonblockingServer6(pr, st, ti, to, pi, po); s {
				sv = thrift.NewTSimpleServer6(pr, st, ti, to, pi, po)
			}
		case 4:
			if sv = thrift.NewTNonblockingServer4(pr, st, tb, pb); s {
				sv = thrift.NewTSimpleServer4(pr, st, tb, pb)
			}
		default:
			if sv = thrift.NewTNonblockingServer2(pr, st); s {
				sv = thrift.NewTSimpleServer2(pr, st)
			}
		}
		nameT := func(x thrift.TTransportFactory) string {
			switch t := x.(type) {
			case *wireTF:
				return t.name
			case nil:
				return "nil"
			}
			o := other()
			if x.GetTransport(o) == o && x.GetTransport(nil) == nil {
				return "id"
			}
			return "other"
		}
		nameP := func(x thrift.TProtocolFactory) string {
			switch t := x.(type) {
			case *wirePF:
				return t.name
			case nil:
				return "nil"
			}
			return binOf(x)
		}
		name := "other"
		if x := sv.ProcessorFactory(); x == thrift.TProcessorFactory(pf) {
			name = "pf"
		} else if x != nil && x.GetProcessor(nil) == thrift.TProcessor(pr) && x.GetProcessor(other()) == thrift.TProcessor(pr) {
			name = "pr"
		}
		ev["pf"], ev["st"] = name, b2i(sv.ServerTransport() == thrift.TServerTransport(st))
		ev["ti"], ev["to"] = nameT(sv.InputTransportFactory()), nameT(sv.OutputTransportFactory())
		ev["pi"], ev["po"] = nameP(sv.InputProtocolFactory()), nameP(sv.OutputProtocolFactory())
		return nil
	})
	if sv == nil {
		return M{"kind": "wire", "ctor": c.Ctor, "fn": c.Fn, "n": c.N, "name": c.Name}
	}
	served := make(chan bool)
	go func() { defer close(served); sv.Serve() }()
	if c.N > 0 {
		select {
		case <-w.done:
		case <-time.After(5 * time.Second):
		}
	}
	sv.Stop()
	st.stop()
	select {
	case <-served:
	case <-time.After(3 * time.Second):
	}
	for k, x := range st.conns {
		w.mu.Lock()
		calls := append([]M{}, w.calls[x.name]...)
		w.mu.Unlock()
		ev := M{"o": "Client", "c": x.name, "k": k, "calls": calls}
		r.call(ev, func(ev M) error {
			// what the client makes of the answers
			m := &memTrans{in: append([]byte{}, x.out...)}
			var t thrift.TTransport = m
			if wf == 1 {
				t = thrift.NewTFramedTransport(m)
			}
			p := wp.GetProtocol(t)
			rs := []M{}
			for q := 0; q < c.Fn; q++ {
				n, typ, seq, err := p.ReadMessageBegin()
				if err != nil {
					rs = append(rs, M{"name": B{}, "t": -1, "seq": -1})
					break
				}
				p.ReadStructBegin()
				p.ReadFieldBegin()
				p.ReadStructEnd()
				p.ReadMessageEnd()
				rs = append(rs, M{"name": B(n), "t": int(typ), "seq": int(seq)})
			}
			ev["rs"], ev["rest"] = rs, len(m.in)-m.pos
			return nil
		})
	}
	return M{"kind": "wire", "ctor": c.Ctor, "fn": c.Fn, "n": c.N, "name": c.Name}
}
