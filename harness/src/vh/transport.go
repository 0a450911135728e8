package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"time"

	"thrift"
)

// TOp is one scripted transport call.
type TOp struct {
	O string `json:"o"`
	V B      `json:"v"`
	K int    `json:"k"`
	N int    `json:"n"`
}

type HReq struct {
	M    string `json:"m"`
	Ct   string `json:"ct"`
	Body B      `json:"body"`
}
type HAns struct {
	St   int `json:"st"`
	Body B   `json:"body"`
	Cut  int `json:"cut"`
	Chnk int `json:"chnk"`
}

// TCase is a scripted history on one transport object.
type TCase struct {
	ID      string   `json:"id"`
	Kind    string   `json:"kind"`
	Mode    string   `json:"mode"`
	Fact    int      `json:"fact"`
	Size    int      `json:"size"`
	Wire    B        `json:"wire"`
	Chunk   []int    `json:"chunk"`
	EOF     int      `json:"eof"`
	EndK    int      `json:"endk"`
	Loop    int      `json:"loop"`
	FailW   int      `json:"failw"`
	FailB   int      `json:"failb"`
	FailF   int      `json:"failf"`
	HasR    int      `json:"hasr"`
	HasW    int      `json:"hasw"`
	Script  [][2]int `json:"script"`
	Exact   int      `json:"exact"`
	Ops     []TOp    `json:"ops"`
	Conn    int      `json:"conn"`
	BadAddr int      `json:"badaddr"`
	Tmo     int      `json:"tmo"`
	Post    int      `json:"post"`
	Answers []HAns   `json:"answers"`
	MaxConn int      `json:"maxconns"`
	// products of factories among several objects (kind "multi")
	Fac   int     `json:"fac"` // objects with the same number share a factory
	GV    string  `json:"gv"`  // the transport the factory is given: "", "other", "same", "closed"
	G     TParams `json:"g"`   // what a given transport of the same type was made with
	F     TParams `json:"f"`   // what the factory was made with
	Inner string  `json:"inner"`
}

// TParams are the parameters of a transport.
type TParams struct {
	Mode string `json:"mode"`
	Size int    `json:"size"`
	Tmo  int    `json:"tmo"`
	Post int    `json:"post"`
}

func init() {
	for _, k := range []string{"framed", "membuf", "iostream", "readall", "sock", "http"} {
		kinds[k] = runTransport
	}
}

func nb(b []byte) B {
	if b == nil {
		return B{}
	}
	return B(b)
}

// endError is the error an exhausted input gives.
func endError(kind int) error {
	switch kind {
	case thrift.END_OF_FILE:
		return io.EOF
	case 0:
		return errInjected
	}
	return thrift.NewTTransportException(kind, "injected "+errInjected.Error())
}

// scriptTrans is a transport whose reads give scripted results.
type scriptTrans struct {
	memTrans
	es [][2]int
	p  int
}

func (m *scriptTrans) Read(buf []byte) (int, error) {
	if len(buf) == 0 {
		return 0, nil
	}
	if len(m.es) == 0 {
		return 0, io.EOF
	}
	h := m.es[0]
	n := h[0]
	var err error
	if n > len(buf) {
		n = len(buf)
		m.es = append([][2]int{{h[0] - n, h[1]}}, m.es[1:]...)
	} else {
		m.es = m.es[1:]
		if h[1] >= 0 {
			err = endError(h[1])
		}
	}
	for i := 0; i < n; i++ {
		buf[i] = byte(m.p)
		m.p++
	}
	return n, err
}
func (m *scriptTrans) ReadAll(buf []byte) (int, error) { return thrift.ReadAllTransport(m, buf) }

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(b []byte) (int, error) { return o.r.Read(b) }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(b []byte) (int, error) { return o.w.Write(b) }

type rwPair struct {
	onlyReader
	onlyWriter
}

// tObj is a transport under observation.
type tObj struct {
	c       *TCase
	t       thrift.TTransport
	under   *memTrans
	spare   *memTrans // nobody has a reason to touch it
	pos     func() int
	extra   func(op *TOp, ev M, f func(ev M) error) (func(ev M) error, func(ev M)) // wraps a call
	cleanup func()
}

func (c *TCase) stream() *memTrans {
	return &memTrans{in: append([]byte{}, c.Wire...), chunk: c.Chunk, eofWith: c.EOF == 1 && c.EndK == thrift.END_OF_FILE, endErr: endError(c.EndK),
		failW: c.FailW, failB: c.FailB, failF: c.FailF, loop: c.Loop == 1}
}

func mkTransport(c *TCase) *tObj {
	under := c.stream()
	x := &tObj{c: c, under: under, pos: func() int { return under.pos }, cleanup: func() {}}
	switch c.Kind {
	case "framed":
		if c.Fact == 1 {
			x.t = thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(under)
		} else {
			x.t = thrift.NewTFramedTransport(under)
		}
	case "membuf":
		switch {
		case c.Fact == 1:
			x.t = thrift.NewTMemoryBufferTransportFactory(c.Size).GetTransport(nil)
		case c.Size > 0:
			x.t = thrift.NewTMemoryBufferLen(c.Size)
		default:
			x.t = thrift.NewTMemoryBuffer()
		}
	case "iostream":
		x.t = mkIOStream(c, under)
	case "readall":
		s := &scriptTrans{es: c.Script}
		x.pos = func() int { return s.p }
		switch c.Mode {
		case "":
			x.t = s
		case "iorw":
			x.t = thrift.NewTIOStreamTransportRW(s)
		case "ior":
			x.t = thrift.NewTIOStreamTransportR(s)
		}
	case "sock":
		x.t, x.extra, x.cleanup = mkSock(c, nil)
	case "http":
		x.t, x.extra, x.cleanup = mkHTTP(c, nil)
	}
	return x
}

// step makes one scripted call.
func (x *tObj) step(o *TOp, ev M, r *Rec) int {
	under := x.under
	ev["o"] = o.O
	outBefore, flBefore := len(under.out), under.flushes
	badBefore := under.failed
	f := transportOp(x.t, under, o, ev)
	var after func(M)
	if x.extra != nil {
		f, after = x.extra(o, ev, f)
	}
	return r.callThen(ev, f, func(ev M, err error) {
		ev["out"] = nb(append([]byte{}, under.out[outBefore:]...))
		ev["fl"] = under.flushes - flBefore
		ev["pos"] = x.pos()
		ev["bad"] = b2i(under.failed != badBefore)
		ev["own"] = b2i(err != nil && strings.Contains(err.Error(), errInjected.Error()))
		if x.spare != nil {
			ev["oth"] = x.spare.pos + len(x.spare.out) + x.spare.flushes
		}
		if _, ok := ev["n"]; !ok {
			ev["n"] = 0
		}
		if after != nil {
			after(ev)
		}
	})
}

func runTransport(raw []byte, r *Rec) M {
	var c TCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	r.keep = true
	defer func() { r.keep = false }()
	x := mkTransport(&c)
	defer x.cleanup()
	for i := range c.Ops {
		if x.step(&c.Ops[i], M{}, r) >= PANIC {
			break
		}
	}
	m := M{}
	json.Unmarshal(raw, &m)
	if c.Wire == nil {
		m["wire"] = B{}
	}
	delete(m, "ops")
	return m
}

func mkIOStream(c *TCase, under *memTrans) thrift.TTransport {
	var rd io.Reader
	var wr io.Writer
	if c.HasR == 1 {
		rd = onlyReader{under}
	}
	if c.HasW == 1 {
		wr = under
		if c.Size == 1 {
			wr = onlyWriter{under}
		}
	}
	switch c.Mode {
	case "r":
		if c.Fact == 1 {
			return thrift.NewTIOStreamTransportFactory(rd, nil, false).GetTransport(nil)
		}
		return thrift.NewTIOStreamTransportR(rd)
	case "w":
		if c.Fact == 1 {
			return thrift.NewTIOStreamTransportFactory(nil, wr, false).GetTransport(nil)
		}
		return thrift.NewTIOStreamTransportW(wr)
	case "randw":
		if c.Fact == 1 {
			return thrift.NewTIOStreamTransportFactory(rd, wr, false).GetTransport(nil)
		}
		return thrift.NewTIOStreamTransportRAndW(rd, wr)
	case "rw":
		var rw io.ReadWriter = under
		if c.Size == 1 {
			rw = rwPair{onlyReader{under}, onlyWriter{under}}
		}
		if c.Fact == 1 {
			return thrift.NewTIOStreamTransportFactory(rw, rw, true).GetTransport(nil)
		}
		return thrift.NewTIOStreamTransportRW(rw)
	case "none":
		if c.Fact == 1 {
			return thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(nil)
		}
		return thrift.NewTIOStreamTransportDefault()
	}
	panic("mode " + c.Mode)
}

type sinkBuf struct{ b []byte }

func (s *sinkBuf) Write(b []byte) (int, error) { s.b = append(s.b, b...); return len(b), nil }

func transportOp(t thrift.TTransport, under *memTrans, o *TOp, ev M) func(ev M) error {
	mb, _ := t.(*thrift.TMemoryBuffer)
	switch o.O {
	case "W":
		ev["v"] = nb(o.V)
		return func(ev M) error {
			b := append([]byte{}, o.V...)
			n, err := t.Write(b)
			ev["n"] = n
			for i := range b { // the caller may reuse its buffer
				b[i] ^= 0x55
			}
			return err
		}
	case "R", "RA":
		ev["k"] = o.K
		ev["v"] = B{}
		return func(ev M) error {
			b := make([]byte, o.K)
			var n int
			var err error
			if o.O == "R" {
				n, err = t.Read(b)
			} else {
				n, err = t.ReadAll(b)
			}
			ev["n"] = n
			if n >= 0 && n <= len(b) {
				ev["v"] = nb(b[:n])
			}
			return err
		}
	case "F":
		return func(ev M) error { return t.Flush() }
	case "Open":
		return func(ev M) error { return t.Open() }
	case "Close":
		return func(ev M) error { return t.Close() }
	case "IsOpen":
		return func(ev M) error { ev["n"] = b2i(t.IsOpen()); return nil }
	case "Peek":
		return func(ev M) error { ev["n"] = b2i(t.Peek()); return nil }
	case "Interrupt":
		return func(ev M) error { return t.(interface{ Interrupt() error }).Interrupt() }
	case "RInt":
		ev["k"] = 1
		return func(ev M) error {
			done := make(chan error, 1)
			go func() {
				defer func() {
					if x := recover(); x != nil {
						done <- nil
					}
				}()
				_, err := t.Read(make([]byte, 8))
				done <- err
			}()
			time.Sleep(30 * time.Millisecond)
			t.(interface{ Interrupt() error }).Interrupt()
			return <-done
		}
	case "SetTO":
		return func(ev M) error {
			return t.(interface{ SetTimeout(int64) error }).SetTimeout(int64(o.N) * int64(time.Millisecond))
		}
	case "Sleep":
		return func(ev M) error { time.Sleep(time.Duration(o.N) * time.Millisecond); return nil }
	case "Nop":
		return func(ev M) error { return nil }
	// memory buffer only
	case "WS":
		ev["v"] = nb(o.V)
		return func(ev M) error { n, err := mb.WriteString(string(o.V)); ev["n"] = n; return err }
	case "RF":
		ev["v"] = nb(o.V)
		return func(ev M) error {
			n, err := mb.ReadFrom(onlyReader{strings.NewReader(string(o.V))})
			ev["n"] = int(n)
			return err
		}
	case "RB":
		return func(ev M) error { b, err := mb.ReadByte(); ev["n"] = int(b); return err }
	case "WT":
		return func(ev M) error {
			s := &sinkBuf{}
			n, err := mb.WriteTo(s)
			ev["n"], ev["v"] = int(n), nb(s.b)
			return err
		}
	case "Len":
		return func(ev M) error { ev["n"] = mb.Len(); return nil }
	case "Bytes":
		return func(ev M) error { ev["v"] = nb(append([]byte{}, mb.Bytes()...)); return nil }
	case "String":
		return func(ev M) error { ev["v"] = nb([]byte(mb.String())); return nil }
	case "Reset":
		return func(ev M) error { mb.Reset(); return nil }
	}
	return func(ev M) error { return nil }
}

// ---------------------------------------------------------------- sockets

type peerConn struct {
	c    net.Conn
	mu   sync.Mutex
	got  []byte
	done bool
}

func (p *peerConn) run() {
	b := make([]byte, 65536)
	for {
		n, err := p.c.Read(b)
		p.mu.Lock()
		p.got = append(p.got, b[:n]...)
		if err != nil {
			p.done = true
			p.mu.Unlock()
			return
		}
		p.mu.Unlock()
	}
}
func (p *peerConn) wait(n int, d time.Duration, eof bool) B {
	end := time.Now().Add(d)
	for {
		p.mu.Lock()
		g, dn := nb(append([]byte{}, p.got...)), p.done
		p.mu.Unlock()
		if (!eof && len(g) >= n) || dn || time.Now().After(end) {
			return g
		}
		time.Sleep(200 * time.Microsecond)
	}
}

type badAddr struct{ n, s string }

func (b badAddr) Network() string { return b.n }
func (b badAddr) String() string  { return b.s }

type sockPeer struct {
	l     net.Listener
	addr  string
	conns chan *peerConn
	all   []*peerConn
	mu    sync.Mutex
}

func (s *sockPeer) listen() error {
	a := s.addr
	if a == "" {
		a = "127.0.0.1:0"
	}
	var l net.Listener
	var err error
	for i := 0; i < 200; i++ {
		if l, err = net.Listen("tcp", a); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		return err
	}
	s.l, s.addr = l, l.Addr().String()
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p := &peerConn{c: c}
			s.mu.Lock()
			s.all = append(s.all, p)
			s.mu.Unlock()
			go p.run()
			s.conns <- p
		}
	}()
	return nil
}

// mkSock makes a socket and its peer; make, if given, makes the socket for an
// address.
func mkSock(c *TCase, make_ func(net.Addr) thrift.TTransport) (thrift.TTransport, func(*TOp, M, func(M) error) (func(M) error, func(M)), func()) {
	s := &sockPeer{conns: make(chan *peerConn, 100)}
	must := func(err error) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	must(s.listen())
	var addr net.Addr
	addr = s.l.Addr()
	switch c.BadAddr {
	case 1:
		addr = nil
	case 2:
		addr = badAddr{"", "127.0.0.1:1"}
	case 3:
		addr = badAddr{"tcp", ""}
	}
	tmo := int64(c.Tmo) * int64(time.Millisecond)
	var t thrift.TTransport
	var cur *peerConn
	next := func() *peerConn {
		select {
		case p := <-s.conns:
			return p
		case <-time.After(3 * time.Second):
			return nil
		}
	}
	var dialed net.Conn
	if c.Conn == 1 {
		var err error
		dialed, err = net.Dial("tcp", s.addr)
		must(err)
		cur = next()
	}
	switch {
	case make_ != nil:
		t = make_(addr)
	case c.Mode == "nb" && c.Conn == 1:
		x, err := thrift.NewTNonblockingSocketConn(dialed)
		_ = err
		x.SetTimeout(tmo)
		t = x
	case c.Mode == "nb" && c.Fact == 1:
		t = thrift.NewTNonblockingSocketTransportFactory(addr).GetTransport(nil)
		t.(*thrift.TNonblockingSocket).SetTimeout(tmo)
	case c.Mode == "nb" && c.Tmo == 0:
		t, _ = thrift.NewTNonblockingSocketAddr(addr)
	case c.Mode == "nb":
		t, _ = thrift.NewTNonblockingSocketAddrTimeout(addr, tmo)
	case c.Conn == 1 && c.Tmo == 0:
		t, _ = thrift.NewTSocketConn(dialed)
	case c.Conn == 1:
		t, _ = thrift.NewTSocketConnTimeout(dialed, tmo)
	case c.Tmo == 0:
		t = thrift.NewTSocketAddr(addr)
	default:
		t = thrift.NewTSocket(addr, tmo)
	}
	written := 0
	extra := func(o *TOp, ev M, f func(M) error) (func(M) error, func(M)) {
		mine := cur
		switch o.O {
		case "PSend":
			ev["v"] = nb(o.V)
			return func(M) error {
				if mine != nil {
					mine.c.Write(o.V)
				}
				return nil
			}, nil
		case "PEof":
			return func(M) error {
				if mine != nil {
					mine.c.(*net.TCPConn).CloseWrite()
				}
				return nil
			}, nil
		case "PClose":
			return func(M) error {
				if mine != nil {
					mine.wait(written, 20*time.Millisecond, false)
					mine.c.Close()
				}
				return nil
			}, nil
		case "LOff":
			return func(M) error {
				if s.l != nil {
					s.l.Close()
					s.l = nil
				}
				return nil
			}, nil
		case "LOn":
			return func(M) error {
				if s.l == nil {
					return s.listen()
				}
				return nil
			}, nil
		case "W":
			return f, func(ev M) {
				if mine != nil {
					written += len(o.V)
					ev["got"] = mine.wait(0, 0, false)
				} else {
					ev["got"] = B{}
				}
			}
		case "F":
			return f, func(ev M) {
				if mine == nil {
					ev["got"] = B{}
				} else if ev["e"] == OK {
					ev["got"] = mine.wait(written, time.Second, false)
				} else {
					ev["got"] = mine.wait(0, 0, false)
				}
			}
		case "Close", "Interrupt", "RInt":
			return f, func(ev M) {
				ev["got"] = B{}
				if mine != nil {
					ev["got"] = mine.wait(0, time.Second, true)
					cur = nil
				}
			}
		case "Open":
			return f, func(ev M) {
				if ev["e"] == OK && cur == nil {
					cur = next()
					written = 0
				}
			}
		}
		return f, nil
	}
	return t, extra, func() {
		t.Close()
		if s.l != nil {
			s.l.Close()
		}
		s.mu.Lock()
		for _, p := range s.all {
			p.c.Close()
		}
		s.mu.Unlock()
	}
}

// ---------------------------------------------------------------- HTTP

func mkHTTP(c *TCase, make_ func(url string) thrift.TTransport) (thrift.TTransport, func(*TOp, M, func(M) error) (func(M) error, func(M)), func()) {
	var mu sync.Mutex
	var reqs []HReq
	seen := 0
	conns := map[net.Conn]bool{}
	h := http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := ioutil.ReadAll(q.Body)
		mu.Lock()
		reqs = append(reqs, HReq{q.Method, q.Header.Get("Content-Type"), nb(b)})
		a := c.Answers[0]
		if q.Method != "GET" { // a GET gets the first answer
			a = c.Answers[seen%len(c.Answers)]
			seen++
		}
		mu.Unlock()
		if a.St == 0 {
			hj, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				mu.Lock()
				delete(conns, hj)
				mu.Unlock()
				hj.Close()
			}
			return
		}
		if a.Cut == 1 {
			hj, bw, err := w.(http.Hijacker).Hijack()
			if err == nil {
				fmt.Fprintf(bw, "HTTP/1.1 %d X\r\nContent-Length: %d\r\nContent-Type: application/x-thrift\r\n\r\n", a.St, len(a.Body)+7)
				bw.Write(a.Body)
				bw.Flush()
				mu.Lock()
				delete(conns, hj)
				mu.Unlock()
				hj.Close()
			}
			return
		}
		w.Header().Set("Content-Type", "application/x-thrift")
		w.WriteHeader(a.St)
		if a.Chnk == 1 {
			w.(http.Flusher).Flush()
			for i := 0; i < len(a.Body); i += 3 {
				e := i + 3
				if e > len(a.Body) {
					e = len(a.Body)
				}
				w.Write(a.Body[i:e])
				w.(http.Flusher).Flush()
			}
		} else {
			w.Write(a.Body)
		}
	})
	srv := httptest.NewUnstartedServer(h)
	srv.Config.ConnState = func(n net.Conn, st http.ConnState) {
		mu.Lock()
		if st == http.StateNew || st == http.StateActive {
			conns[n] = true
		} else if st == http.StateClosed || st == http.StateHijacked {
			delete(conns, n)
		}
		mu.Unlock()
	}
	srv.Config.ErrorLog = thrift.LOGGER
	srv.Start()
	var t thrift.TTransport
	var err error
	switch {
	case make_ != nil:
		t = make_(srv.URL + "/svc")
	case c.Post == 1 && c.Fact == 1:
		t = thrift.NewTHttpPostClientTransportFactory(srv.URL + "/svc").GetTransport(nil)
	case c.Post == 1:
		t, err = thrift.NewTHttpPostClient(srv.URL + "/svc")
	case c.Fact == 1:
		t = thrift.NewTHttpClientTransportFactory(srv.URL + "/svc").GetTransport(nil)
	default:
		t, err = thrift.NewTHttpClient(srv.URL + "/svc")
	}
	if err != nil || t == nil {
		panic(fmt.Sprint("harness: ", err))
	}
	at := 0
	if c.Post == 0 || make_ != nil {
		mu.Lock()
		at = len(reqs)
		mu.Unlock()
	}
	extra := func(o *TOp, ev M, f func(M) error) (func(M) error, func(M)) {
		fin := func(ev M) {
			mu.Lock()
			rs := append([]HReq{}, reqs[at:]...)
			at = len(reqs)
			mu.Unlock()
			ev["reqs"] = rs
		}
		if o.O == "Conns" {
			return func(ev M) error {
				n := 0
				for i := 0; i < 50; i++ { // closing takes a moment
					mu.Lock()
					n = len(conns)
					mu.Unlock()
					if n <= c.MaxConn {
						break
					}
					time.Sleep(10 * time.Millisecond)
				}
				ev["n"] = n
				return nil
			}, fin
		}
		return f, fin
	}
	return t, extra, func() {
		t.Close()
		http.DefaultClient.CloseIdleConnections()
		srv.CloseClientConnections()
		srv.Close()
	}
}

var _ = errors.New
