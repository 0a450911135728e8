package main

// Servers (kind "server"): the real serve loops over real sockets.  Threads
// pause at gates around the calls the loop makes on its transport, around
// processing, and around the Interrupt a Stop makes; a schedule opens them one
// by one.  A step of the schedule that does not fit what the code does is
// passed over.

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"thrift"
)

func init() { kinds["server"] = runServer }

type SvOp struct {
	S    string `json:"s"`
	T    string `json:"t"`
	K    int    `json:"k"`
	C    int    `json:"c"`
	N    int    `json:"n"`
	Mode string `json:"mode"`
}
type SvCase struct {
	Kind2 string `json:"skind"`
	Sock  string `json:"sock"`
	Ctor  int    `json:"ctor"`
	Busy  int    `json:"busy"`
	NC    int    `json:"nc"`
	Steps []SvOp `json:"steps"`
}

type svThread struct {
	parked  string
	blocked time.Time // in a call that may wait
	release chan bool
}
type svClient struct {
	conn net.Conn
	sent []string
	seq  int
}
type svWorld struct {
	c       SvCase
	r       *Rec
	mu      sync.Mutex
	cond    *sync.Cond
	open    bool
	held    int
	threads map[string]*svThread
	stopG   map[string]string // goroutine id -> stop thread
	ports   map[string]int
	clients map[int]*svClient
	accOf   map[int]bool
	tclosed map[string]bool
	over    map[int]bool
	running int32
	sure    int // stops begun since the server listens
}

func goid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	return string(bytes.Fields(b)[1])
}

func (w *svWorld) ev(o string, a int, kv ...interface{}) {
	m := M{"o": o, "a": a, "b": 0, "e": OK, "m": "", "x": "", "pc": 0, "ic": 0, "oc": 0}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	w.r.end(m)
}

func (w *svWorld) thread(t string) *svThread {
	if w.threads[t] == nil {
		w.threads[t] = &svThread{release: make(chan bool, 1)}
	}
	return w.threads[t]
}

// mark is a gate: the thread waits there until released, or until all gates
// are open.
func (w *svWorld) mark(t string, c int, at string) {
	w.mu.Lock()
	th := w.thread(t)
	th.blocked = time.Time{}
	th.parked = at
	w.cond.Broadcast()
	for th.parked == at && !(w.open && (c == 0 || w.held != c)) {
		w.cond.Wait()
	}
	th.parked = ""
	w.mu.Unlock()
}

func (w *svWorld) blocking(t string) {
	w.mu.Lock()
	w.thread(t).blocked = time.Now()
	w.mu.Unlock()
}

// step lets a parked thread go on to its next gate (or into a call that waits).
func (w *svWorld) step(t string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	th := w.threads[t]
	if th == nil || th.parked == "" {
		// it may be on its way
		if !w.settle(t) {
			return
		}
		th = w.threads[t]
	}
	th.parked = ""
	th.blocked = time.Time{}
	w.cond.Broadcast()
	w.settle(t)
}

// settle waits until the thread is parked (true) or seems to wait (false).
func (w *svWorld) settle(t string) bool {
	end := time.Now().Add(15 * time.Millisecond)
	for {
		th := w.threads[t]
		if th != nil && th.parked != "" {
			return true
		}
		if time.Now().After(end) || (th != nil && !th.blocked.IsZero() && time.Since(th.blocked) > 700*time.Microsecond) {
			return false
		}
		w.mu.Unlock()
		time.Sleep(30 * time.Microsecond)
		w.mu.Lock()
	}
}

func (w *svWorld) gates(open bool, held int) {
	w.mu.Lock()
	b := 0
	if open {
		b = 1
	}
	w.open, w.held = open, held
	w.cond.Broadcast()
	w.mu.Unlock()
	w.ev("gates", held, "b", b)
}

// ------------------------------------------------------- what the server uses

type svTransport struct {
	w    *svWorld
	real thrift.TServerTransport
	n    int
}

func errRes(err error) int {
	if err != nil {
		return ERR
	}
	return OK
}

func (t *svTransport) Listen() error {
	t.w.ev("lcall", 0)
	atomic.StoreInt32(&t.w.running, 1)
	t.w.mark("srv", 0, "L-")
	err := t.real.Listen()
	t.w.ev("lret", 0, "e", errRes(err))
	t.w.mark("srv", 0, "L+")
	return err
}
func (t *svTransport) Accept() (thrift.TTransport, error) {
	t.w.mark("srv", 0, "A-")
	t.w.blocking("srv")
	x, err := t.real.Accept()
	if err == nil && x != nil {
		if a := t.w.ident(x); a > 0 {
			t.w.mu.Lock()
			t.w.accOf[a] = true
			t.w.mu.Unlock()
			t.w.ev("acc", a)
		}
	}
	t.w.mark("srv", 0, "A+")
	return x, err
}
func (t *svTransport) gated(f func() error) error {
	t.w.mu.Lock()
	k := t.w.stopG[goid()]
	t.w.mu.Unlock()
	if k == "" {
		return f()
	}
	t.w.mark(k, 0, "I-")
	err := f()
	t.w.mark(k, 0, "I+")
	return err
}
func (t *svTransport) Close() error     { return t.gated(t.real.Close) }
func (t *svTransport) Interrupt() error { return t.gated(t.real.Interrupt) }

// ident tells which client a transport belongs to.
func (w *svWorld) ident(t thrift.TTransport) int {
	switch x := t.(type) {
	case *connTrans:
		return x.c
	case *thrift.TSocket:
		c := x.Conn()
		if c == nil {
			return 0
		}
		port := c.RemoteAddr().String()
		for end := time.Now().Add(time.Second); ; {
			w.mu.Lock()
			id := w.ports[port]
			w.mu.Unlock()
			if id != 0 || time.Now().After(end) {
				return id
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	return 0
}

type connTrans struct {
	thrift.TTransport
	w   *svWorld
	c   int
	dir string
}

func (t *connTrans) Close() error {
	if t.c > 0 {
		t.w.ev("tclose", t.c, "x", t.dir)
	}
	t.w.mu.Lock()
	t.w.tclosed[fmt.Sprint(t.c, t.dir)] = true
	t.w.mu.Unlock()
	return t.TTransport.Close()
}

type svTransFactory struct {
	w   *svWorld
	dir string
}

func (f *svTransFactory) GetTransport(t thrift.TTransport) thrift.TTransport {
	return &connTrans{t, f.w, f.w.ident(t), f.dir}
}

type markProto struct {
	thrift.TProtocol
	dir string
}
type svProtoFactory struct{ dir string }

func (f *svProtoFactory) GetProtocol(t thrift.TTransport) thrift.TProtocol {
	return &markProto{thrift.NewTBinaryProtocolTransport(t), f.dir}
}

type svProcFactory struct{ w *svWorld }

func (f *svProcFactory) GetProcessor(t thrift.TTransport) thrift.TProcessor {
	return &svProc{f.w, f.w.ident(t)}
}

type svProc struct {
	w *svWorld
	c int
}

func (w *svWorld) about(p thrift.TProtocol) (int, string) {
	pd := "io"
	if m, ok := p.(*markProto); ok {
		pd = m.dir
	}
	t := p.Transport()
	td := "io"
	if m, ok := t.(*connTrans); ok {
		td = m.dir
	}
	return w.ident(t), pd + "/" + td
}

var errProc = thrift.NewTException("the processor failed")

func (p *svProc) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	w := p.w
	ic, idir := w.about(in)
	oc, odir := w.about(out)
	c := ic
	th := fmt.Sprint("c", c)
	w.mark(th, c, "P-")
	w.blocking(th)
	ok, err := func() (bool, thrift.TException) {
		name, _, seq, err := in.ReadMessageBegin()
		if err == nil {
			if _, err = in.ReadStructBegin(); err == nil {
				if _, typ, _, e := in.ReadFieldBegin(); e != nil {
					err = e
				} else if typ.ThriftTypeId() != thrift.STOP {
					panic("harness: request with fields")
				}
			}
		}
		if err != nil {
			w.mu.Lock()
			w.over[c] = true
			w.mu.Unlock()
			w.ev("pend", c)
			return false, err
		}
		in.ReadStructEnd()
		in.ReadMessageEnd()
		w.ev("proc", c, "b", int(seq), "m", name, "pc", p.c, "ic", ic, "oc", oc, "x", idir+"/"+odir)
		if name == "ok" || name == "dec" || name == "terr" {
			out.WriteMessageBegin(name, thrift.REPLY, seq)
			out.WriteStructBegin("r")
			out.WriteFieldStop()
			out.WriteStructEnd()
			out.WriteMessageEnd()
			out.Transport().Flush()
		}
		b := 1
		if name == "ok" {
			b = 0
		} else {
			w.mu.Lock()
			w.over[c] = true
			w.mu.Unlock()
		}
		w.ev("pret", c, "b", b)
		switch name {
		case "ok":
			return true, nil
		case "dec":
			return false, nil
		case "terr":
			return true, errProc
		}
		return false, errProc
	}()
	w.mark(th, c, "P+")
	return ok, err
}

// ------------------------------------------------------------------- clients

func frame(mode string, typ, seq int) []byte {
	b := []byte{0x80, 1, 0, byte(typ)}
	b = binary.BigEndian.AppendUint32(b, uint32(len(mode)))
	b = append(b, mode...)
	b = binary.BigEndian.AppendUint32(b, uint32(seq))
	return append(b, 0)
}

func (w *svWorld) dial(a int, addr net.Addr) bool {
	w.ev("dcall", a)
	c, err := net.DialTimeout("tcp", addr.String(), 3*time.Second)
	if err == nil {
		w.mu.Lock()
		w.ports[c.LocalAddr().String()] = a
		w.clients[a] = &svClient{conn: c}
		w.mu.Unlock()
	}
	w.ev("dial", a, "e", errRes(err))
	return err == nil
}
func (w *svWorld) cl(a int) *svClient {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.clients[a]
}
func (w *svWorld) send(a int, mode string) {
	k := w.cl(a)
	if k == nil || k.conn == nil {
		return
	}
	k.sent = append(k.sent, mode)
	w.ev("send", a, "m", mode)
	k.conn.SetWriteDeadline(time.Now().Add(3 * time.Second))
	k.conn.Write(frame(mode, 1, len(k.sent)))
}

// next reads one reply.
func (w *svWorld) next(a int, limit time.Duration) error {
	k := w.cl(a)
	if k == nil || k.conn == nil {
		return io.ErrUnexpectedEOF
	}
	for k.seq < len(k.sent) && k.sent[k.seq] == "err" {
		k.seq++
	}
	if k.seq >= len(k.sent) {
		return io.ErrUnexpectedEOF
	}
	want := frame(k.sent[k.seq], 2, k.seq+1)
	got := make([]byte, len(want))
	k.conn.SetReadDeadline(time.Now().Add(limit))
	n, err := io.ReadFull(k.conn, got)
	if err != nil && n == 0 {
		return err
	}
	k.seq++
	bad := OK
	if err != nil || !bytes.Equal(got, want) {
		bad = ERR
	}
	w.ev("rep", a, "b", k.seq, "e", bad)
	return err
}
func (w *svWorld) close(a int) {
	k := w.cl(a)
	if k == nil || k.conn == nil {
		return
	}
	w.ev("cclose", a)
	k.conn.Close()
	k.conn = nil
}

func isEOF(err error) bool {
	var ne net.Error
	return err != nil && !(errors.As(err, &ne) && ne.Timeout())
}

// slowCases counts cases in which something was waited for in vain; after a
// number of them the rest is not run.
var slowCases int

func runServer(raw []byte, r *Rec) M {
	var c SvCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	m := M{}
	json.Unmarshal(raw, &m)
	delete(m, "steps")
	if slowCases >= 5 {
		m["skipped"] = true
		return m
	}
	m["kind"] = c.Kind2
	t0 := time.Now()
	slow := ""
	defer func() {
		d := time.Since(t0)
		m["ms"], m["slow"] = d.Milliseconds(), slow
		if d > 2500*time.Millisecond {
			slowCases++
		}
	}()
	w := &svWorld{c: c, r: r, open: true, threads: map[string]*svThread{}, stopG: map[string]string{}, ports: map[string]int{}, clients: map[int]*svClient{}, accOf: map[int]bool{}, tclosed: map[string]bool{}, over: map[int]bool{}}
	w.cond = sync.NewCond(&w.mu)
	addr := freeAddr()
	if c.Busy == 1 {
		l, err := net.Listen("tcp", addr.String())
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer l.Close()
	}
	st := &svTransport{w: w, real: mkServerSock(c.Sock, addr, 0, 0)}
	pf := &svProcFactory{w}
	var pr thrift.TProcessor = &svProc{w, 0}
	ti, to := &svTransFactory{w, "in"}, &svTransFactory{w, "out"}
	pi, po := &svProtoFactory{"in"}, &svProtoFactory{"out"}
	tb, pb := &svTransFactory{w, "io"}, &svProtoFactory{"io"}
	var sv thrift.TServer
	simple := c.Kind2 == "simple"
	switch c.Ctor {
	case 0:
		if simple {
			sv = thrift.NewTSimpleServerFactory6(pf, st, ti, to, pi, po)
		} else {
			sv = thrift.NewTNonblockingServerFactory6(pf, st, ti, to, pi, po)
		}
	case 1:
		if simple {
			sv = thrift.NewTSimpleServerFactory4(pf, st, tb, pb)
		} else {
			sv = thrift.NewTNonblockingServerFactory4(pf, st, tb, pb)
		}
	case 2:
		if simple {
			sv = thrift.NewTSimpleServerFactory2(pf, st)
		} else {
			sv = thrift.NewTNonblockingServerFactory2(pf, st)
		}
	case 3:
		if simple {
			sv = thrift.NewTSimpleServer6(pr, st, ti, to, pi, po)
		} else {
			sv = thrift.NewTNonblockingServer6(pr, st, ti, to, pi, po)
		}
	case 4:
		if simple {
			sv = thrift.NewTSimpleServer4(pr, st, tb, pb)
		} else {
			sv = thrift.NewTNonblockingServer4(pr, st, tb, pb)
		}
	default:
		if simple {
			sv = thrift.NewTSimpleServer2(pr, st)
		} else {
			sv = thrift.NewTNonblockingServer2(pr, st)
		}
	}
	var served chan bool
	serving := func() bool {
		select {
		case <-served:
			return false
		default:
			return served != nil
		}
	}
	serve := func() {
		if serving() {
			return
		}
		done := make(chan bool)
		served = done
		atomic.StoreInt32(&w.running, 0)
		w.sure = 0
		w.ev("serve", 0)
		go func() {
			defer close(done)
			e := OK
			func() {
				defer func() {
					if x := recover(); x != nil {
						e = PANIC
					}
				}()
				if err := sv.Serve(); err != nil {
					e = ERR
				}
			}()
			w.ev("sret", 0, "e", e)
		}()
		w.mu.Lock()
		w.settle("srv")
		w.mu.Unlock()
	}
	var stops sync.WaitGroup
	nstop := 0
	stop := func() {
		nstop++
		k := nstop
		t := fmt.Sprint("s", k)
		stops.Add(1)
		if atomic.LoadInt32(&w.running) == 1 {
			w.sure++
		}
		w.ev("stopc", k)
		fin := make(chan bool)
		go func() {
			defer stops.Done()
			defer close(fin)
			w.mu.Lock()
			w.stopG[goid()] = t
			w.mu.Unlock()
			e := OK
			func() {
				defer func() {
					if x := recover(); x != nil {
						e = PANIC
					}
				}()
				if err := sv.Stop(); err != nil {
					e = ERR
				}
			}()
			w.ev("stopr", k, "e", e)
		}()
		for end := time.Now().Add(20 * time.Millisecond); time.Now().Before(end); {
			select {
			case <-fin:
				return
			default:
			}
			w.mu.Lock()
			p := w.thread(t).parked != ""
			w.mu.Unlock()
			if p {
				return
			}
			time.Sleep(30 * time.Microsecond)
		}
	}
	var crowd sync.WaitGroup
	var lap int64
	var prev SvOp
	until := func(f func() bool, limit time.Duration) int {
		for end := time.Now().Add(limit); ; {
			if f() {
				return OK
			}
			if time.Now().After(end) {
				return ERR
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	ret := func() {
		limit := 3 * time.Second
		if w.sure == 0 && c.Busy == 0 { // no stop since the server runs
			limit = 50 * time.Millisecond
		}
		w.ev("ret", 0, "e", until(func() bool { return !serving() }, limit))
	}
	port := func() {
		e := OK
		l, err := net.Listen("tcp", addr.String())
		if err != nil {
			e = ERR
		} else {
			l.Close()
		}
		w.ev("port", 0, "e", e)
	}
	wgDone := func(g *sync.WaitGroup, limit time.Duration) int {
		ch := make(chan bool)
		go func() { g.Wait(); close(ch) }()
		select {
		case <-ch:
			return OK
		case <-time.After(limit):
			return ERR
		}
	}
	for _, o := range c.Steps {
		if d := time.Since(t0).Milliseconds() - lap; d > 500 {
			slow += fmt.Sprint(prev, " ", d, "; ")
		}
		lap, prev = time.Since(t0).Milliseconds(), o
		if lap > 12000 { // too much waited for in vain
			break
		}
		switch o.S {
		case "serve":
			serve()
		case "gate":
			w.gates(false, 0)
		case "open":
			w.gates(true, o.C)
		case "go":
			w.step(o.T)
		case "stop":
			stop()
		case "dial":
			w.dial(o.C, addr)
			time.Sleep(200 * time.Microsecond)
		case "send":
			w.send(o.C, o.Mode)
			time.Sleep(200 * time.Microsecond)
		case "part":
			if k := w.cl(o.C); k != nil && k.conn != nil {
				k.conn.Write(frame("ok", 1, 1)[:9])
			}
		case "close":
			w.close(o.C)
			time.Sleep(200 * time.Microsecond)
		case "await":
			var err error
			limit := 3 * time.Second
			for k := w.cl(o.C); k != nil && k.conn != nil && k.seq < o.N && err == nil; {
				err = w.next(o.C, limit)
			}
			if k := w.cl(o.C); k == nil || k.conn == nil {
				err = io.ErrUnexpectedEOF
			}
			w.ev("await", o.C, "b", o.N, "e", errRes(err))
		case "aweof":
			if k := w.cl(o.C); k != nil && k.conn != nil {
				k.conn.SetReadDeadline(time.Now().Add(3 * time.Second))
				_, err := io.Copy(io.Discard, k.conn)
				if err == nil || isEOF(err) {
					w.ev("ceof", o.C)
					w.ev("aweof", o.C)
				} else {
					w.ev("aweof", o.C, "e", ERR)
				}
			}
		case "busy": // a client on its own: n requests, replies, close
			a, n, mode := o.C, o.N, o.Mode
			crowd.Add(1)
			go func() {
				defer crowd.Done()
				if !w.dial(a, addr) {
					return
				}
				for i := 1; i <= n; i++ {
					mm := "ok"
					if i == n && mode != "" {
						mm = mode
					}
					w.send(a, mm)
					if i%2 == 0 || i == n { // in pairs
						for k := w.cl(a); k.seq < len(k.sent); {
							if k.sent[k.seq] == "err" {
								break
							}
							if w.next(a, 4*time.Second) != nil {
								w.close(a)
								return
							}
						}
					}
				}
				w.close(a)
			}()
		case "sleep":
			time.Sleep(time.Duration(o.N) * 10 * time.Microsecond)
		case "join":
			w.ev("join", 0, "e", wgDone(&crowd, 8*time.Second))
		case "ret":
			ret()
		case "port":
			port()
		case "stops":
			w.ev("stops", 0, "e", wgDone(&stops, 3*time.Second))
		case "isst":
			if x, ok := sv.(interface{ IsStopped() bool }); ok {
				b := 0
				if x.IsStopped() {
					b = 1
				}
				w.ev("isst", 0, "b", b)
			}
		default:
			panic("harness: step " + o.S)
		}
	}
	// the end: everything runs freely, clients go, the server stops
	w.gates(true, 0)
	w.ev("join", 0, "e", wgDone(&crowd, 8*time.Second))
	for a := 1; a <= c.NC; a++ {
		w.close(a)
	}
	if serving() && nstop == 0 {
		time.Sleep(300 * time.Microsecond)
		if serving() {
			stop()
		}
	}
	if served != nil && nstop > 0 {
		ret()
		if serving() { // a stop from before the serve call may get lost
			stop()
			ret()
		}
	}
	w.ev("stops", 0, "e", wgDone(&stops, 3*time.Second))
	port()
	// connections that are through get closed
	dirs := map[int]string{0: "in out", 3: "in out", 1: "io", 4: "io"}[c.Ctor]
	until(func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		for a := range w.accOf {
			if !w.over[a] {
				if simple {
					continue
				}
				return false
			}
			for _, d := range strings.Fields(dirs) {
				if !w.tclosed[fmt.Sprint(a, d)] {
					return false
				}
			}
		}
		return true
	}, time.Second)
	return m
}
