package main

// Remote calls (kind "rpc"): clients and processors - the generated ones of
// the golden service, or ones that work the same way for any method - over
// every protocol, transport wrapper and server.

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"simple"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"thrift"
)

func init() { kinds["rpc"] = runRPC }

type rpcCall struct {
	CL   int      `json:"cl"`
	Kind string   `json:"kind"`
	Name B        `json:"name"`
	S    B        `json:"s"`
	K    B        `json:"k"`
	V    B        `json:"v"`
	AOps []Op     `json:"aops"` // the arguments, as written by the general client
	ARd  []Op     `json:"ard"`  // and as read by the general processor
	ROps []Op     `json:"rops"` // the result, as written by the general processor
	RRd  []Op     `json:"rrd"`  // and as read by the general client
	GA   []string `json:"ga"`   // arguments and results of the golden service: "id=value", or "nil"
	GR   []string `json:"gr"`
	A    []string `json:"a"`
	R    []string `json:"r"`
}
type rpcStep struct {
	S string `json:"s"`
	C int    `json:"c"`
}
type rpcCase struct {
	CodecCase
	Srv   string    `json:"srv"`
	Sock  string    `json:"sock"`
	CWrap string    `json:"cwrap"`
	NC    int       `json:"nc"`
	Seq0  []B       `json:"seq0"`
	GC    int       `json:"gc"` // golden client
	GP    int       `json:"gp"` // golden processor
	Calls []rpcCall `json:"calls"`
	Sched []rpcStep `json:"sched"`
	Mode  string    `json:"mode"` // "sched" | "free" (every client on its own) | "seq" (one call after the other)
}

type rpcWorld struct {
	c      *rpcCase
	r      *Rec
	mu     sync.Mutex
	cond   *sync.Cond
	gate   map[int]bool // calls allowed to finish
	parked map[int]bool
	over   map[int]bool
	nilseq []int
	open   bool
}

func (w *rpcWorld) ev(o string, n int, kv ...interface{}) {
	m := M{"o": o, "n": n, "e": OK, "h": 0, "ex": 0, "s": B{}, "t": 0, "name": B{}, "a": []string{}, "k": 0, "v": B{}}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	w.r.end(m)
}

// find gives the number of the call with that method name, 0 if none.
func (w *rpcWorld) find(name string) int {
	for i := range w.c.Calls {
		if string(w.c.Calls[i].Name) == name && w.c.Calls[i].Kind != "unknown" {
			return i + 1
		}
	}
	return 0
}

// handle is the body of a handler for call n.
func (w *rpcWorld) handle(n int) {
	w.mu.Lock()
	w.parked[n] = true
	w.cond.Broadcast()
	end := time.Now().Add(8 * time.Second)
	for !w.open && !w.gate[n] && time.Now().Before(end) {
		w.cond.Wait()
	}
	w.mu.Unlock()
	w.ev("fin", n)
	w.mu.Lock()
	w.over[n] = true
	w.cond.Broadcast()
	w.mu.Unlock()
}

// await waits until f holds.
func (w *rpcWorld) await(f func() bool, d time.Duration) bool {
	end := time.Now().Add(d)
	t := time.AfterFunc(d, func() { w.mu.Lock(); w.cond.Broadcast(); w.mu.Unlock() })
	defer t.Stop()
	w.mu.Lock()
	defer w.mu.Unlock()
	for !f() {
		if !time.Now().Before(end) {
			return false
		}
		w.cond.Wait()
	}
	return true
}

// canonical values of what the reading calls gave
func (w *rpcWorld) canon(ops []M) []string {
	out := []string{}
	named := w.c.Proto == "sjson"
	hx := func(v interface{}) string { return hex.EncodeToString([]byte(v.(B))) }
	for _, e := range ops {
		switch o := e["o"].(string); o {
		case "RFldB":
			t := e["t"].(int)
			if t == 0 {
				out = append(out, ".")
			} else if named {
				out = append(out, "F"+hx(e["name"]))
			} else {
				out = append(out, fmt.Sprintf("F%d:%d", e["id"].(int), t))
			}
		case "RMapB", "RLstB", "RSetB":
			out = append(out, o[1:2]+strconv.Itoa(e["n"].(int)))
		case "RBool", "RByte":
			out = append(out, o[1:3]+strconv.Itoa(e["n"].(int)))
		case "RI16", "RI32", "RI64", "RDbl", "RStr", "RBin":
			out = append(out, hx(e["v"]))
		}
	}
	return out
}

// read makes the scripted read calls; the values, or the error.
func (w *rpcWorld) read(p thrift.TProtocol, ops []Op) ([]string, error) {
	rec := &Rec{}
	x := &reader{p: p, r: rec, budget: 1 << 30}
	for i := range ops {
		if !x.op(&ops[i]) {
			l := rec.ops[len(rec.ops)-1]
			if l["e"] == PANIC {
				panic(l["panic"])
			}
			return nil, fmt.Errorf("reading: %v", l["msg"])
		}
	}
	return w.canon(rec.ops), nil
}
func (w *rpcWorld) write(p thrift.TProtocol, ops []Op) error {
	for i := range ops {
		if err := doWrite(p, &ops[i]); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------- the processor

type dynProcessor struct{ w *rpcWorld }

func first(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}
func (w *rpcWorld) refuse(out thrift.TProtocol, name string, seq int32, x thrift.TApplicationException) {
	out.WriteMessageBegin(name, thrift.EXCEPTION, seq)
	x.Write(out)
	out.WriteMessageEnd()
	out.Transport().Flush()
}
func (d *dynProcessor) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	w := d.w
	name, t, seq, err := in.ReadMessageBegin()
	if err != nil {
		return false, err
	}
	n := w.find(name)
	if n == 0 {
		in.Skip(thrift.STRUCT)
		in.ReadMessageEnd()
		x := thrift.NewTApplicationException(thrift.UNKNOWN_METHOD, "Unknown function "+name)
		w.refuse(out, name, seq, x)
		return false, x
	}
	k := &w.c.Calls[n-1]
	a, e := w.read(in, k.ARd)
	if e != nil {
		in.ReadMessageEnd()
		x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, e.Error())
		w.refuse(out, name, seq, x)
		return false, x
	}
	in.ReadMessageEnd()
	w.ev("got", n, "h", 1, "s", b32(seq), "t", int(t), "name", B(name), "a", a)
	w.handle(n)
	switch k.Kind {
	case "oneway":
		return true, nil
	case "fail":
		x := thrift.NewTApplicationException(thrift.INTERNAL_ERROR, string(k.V))
		w.refuse(out, name, seq, x)
		return false, x
	case "badseq":
		seq = i32(k.K)
	}
	if e := first(noNil(out.WriteMessageBegin(name, thrift.REPLY, seq)), w.write(out, k.ROps), noNil(out.WriteMessageEnd()), out.Transport().Flush()); e != nil {
		return false, thrift.NewTTransportExceptionFromOsError(e)
	}
	return true, nil
}

// goldHandler is the handler of the golden service.
type goldHandler struct{ w *rpcWorld }

func goldGet(p *simple.ContainerOfEnums) []string {
	if p == nil {
		return []string{"nil"}
	}
	v := []int64{int64(p.First), int64(p.Second), int64(p.Third), int64(p.OptionalFourth), int64(p.OptionalFifth), int64(p.OptionalSixth), int64(p.DefaultSeventh), int64(p.DefaultEighth), int64(p.DefaultNineth)}
	out := []string{}
	for i, x := range v {
		if x != -2147483649 {
			out = append(out, fmt.Sprintf("%d=%d", i+1, x))
		}
	}
	return out
}
func goldMake(a []string) *simple.ContainerOfEnums {
	if len(a) == 1 && a[0] == "nil" {
		return nil
	}
	p := simple.NewContainerOfEnums()
	for _, s := range a {
		i := strings.IndexByte(s, '=')
		v, err := strconv.ParseInt(s[i+1:], 10, 64)
		if err != nil {
			panic("harness: " + s)
		}
		switch s[:i] {
		case "1":
			p.First = simple.UndefinedValues(v)
		case "2":
			p.Second = simple.DefinedValues(v)
		case "3":
			p.Third = simple.HeterogeneousValues(v)
		case "4":
			p.OptionalFourth = simple.UndefinedValues(v)
		case "5":
			p.OptionalFifth = simple.DefinedValues(v)
		case "6":
			p.OptionalSixth = simple.HeterogeneousValues(v)
		case "7":
			p.DefaultSeventh = simple.UndefinedValues(v)
		case "8":
			p.DefaultEighth = simple.DefinedValues(v)
		case "9":
			p.DefaultNineth = simple.HeterogeneousValues(v)
		}
	}
	return p
}
func (h *goldHandler) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	w := h.w
	a := goldGet(m)
	n := 0
	if m == nil {
		w.mu.Lock()
		if len(w.nilseq) > 0 {
			n, w.nilseq = w.nilseq[0], w.nilseq[1:]
		}
		w.mu.Unlock()
	} else {
		n = int(m.First)
	}
	w.ev("got", n, "a", a)
	if n < 1 || n > len(w.c.Calls) {
		return nil, errors.New("harness: no such call")
	}
	w.handle(n)
	k := &w.c.Calls[n-1]
	if k.Kind == "fail" {
		return nil, errors.New(strings.TrimPrefix(string(k.V), "Internal error processing echo: "))
	}
	return goldMake(k.GR), nil
}

// ------------------------------------------------------------- the clients

type rpcClient struct {
	w     *rpcWorld
	id    int
	trans thrift.TTransport
	gold  *simple.ContainerOfEnumsTestServiceClient
	in    thrift.TProtocol
	out   thrift.TProtocol
	seq   int32
	calls []int // numbers of its calls
	sent  int
	recv  int
	dead  bool
}

// send sends the client's next call.
func (k *rpcClient) send() {
	if k.dead || k.sent >= len(k.calls) {
		return
	}
	w, n := k.w, k.calls[k.sent]
	k.sent++
	c := &w.c.Calls[n-1]
	w.ev("send", n)
	e := OK
	func() {
		defer func() {
			if x := recover(); x != nil {
				e = PANIC
			}
		}()
		var err error
		if k.gold != nil {
			err = k.gold.SendEcho(goldMake(c.GA))
		} else {
			typ := thrift.TMessageType(thrift.CALL)
			if c.Kind == "oneway" {
				typ = thrift.ONEWAY
			}
			k.seq++
			err = first(noNil(k.out.WriteMessageBegin(string(c.Name), typ, k.seq)), w.write(k.out, c.AOps), noNil(k.out.WriteMessageEnd()), k.out.Transport().Flush())
		}
		if err != nil {
			e = ERR
		}
	}()
	w.ev("sent", n, "e", e)
	if e != OK {
		k.dead = true
	}
}

// next receives the reply to the next call that has one.
func (k *rpcClient) next() {
	if k.dead {
		return
	}
	w := k.w
	for k.recv < k.sent && w.c.Calls[k.calls[k.recv]-1].Kind == "oneway" {
		k.recv++
	}
	if k.recv >= k.sent {
		return
	}
	n := k.calls[k.recv]
	k.recv++
	c := &w.c.Calls[n-1]
	kv := []interface{}{}
	set := func(f string, v interface{}) { kv = append(kv, f, v) }
	fail := func(err error) {
		set("e", ERR)
		if x, ok := err.(thrift.TApplicationException); ok {
			set("ex", 1)
			set("k", int(x.TypeId()))
			set("v", B(x.Error()))
		} else {
			k.dead = true
			set("msg", clip(err.Error()))
		}
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				set("e", PANIC)
				set("panic", fmt.Sprint(x))
				k.dead = true
			}
		}()
		if k.gold != nil {
			v, err := k.gold.RecvEcho()
			if err != nil {
				fail(err)
				return
			}
			set("a", goldGet(v))
			return
		}
		name, t, seq, err := k.in.ReadMessageBegin()
		if err != nil {
			fail(err)
			return
		}
		set("h", 1)
		set("name", B(name))
		set("t", int(t))
		set("s", b32(seq))
		if t == thrift.EXCEPTION {
			x, err := thrift.NewTApplicationExceptionDefault().Read(k.in)
			if err == nil {
				err = noNil(k.in.ReadMessageEnd())
			}
			if err == nil {
				err = x
			}
			fail(err)
			return
		}
		a, err2 := w.read(k.in, c.RRd)
		if err2 == nil {
			err2 = noNil(k.in.ReadMessageEnd())
		}
		if err2 != nil {
			fail(err2)
			return
		}
		set("a", a)
	}()
	if c.Kind == "badseq" {
		k.dead = true
	}
	w.ev("ret", n, kv...)
}

// ------------------------------------------------------------ the transports

type wrapFactory struct{ name string }

func (f *wrapFactory) GetTransport(t thrift.TTransport) thrift.TTransport {
	switch f.name {
	case "framed":
		return thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(t)
	case "framed2":
		return thrift.NewTFramedTransport(thrift.NewTFramedTransport(t))
	}
	return thrift.NewTTransportFactory().GetTransport(t)
}

// chunkConn slices what is read.
type chunkConn struct {
	net.Conn
	n int
}

func (c *chunkConn) Read(b []byte) (int, error) {
	if c.n > 0 && len(b) > c.n {
		b = b[:c.n]
	}
	return c.Conn.Read(b)
}

type loopServer struct {
	w    *rpcWorld
	proc thrift.TProcessor
	wg   sync.WaitGroup
}

// direct serves one connection.
func (l *loopServer) direct(t thrift.TTransport, pf thrift.TProtocolFactory) {
	defer l.wg.Done()
	defer t.Close()
	in, out := pf.GetProtocol(t), pf.GetProtocol(t)
	for {
		_, err := l.proc.Process(in, out)
		if err != nil {
			// what the processor itself has answered is no reason to end
			if _, ok := err.(thrift.TApplicationException); !ok && err.Error() != "" && !isHandlerErr(err) {
				return
			}
		}
	}
}

// isHandlerErr: an error a golden handler returned comes back as it is
func isHandlerErr(err error) bool {
	_, ok := err.(interface{ TypeId() int })
	return !ok && err != io.EOF
}

func runRPC(raw []byte, r *Rec) M {
	var c rpcCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	m := M{"kind": "rpc", "srv": c.Srv, "nc": c.NC, "proto": c.Proto, "mode": c.Mode}
	calls := []M{}
	for i := range c.Calls {
		k := &c.Calls[i]
		calls = append(calls, M{"cl": k.CL, "kind": k.Kind, "name": k.Name, "s": k.S, "a": k.A, "r": k.R, "v": k.V})
	}
	m["calls"] = calls
	if slowCases >= 5 {
		m["skipped"] = true
		return m
	}
	t0 := time.Now()
	defer func() {
		if d := time.Since(t0); d > 2500*time.Millisecond {
			slowCases++
			m["ms"] = d.Milliseconds()
		}
	}()
	w := &rpcWorld{c: &c, r: r, gate: map[int]bool{}, parked: map[int]bool{}, over: map[int]bool{}, open: c.Mode != "sched"}
	w.cond = sync.NewCond(&w.mu)
	for i := range c.Calls {
		if g := c.Calls[i].GA; len(g) == 1 && g[0] == "nil" {
			w.nilseq = append(w.nilseq, i+1)
		}
	}
	var proc thrift.TProcessor = &dynProcessor{w}
	if c.GP == 1 {
		proc = simple.NewContainerOfEnumsTestServiceProcessor(&goldHandler{w})
	}
	pf := protoFactory(&c.CodecCase)
	sf := &wrapFactory{c.Wrap}
	ls := &loopServer{w: w, proc: proc}
	var dial func() thrift.TTransport
	finish := func() {}
	chunk := 0
	if len(c.Chunk) > 0 {
		chunk = c.Chunk[0]
	}
	switch c.Srv {
	case "direct":
		dial = func() thrift.TTransport {
			a, b := bufPipe()
			ls.wg.Add(1)
			srv, err := thrift.NewTSocketConn(&chunkConn{b, chunk})
			if err != nil {
				panic("harness: " + err.Error())
			}
			go ls.direct(sf.GetTransport(srv), pf)
			cl, err := thrift.NewTSocketConn(&chunkConn{a, chunk})
			if err != nil {
				panic("harness: " + err.Error())
			}
			return cl
		}
		finish = func() { ls.wg.Wait() }
	case "http":
		ts := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, rq *http.Request) {
			body, err := ioutil.ReadAll(rq.Body)
			if err != nil {
				return
			}
			in, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
			in.Write(body)
			proc.Process(pf.GetProtocol(sf.GetTransport(in)), pf.GetProtocol(sf.GetTransport(out)))
			rw.Write(out.Bytes())
		}))
		dial = func() thrift.TTransport {
			t, err := thrift.NewTHttpPostClient(ts.URL)
			if err != nil {
				panic("harness: " + err.Error())
			}
			return t
		}
		finish = func() { ts.CloseClientConnections(); ts.Close() }
	default:
		addr := freeAddr()
		st := mkServerSock(c.Sock, addr, 0, 0)
		var sv thrift.TServer
		if c.Srv == "simple" {
			sv = thrift.NewTSimpleServer4(proc, st, sf, pf)
		} else {
			sv = thrift.NewTNonblockingServer4(proc, st, sf, pf)
		}
		done := make(chan bool)
		go func() {
			defer close(done)
			sv.Serve()
		}()
		// it listens as soon as somebody can connect; only the servers' own
		// checks look closer
		dial = func() thrift.TTransport {
			end := time.Now().Add(3 * time.Second)
			for {
				var t thrift.TTransport
				if c.Sock == "nb" {
					t, _ = thrift.NewTNonblockingSocketAddr(addr)
				} else {
					t = thrift.NewTSocketAddr(addr)
				}
				if err := t.Open(); err == nil || time.Now().After(end) {
					return t
				}
				time.Sleep(200 * time.Microsecond)
			}
		}
		finish = func() {
			sv.Stop()
			select {
			case <-done:
			case <-time.After(2 * time.Second):
			}
		}
	}
	cls := make([]*rpcClient, c.NC+1)
	for i := 1; i <= c.NC; i++ {
		k := &rpcClient{w: w, id: i, seq: i32(c.Seq0[i-1])}
		for n := range c.Calls {
			if c.Calls[n].CL == i {
				k.calls = append(k.calls, n+1)
			}
		}
		cls[i] = k
	}
	start := func(k *rpcClient) {
		if k.trans != nil {
			return
		}
		k.trans = (&wrapFactory{c.CWrap}).GetTransport(dial())
		if c.GC == 1 {
			k.gold = simple.NewContainerOfEnumsTestServiceClientFactory(k.trans, pf)
			k.gold.SeqId = k.seq
		} else {
			k.in, k.out = pf.GetProtocol(k.trans), pf.GetProtocol(k.trans)
			if k.id%2 == 0 {
				k.out = k.in
			}
		}
	}
	stop := func(k *rpcClient) {
		if k.trans != nil {
			k.trans.Close()
			k.trans.Close() // once more, as deferred calls do
		}
	}
	warmUp(&c, sf, pf)
	switch c.Mode {
	case "sched":
		nfin := map[int]int{}
		for _, s := range c.Sched {
			k := cls[s.C]
			start(k)
			switch s.S {
			case "send":
				k.send()
			case "recv":
				k.next()
			case "close":
				stop(k)
			case "fin":
				n := k.calls[nfin[s.C]]
				nfin[s.C]++
				if w.await(func() bool { return w.parked[n] }, 3*time.Second) {
					w.mu.Lock()
					w.gate[n] = true
					w.cond.Broadcast()
					w.mu.Unlock()
					w.await(func() bool { return w.over[n] }, 3*time.Second)
				}
			}
		}
		w.mu.Lock()
		w.open = true
		w.cond.Broadcast()
		w.mu.Unlock()
	case "free":
		var wg sync.WaitGroup
		for i := 1; i <= c.NC; i++ {
			wg.Add(1)
			go func(k *rpcClient) {
				defer wg.Done()
				start(k)
				depth := 1 + k.id%2*2*(1-c.GC)
				if c.Srv == "http" {
					depth = 1
				}
				for k.recv < len(k.calls) && !k.dead {
					for k.sent < len(k.calls) && k.sent-k.recv < depth && !k.dead {
						k.send()
					}
					k.next()
				}
				stop(k)
			}(cls[i])
		}
		wg.Wait()
	default:
		for n := range c.Calls {
			k := cls[c.Calls[n].CL]
			start(k)
			k.send()
			if c.Calls[n].Kind != "oneway" {
				k.next()
			} else if c.Srv == "http" {
				k.in.Transport().Flush()
			}
		}
		for i := 1; i <= c.NC; i++ {
			stop(cls[i])
		}
	}
	// what was sent is still to be handled, but by a server that is stopped
	end := time.Now().Add(2 * time.Second)
	w.await(func() bool {
		for n := range c.Calls {
			if c.Calls[n].Kind == "oneway" && !w.over[n+1] && !cls[c.Calls[n].CL].dead {
				return false
			}
		}
		return true
	}, time.Until(end))
	finish()
	return m
}

// warmUp uses and abandons transports and protocols of the same make, with
// data pending: nothing of that may reach the calls.
func warmUp(c *rpcCase, sf *wrapFactory, pf thrift.TProtocolFactory) {
	for i := 0; i < 3; i++ {
		for _, f := range []*wrapFactory{sf, {c.CWrap}} {
			t := f.GetTransport(thrift.NewTMemoryBuffer())
			p := pf.GetProtocol(t)
			p.WriteMessageBegin("warm", thrift.CALL, 1)
			if i == 1 {
				p.Flush()
			}
			if i == 2 {
				p.ReadMessageBegin()
			}
			t.Close()
			t.Close()
		}
	}
}

// protoFactory gives the factory of the case's protocol.
func protoFactory(c *CodecCase) thrift.TProtocolFactory {
	switch c.Proto {
	case "bin":
		return thrift.NewTBinaryProtocolFactory(c.SR == 1, c.SW == 1)
	case "com":
		return thrift.NewTCompactProtocolFactory()
	case "json":
		return thrift.NewTJSONProtocolFactory()
	}
	return thrift.NewTSimpleJSONProtocolFactory()
}

// bufPipe is a pair of connected ends that never make a writer wait.
type bufEnd struct {
	mu   *sync.Mutex
	cond *sync.Cond
	in   *[]byte
	out  *[]byte
	shut *bool
}

func bufPipe() (net.Conn, net.Conn) {
	mu := &sync.Mutex{}
	cond := sync.NewCond(mu)
	var x, y []byte
	shut := false
	return &bufEnd{mu, cond, &x, &y, &shut}, &bufEnd{mu, cond, &y, &x, &shut}
}
func (e *bufEnd) Read(b []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for len(*e.in) == 0 {
		if *e.shut {
			return 0, io.EOF
		}
		e.cond.Wait()
	}
	n := copy(b, *e.in)
	*e.in = (*e.in)[n:]
	return n, nil
}
func (e *bufEnd) Write(b []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if *e.shut {
		return 0, io.ErrClosedPipe
	}
	*e.out = append(*e.out, b...)
	e.cond.Broadcast()
	return len(b), nil
}
func (e *bufEnd) Close() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	*e.shut = true
	e.cond.Broadcast()
	return nil
}
func (e *bufEnd) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (e *bufEnd) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (e *bufEnd) SetDeadline(t time.Time) error      { return nil }
func (e *bufEnd) SetReadDeadline(t time.Time) error  { return nil }
func (e *bufEnd) SetWriteDeadline(t time.Time) error { return nil }

var _ = sort.Strings
