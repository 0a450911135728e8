package main

// Server sockets (kinds "ssock": scripted threads, "srace": races between two
// calls, over and over).

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"thrift"
)

func init() {
	kinds["ssock"] = runSSock
	kinds["srace"] = runSRace
}

// freeAddr is a loopback address nobody listens at.
func freeAddr() *net.TCPAddr {
	for i := 0; ; i++ {
		ip := net.IPv4(127, byte(1+rand.Intn(250)), byte(rand.Intn(250)), byte(1+rand.Intn(250)))
		l, err := net.Listen("tcp", (&net.TCPAddr{IP: ip}).String())
		if err == nil {
			a := l.Addr().(*net.TCPAddr)
			l.Close()
			return a
		}
		if i > 100 {
			panic("harness: no address to listen at: " + err.Error())
		}
	}
}

type serverSock interface {
	thrift.TServerTransport
	thrift.TTransport
}

func mkServerSock(kind string, addr net.Addr, how int, tmo time.Duration) serverSock {
	must := func(err thrift.TTransportException) {
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	if kind == "sv" {
		switch how {
		case 0:
			if tmo == 0 {
				s, err := thrift.NewTServerSocketAddr(addr)
				must(err)
				return s
			}
			fallthrough
		case 1:
			s, err := thrift.NewTServerSocketAddrTimeout(addr, int64(tmo))
			must(err)
			return s
		default:
			return thrift.NewTServerSocketTransportFactory(addr, int64(tmo)).GetTransport(nil).(serverSock)
		}
	}
	switch how {
	case 0:
		s, err := thrift.NewTNonblockingServerSocketAddr(addr)
		must(err)
		if tmo != 0 {
			s.SetTimeout(int64(tmo))
		}
		return s
	case 1:
		s, err := thrift.NewTNonblockingServerSocketAddrTimeout(addr, int64(tmo))
		must(err)
		return s
	case 3: // over a listener that listens already
		l, e := net.Listen("tcp", addr.String())
		if e != nil {
			panic("harness: " + e.Error())
		}
		s, err := thrift.NewTNonblockingServerSocketListener(l)
		must(err)
		s.SetTimeout(int64(tmo))
		return s
	default:
		t := thrift.NewTNonblockingServerSocketTransportFactory(addr).GetTransport(nil).(*thrift.TNonblockingServerSocket)
		t.SetTimeout(int64(tmo))
		return t
	}
}

type SSOp struct {
	Th  int    `json:"th"`
	F   string `json:"f"`
	Cl  int    `json:"cl"`
	Blk int    `json:"blk"` // expected to wait
}
type SSCase struct {
	Sock string `json:"sock"`
	How  int    `json:"how"`
	Pre  int    `json:"pre"`
	Busy int    `json:"busy"`
	Tmo  int    `json:"tmo"` // client timeout, ms
	Free int    `json:"free"`
	Ops  []SSOp `json:"ops"`
	N    int    `json:"n"`
}

type ssWorld struct {
	c       SSCase
	s       serverSock
	addr    net.Addr
	r       *Rec
	mu      sync.Mutex
	clients map[int]net.Conn
	acc     []thrift.TTransport
}

func (w *ssWorld) do(o SSOp) {
	ev := M{"o": "ret", "th": o.Th, "f": o.F, "cl": o.Cl, "e": OK, "ek": -1, "n": 0, "good": 1}
	w.r.end(M{"o": "call", "th": o.Th, "f": o.F, "cl": o.Cl})
	func() {
		defer func() {
			if x := recover(); x != nil {
				ev["e"] = PANIC
				ev["panic"] = fmt.Sprint(x)
			}
		}()
		var err error
		n := 0
		b2i := func(b bool) int {
			if b {
				return 1
			}
			return 0
		}
		switch o.F {
		case "Listen":
			err = w.s.Listen()
		case "Open":
			err = w.s.Open()
		case "Close":
			err = w.s.(thrift.TTransport).Close()
		case "Interrupt":
			err = w.s.Interrupt()
		case "IsOpen":
			n = b2i(w.s.IsOpen())
		case "Peek":
			n = b2i(w.s.Peek())
		case "R":
			n, err = w.s.Read(make([]byte, 4))
		case "RA":
			n, err = w.s.ReadAll(make([]byte, 4))
		case "W":
			n, err = w.s.Write([]byte{1, 2})
		case "F":
			err = w.s.Flush()
		case "Accept":
			var t thrift.TTransport
			t, err = w.s.Accept()
			if err == nil {
				var why string
				n, why = w.tryOut(t)
				if why != "" {
					ev["good"] = 0
					ev["why"] = why
				}
			}
		case "Dial":
			var c net.Conn
			c, err = net.DialTimeout("tcp", w.addr.String(), 3*time.Second)
			if err == nil {
				c.Write([]byte{byte(o.Cl)})
				w.mu.Lock()
				w.clients[o.Cl] = c
				w.mu.Unlock()
			}
		case "Port":
			l, e := net.Listen("tcp", w.addr.String())
			if e == nil {
				l.Close()
				n = 1
			}
		default:
			panic("harness: op " + o.F)
		}
		ev["n"] = n
		if err != nil {
			ev["e"], ev["ek"], ev["msg"] = ERR, errKind(err), clip(err.Error())
		}
	}()
	w.r.end(ev)
}

// tryOut uses an accepted transport: which client is it, does it work both
// ways, does it have the timeout?
func (w *ssWorld) tryOut(t thrift.TTransport) (int, string) {
	if t == nil {
		return 0, "no transport"
	}
	w.mu.Lock()
	w.acc = append(w.acc, t)
	w.mu.Unlock()
	if !t.IsOpen() {
		return 0, "not open"
	}
	b := make([]byte, 1)
	var n int
	var err error
	end := time.Now().Add(2 * time.Second)
	for {
		if n, err = t.Read(b); n == 1 || time.Now().After(end) || w.c.Tmo == 0 {
			break
		}
	}
	if n != 1 {
		return 0, "read: " + fmt.Sprint(err)
	}
	id := int(b[0])
	var c net.Conn
	for c == nil && !time.Now().After(end) {
		w.mu.Lock()
		c = w.clients[id]
		w.mu.Unlock()
		if c == nil {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if c == nil {
		return id, "unknown client"
	}
	if _, err := t.Write([]byte{byte(id), 77}); err != nil {
		return id, "write: " + err.Error()
	}
	if err := t.Flush(); err != nil {
		return id, "flush: " + err.Error()
	}
	c.SetReadDeadline(end)
	var g [2]byte
	if n, err := c.Read(g[:]); n == 0 || g[0] != byte(id) {
		return id, fmt.Sprint("the client got ", g[:n], " ", err)
	}
	if w.c.Tmo > 0 {
		t0 := time.Now()
		res := make(chan error, 1)
		go func() { _, err := t.Read(b); res <- err }()
		select {
		case err := <-res:
			if err == nil || errKind(err) == thrift.END_OF_FILE {
				return id, fmt.Sprint("idle read: ", err)
			}
			if d := time.Since(t0); d < time.Duration(w.c.Tmo)*time.Millisecond/2 {
				return id, fmt.Sprint("timed out after ", d)
			}
		case <-time.After(time.Duration(w.c.Tmo)*time.Millisecond + 2*time.Second):
			return id, "no timeout"
		}
	}
	return id, ""
}

func runSSock(raw []byte, r *Rec) M {
	var c SSCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	m := M{}
	json.Unmarshal(raw, &m)
	w := &ssWorld{c: c, addr: freeAddr(), r: r, clients: map[int]net.Conn{}}
	if c.Busy == 1 {
		l, err := net.Listen("tcp", w.addr.String())
		if err != nil {
			panic("harness: " + err.Error())
		}
		defer l.Close()
	}
	w.s = mkServerSock(c.Sock, w.addr, c.How, time.Duration(c.Tmo)*time.Millisecond)
	type thread struct {
		in   chan SSOp
		busy int32
	}
	threads := map[int]*thread{}
	var wg sync.WaitGroup
	for _, o := range c.Ops {
		if threads[o.Th] == nil {
			t := &thread{in: make(chan SSOp, len(c.Ops)+1)}
			threads[o.Th] = t
			wg.Add(1)
			go func() {
				defer wg.Done()
				for o := range t.in {
					w.do(o)
					atomic.AddInt32(&t.busy, -1)
				}
			}()
		}
	}
	for _, o := range c.Ops {
		t := threads[o.Th]
		if c.Free == 1 {
			atomic.AddInt32(&t.busy, 1)
			t.in <- o
			continue
		}
		if atomic.LoadInt32(&t.busy) > 0 {
			continue // still waiting in an accept
		}
		atomic.AddInt32(&t.busy, 1)
		t.in <- o
		limit := 4 * time.Second
		if o.Blk == 1 {
			limit = 1500 * time.Microsecond
		} else if o.F == "Accept" {
			limit = 100 * time.Millisecond
		}
		for end := time.Now().Add(limit); atomic.LoadInt32(&t.busy) > 0 && time.Now().Before(end); {
			time.Sleep(20 * time.Microsecond)
		}
		// a waiting accept may have been let go
		if o.F == "Dial" || o.F == "Close" || o.F == "Interrupt" {
			time.Sleep(200 * time.Microsecond)
		}
	}
	for _, t := range threads {
		close(t.in)
	}
	over := make(chan bool)
	go func() { wg.Wait(); close(over) }()
	wait := time.Duration(0)
	if c.Free == 1 {
		wait = 3 * time.Millisecond
	}
	for i := 0; i < 60; i++ {
		select {
		case <-over:
			i = 1000
			continue
		case <-time.After(wait):
		}
		w.do(SSOp{Th: 99, F: "Interrupt"})
		wait = 2 * time.Millisecond
		if i > 20 {
			wait = 60 * time.Millisecond
		}
	}
	w.do(SSOp{Th: 99, F: "Close"})
	w.do(SSOp{Th: 99, F: "Port"})
	w.mu.Lock()
	for _, c := range w.clients {
		c.Close()
	}
	for _, t := range w.acc {
		t.Close()
	}
	w.mu.Unlock()
	return m
}

// ------------------------------------------------------------------ races

type fakeListener struct {
	once sync.Once
	done chan bool
	addr net.Addr
}

var errFake = errors.New("use of closed network connection")

func (l *fakeListener) Accept() (net.Conn, error) { <-l.done; return nil, errFake }
func (l *fakeListener) Close() error {
	err := errFake
	l.once.Do(func() { close(l.done); err = nil })
	return err
}
func (l *fakeListener) Addr() net.Addr { return l.addr }

// runSRace runs two calls at once on a fresh socket, N times, and records the
// different outcomes.
func runSRace(raw []byte, r *Rec) M {
	var c SSCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	m := M{}
	json.Unmarshal(raw, &m)
	addr := freeAddr()
	seen := map[string]bool{}
	rng := rand.New(rand.NewSource(int64(c.N)))
	var turn, done int32
	var cur [2]func()
	for k := 0; k < 2; k++ {
		k := k
		go func() {
			for i := int32(1); ; i++ {
				for n := 0; atomic.LoadInt32(&turn) < i; n++ {
					if atomic.LoadInt32(&turn) < 0 {
						return
					}
					if n > 2000 {
						runtime.Gosched()
					}
				}
				cur[k]()
				atomic.AddInt32(&done, 1)
			}
		}()
	}
	defer atomic.StoreInt32(&turn, -1)
	for i := 1; i <= c.N; i++ {
		var s serverSock
		if c.How == 4 {
			x, err := thrift.NewTNonblockingServerSocketListener(&fakeListener{done: make(chan bool), addr: addr})
			if err != nil {
				panic("harness: " + err.Error())
			}
			s = x
		} else {
			s = mkServerSock(c.Sock, addr, c.How, 0)
			if c.Pre == 1 {
				err := s.Open()
				for t0 := time.Now(); err != nil && time.Since(t0) < time.Second; err = s.Open() {
					time.Sleep(50 * time.Microsecond)
				}
				if err != nil { // shows as a history that is not followed
					r.end(M{"o": "new"})
					r.end(M{"o": "call", "th": 99, "f": "Close", "cl": 0})
					r.end(M{"o": "ret", "th": 99, "f": "Close", "cl": 0, "e": ERR, "ek": -1, "n": 0, "good": 1, "msg": clip(err.Error())})
					m["outcomes"] = 0
					return m
				}
			}
		}
		rec := &Rec{}
		w := &ssWorld{c: c, s: s, addr: addr, r: rec, clients: map[int]net.Conn{}}
		for k := 0; k < 2; k++ {
			o := c.Ops[k]
			spin := rng.Intn(120)
			if rng.Intn(3) == 0 {
				spin = 0
			}
			cur[k] = func() {
				for j := 0; j < spin; j++ {
					atomic.LoadInt32(&done)
				}
				w.do(o)
			}
		}
		atomic.StoreInt32(&done, 0)
		atomic.StoreInt32(&turn, int32(i))
		t0 := time.Now()
		ints := 0
		for n := 0; atomic.LoadInt32(&done) < 2; n++ {
			if n > 2000 {
				runtime.Gosched()
			}
			d := time.Since(t0)
			if d > time.Duration(ints+1)*300*time.Microsecond {
				w.do(SSOp{Th: 99, F: "Interrupt"})
				ints++
			}
			if d > 3*time.Second {
				break
			}
		}
		w.do(SSOp{Th: 99, F: "IsOpen"})
		w.do(SSOp{Th: 99, F: "Close"})
		rec.mu.Lock()
		key := ""
		for _, o := range rec.ops {
			key += fmt.Sprint(o["o"], o["th"], o["e"], o["ek"], o["n"], ";")
		}
		if !seen[key] && len(seen) < 400 {
			seen[key] = true
			r.end(M{"o": "new"})
			for _, o := range rec.ops {
				r.end(o)
			}
		}
		stuck := atomic.LoadInt32(&done) < 2
		rec.mu.Unlock()
		if stuck {
			break
		}
	}
	m["outcomes"] = len(seen)
	return m
}
