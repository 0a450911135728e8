package main

// Write faults (kind "wf"): the same protocol calls over a transport without
// faults, then over one that refuses a write or a flush.

import (
	"encoding/json"
	"net"
	"time"

	"thrift"
)

func init() { kinds["wf"] = runFault }

// faultTrans refuses write number failW (taking failB bytes of it) or flush
// number failF, and everything after it unless once is set.
type faultTrans struct {
	memTrans
	once bool
	err  error // the refusal, if not errInjected
}

func (m *faultTrans) refusal() error {
	if m.err != nil {
		return m.err
	}
	return errInjected
}

func (m *faultTrans) Write(buf []byte) (int, error) {
	m.writes++
	if m.failW > 0 && (m.writes == m.failW || (m.writes > m.failW && !m.once)) {
		m.failed++
		n := 0
		if m.writes == m.failW {
			if n = m.failB; n > len(buf) {
				n = len(buf)
			}
		}
		m.out = append(m.out, buf[:n]...)
		return n, m.refusal()
	}
	m.out = append(m.out, buf...)
	return len(buf), nil
}
func (m *faultTrans) Flush() error {
	m.flushes++
	if m.failF > 0 && (m.flushes == m.failF || (m.flushes > m.failF && !m.once)) {
		m.failed++
		return m.refusal()
	}
	return nil
}

// faultConn is a connection over a faultTrans.
type faultConn struct{ *faultTrans }

func (c faultConn) Close() error                       { return nil }
func (c faultConn) LocalAddr() net.Addr                { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1} }
func (c faultConn) RemoteAddr() net.Addr               { return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 2} }
func (c faultConn) SetDeadline(t time.Time) error      { return nil }
func (c faultConn) SetReadDeadline(t time.Time) error  { return nil }
func (c faultConn) SetWriteDeadline(t time.Time) error { return nil }

type wOnly struct{ m *faultTrans }

func (w wOnly) Write(b []byte) (int, error) { return w.m.Write(b) }

func faultWrap(name string, m *faultTrans) thrift.TTransport {
	switch name {
	case "sock":
		s, err := thrift.NewTSocketConn(faultConn{m})
		if err != nil {
			panic("harness: " + err.Error())
		}
		return s
	case "framedsock":
		return thrift.NewTFramedTransport(faultWrap("sock", m))
	case "iow": // a plain writer, no flush
		return thrift.NewTIOStreamTransportW(wOnly{m})
	case "framediow":
		return thrift.NewTFramedTransport(thrift.NewTIOStreamTransportW(wOnly{m}))
	}
	return wrapTransport(name, m)
}

type faultCase struct {
	CodecCase
	Once int `json:"once"`
	Read int `json:"app"` // 1: an application exception; 2: a generic struct (unused)
}

func runFault(raw []byte, r *Rec) M {
	var c faultCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	run := func(m *faultTrans, r *Rec) {
		p := c.protocol(faultWrap(c.Wrap, m))
		for i := range c.Ops {
			o := &c.Ops[i]
			ev := M{"o": o.O, "n": len(o.V) + len(o.Name)}
			res := r.callThen(ev, func(ev M) error { return doWrite(p, o) }, func(ev M, err error) { ev["fl"], ev["out"] = m.failed, len(m.out) })
			if res != OK {
				break
			}
		}
	}
	clean := &faultTrans{}
	cr := &Rec{}
	run(clean, cr)
	good := 1
	for _, o := range cr.ops {
		if o["e"] != OK {
			good = 0
		}
	}
	m := &faultTrans{once: c.Once == 1}
	m.failW, m.failB, m.failF = c.FailW, c.FailB, c.FailF
	// failw counts from the end of the fault-free run when negative
	if m.failW < 0 {
		m.failW = clean.writes + 1 + m.failW
	}
	if m.failF < 0 {
		m.failF = clean.flushes + 1 + m.failF
	}
	run(m, r)
	full, wire := B(clean.out), B(m.out)
	if full == nil {
		full = B{}
	}
	if wire == nil {
		wire = B{}
	}
	return M{"kind": "wf", "proto": c.Proto, "wrap": c.Wrap, "full": full, "wire": wire, "good": good, "writes": clean.writes, "flushes": clean.flushes}
}
