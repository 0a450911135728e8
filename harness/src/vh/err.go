package main

// Errors (kind "err"): wrapped over and over, and crossing the layers.

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net"

	"thrift"
)

func init() { kinds["err"] = runErr }

type ErrOp struct {
	O    string `json:"o"`
	C    string `json:"c"`
	K    int    `json:"k"`
	M    B      `json:"m"`
	ID   int    `json:"id"`
	Name B      `json:"name"`
	St   B      `json:"st"`
}
type ErrCase struct {
	CodecCase
	Sub  string  `json:"sub"`
	Base ErrOp   `json:"base"`
	Once int     `json:"once"`
	EOps []ErrOp `json:"eops"`
}

// ownErr is a caller's error that carries a kind.
type ownErr struct {
	k int
	m string
}

func (e *ownErr) Error() string { return e.m }
func (e *ownErr) TypeId() int   { return e.k }

func baseErr(o *ErrOp) error {
	k, m := o.K, string(o.M)
	switch o.C {
	case "nil":
		return nil
	case "go":
		return errors.New(m)
	case "eof":
		return io.EOF
	case "b64":
		return base64.CorruptInputError(k)
	case "own":
		return &ownErr{k, m}
	case "E":
		return thrift.NewTException(m)
	case "T":
		return thrift.NewTTransportException(k, m)
	case "Tk":
		return thrift.NewTTransportExceptionDefaultType(k)
	case "Tm":
		return thrift.NewTTransportExceptionDefaultString(m)
	case "T0":
		return thrift.NewTTransportExceptionDefault()
	case "P":
		return thrift.NewTProtocolException(k, m)
	case "Pk":
		return thrift.NewTProtocolExceptionDefaultType(k)
	case "Pm":
		return thrift.NewTProtocolExceptionDefaultString(m)
	case "P0":
		return thrift.NewTProtocolExceptionDefault()
	case "A":
		return thrift.NewTApplicationException(int32(k), m)
	}
	panic("unknown error " + o.C)
}

// errTrans gives the named transport: one of the library's that is not open.
func errTrans(name string, other func() thrift.TTransport) thrift.TTransport {
	addr := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
	must := func(e error) {
		if e != nil {
			panic("harness: " + e.Error())
		}
	}
	switch name {
	case "!sock":
		return thrift.NewTSocketAddr(addr)
	case "!nbsock":
		s, e := thrift.NewTNonblockingSocketAddr(addr)
		if e != nil {
			must(e)
		}
		return s
	case "~sock":
		s, e := thrift.NewTSocketConn(faultConn{&faultTrans{}})
		if e != nil {
			must(e)
		}
		must(s.Close())
		return s
	case "~nbsock":
		s, e := thrift.NewTNonblockingSocketConn(faultConn{&faultTrans{}})
		if e != nil {
			must(e)
		}
		must(s.Close())
		return s
	case "!framedsock":
		return thrift.NewTFramedTransport(errTrans("!sock", nil))
	case "~framedsock":
		return thrift.NewTFramedTransport(errTrans("~sock", nil))
	case "!io":
		return thrift.NewTIOStreamTransportDefault()
	case "~io":
		t := thrift.NewTIOStreamTransportRW(&memTrans{in: []byte{1, 2, 3, 4, 5, 6, 7, 8}})
		must(t.Close())
		return t
	case "~framedio":
		return thrift.NewTFramedTransport(errTrans("~io", nil))
	case "!http":
		t, e := thrift.NewTHttpPostClient("http://127.0.0.1:1/")
		must(e)
		return t
	}
	return other()
}

// wrapErr gives the wrapped error and whether it is none, as its own type and
// as an error.
func wrapErr(o *ErrOp, e error) (error, bool) {
	pt := func() thrift.TProtocolException { return e.(thrift.TProtocolException) }
	p := func(x thrift.TProtocolException) (error, bool) {
		if x == nil {
			return nil, true
		}
		return x, false
	}
	switch o.O {
	case "E":
		x := thrift.NewTExceptionFromOsError(e)
		if x == nil {
			return nil, true
		}
		return x, false
	case "T":
		x := thrift.NewTTransportExceptionFromOsError(e)
		if x == nil {
			return nil, true
		}
		return x, false
	case "P":
		return p(thrift.NewTProtocolExceptionFromOsError(e))
	case "PT":
		if e == nil {
			return p(thrift.NewTProtocolExceptionFromTransportException(nil))
		}
		return p(thrift.NewTProtocolExceptionFromTransportException(e.(thrift.TTransportException)))
	case "RF":
		return p(thrift.NewTProtocolExceptionReadField(o.ID, string(o.Name), string(o.St), pt()))
	case "WF":
		return p(thrift.NewTProtocolExceptionWriteField(o.ID, string(o.Name), string(o.St), pt()))
	case "RS":
		return p(thrift.NewTProtocolExceptionReadStruct(string(o.St), pt()))
	case "WS":
		return p(thrift.NewTProtocolExceptionWriteStruct(string(o.St), pt()))
	}
	panic("unknown wrapping " + o.O)
}

func runErr(raw []byte, r *Rec) M {
	var c ErrCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	base := baseErr(&c.Base)
	if c.Base.C == "b64" { // its message
		c.Base.M = B(base.Error())
	}
	b := M{"c": c.Base.C, "k": c.Base.K, "m": c.Base.M}
	if c.Base.M == nil {
		b["m"] = B{}
	}
	switch c.Sub {
	case "wrap":
		cur := base
		obs := func(ev M) {
			ev["nil"], ev["k"], ev["m"] = b2i(cur == nil), -1, B{}
			if cur != nil {
				ev["k"] = errKind(cur)
				if m := B(cur.Error()); m != nil {
					ev["m"] = m
				}
			}
		}
		r.call(M{"o": "New"}, func(ev M) error { obs(ev); return nil })
		for i := range c.EOps {
			o := &c.EOps[i]
			if o.O != "E" && o.O != "T" && o.O != "P" && cur != nil {
				if _, ok := cur.(thrift.TProtocolException); !ok {
					continue
				}
			}
			ev := M{"o": o.O}
			switch o.O {
			case "RF", "WF":
				ev["id"], ev["name"], ev["st"] = o.ID, o.Name, o.St
			case "RS", "WS":
				ev["st"] = o.St
			}
			if cur == nil && len(o.O) > 1 && o.O != "PT" {
				continue // nothing to wrap
			}
			if r.call(ev, func(ev M) error {
				e, none := wrapErr(o, cur)
				cur = e
				ev["none"] = b2i(none)
				obs(ev)
				return nil
			}) != OK {
				break
			}
		}
	case "read":
		r.full = true
		m := c.trans()
		m.endErr = base
		readSteps(&c.CodecCase, c.protocol(errTrans(c.Wrap, func() thrift.TTransport { return wrapTransport(c.Wrap, m) })), r)
	case "write":
		r.full = true
		m := &faultTrans{once: c.Once == 1, err: base}
		m.failW, m.failB, m.failF = c.FailW, c.FailB, c.FailF
		p := c.protocol(errTrans(c.Wrap, func() thrift.TTransport { return faultWrap(c.Wrap, m) }))
		for i := range c.Ops {
			o := &c.Ops[i]
			if r.call(M{"o": o.O}, func(ev M) error { return doWrite(p, o) }) != OK {
				break
			}
		}
		b["fl"] = m.failed
	}
	if b["fl"] == nil {
		b["fl"] = 0
	}
	for _, ev := range r.ops { // results do not count
		if c.Sub != "wrap" {
			for k := range ev {
				if k != "o" && k != "e" && k != "ek" && k != "m" && k != "msg" {
					delete(ev, k)
				}
			}
		}
	}
	must, want := 0, M{}
	_ = json.Unmarshal(raw, &struct {
		Must *int `json:"must"`
		Want *M   `json:"want"`
	}{&must, &want})
	return M{"kind": "err", "sub": c.Sub, "base": b, "wrap": c.Wrap, "proto": c.Proto, "must": must, "want": want}
}
