package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"math"

	"thrift"
)

// Op is one scripted protocol write call.
type Op struct {
	O    string `json:"o"`
	Name B      `json:"name"`
	T    int    `json:"t"`
	KT   int    `json:"kt"`
	ID   int    `json:"id"`
	N    int    `json:"n"`
	V    B      `json:"v"`
	K    B      `json:"k"`
	Ctor string `json:"ctor"`
}

// CodecCase is a scripted history on one protocol object.
type CodecCase struct {
	ID     string `json:"id"`
	Kind   string `json:"kind"`
	Proto  string `json:"proto"`
	SR     int    `json:"sr"`
	SW     int    `json:"sw"`
	Fact   int    `json:"fact"` // obtain the protocol from its factory
	Ops    []Op   `json:"ops"`
	Wire   B      `json:"wire"`
	Steps  []Step `json:"steps"`
	Chunk  []int  `json:"chunk"`  // sizes of successive reads (last repeats); empty: everything
	EOF    int    `json:"eof"`    // 1: the last bytes come together with the end of stream
	Wrap   string `json:"wrap"`   // transport wrapper
	Skips  []int  `json:"skips"`  // ordinals of values to skip
	Depth  int    `json:"depth"`  // maximum skip depth, 0: default
	FailW  int    `json:"failw"`  // number of the failing write to the transport, 0: none
	FailB  int    `json:"failb"`  // bytes taken by the failing write
	FailF  int    `json:"failf"`  // number of the failing flush
	Budget int    `json:"budget"` // stop after this many values; 0: 8000
	Alt    int    `json:"alt"`    // 1 or 2: read every other string as binary
	Stall  int    `json:"stall"`  // 1: the stream goes silent after the last byte
}

// Step is one scripted top-level read.
type Step struct {
	K   string `json:"k"`
	T   int    `json:"t"`
	Ops []Op   `json:"ops"` // the read calls of an "ops" step
}

var errInjected = errors.New("injected failure")

// memTrans is a transport over scripted input, recording output.
type memTrans struct {
	in      []byte
	pos     int
	chunk   []int
	reads   int
	eofWith bool
	endErr  error
	stall   bool // nothing follows the last byte, not even the end
	out     []byte
	writes  int
	flushes int
	failW   int
	failB   int
	failF   int
	opened  bool
	loop    bool // what is written can be read
	failed  int  // writes and flushes refused
}

func (m *memTrans) IsOpen() bool { return true }
func (m *memTrans) Open() error  { m.opened = true; return nil }
func (m *memTrans) Close() error { return nil }
func (m *memTrans) Peek() bool   { return true }
func (m *memTrans) Read(buf []byte) (int, error) {
	if len(buf) == 0 {
		return 0, nil
	}
	n := len(m.in) - m.pos
	if n == 0 {
		if m.endErr != nil {
			return 0, m.endErr
		}
		if m.stall {
			select {}
		}
		return 0, io.EOF
	}
	if len(m.chunk) > 0 {
		i := m.reads
		if i >= len(m.chunk) {
			i = len(m.chunk) - 1
		}
		if c := m.chunk[i]; c < n {
			n = c
		}
	}
	m.reads++
	if n > len(buf) {
		n = len(buf)
	}
	copy(buf, m.in[m.pos:m.pos+n])
	m.pos += n
	if m.eofWith && m.pos == len(m.in) {
		return n, io.EOF
	}
	return n, nil
}
func (m *memTrans) ReadAll(buf []byte) (int, error) { return thrift.ReadAllTransport(m, buf) }
func (m *memTrans) Write(buf []byte) (int, error) {
	m.writes++
	if m.failW > 0 && m.writes >= m.failW {
		m.failed++
		n := 0
		if m.writes == m.failW {
			n = m.failB
			if n > len(buf) {
				n = len(buf)
			}
		}
		m.out = append(m.out, buf[:n]...)
		return n, errInjected
	}
	m.out = append(m.out, buf...)
	if m.loop {
		m.in = append(m.in, buf...)
	}
	return len(buf), nil
}
func (m *memTrans) Flush() error {
	m.flushes++
	if m.failF > 0 && m.flushes >= m.failF {
		m.failed++
		return errInjected
	}
	return nil
}

func (c *CodecCase) trans() *memTrans {
	return &memTrans{in: c.Wire, chunk: c.Chunk, eofWith: c.EOF == 1, stall: c.Stall == 1, failW: c.FailW, failB: c.FailB, failF: c.FailF}
}

func (c *CodecCase) protocol(t thrift.TTransport) thrift.TProtocol {
	switch c.Proto {
	case "bin":
		if c.Fact == 1 {
			return thrift.NewTBinaryProtocolFactory(c.SR == 1, c.SW == 1).GetProtocol(t)
		}
		return thrift.NewTBinaryProtocol(t, c.SR == 1, c.SW == 1)
	case "com":
		if c.Fact == 1 {
			return thrift.NewTCompactProtocolFactory().GetProtocol(t)
		}
		return thrift.NewTCompactProtocol(t)
	case "json":
		if c.Fact == 1 {
			return thrift.NewTJSONProtocolFactory().GetProtocol(t)
		}
		return thrift.NewTJSONProtocol(t)
	case "sjson":
		if c.Fact == 1 {
			return thrift.NewTSimpleJSONProtocolFactory().GetProtocol(t)
		}
		return thrift.NewTSimpleJSONProtocol(t)
	}
	panic("unknown protocol " + c.Proto)
}

func init() {
	kinds["w"] = runWrite
	kinds["r"] = runRead
}

func i16(b B) int16 { return int16(binary.BigEndian.Uint16(b)) }
func i32(b B) int32 { return int32(binary.BigEndian.Uint32(b)) }
func i64(b B) int64 { return int64(binary.BigEndian.Uint64(b)) }
func b16(v int16) B { b := make(B, 2); binary.BigEndian.PutUint16(b, uint16(v)); return b }
func b32(v int32) B { b := make(B, 4); binary.BigEndian.PutUint32(b, uint32(v)); return b }
func b64(v int64) B { b := make(B, 8); binary.BigEndian.PutUint64(b, uint64(v)); return b }
func bd(v float64) B {
	return b64(int64(math.Float64bits(v)))
}

// noNil turns a nil library exception into a nil error.
func noNil(e thrift.TProtocolException) error {
	if e == nil {
		return nil
	}
	return e
}

func doWrite(p thrift.TProtocol, o *Op) error {
	tt := thrift.TType(byte(o.T))
	switch o.O {
	case "MsgB":
		return noNil(p.WriteMessageBegin(string(o.Name), thrift.TMessageType(byte(o.T)), i32(o.V)))
	case "MsgE":
		return noNil(p.WriteMessageEnd())
	case "StrB":
		return noNil(p.WriteStructBegin(string(o.Name)))
	case "StrE":
		return noNil(p.WriteStructEnd())
	case "FldB":
		return noNil(p.WriteFieldBegin(string(o.Name), tt, int16(o.ID)))
	case "FldE":
		return noNil(p.WriteFieldEnd())
	case "Stop":
		return noNil(p.WriteFieldStop())
	case "MapB":
		return noNil(p.WriteMapBegin(thrift.TType(byte(o.KT)), tt, o.N))
	case "MapE":
		return noNil(p.WriteMapEnd())
	case "LstB":
		return noNil(p.WriteListBegin(tt, o.N))
	case "LstE":
		return noNil(p.WriteListEnd())
	case "SetB":
		return noNil(p.WriteSetBegin(tt, o.N))
	case "SetE":
		return noNil(p.WriteSetEnd())
	case "Bool":
		return noNil(p.WriteBool(o.N == 1))
	case "Byte":
		return noNil(p.WriteByte(byte(o.N)))
	case "I16":
		return noNil(p.WriteI16(i16(o.V)))
	case "I32":
		return noNil(p.WriteI32(i32(o.V)))
	case "I64":
		return noNil(p.WriteI64(i64(o.V)))
	case "Dbl":
		return noNil(p.WriteDouble(math.Float64frombits(uint64(i64(o.V)))))
	case "Str":
		return noNil(p.WriteString(string(o.V)))
	case "Bin":
		return noNil(p.WriteBinary(append([]byte{}, o.V...)))
	case "AxW":
		return o.exception().Write(p)
	case "Flush":
		return noNil(p.Flush())
	}
	panic("unknown op " + o.O)
}

// exception makes an application exception by the constructor named.
func (o *Op) exception() thrift.TApplicationException {
	switch o.Ctor {
	case "full":
		return thrift.NewTApplicationException(i32(o.K), string(o.V))
	case "type":
		return thrift.NewTApplicationExceptionType(i32(o.K))
	case "message":
		return thrift.NewTApplicationExceptionMessage(string(o.V))
	case "default":
		return thrift.NewTApplicationExceptionDefault()
	}
	panic("unknown constructor " + o.Ctor)
}

func (o *Op) event() M {
	ev := M{"o": o.O}
	switch o.O {
	case "MsgB":
		ev["name"], ev["t"], ev["v"] = o.Name, o.T, o.V
	case "StrB":
		ev["name"] = o.Name
	case "FldB":
		ev["name"], ev["t"], ev["id"] = o.Name, o.T, o.ID
	case "MapB":
		ev["kt"], ev["t"], ev["n"] = o.KT, o.T, o.N
	case "LstB", "SetB":
		ev["t"], ev["n"] = o.T, o.N
	case "Bool", "Byte":
		ev["n"] = o.N
	case "I16", "I32", "I64", "Dbl", "Str", "Bin":
		ev["v"] = o.V
	case "AxW":
		ev["ctor"], ev["k"], ev["v"] = o.Ctor, o.K, o.V
	}
	return ev
}

func runWrite(raw []byte, r *Rec) M {
	var c CodecCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	m := c.trans()
	var t thrift.TTransport = m
	t = wrapTransport(c.Wrap, t)
	p := c.protocol(t)
	for i := range c.Ops {
		o := &c.Ops[i]
		ev := o.event()
		res := r.call(ev, func(ev M) error { return doWrite(p, o) })
		if o.O == "Flush" {
			ev["n"] = len(m.out)
		}
		if res >= PANIC || (res == ERR && c.FailW == 0 && c.FailF == 0) {
			break
		}
	}
	out := B(m.out)
	if out == nil {
		out = B{}
	}
	return M{"kind": "w", "proto": c.Proto, "sw": c.SW, "sr": c.SR, "wire": out, "rem": -1}
}

// wrapTransport puts the named wrapper(s) around a transport.
func wrapTransport(name string, t thrift.TTransport) thrift.TTransport {
	switch name {
	case "":
		return t
	case "framed":
		return thrift.NewTFramedTransport(t)
	case "framed2":
		return thrift.NewTFramedTransport(thrift.NewTFramedTransport(t))
	case "iorw":
		return thrift.NewTIOStreamTransportRW(t)
	case "iorandw":
		return thrift.NewTIOStreamTransportRAndW(t, t)
	}
	panic("unknown wrap " + name)
}

type reader struct {
	p      thrift.TProtocol
	r      *Rec
	ord    int
	skips  map[int]bool
	depth  int
	budget int
	alt    int
}

// val reads one value of type t; false: stop the case.
func (x *reader) val(t int) bool {
	x.ord++
	x.budget--
	if x.budget < 0 || t == thrift.STOP {
		x.budget = -1
		return false
	}
	if x.skips[x.ord] {
		return x.skip(t)
	}
	p := x.p
	ok := func(ev M, f func(ev M) error) bool { return x.r.call(ev, f) == OK }
	switch t {
	case thrift.BOOL:
		return ok(M{"o": "RBool"}, func(ev M) error {
			v, e := p.ReadBool()
			ev["n"] = b2i(v)
			return noNil(e)
		})
	case thrift.BYTE:
		return ok(M{"o": "RByte"}, func(ev M) error { v, e := p.ReadByte(); ev["n"] = int(v); return noNil(e) })
	case thrift.I16:
		return ok(M{"o": "RI16"}, func(ev M) error { v, e := p.ReadI16(); ev["v"] = b16(v); return noNil(e) })
	case thrift.I32:
		return ok(M{"o": "RI32"}, func(ev M) error { v, e := p.ReadI32(); ev["v"] = b32(v); return noNil(e) })
	case thrift.I64:
		return ok(M{"o": "RI64"}, func(ev M) error { v, e := p.ReadI64(); ev["v"] = b64(v); return noNil(e) })
	case thrift.DOUBLE:
		return ok(M{"o": "RDbl"}, func(ev M) error { v, e := p.ReadDouble(); ev["v"] = bd(v); return noNil(e) })
	case thrift.STRING:
		if x.alt > 0 && (x.ord+x.alt)%2 == 0 {
			return x.scalarBinary()
		}
		return ok(M{"o": "RStr"}, func(ev M) error { v, e := p.ReadString(); ev["v"] = B(v); return noNil(e) })
	case thrift.BINARY:
		return x.scalarBinary()
	case thrift.STRUCT:
		if !ok(M{"o": "RStrB"}, func(ev M) error { s, e := p.ReadStructBegin(); ev["name"] = B(s); return noNil(e) }) {
			return false
		}
		for {
			ft := 0
			if !ok(M{"o": "RFldB"}, func(ev M) error {
				n, t, id, e := p.ReadFieldBegin()
				ev["name"], ev["t"], ev["id"] = B(n), int(t), int(id)
				ft = int(t)
				return noNil(e)
			}) {
				return false
			}
			if ft == thrift.STOP {
				break
			}
			if !x.val(ft) {
				return false
			}
			if !ok(M{"o": "RFldE"}, func(ev M) error { return noNil(p.ReadFieldEnd()) }) {
				return false
			}
		}
		return ok(M{"o": "RStrE"}, func(ev M) error { return noNil(p.ReadStructEnd()) })
	case thrift.MAP:
		kt, vt, n := 0, 0, 0
		if !ok(M{"o": "RMapB"}, func(ev M) error {
			k, v, s, e := p.ReadMapBegin()
			kt, vt, n = int(k), int(v), s
			ev["kt"], ev["t"], ev["n"] = kt, vt, n
			return noNil(e)
		}) {
			return false
		}
		for i := 0; i < n; i++ {
			if !x.val(kt) || !x.val(vt) {
				return false
			}
		}
		return ok(M{"o": "RMapE"}, func(ev M) error { return noNil(p.ReadMapEnd()) })
	case thrift.LIST, thrift.SET:
		et, n := 0, 0
		nm := "Lst"
		if t == thrift.SET {
			nm = "Set"
		}
		if !ok(M{"o": "R" + nm + "B"}, func(ev M) error {
			var v thrift.TType
			var s int
			var e thrift.TProtocolException
			if t == thrift.SET {
				v, s, e = p.ReadSetBegin()
			} else {
				v, s, e = p.ReadListBegin()
			}
			et, n = int(v), s
			ev["t"], ev["n"] = et, n
			return noNil(e)
		}) {
			return false
		}
		for i := 0; i < n; i++ {
			if !x.val(et) {
				return false
			}
		}
		return ok(M{"o": "R" + nm + "E"}, func(ev M) error {
			if t == thrift.SET {
				return noNil(p.ReadSetEnd())
			}
			return noNil(p.ReadListEnd())
		})
	}
	return x.skip(t)
}

// op makes one scripted read call.
func (x *reader) op(o *Op) bool {
	p := x.p
	ok := func(f func(ev M) error) bool { return x.r.call(M{"o": o.O}, f) == OK }
	switch o.O {
	case "RMsgB":
		return ok(func(ev M) error {
			n, t, q, e := p.ReadMessageBegin()
			ev["name"], ev["t"], ev["v"] = B(n), int(t), b32(q)
			return noNil(e)
		})
	case "RMsgE":
		return ok(func(ev M) error { return noNil(p.ReadMessageEnd()) })
	case "RStrB":
		return ok(func(ev M) error { s, e := p.ReadStructBegin(); ev["name"] = B(s); return noNil(e) })
	case "RStrE":
		return ok(func(ev M) error { return noNil(p.ReadStructEnd()) })
	case "RFldB":
		return ok(func(ev M) error {
			n, t, id, e := p.ReadFieldBegin()
			ev["name"], ev["t"], ev["id"] = B(n), int(t), int(id)
			return noNil(e)
		})
	case "RFldE":
		return ok(func(ev M) error { return noNil(p.ReadFieldEnd()) })
	case "RMapB":
		return ok(func(ev M) error {
			k, v, s, e := p.ReadMapBegin()
			ev["kt"], ev["t"], ev["n"] = int(k), int(v), s
			return noNil(e)
		})
	case "RMapE":
		return ok(func(ev M) error { return noNil(p.ReadMapEnd()) })
	case "RLstB":
		return ok(func(ev M) error { t, s, e := p.ReadListBegin(); ev["t"], ev["n"] = int(t), s; return noNil(e) })
	case "RLstE":
		return ok(func(ev M) error { return noNil(p.ReadListEnd()) })
	case "RSetB":
		return ok(func(ev M) error { t, s, e := p.ReadSetBegin(); ev["t"], ev["n"] = int(t), s; return noNil(e) })
	case "RSetE":
		return ok(func(ev M) error { return noNil(p.ReadSetEnd()) })
	case "RBin":
		return x.scalarBinary()
	case "RAx":
		return ok(func(ev M) error {
			// whatever the reading object was made with does not matter
			e, err := o.exception().Read(p)
			if err != nil {
				return err
			}
			ev["k"], ev["v"] = b32(e.TypeId()), B(e.Error())
			return nil
		})
	case "RSkip":
		return x.skip(o.T)
	}
	t, found := map[string]int{"RBool": thrift.BOOL, "RByte": thrift.BYTE, "RI16": thrift.I16, "RI32": thrift.I32,
		"RI64": thrift.I64, "RDbl": thrift.DOUBLE, "RStr": thrift.STRING}[o.O]
	if !found {
		panic("unknown read call " + o.O)
	}
	alt := x.alt
	x.alt = 0
	defer func() { x.alt = alt }()
	return x.val(t)
}

func (x *reader) scalarBinary() bool {
	return x.r.call(M{"o": "RBin"}, func(ev M) error {
		v, e := x.p.ReadBinary()
		if v == nil {
			v = []byte{}
		}
		ev["v"] = B(v)
		return noNil(e)
	}) == OK
}

func (x *reader) skip(t int) bool {
	d := x.depth
	if d == 0 {
		d = 1000000
	}
	return x.r.call(M{"o": "RSkip", "t": t, "d": d}, func(ev M) error {
		return noNil(x.p.Skip(thrift.TType(byte(t))))
	}) == OK
}

func b2i(v bool) int {
	if v {
		return 1
	}
	return 0
}

func runRead(raw []byte, r *Rec) M {
	var c CodecCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	if c.Wire == nil {
		c.Wire = B{}
	}
	m := c.trans()
	x := readSteps(&c, c.protocol(wrapTransport(c.Wrap, m)), r)
	rem := len(m.in) - m.pos
	if x.budget < 0 || c.Wrap != "" || c.Proto == "json" || c.Proto == "sjson" {
		rem = -1
	}
	return M{"kind": "r", "proto": c.Proto, "sw": c.SW, "sr": c.SR, "wire": c.Wire, "rem": rem}
}

// readSteps makes the scripted reads of a case.
func readSteps(c *CodecCase, p thrift.TProtocol, r *Rec) *reader {
	if c.Depth > 0 {
		old := thrift.MaxSkipDepth
		thrift.SetMaxSkipDepth(c.Depth)
		defer thrift.SetMaxSkipDepth(old)
	}
	x := &reader{p: p, r: r, skips: map[int]bool{}, depth: c.Depth, budget: 8000, alt: c.Alt}
	if c.Budget > 0 {
		x.budget = c.Budget
	}
	for _, s := range c.Skips {
		x.skips[s] = true
	}
	for _, s := range c.Steps {
		good := true
		switch s.K {
		case "msg":
			good = r.call(M{"o": "RMsgB"}, func(ev M) error {
				n, t, q, e := p.ReadMessageBegin()
				ev["name"], ev["t"], ev["v"] = B(n), int(t), b32(q)
				return noNil(e)
			}) == OK
		case "msge":
			good = r.call(M{"o": "RMsgE"}, func(ev M) error { return noNil(p.ReadMessageEnd()) }) == OK
		case "val":
			good = x.val(s.T)
		case "ops":
			for i := range s.Ops {
				if good = x.op(&s.Ops[i]); !good {
					break
				}
			}
		case "skip":
			good = x.skip(s.T)
		}
		if !good {
			break
		}
	}
	return x
}
