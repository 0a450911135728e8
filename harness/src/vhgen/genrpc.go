// Driver for generated clients and processors, joined by a transport in memory.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"strings"

	"thrift"
)

// genHandler stands behind the generated processor: it notes what it is called
// with and answers as told.
type genHandler struct {
	c     *genRpcCase
	calls []M
	out   []GV // answers to come: structs <method>_result
	err   []bool
}

// genService makes the generated processor and client of a service; filled by
// the registry.
type genService struct {
	proc   func(h *genHandler) thrift.TProcessor
	client func(t thrift.TTransport, f thrift.TProtocolFactory) interface{}
	given  func(t thrift.TTransport, in, out thrift.TProtocol) interface{}
}

var genSvc = map[string]genService{}

type genRpcFn struct {
	Oneway bool   `json:"oneway"`
	Void   bool   `json:"void"`
	Go     string `json:"go"`
}
type genRpcCase struct {
	genCase
	Svc   string              `json:"svc"`
	Prot  string              `json:"prot"`
	Lazy  bool                `json:"lazy"`
	Given bool                `json:"given"` // the client gets its protocols, not a factory
	Fns   map[string]genRpcFn `json:"fns"`
	Ops   []struct {
		O      string `json:"o"`
		M      string `json:"m"`
		A      GV     `json:"a"`
		X      GV     `json:"x"`
		Err    bool   `json:"err"`
		Drop   bool   `json:"drop"`
		Skew   bool   `json:"skew"`
		By     int32  `json:"by"`
		Garble bool   `json:"garble"` // a field in the request that cannot be read
		Fail   bool   `json:"fail"`   // nothing can be sent
		Cut    int    `json:"cut"`
	} `json:"ops"`
}

const genMsg = "what went wrong \"here\""

func (h *genHandler) handle(m string, args []interface{}, outs ...interface{}) {
	a := vv("STRUCT", m+"_args")
	for i, f := range h.c.Env[m+"_args"] {
		a.A = append(a.A, h.c.dump(args[i], f.T))
	}
	h.calls = append(h.calls, M{"m": m, "a": a})
	if len(h.out) == 0 {
		return
	}
	x, fail := h.out[0], h.err[0]
	h.out, h.err = h.out[1:], h.err[1:]
	for i := range x.A {
		h.c.setValue(reflect.ValueOf(outs[i]).Elem(), x.A[i])
	}
	if fail {
		*(outs[len(outs)-1].(*error)) = errors.New(genMsg)
	}
}

// pipe is one end of a connection in memory.
type pipe struct {
	in, pend *bytes.Buffer
	flush    func(b []byte)
	dry      func()
	fail     bool
}

func (p *pipe) Open() error  { return nil }
func (p *pipe) Close() error { return nil }
func (p *pipe) IsOpen() bool { return true }
func (p *pipe) Peek() bool   { return true }
func (p *pipe) Read(b []byte) (int, error) {
	if p.in.Len() == 0 && p.dry != nil {
		p.dry()
	}
	if p.in.Len() == 0 {
		return 0, thrift.NewTTransportExceptionFromOsError(io.EOF)
	}
	return p.in.Read(b)
}
func (p *pipe) ReadAll(b []byte) (int, error) { return thrift.ReadAllTransport(p, b) }
func (p *pipe) Write(b []byte) (int, error) {
	if p.fail {
		return 0, thrift.NewTTransportException(thrift.NOT_OPEN, "broken")
	}
	return p.pend.Write(b)
}
func (p *pipe) Flush() error {
	if p.fail {
		return thrift.NewTTransportException(thrift.NOT_OPEN, "broken")
	}
	b := append([]byte{}, p.pend.Bytes()...)
	p.pend.Reset()
	p.flush(b)
	return nil
}

type protFactory string

func (f protFactory) GetProtocol(t thrift.TTransport) thrift.TProtocol { return realProt(string(f), t) }

// tree reads one value of a type from a protocol that carries types.
func tree(p thrift.TProtocol, t thrift.TType) (v GV, err error) {
	try := func(e thrift.TProtocolException) {
		if e != nil && err == nil {
			err = e
		}
	}
	sub := func(t thrift.TType) GV {
		if err != nil {
			return vnil
		}
		x, e := tree(p, t)
		if e != nil && err == nil {
			err = e
		}
		return x
	}
	scalar := func(x interface{}, e thrift.TProtocolException) GV {
		try(e)
		if b, ok := x.([]byte); ok && b == nil {
			x = []byte{}
		}
		g := (&genCase{}).dump(x, GT{})
		g.T = wname(g.T)
		return g
	}
	switch t {
	case thrift.BOOL:
		x, e := p.ReadBool()
		return scalar(x, e), err
	case thrift.BYTE:
		x, e := p.ReadByte()
		return scalar(x, e), err
	case thrift.I16:
		x, e := p.ReadI16()
		return scalar(x, e), err
	case thrift.I32:
		x, e := p.ReadI32()
		return scalar(x, e), err
	case thrift.I64:
		x, e := p.ReadI64()
		return scalar(x, e), err
	case thrift.DOUBLE:
		x, e := p.ReadDouble()
		return scalar(x, e), err
	case thrift.STRING:
		x, e := p.ReadBinary()
		return scalar(x, e), err
	case thrift.LIST, thrift.SET:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if t == thrift.LIST {
			et, n, e = p.ReadListBegin()
		} else {
			et, n, e = p.ReadSetBegin()
		}
		try(e)
		v = vv(ttname(t), wname(ttname(et)))
		for i := 0; i < n && err == nil; i++ {
			v.A = append(v.A, sub(et))
		}
	case thrift.MAP:
		k, w, n, e := p.ReadMapBegin()
		try(e)
		v = vv("MAP", wname(ttname(k))+":"+wname(ttname(w)))
		if n == 0 { // one of the protocols has no types for these
			v.V = ""
		}
		for i := 0; i < n && err == nil; i++ {
			v.A = append(v.A, sub(k))
			v.A = append(v.A, sub(w))
		}
	case thrift.STRUCT:
		_, e := p.ReadStructBegin()
		try(e)
		v = vv("STRUCT", "")
		for err == nil {
			_, ft, id, e := p.ReadFieldBegin()
			try(e)
			if err != nil || ft == thrift.STOP {
				break
			}
			f := vv("FIELD", "", sub(ft))
			f.I = int(id)
			v.A = append(v.A, f)
			try(p.ReadFieldEnd())
		}
		try(p.ReadStructEnd())
	default:
		return vnil, errors.New("no such type")
	}
	v.I = 0
	return v, err
}

// message tells what is in the bytes of one message.
func (c *genRpcCase) message(b []byte) M {
	if len(b) == 0 {
		return M{"n": "", "ty": 0, "seq": 0, "w": vnil, "bad": ""}
	}
	buf := thrift.NewTMemoryBuffer()
	buf.Write(b)
	p := realProt(c.Prot, buf)
	n, ty, seq, err := p.ReadMessageBegin()
	m := M{"n": n, "ty": int(ty), "seq": int(seq), "w": vnil, "bad": ""}
	if err != nil {
		m["bad"] = "no message"
		return m
	}
	if c.Prot == "binary" || c.Prot == "compact" {
		w, e := tree(p, thrift.STRUCT)
		if e == nil {
			e = func() error {
				if x := p.ReadMessageEnd(); x != nil {
					return x
				}
				return nil
			}()
		}
		if e != nil {
			m["bad"] = "not well-formed"
		} else if buf.Len() != 0 {
			m["bad"] = "more than one message"
		}
		if ty != thrift.EXCEPTION {
			m["w"] = w
		}
	}
	return m
}

func runGenRpc(raw []byte, r *Rec) M {
	var c genRpcCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	svc, ok := genSvc[c.Prog+"."+c.Svc]
	if !ok {
		panic("no service " + c.Svc)
	}
	h := &genHandler{c: &c}
	var reqs, reps, req, rep bytes.Buffer // on the way; of this call
	cut, served := 0, 0
	srv := &pipe{in: &reqs, pend: new(bytes.Buffer), flush: func(b []byte) {
		rep.Write(b)
		if cut > 0 && cut < len(b) {
			b = b[:len(b)-cut]
		} else if cut > 0 {
			b = nil
		}
		reps.Write(b)
	}}
	proc := svc.proc(h)
	sin, sout := realProt(c.Prot, srv), realProt(c.Prot, srv)
	serve := func() {
		for reqs.Len() > 0 && served < 50 {
			served++
			n := reqs.Len()
			proc.Process(sin, sout)
			if reqs.Len() == n { // buffered by the protocol, or stuck
				break
			}
		}
	}
	// with a protocol that reads ahead, messages may be left in its buffer
	want := 0
	drain := func() {
		serve()
		for len(h.calls) < want && served < 50 {
			served++
			proc.Process(sin, sout)
		}
	}
	cl := &pipe{in: &reps, pend: new(bytes.Buffer), dry: drain}
	garble := false
	cl.flush = func(b []byte) {
		req.Write(b)
		if garble { // before the first field; binary protocol
			k := 12 + int(b[7])
			b = append(append(append([]byte{}, b[:k]...), 0x55, 0x27, 0x0f), b[k:]...)
		}
		reqs.Write(b)
		if !c.Lazy {
			drain()
		}
	}
	var made interface{}
	if c.Given {
		made = svc.given(cl, realProt(c.Prot, cl), realProt(c.Prot, cl))
	} else {
		made = svc.client(cl, protFactory(c.Prot))
	}
	client := reflect.ValueOf(made)
	for i := range c.Ops {
		op := &c.Ops[i]
		fn := c.Fns[op.M]
		ev := M{"o": op.O, "m": op.M, "a": op.A, "x": op.X, "err": op.Err, "drop": op.Drop, "skew": op.Skew, "cut": op.Cut, "fail": op.Fail, "garble": op.Garble}
		req.Reset()
		rep.Reset()
		served = 0
		if !c.Lazy {
			h.calls, h.out, h.err = nil, nil, nil
			want = 0
		}
		res := r.call(ev, func(ev M) error {
			defer func() {
				calls := h.calls
				if calls == nil {
					calls = []M{}
				}
				ev["handled"] = calls
				ev["req"], ev["rep"] = c.message(req.Bytes()), c.message(rep.Bytes())
				ev["left"] = reqs.Len() + reps.Len()
			}()
			if op.O == "Drain" {
				drain()
				return nil
			}
			cl.fail, garble = op.Fail, op.Garble
			if !op.Drop && !op.Fail && !op.Garble {
				h.out, h.err = append(h.out, op.X), append(h.err, op.Err)
				want++
			}
			if op.Drop {
				pm := proc.(interface {
					ProcessorMap() map[string]thrift.TProcessorFunction
				}).ProcessorMap()
				old := pm[op.M]
				delete(pm, op.M)
				defer func() { pm[op.M] = old }()
			}
			cut = op.Cut
			call := func(name string, args []reflect.Value) []reflect.Value {
				f := client.MethodByName(name)
				if !f.IsValid() {
					panic("no client method " + name)
				}
				if args != nil {
					for k, x := range op.A.A {
						v := reflect.New(f.Type().In(k)).Elem()
						c.setValue(v, x)
						args = append(args, v)
					}
				}
				return f.Call(args)
			}
			var outs []reflect.Value
			if op.Skew {
				call("Send"+fn.Go, []reflect.Value{})
				client.Elem().FieldByName("SeqId").SetInt(client.Elem().FieldByName("SeqId").Int() + int64(op.By))
				outs = call("Recv"+fn.Go, nil)
			} else {
				outs = call(fn.Go, []reflect.Value{})
			}
			e, _ := outs[len(outs)-1].Interface().(error)
			ev["ce"], ev["code"], ev["told"] = 0, 0, false
			if e != nil {
				ev["ce"], ev["told"] = 1, strings.Contains(e.Error(), genMsg)
				if x, ok := e.(thrift.TApplicationException); ok {
					ev["ce"], ev["code"] = 2, int(x.TypeId())
				}
			}
			y := vv("STRUCT", op.M+"_result")
			if !fn.Oneway {
				for k, f := range c.Env[op.M+"_result"] {
					y.A = append(y.A, c.dump(outs[k].Interface(), f.T))
				}
			}
			ev["y"] = y
			return nil
		})
		if c.Lazy && (len(h.calls) > 0 || !fn.Oneway) {
			want -= len(h.calls)
			h.calls = nil
		}
		if res != OK || op.Cut > 0 || op.Skew || op.Fail || op.Garble {
			return M{}
		}
	}
	return M{}
}

func init() { kinds["genrpc"] = runGenRpc }
