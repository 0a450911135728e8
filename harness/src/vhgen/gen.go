// Driver for generated code.  This file is built together with the files of
// package vh and with a registry (reg.go) that tools/idl.py writes for the
// packages the generator has produced; see checks_gen.py.
package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"thrift"
)

// V is a value, in memory or on the wire: t its type, v its scalar (or the
// element types of a container, the name of a struct or field), a its parts, i
// the id of a field.
type GV struct {
	T string `json:"t"`
	V string `json:"v"`
	A []GV   `json:"a"`
	I int    `json:"i"`
}

func vv(t, v string, a ...GV) GV {
	if a == nil {
		a = []GV{}
	}
	return GV{T: t, V: v, A: a}
}

var vnil = vv("NIL", "")

// GT is a declared type, GF a declared field.
type GT struct {
	K string `json:"k"`
	N string `json:"n"`
	A []GT   `json:"a"`
}
type GF struct {
	I int    `json:"i"`
	N string `json:"n"`
	T GT     `json:"t"`
}

type genStruct interface {
	thrift.TStruct
	Read(thrift.TProtocol) thrift.TProtocolException
	Write(thrift.TProtocol) thrift.TProtocolException
	CompareTo(interface{}) (int, bool)
}

// genNew makes new objects, by program and struct; filled by the registry.
var genNew = map[string]func() genStruct{}

// genConst gives the declared constants.
var genConst = map[string]func() interface{}{}

var ttypes = map[string]thrift.TType{"BOOL": thrift.BOOL, "BYTE": thrift.BYTE, "I16": thrift.I16, "I32": thrift.I32, "I64": thrift.I64, "DOUBLE": thrift.DOUBLE,
	"STRING": thrift.STRING, "BINARY": thrift.BINARY, "STRUCT": thrift.STRUCT, "LIST": thrift.LIST, "SET": thrift.SET, "MAP": thrift.MAP, "ENUM": thrift.I32}
var ttnames = map[thrift.TType]string{}

func init() {
	for n, t := range ttypes {
		if n != "ENUM" {
			ttnames[t] = n
		}
	}
	kinds["gen"] = runGen
}
func ttname(t thrift.TType) string {
	if n, ok := ttnames[t]; ok {
		return n
	}
	return fmt.Sprint("T", int(t))
}
func wname(n string) string {
	if n == "BINARY" {
		return "STRING"
	}
	return n
}
func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}
func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func bits(s string) float64 {
	n, err := strconv.ParseUint(s, 16, 64)
	if err != nil {
		panic(err)
	}
	return math.Float64frombits(n)
}
func sbits(x float64) string { return fmt.Sprintf("%016x", math.Float64bits(x)) }

type genCase struct {
	Prog string          `json:"prog"`
	Env  map[string][]GF `json:"env"`
	Ops  []struct {
		O    string `json:"o"`
		S    string `json:"s"`
		F    int    `json:"f"`
		V    GV     `json:"v"`
		W    GV     `json:"w"`
		Mode string `json:"mode"`
		P    string `json:"p"`
		All  bool   `json:"all"`
		T    GT     `json:"t"`
	} `json:"ops"`
}

// goval makes the value that a container holds for v.
func (c *genCase) goval(v GV) interface{} {
	switch v.T {
	case "BOOL":
		return v.V == "1"
	case "BYTE":
		return byte(atoi(v.V))
	case "I16":
		return int16(atoi(v.V))
	case "I32", "ENUM":
		return int32(atoi(v.V))
	case "I64":
		return atoi(v.V)
	case "DOUBLE":
		return bits(v.V)
	case "STRING":
		return string(unhex(v.V))
	case "BINARY":
		return unhex(v.V)
	case "LIST":
		l := thrift.NewTList(ttypes[v.V], len(v.A))
		for _, x := range v.A {
			l.Push(c.goval(x))
		}
		return l
	case "SET":
		l := thrift.NewTSet(ttypes[v.V], len(v.A))
		for _, x := range v.A {
			l.Add(c.goval(x))
		}
		return l
	case "MAP":
		var k, e string
		for i := range v.V {
			if v.V[i] == ':' {
				k, e = v.V[:i], v.V[i+1:]
			}
		}
		m := thrift.NewTMap(ttypes[k], ttypes[e], len(v.A)/2)
		for i := 0; i+1 < len(v.A); i += 2 {
			m.Set(c.goval(v.A[i]), c.goval(v.A[i+1]))
		}
		return m
	case "STRUCT":
		return c.object(v)
	}
	panic("goval " + v.T)
}

func (c *genCase) object(v GV) genStruct {
	o := genNew[c.Prog+"."+v.V]()
	for i, x := range v.A {
		c.set(o, v.V, i, x)
	}
	return o
}

// field finds the Go field of a declared field: its tag is the declared name.
func field(o genStruct, name string) reflect.Value {
	rv := reflect.ValueOf(o).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if string(rv.Type().Field(i).Tag) == name {
			return rv.Field(i)
		}
	}
	return reflect.Value{}
}

func (c *genCase) set(o genStruct, s string, i int, v GV) {
	f := field(o, c.Env[s][i].N)
	if !f.IsValid() {
		panic("struct " + s + " has no field " + c.Env[s][i].N)
	}
	c.setValue(f, v)
}

func (c *genCase) setValue(f reflect.Value, v GV) {
	switch v.T {
	case "NIL":
		f.Set(reflect.Zero(f.Type()))
	case "ENUM":
		n := int64(math.MinInt32 - 1)
		if v.V != "UNSET" {
			n = atoi(v.V)
		}
		f.SetInt(n)
	case "BOOL":
		f.SetBool(v.V == "1")
	case "BYTE":
		f.SetUint(uint64(atoi(v.V)))
	case "I16", "I32", "I64":
		f.SetInt(atoi(v.V))
	case "DOUBLE":
		f.SetFloat(bits(v.V))
	case "STRING":
		f.SetString(string(unhex(v.V)))
	case "BINARY":
		f.SetBytes(unhex(v.V))
	default:
		f.Set(reflect.ValueOf(c.goval(v)))
	}
}

// dump tells what a Go value holds, given what it is declared to be.
func (c *genCase) dump(x interface{}, t GT) GV {
	rv := reflect.ValueOf(x)
	if x == nil || (rv.Kind() == reflect.Ptr || rv.Kind() == reflect.Slice) && rv.IsNil() {
		return vnil
	}
	switch y := x.(type) {
	case thrift.TList:
		e := GT{}
		if t.K == "LIST" {
			e = t.A[0]
		}
		v := vv("LIST", ttname(y.ElemType()))
		for i := 0; i < y.Len(); i++ {
			v.A = append(v.A, c.dump(y.At(i), e))
		}
		return v
	case thrift.TSet:
		e := GT{}
		if t.K == "SET" {
			e = t.A[0]
		}
		v := vv("SET", ttname(y.ElemType()))
		for _, z := range y.Values() {
			v.A = append(v.A, c.dump(z, e))
		}
		return v
	case thrift.TMap:
		k, e := GT{}, GT{}
		if t.K == "MAP" {
			k, e = t.A[0], t.A[1]
		}
		v := vv("MAP", ttname(y.KeyType())+":"+ttname(y.ValueType()))
		for _, z := range y.Keys() {
			w, _ := y.Get(z)
			v.A = append(v.A, c.dump(z, k), c.dump(w, e))
		}
		return v
	case genStruct:
		v := vv("STRUCT", t.N)
		for _, f := range c.Env[t.N] {
			fv := field(y, f.N)
			if !fv.IsValid() {
				v.A = append(v.A, vv("MISSING", f.N))
			} else {
				v.A = append(v.A, c.dump(fv.Interface(), f.T))
			}
		}
		return v
	}
	switch rv.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			return vv("BOOL", "1")
		}
		return vv("BOOL", "0")
	case reflect.Uint8:
		return vv("BYTE", fmt.Sprint(rv.Uint()))
	case reflect.Int16:
		return vv("I16", fmt.Sprint(rv.Int()))
	case reflect.Int32:
		if t.K == "ENUM" {
			return vv("ENUM", fmt.Sprint(rv.Int()))
		}
		return vv("I32", fmt.Sprint(rv.Int()))
	case reflect.Int64:
		if t.K == "ENUM" {
			if rv.Int() == math.MinInt32-1 {
				return vv("ENUM", "UNSET")
			}
			return vv("ENUM", fmt.Sprint(rv.Int()))
		}
		return vv("I64", fmt.Sprint(rv.Int()))
	case reflect.Float64:
		return vv("DOUBLE", sbits(rv.Float()))
	case reflect.String:
		return vv("STRING", hex.EncodeToString([]byte(rv.String())))
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return vv("BINARY", hex.EncodeToString(rv.Bytes()))
		}
	}
	return vv(fmt.Sprintf("GO:%T", x), "")
}

// ---- a protocol that records the tree it is told, or tells one ----

var errPlanned = errors.New("planned failure")

type gframe struct {
	k     string // one, struct, field, list
	v     *GV
	t     []string // element types
	n     int      // values so far
	size  int
	ended bool
}
type treeProt struct {
	fr    []*gframe
	out   *GV
	bad   string
	calls int
	fail  int // the call that fails, -1: none
	after int
	err   thrift.TProtocolException
	names bool
	trans thrift.TTransport
}

func newTree(fail int) *treeProt {
	p := &treeProt{fail: fail, trans: thrift.NewTMemoryBuffer()}
	p.fr = []*gframe{{k: "one", size: 1}}
	return p
}
func (p *treeProt) note(f string, a ...interface{}) thrift.TProtocolException {
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
	return thrift.NewTProtocolException(thrift.INVALID_DATA, p.bad)
}
func (p *treeProt) step() thrift.TProtocolException {
	p.calls++
	if p.fail >= 0 && p.calls > p.fail+1 {
		p.after++
	}
	if p.calls == p.fail+1 {
		p.err = thrift.NewTProtocolExceptionFromOsError(errPlanned)
		return p.err
	}
	return nil
}
func (p *treeProt) top() *gframe   { return p.fr[len(p.fr)-1] }
func (p *treeProt) push(f *gframe) { p.fr = append(p.fr, f) }
func (p *treeProt) pop()           { p.fr = p.fr[:len(p.fr)-1] }

// room says whether a value of type t may come next.
func (p *treeProt) room(t string) thrift.TProtocolException {
	f := p.top()
	if f.k == "struct" {
		return p.note("a value outside a field")
	}
	if f.n >= f.size {
		return p.note("one value too many in a %s", f.k)
	}
	if len(f.t) > 0 {
		if want := f.t[f.n%len(f.t)]; wname(want) != wname(t) {
			return p.note("a %s where a %s was announced", t, want)
		}
	}
	return nil
}
func (p *treeProt) put(v GV) {
	f := p.top()
	f.n++
	if f.v == nil {
		p.out = &v
	} else {
		f.v.A = append(f.v.A, v)
	}
}
func (p *treeProt) leaf(t, s string) thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	if e := p.room(t); e != nil {
		return e
	}
	p.put(vv(wname(t), s))
	return nil
}
func (p *treeProt) open(k string, v GV, size int, t ...string) thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	if e := p.room(v.T); e != nil {
		return e
	}
	p.push(&gframe{k: k, v: &v, t: t, size: size})
	return nil
}
func (p *treeProt) close(k, t string) thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	f := p.top()
	if f.k != k || f.v.T != t {
		return p.note("end of a %s in a %s", t, f.k)
	}
	if f.k != "struct" && f.n != f.size {
		return p.note("%d values where %d were announced", f.n, f.size)
	}
	if f.k == "struct" && !f.ended {
		return p.note("no field stop")
	}
	p.pop()
	if k == "field" {
		f.v.T = "FIELD"
	}
	p.put(*f.v)
	return nil
}
func (p *treeProt) WriteMessageBegin(name string, t thrift.TMessageType, seq int32) thrift.TProtocolException {
	return p.note("message")
}
func (p *treeProt) WriteMessageEnd() thrift.TProtocolException { return p.note("message") }
func (p *treeProt) WriteStructBegin(name string) thrift.TProtocolException {
	return p.open("struct", vv("STRUCT", name), 0)
}
func (p *treeProt) WriteStructEnd() thrift.TProtocolException { return p.close("struct", "STRUCT") }
func (p *treeProt) WriteFieldBegin(name string, t thrift.TType, id int16) thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	if f := p.top(); f.k != "struct" || f.ended {
		return p.note("a field in a %s", f.k)
	}
	v := vv("FIELD", name)
	v.I = int(id)
	p.push(&gframe{k: "field", v: &v, size: 1, t: []string{ttname(t)}})
	return nil
}
func (p *treeProt) WriteFieldEnd() thrift.TProtocolException { return p.close("field", "FIELD") }
func (p *treeProt) WriteFieldStop() thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	f := p.top()
	if f.k != "struct" || f.ended {
		return p.note("a field stop in a %s", f.k)
	}
	f.ended = true
	return nil
}
func (p *treeProt) WriteMapBegin(k, v thrift.TType, n int) thrift.TProtocolException {
	return p.open("list", vv("MAP", wname(ttname(k))+":"+wname(ttname(v))), 2*n, ttname(k), ttname(v))
}
func (p *treeProt) WriteMapEnd() thrift.TProtocolException { return p.close("list", "MAP") }
func (p *treeProt) WriteListBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.open("list", vv("LIST", wname(ttname(t))), n, ttname(t))
}
func (p *treeProt) WriteListEnd() thrift.TProtocolException { return p.close("list", "LIST") }
func (p *treeProt) WriteSetBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.open("list", vv("SET", wname(ttname(t))), n, ttname(t))
}
func (p *treeProt) WriteSetEnd() thrift.TProtocolException { return p.close("list", "SET") }
func (p *treeProt) WriteBool(x bool) thrift.TProtocolException {
	if x {
		return p.leaf("BOOL", "1")
	}
	return p.leaf("BOOL", "0")
}
func (p *treeProt) WriteByte(x byte) thrift.TProtocolException { return p.leaf("BYTE", fmt.Sprint(x)) }
func (p *treeProt) WriteI16(x int16) thrift.TProtocolException { return p.leaf("I16", fmt.Sprint(x)) }
func (p *treeProt) WriteI32(x int32) thrift.TProtocolException { return p.leaf("I32", fmt.Sprint(x)) }
func (p *treeProt) WriteI64(x int64) thrift.TProtocolException { return p.leaf("I64", fmt.Sprint(x)) }
func (p *treeProt) WriteDouble(x float64) thrift.TProtocolException {
	return p.leaf("DOUBLE", sbits(x))
}
func (p *treeProt) WriteString(x string) thrift.TProtocolException {
	return p.leaf("STRING", hex.EncodeToString([]byte(x)))
}
func (p *treeProt) WriteBinary(x []byte) thrift.TProtocolException {
	return p.leaf("BINARY", hex.EncodeToString(x))
}

// reading
func (p *treeProt) next(t string) (*GV, thrift.TProtocolException) {
	f := p.top()
	if f.k == "struct" {
		return nil, p.note("a %s read outside a field", t)
	}
	if f.n >= len(f.v.A) {
		return nil, p.note("a %s read past the end", t)
	}
	v := &f.v.A[f.n]
	if t != "" && wname(v.T) != wname(t) {
		return nil, p.note("a %s read where a %s stands", t, v.T)
	}
	f.n++
	return v, nil
}
func (p *treeProt) rleaf(t string) (string, thrift.TProtocolException) {
	if e := p.step(); e != nil {
		return "", e
	}
	v, e := p.next(t)
	if e != nil {
		return "", e
	}
	return v.V, nil
}
func (p *treeProt) ropen(k, t string) (*GV, thrift.TProtocolException) {
	if e := p.step(); e != nil {
		return nil, e
	}
	v, e := p.next(t)
	if e != nil {
		return nil, e
	}
	p.push(&gframe{k: k, v: v})
	return v, nil
}
func (p *treeProt) rclose(k, t string) thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	f := p.top()
	if f.k != k || f.v.T != t {
		return p.note("end of a %s read in a %s", t, f.k)
	}
	if f.n != len(f.v.A) {
		return p.note("end of a %s read before its end", t)
	}
	if k == "struct" && !f.ended {
		return p.note("end of a struct read before the stop")
	}
	p.pop()
	return nil
}
func (p *treeProt) ReadMessageBegin() (string, thrift.TMessageType, int32, thrift.TProtocolException) {
	return "", 0, 0, p.note("message")
}
func (p *treeProt) ReadMessageEnd() thrift.TProtocolException { return p.note("message") }
func (p *treeProt) ReadStructBegin() (string, thrift.TProtocolException) {
	_, e := p.ropen("struct", "STRUCT")
	return "", e
}
func (p *treeProt) ReadStructEnd() thrift.TProtocolException { return p.rclose("struct", "STRUCT") }
func (p *treeProt) ReadFieldBegin() (string, thrift.TType, int16, thrift.TProtocolException) {
	if e := p.step(); e != nil {
		return "", thrift.STOP, 0, e
	}
	f := p.top()
	if f.k != "struct" || f.ended {
		return "", thrift.STOP, 0, p.note("a field read in a %s", f.k)
	}
	if f.n == len(f.v.A) {
		f.ended = true
		return "", thrift.STOP, 0, nil
	}
	v := &f.v.A[f.n]
	f.n++
	p.push(&gframe{k: "field", v: v})
	if p.names {
		return v.V, thrift.GENERIC, -1, nil
	}
	return v.V, ttypes[v.A[0].T], int16(v.I), nil
}
func (p *treeProt) ReadFieldEnd() thrift.TProtocolException { return p.rclose("field", "FIELD") }
func (p *treeProt) ReadMapBegin() (thrift.TType, thrift.TType, int, thrift.TProtocolException) {
	v, e := p.ropen("list", "MAP")
	if e != nil {
		return 0, 0, 0, e
	}
	for i := range v.V {
		if v.V[i] == ':' {
			return ttypes[v.V[:i]], ttypes[v.V[i+1:]], len(v.A) / 2, nil
		}
	}
	panic("map")
}
func (p *treeProt) ReadMapEnd() thrift.TProtocolException { return p.rclose("list", "MAP") }
func (p *treeProt) ReadListBegin() (thrift.TType, int, thrift.TProtocolException) {
	v, e := p.ropen("list", "LIST")
	if e != nil {
		return 0, 0, e
	}
	return ttypes[v.V], len(v.A), nil
}
func (p *treeProt) ReadListEnd() thrift.TProtocolException { return p.rclose("list", "LIST") }
func (p *treeProt) ReadSetBegin() (thrift.TType, int, thrift.TProtocolException) {
	v, e := p.ropen("list", "SET")
	if e != nil {
		return 0, 0, e
	}
	return ttypes[v.V], len(v.A), nil
}
func (p *treeProt) ReadSetEnd() thrift.TProtocolException { return p.rclose("list", "SET") }
func (p *treeProt) ReadBool() (bool, thrift.TProtocolException) {
	s, e := p.rleaf("BOOL")
	return s == "1", e
}
func (p *treeProt) rint(t string) (int64, thrift.TProtocolException) {
	s, e := p.rleaf(t)
	if e != nil {
		return 0, e
	}
	return atoi(s), nil
}
func (p *treeProt) ReadByte() (byte, thrift.TProtocolException) {
	n, e := p.rint("BYTE")
	return byte(n), e
}
func (p *treeProt) ReadI16() (int16, thrift.TProtocolException) {
	n, e := p.rint("I16")
	return int16(n), e
}
func (p *treeProt) ReadI32() (int32, thrift.TProtocolException) {
	n, e := p.rint("I32")
	return int32(n), e
}
func (p *treeProt) ReadI64() (int64, thrift.TProtocolException) { return p.rint("I64") }
func (p *treeProt) ReadDouble() (float64, thrift.TProtocolException) {
	s, e := p.rleaf("DOUBLE")
	if e != nil {
		return 0, e
	}
	return bits(s), nil
}
func (p *treeProt) ReadString() (string, thrift.TProtocolException) {
	s, e := p.rleaf("STRING")
	return string(unhex(s)), e
}
func (p *treeProt) ReadBinary() ([]byte, thrift.TProtocolException) {
	s, e := p.rleaf("STRING")
	return unhex(s), e
}
func (p *treeProt) Skip(t thrift.TType) thrift.TProtocolException {
	if e := p.step(); e != nil {
		return e
	}
	_, e := p.next(ttname(t))
	return e
}
func (p *treeProt) Flush() thrift.TProtocolException { return p.step() }
func (p *treeProt) Transport() thrift.TTransport     { return p.trans }

func realProt(name string, t thrift.TTransport) thrift.TProtocol {
	switch name {
	case "binary":
		return thrift.NewTBinaryProtocolTransport(t)
	case "compact":
		return thrift.NewTCompactProtocol(t)
	case "json":
		return thrift.NewTJSONProtocol(t)
	case "simplejson":
		return thrift.NewTSimpleJSONProtocol(t)
	}
	panic("protocol " + name)
}

// ks limits the calls at which a failure is tried.
func ks(n int, all bool, salt int) []int {
	r := []int{}
	for k := 0; k < n; k++ {
		if all || n <= 24 || k < 4 || k >= n-4 || (k+salt)%(n/12+1) == 0 {
			r = append(r, k)
		}
	}
	return r
}

func runGen(raw []byte, r *Rec) M {
	var c genCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	var cur genStruct
	name := ""
	st := func(n string) GT { return GT{K: "STRUCT", N: n} }
	for i := range c.Ops {
		op := &c.Ops[i]
		ev := M{"o": op.O}
		switch op.O {
		case "New":
			ev["s"] = op.S
			name = op.S
			res := r.call(ev, func(ev M) error {
				if genNew[c.Prog+"."+name] == nil {
					panic("no struct " + c.Prog + "." + name)
				}
				cur = genNew[c.Prog+"."+name]()
				ev["x"] = c.dump(cur, st(name))
				return nil
			})
			if res != OK {
				return M{}
			}
		case "Const":
			ev["v"] = op.V
			r.call(ev, func(ev M) error {
				f := genConst[c.Prog+"."+op.S]
				if f == nil {
					panic("no constant " + op.S)
				}
				ev["x"] = c.dump(f(), op.T)
				return nil
			})
		case "Set":
			ev["f"], ev["v"] = op.F, op.V
			res := r.call(ev, func(ev M) error {
				c.set(cur, name, op.F-1, op.V)
				return nil
			})
			if res != OK {
				return M{}
			}
		case "Write":
			res := r.call(ev, func(ev M) error {
				p := newTree(-1)
				ev["w"], ev["bad"] = vnil, ""
				if e := cur.Write(p); e != nil {
					return e
				}
				if p.out != nil {
					ev["w"] = *p.out
				}
				if len(p.fr) != 1 {
					p.note("calls without their ends")
				}
				ev["bad"] = p.bad
				lost, more := []int{}, []int{}
				for _, k := range ks(p.calls, op.All, i) {
					q := newTree(k)
					e := cur.Write(q)
					if e == nil {
						lost = append(lost, k)
					}
					if q.after > 0 {
						more = append(more, k)
					}
				}
				ev["lost"], ev["more"], ev["n"] = lost, more, p.calls
				return nil
			})
			if res != OK {
				return M{}
			}
		case "Read":
			ev["w"], ev["mode"] = op.W, op.Mode
			res := r.call(ev, func(ev M) error {
				ev["bad"], ev["lost"] = "", []int{}
				one := func(o genStruct, k int) (*treeProt, thrift.TProtocolException) {
					p := newTree(k)
					p.names = op.Mode == "names"
					p.fr[0].v = &GV{T: "ONE", A: []GV{op.W}}
					return p, o.Read(p)
				}
				p, e := one(cur, -1)
				if e != nil {
					ev["bad"] = p.bad
					return e
				}
				if len(p.fr) != 1 || p.fr[0].n != 1 {
					p.note("the value was not read to its end")
				}
				ev["bad"] = p.bad
				ev["x"] = c.dump(cur, st(name))
				lost := []int{}
				for _, k := range ks(p.calls, op.All, i) {
					if _, e := one(genNew[c.Prog+"."+name](), k); e == nil {
						lost = append(lost, k)
					}
				}
				ev["lost"], ev["n"] = lost, p.calls
				return nil
			})
			if res != OK {
				return M{}
			}
		case "Trip":
			ev["s"], ev["p"] = op.S, op.P
			res := r.call(ev, func(ev M) error {
				mb := thrift.NewTMemoryBuffer()
				w := realProt(op.P, mb)
				if e := cur.Write(w); e != nil {
					return e
				}
				if e := w.Flush(); e != nil {
					return e
				}
				next := genNew[c.Prog+"."+op.S]()
				rd := realProt(op.P, mb)
				if e := next.Read(rd); e != nil {
					return e
				}
				cur, name = next, op.S
				ev["x"] = c.dump(cur, st(name))
				return nil
			})
			if res != OK {
				return M{}
			}
		case "Cmp":
			ev["v"] = op.V
			r.call(ev, func(ev M) error {
				o := c.object(op.V)
				a, aok := cur.CompareTo(o)
				b, bok := o.CompareTo(cur)
				sg := func(n int) int {
					if n < 0 {
						return -1
					} else if n > 0 {
						return 1
					}
					return 0
				}
				ev["c"], ev["rc"], ev["ok"] = sg(a), sg(b), aok && bok
				return nil
			})
		default:
			panic("op " + op.O)
		}
	}
	return M{}
}
