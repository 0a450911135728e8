package main

// Containers, comparisons and descriptions (kind "data").

import (
	"encoding/json"
	"math"
	"reflect"

	"thrift"
)

func init() { kinds["data"] = runData }

// V is an abstract value: see Values.tla.  G picks the Go representation
// handed to the library.
type V struct {
	T int    `json:"t"`
	B B      `json:"b"`
	A []int  `json:"a"`
	V []V    `json:"v"`
	G string `json:"g,omitempty"`
}

func (v V) MarshalJSON() ([]byte, error) {
	a, vs := v.A, v.V
	if a == nil {
		a = []int{}
	}
	if vs == nil {
		vs = []V{}
	}
	b := v.B
	if b == nil {
		b = B{}
	}
	return json.Marshal(struct {
		T int   `json:"t"`
		B B     `json:"b"`
		A []int `json:"a"`
		V []V   `json:"v"`
	}{v.T, b, a, vs})
}

func beInt(b []byte) int64 {
	var x int64
	if len(b) > 0 && b[0] >= 128 {
		x = -1
	}
	for _, c := range b {
		x = x<<8 | int64(c)
	}
	return x
}
func intBE(x int64, n int) B {
	b := make(B, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(x)
		x >>= 8
	}
	return b
}

// vStruct is a struct with attributes, as user code may have.
type vStruct struct {
	thrift.TStruct
	attr map[int]interface{}
}

func (p *vStruct) AttributeFromFieldId(id int) interface{} { return p.attr[id] }
func (p *vStruct) AttributeFromFieldName(n string) interface{} {
	return p.attr[p.FieldIdFromFieldName(n)]
}
func (p *vStruct) CompareTo(other interface{}) (int, bool) {
	return thrift.TType(thrift.STRUCT).Compare(p, other)
}
func (p *vStruct) Equals(other interface{}) bool {
	c, ok := p.CompareTo(other)
	return ok && c == 0
}

// build makes the Go value; rev makes sets and maps in the reverse order.
func (v V) build(rev bool) interface{} {
	n := len(v.V)
	switch v.T {
	case -1:
		return nil
	case thrift.BOOL:
		return v.B[0] != 0
	case thrift.BYTE:
		if v.G == "i" {
			return int(v.B[0])
		}
		return v.B[0]
	case thrift.I16, thrift.I32, thrift.I64:
		x := beInt(v.B)
		switch v.G {
		case "i":
			return int(x)
		case "i8":
			return int8(x)
		case "i16":
			return int16(x)
		case "i32":
			return int32(x)
		case "i64":
			return int64(x)
		case "u":
			return uint(x)
		case "u16":
			return uint16(x)
		case "u32":
			return uint32(x)
		case "u64":
			return uint64(x)
		case "by":
			return byte(x)
		case "f":
			return float64(x)
		}
		switch v.T {
		case thrift.I16:
			return int16(x)
		case thrift.I32:
			return int32(x)
		}
		return x
	case thrift.DOUBLE:
		d := math.Float64frombits(uint64(beInt(v.B)))
		switch v.G {
		case "f32":
			return float32(d)
		case "i":
			return int(d)
		case "i64":
			return int64(d)
		}
		return d
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		if v.G == "b" {
			return append([]byte{}, v.B...)
		}
		return string(v.B)
	case thrift.BINARY:
		if v.G == "s" {
			return string(v.B)
		}
		return append([]byte{}, v.B...)
	case thrift.LIST:
		l := thrift.NewTList(thrift.TType(v.A[0]), n)
		for _, x := range v.V {
			l.Push(x.build(rev))
		}
		return l
	case thrift.SET:
		s := thrift.NewTSet(thrift.TType(v.A[0]), n)
		for i := range v.V {
			if rev {
				i = n - 1 - i
			}
			s.Add(v.V[i].build(rev))
		}
		return s
	case thrift.MAP:
		m := thrift.NewTMap(thrift.TType(v.A[0]), thrift.TType(v.A[1]), n/2)
		for i := 0; i < n/2; i++ {
			k := i
			if rev {
				k = n/2 - 1 - i
			}
			m.Set(v.V[2*k].build(rev), v.V[2*k+1].build(rev))
		}
		return m
	case thrift.STRUCT:
		fs := make([]thrift.TField, n)
		attr := map[int]interface{}{}
		for i := range v.V {
			k := i
			if rev {
				k = n - 1 - i
			}
			f := v.V[k]
			fs[i] = thrift.NewTField(string(f.B), thrift.TType(f.T), f.A[0])
			if a := f.V[0].build(rev); a != nil {
				attr[f.A[0]] = a
			}
		}
		t := thrift.NewTStruct(string(v.B), fs)
		if len(attr) == 0 && v.G != "a" {
			return t
		}
		return &vStruct{t, attr}
	}
	panic("harness: unknown type")
}

// absv is the abstract value of what the library gives.
func absv(x interface{}) V {
	switch d := x.(type) {
	case nil:
		return V{T: -1}
	case bool:
		b := byte(0)
		if d {
			b = 1
		}
		return V{T: thrift.BOOL, B: B{b}}
	case byte:
		return V{T: thrift.BYTE, B: B{d}}
	case int16:
		return V{T: thrift.I16, B: intBE(int64(d), 2)}
	case int32:
		return V{T: thrift.I32, B: intBE(int64(d), 4)}
	case int64:
		return V{T: thrift.I64, B: intBE(d, 8)}
	case int: // not a Thrift representation
		return V{T: 98, B: intBE(int64(d), 8)}
	case float64:
		return V{T: thrift.DOUBLE, B: intBE(int64(math.Float64bits(d)), 8)}
	case string:
		return V{T: thrift.STRING, B: B(d)}
	case []byte:
		return V{T: thrift.BINARY, B: append(B{}, d...)}
	case thrift.TStruct:
		v := V{T: thrift.STRUCT, B: B(d.ThriftName())}
		for f := range d.TStructFields().Iter() {
			v.V = append(v.V, V{T: int(f.TypeId()), B: B(f.Name()), A: []int{f.Id()}, V: []V{absv(d.AttributeFromFieldId(f.Id()))}})
		}
		return v
	case thrift.TMap:
		v := V{T: thrift.MAP, A: []int{int(d.KeyType()), int(d.ValueType())}}
		for e := range d.Iter() {
			v.V = append(v.V, absv(e.Key()), absv(e.Value()))
		}
		return v
	case thrift.TSet:
		v := V{T: thrift.SET, A: []int{int(d.ElemType())}}
		for _, e := range d.Values() {
			v.V = append(v.V, absv(e))
		}
		return v
	case thrift.TList:
		v := V{T: thrift.LIST, A: []int{int(d.ElemType())}}
		for e := range d.Iter() {
			v.V = append(v.V, absv(e))
		}
		return v
	}
	return V{T: 99}
}

type fld struct {
	Id   int `json:"id"`
	T    int `json:"t"`
	Name B   `json:"name"`
}

func (f fld) make() thrift.TField {
	return thrift.NewTField(string(f.Name), thrift.TType(f.T), f.Id)
}
func absf(f thrift.TField) fld { return fld{f.Id(), int(f.TypeId()), B(f.Name())} }
func makeFields(fs []fld) []thrift.TField {
	out := make([]thrift.TField, len(fs))
	for i, f := range fs {
		out[i] = f.make()
	}
	return out
}

type dataOp struct {
	O   string
	V   json.RawMessage
	K   V
	I   int
	J   int
	T   int
	F   json.RawMessage
	X   V
	Y   V
	Vs  []V
	Fs  []fld
	Ds  [][]fld
	M   fld
	M2  fld
	Rev int
}
type dataCase struct {
	ID, Sub string
	Et, Kt  int
	Ctor    int
	Size    int
	Name    B
	Fields  []fld
	St      int
	Ops     []dataOp
}

func bit(b bool) int {
	if b {
		return 1
	}
	return 0
}
func sgn(n int) int {
	if n < 0 {
		return -1
	}
	if n > 0 {
		return 1
	}
	return 0
}
func absAll(l []interface{}) []V {
	out := []V{}
	for _, x := range l {
		out = append(out, absv(x))
	}
	return out
}

type comparable_ interface {
	Equals(other interface{}) bool
	CompareTo(other interface{}) (int, bool)
}

// compared records how p compares with q, asked repeatedly and both ways
func compared(ev M, p, q comparable_) {
	eq, c, rc, less := []int{}, []int{}, []int{}, []int{}
	for k := 0; k < 4; k++ {
		eq = append(eq, bit(p.Equals(q)), bit(q.Equals(p)))
		x, ok := p.CompareTo(q)
		if !ok {
			x = 7
		}
		y, ok := q.CompareTo(p)
		if !ok {
			y = 7
		}
		c, rc = append(c, sgn(x)), append(rc, sgn(y))
		if l, ok := p.(interface{ Less(other interface{}) bool }); ok {
			less = append(less, bit(l.Less(q)))
		}
	}
	ev["eq"], ev["c"], ev["rc"], ev["less"] = eq, c, rc, less
}

func runData(raw []byte, r *Rec) M {
	var c dataCase
	must(json.Unmarshal(raw, &c))
	out := M{}
	must(json.Unmarshal(raw, &out))
	switch c.Sub {
	case "list":
		var l thrift.TList
		if c.Ctor == 1 {
			l = thrift.NewTListDefault()
		} else {
			l = thrift.NewTList(thrift.TType(c.Et), c.Size)
		}
		for _, o := range c.Ops {
			runList(r, l, o)
		}
	case "set":
		var s thrift.TSet
		if c.Ctor == 1 {
			s = thrift.NewTSetDefault()
		} else {
			s = thrift.NewTSet(thrift.TType(c.Et), c.Size)
		}
		for _, o := range c.Ops {
			runSet(r, s, o)
		}
	case "map":
		var m thrift.TMap
		if c.Ctor == 1 {
			m = thrift.NewTMapDefault()
		} else {
			m = thrift.NewTMap(thrift.TType(c.Kt), thrift.TType(c.Et), c.Size)
		}
		for _, o := range c.Ops {
			runMap(r, m, o)
		}
	case "cmp":
		for _, o := range c.Ops {
			runCmp(r, o)
		}
	case "desc":
		var fc thrift.TFieldContainer
		var st thrift.TStruct
		switch {
		case c.St == 0:
			fc = thrift.NewTFieldContainer(makeFields(c.Fields))
		case len(c.Fields) == 0 && c.St == 2:
			st = thrift.NewTStructEmpty(string(c.Name))
			fc = st
		default:
			st = thrift.NewTStruct(string(c.Name), makeFields(c.Fields))
			fc = st
		}
		for _, o := range c.Ops {
			runDesc(r, fc, st, o)
		}
	}
	return out
}

func (o dataOp) val() V {
	var v V
	must(json.Unmarshal(o.V, &v))
	return v
}

func runList(r *Rec, l thrift.TList, o dataOp) {
	rev := o.Rev != 0
	switch o.O {
	case "Push", "Has", "Set", "Insert", "Eq":
		v := o.val()
		x := v.build(rev)
		ev := M{"o": o.O, "v": v, "i": o.I}
		r.call(ev, func(ev M) error {
			switch o.O {
			case "Push":
				l.Push(x)
			case "Set":
				l.Set(o.I, x)
			case "Insert":
				l.Insert(o.I, x)
			case "Has":
				ev["r"] = bit(l.Contains(x))
			case "Eq":
				compared(ev, l, x.(thrift.TList))
			}
			return nil
		})
	case "Delete":
		r.call(M{"o": o.O, "i": o.I}, func(ev M) error { l.Delete(o.I); return nil })
	case "Swap":
		r.call(M{"o": o.O, "i": o.I, "j": o.J}, func(ev M) error { l.Swap(o.I, o.J); return nil })
	case "Pop":
		r.call(M{"o": o.O}, func(ev M) error { ev["r"] = absv(l.Pop()); return nil })
	case "At":
		r.call(M{"o": o.O, "i": o.I}, func(ev M) error { ev["r"] = absv(l.At(o.I)); return nil })
	case "Less":
		r.call(M{"o": o.O, "i": o.I, "j": o.J}, func(ev M) error {
			ev["r"], ev["rr"] = bit(l.Less(o.I, o.J)), bit(l.Less(o.J, o.I))
			return nil
		})
	case "Obs":
		r.call(M{"o": o.O}, func(ev M) error {
			n := l.Len()
			ev["n"], ev["et"] = n, int(l.ElemType())
			at, it := []V{}, []V{}
			for i := 0; i < n; i++ {
				at = append(at, absv(l.At(i)))
			}
			for x := range l.Iter() {
				it = append(it, absv(x))
			}
			ev["at"], ev["it"] = at, it
			return nil
		})
	}
}

func runSet(r *Rec, s thrift.TSet, o dataOp) {
	rev := o.Rev != 0
	switch o.O {
	case "Add", "Remove", "Has", "Eq":
		v := o.val()
		x := v.build(rev)
		r.call(M{"o": o.O, "v": v}, func(ev M) error {
			switch o.O {
			case "Add":
				s.Add(x)
			case "Remove":
				s.Remove(x)
			case "Has":
				ev["r"] = bit(s.Contains(x))
			case "Eq":
				compared(ev, s, x.(thrift.TSet))
			}
			return nil
		})
	case "Obs":
		r.call(M{"o": o.O}, func(ev M) error {
			ev["n"], ev["et"] = s.Len(), int(s.ElemType())
			ev["vals"] = absAll(s.Values())
			fwd, bwd := []V{}, []V{}
			for e := s.Front(); e != nil; e = e.Next() {
				fwd = append(fwd, absv(e.Value))
			}
			for e := s.Back(); e != nil; e = e.Prev() {
				bwd = append(bwd, absv(e.Value))
			}
			ev["fwd"], ev["bwd"] = fwd, bwd
			return nil
		})
	}
}

func runMap(r *Rec, m thrift.TMap, o dataOp) {
	rev := o.Rev != 0
	switch o.O {
	case "Put":
		v := o.val()
		k, x := o.K.build(rev), v.build(rev)
		r.call(M{"o": o.O, "k": o.K, "v": v}, func(ev M) error { m.Set(k, x); return nil })
	case "Get":
		k := o.K.build(rev)
		r.call(M{"o": o.O, "k": o.K}, func(ev M) error {
			x, ok := m.Get(k)
			ev["ok"] = bit(ok)
			ev["r"] = absv(x)
			return nil
		})
	case "Has":
		k := o.K.build(rev)
		r.call(M{"o": o.O, "k": o.K}, func(ev M) error { ev["r"] = bit(m.Contains(k)); return nil })
	case "Eq":
		v := o.val()
		x := v.build(rev)
		r.call(M{"o": o.O, "v": v}, func(ev M) error { compared(ev, m, x.(thrift.TMap)); return nil })
	case "Obs":
		r.call(M{"o": o.O}, func(ev M) error {
			ev["n"], ev["kt"], ev["vt"] = m.Len(), int(m.KeyType()), int(m.ValueType())
			it := [][]V{}
			for e := range m.Iter() {
				it = append(it, []V{absv(e.Key()), absv(e.Value())})
			}
			kit, vit := []V{}, []V{}
			for k := range m.KeyIter() {
				kit = append(kit, absv(k))
			}
			for x := range m.ValueIter() {
				vit = append(vit, absv(x))
			}
			ev["it"], ev["kit"], ev["vit"] = it, kit, vit
			ev["keys"], ev["vals"] = absAll(m.Keys()), absAll(m.Values())
			return nil
		})
	}
}

func table(n int, f func(i, j int) int) [][]int {
	t := make([][]int, n)
	for i := range t {
		t[i] = make([]int, n)
		for j := range t[i] {
			t[i][j] = f(i, j)
		}
	}
	return t
}

func runCmp(r *Rec, o dataOp) {
	switch o.O {
	case "Matrix":
		n := len(o.Vs)
		a, b := make([]interface{}, n), make([]interface{}, n)
		own, before := true, true
		for i, v := range o.Vs {
			a[i] = v.build(false)
			v.G = ""
			b[i] = v.build(true)
			if _, ok := a[i].(comparable_); !ok {
				own = false
			}
			if _, ok := a[i].(interface{ Less(other interface{}) bool }); !ok {
				before = false
			}
		}
		r.call(M{"o": o.O, "t": o.T, "vs": o.Vs}, func(ev M) error {
			t := thrift.TType(o.T)
			nok := 0
			cmp := func(x, y interface{}) int {
				c, ok := t.Compare(x, y)
				if !ok {
					nok++
				}
				return sgn(c)
			}
			ev["c"] = table(n, func(i, j int) int { return cmp(a[i], b[j]) })
			ev["c2"] = table(n, func(i, j int) int { return cmp(b[i], a[j]) })
			ev["l"] = table(n, func(i, j int) int { return bit(t.Less(a[i], b[j])) })
			ev["ca"] = table(n, func(i, j int) int {
				c, ok := t.CompareValueArrays([]interface{}{a[j], a[i]}, []interface{}{b[j], b[j]})
				if !ok {
					nok++
				}
				return sgn(c)
			})
			ev["ct"], ev["eq"], ev["lt"] = [][]int{}, [][]int{}, [][]int{}
			if own {
				ev["ct"] = table(n, func(i, j int) int {
					c, ok := a[i].(comparable_).CompareTo(b[j])
					if !ok {
						nok++
					}
					return sgn(c)
				})
				ev["eq"] = table(n, func(i, j int) int { return bit(a[i].(comparable_).Equals(b[j])) })
			}
			if before {
				ev["lt"] = table(n, func(i, j int) int { return bit(a[i].(interface{ Less(other interface{}) bool }).Less(b[j])) })
			}
			ev["nok"] = nok
			return nil
		})
	case "Help":
		var f string
		must(json.Unmarshal(o.F, &f))
		x, y := o.X, o.Y
		r.call(M{"o": o.O, "f": f, "x": x, "y": y}, func(ev M) error {
			i, j := beInt(x.B), beInt(y.B)
			c := 0
			switch f {
			case "Int":
				c = thrift.CompareInt(int(i), int(j))
			case "Int16":
				c = thrift.CompareInt16(int16(i), int16(j))
			case "Int32":
				c = thrift.CompareInt32(int32(i), int32(j))
			case "Int64":
				f := reflect.ValueOf(thrift.CompareInt64) // whatever it takes
				c = int(f.Call([]reflect.Value{reflect.ValueOf(i).Convert(f.Type().In(0)), reflect.ValueOf(j).Convert(f.Type().In(1))})[0].Int())
			case "Byte":
				c = thrift.CompareByte(x.B[0], y.B[0])
			case "Bool":
				c = thrift.CompareBool(x.B[0] != 0, y.B[0] != 0)
			case "Double":
				c = thrift.CompareDouble(x.build(false).(float64), y.build(false).(float64))
			case "Float":
				c = thrift.CompareFloat(float32(x.build(false).(float64)), float32(y.build(false).(float64)))
			case "String":
				c = thrift.CompareString(string(x.B), string(y.B))
			case "StringArray":
				var p, q []string
				for _, s := range x.V {
					p = append(p, string(s.B))
				}
				for _, s := range y.V {
					q = append(q, string(s.B))
				}
				c = thrift.CompareStringArray(p, q)
			case "Array":
				var p, q []interface{}
				for _, s := range x.V {
					p = append(p, s.build(false))
				}
				for _, s := range y.V {
					q = append(q, s.build(true))
				}
				var ok bool
				if c, ok = thrift.TType(x.A[0]).CompareValueArrays(p, q); !ok {
					c = 7
				}
			}
			ev["r"] = sgn(c)
			return nil
		})
	}
}

func runDesc(r *Rec, fc thrift.TFieldContainer, st thrift.TStruct, o dataOp) {
	switch o.O {
	case "Obs":
		r.call(M{"o": o.O}, func(ev M) error {
			it := []fld{}
			for f := range fc.Iter() {
				it = append(it, absf(f))
			}
			ev["n"], ev["it"] = fc.Len(), it
			ev["name"] = B{}
			if st != nil {
				ev["name"] = B(st.ThriftName())
				if st.TStructName() != st.ThriftName() || st.String() != st.ThriftName() {
					ev["name"] = B(st.TStructName() + "/" + st.ThriftName() + "/" + st.String())
				}
				it2 := []fld{}
				for f := range st.TStructFields().Iter() {
					it2 = append(it2, absf(f))
				}
				if len(it2) != len(it) {
					ev["it"] = it2
				}
			}
			return nil
		})
	case "ById":
		r.call(M{"o": o.O, "i": o.I}, func(ev M) error {
			ev["f"], ev["at"], ev["nm"] = absf(fc.FieldFromFieldId(o.I)), absf(fc.At(o.I)), B(fc.FieldNameFromFieldId(o.I))
			ev["has"], ev["has16"] = bit(fc.Contains(o.I)), -1
			if int(int16(o.I)) == o.I {
				ev["has16"] = bit(fc.Contains(int16(o.I)))
			}
			return nil
		})
	case "ByName":
		var v B
		must(json.Unmarshal(o.V, &v))
		r.call(M{"o": o.O, "v": v}, func(ev M) error {
			ev["f"], ev["i"], ev["has"] = absf(fc.FieldFromFieldName(string(v))), fc.FieldIdFromFieldName(string(v)), bit(fc.Contains(string(v)))
			return nil
		})
	case "HasF", "Field":
		var f fld
		must(json.Unmarshal(o.F, &f))
		r.call(M{"o": o.O, "f": f}, func(ev M) error {
			x := f.make()
			if o.O == "HasF" {
				ev["r"] = bit(fc.Contains(x))
			} else {
				ev["g"], ev["txt"] = absf(x), B(x.String())
			}
			return nil
		})
	case "FldMat":
		r.call(M{"o": o.O, "fs": o.Fs}, func(ev M) error {
			a, b := makeFields(o.Fs), makeFields(o.Fs)
			ev["c"] = table(len(a), func(i, j int) int {
				c, ok := a[i].CompareTo(b[j])
				if !ok {
					return 7
				}
				return sgn(c)
			})
			ev["eq"] = table(len(a), func(i, j int) int { return bit(a[i].Equals(b[j])) })
			return nil
		})
	case "DescMat":
		r.call(M{"o": o.O, "ds": o.Ds}, func(ev M) error {
			n := len(o.Ds)
			a, b := make([]thrift.TFieldContainer, n), make([]thrift.TFieldContainer, n)
			for i, d := range o.Ds {
				a[i] = thrift.NewTFieldContainer(makeFields(d))
				fs := makeFields(d)
				for k := 0; k < len(fs)/2; k++ {
					fs[k], fs[len(fs)-1-k] = fs[len(fs)-1-k], fs[k]
				}
				b[i] = thrift.NewTFieldContainer(fs)
				if o.I == 1 {
					b[i] = thrift.NewTStruct("x", fs).TStructFields()
				}
			}
			ev["c"] = table(n, func(i, j int) int {
				c, ok := a[i].CompareTo(b[j])
				if !ok {
					return 7
				}
				return sgn(c)
			})
			ev["eq"] = table(n, func(i, j int) int { return bit(a[i].Equals(b[j])) })
			return nil
		})
	case "Msg":
		r.call(M{"o": o.O, "m": o.M, "m2": o.M2}, func(ev M) error {
			x := thrift.NewTMessage(string(o.M.Name), thrift.TMessageType(o.M.T), o.M.Id)
			y := thrift.NewTMessage(string(o.M2.Name), thrift.TMessageType(o.M2.T), o.M2.Id)
			ev["g"] = fld{x.SeqId(), int(x.TypeId()), B(x.Name())}
			ev["txt"] = B{}
			if s, ok := x.(interface{ String() string }); ok {
				ev["txt"] = B(s.String())
			}
			ev["eq"], ev["req"] = bit(x.Equals(y)), bit(y.Equals(x))
			return nil
		})
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
