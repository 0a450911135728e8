package main

// Coercions (kind "coerce"): see Coerce.tla.

import (
	"encoding/json"
	"math"
	"strconv"

	"thrift"
)

func init() { kinds["coerce"] = runCoerce }

type cSrc struct {
	G  string `json:"g"`
	B  B      `json:"b"`
	D  B      `json:"d"`
	X  B      `json:"x"`
	Kb int    `json:"kb"`
	Kd int    `json:"kd"`
	Kx int    `json:"kx"`
}
type cCase struct {
	Src cSrc   `json:"src"`
	Go  string `json:"go"`
	Ops []struct {
		O string `json:"o"`
		T int    `json:"t"`
	} `json:"ops"`
}
type textual string

func (s textual) String() string { return string(s) }

type enumer struct {
	v int
	s string
}

func (e enumer) String() string { return e.s }
func (e enumer) Value() int     { return e.v }
func (e enumer) IsEnum() bool   { return true }

func (c *cCase) source() interface{} {
	s := c.Src
	switch s.G {
	case "nil":
		return nil
	case "bool":
		return s.B[0] != 0
	case "int":
		x := beInt(s.B[1:])
		switch c.Go {
		case "int":
			return int(x)
		case "int8":
			return int8(x)
		case "int16":
			return int16(x)
		case "int32":
			return int32(x)
		case "int64":
			return x
		case "byte":
			return byte(x)
		case "uint":
			return uint(x)
		case "uint16":
			return uint16(x)
		case "uint32":
			return uint32(x)
		case "uint64":
			return uint64(x)
		}
	case "flt":
		d := math.Float64frombits(uint64(beInt(s.B)))
		if s.Kx == 32 {
			return float32(d)
		}
		return d
	case "txt":
		if c.Go == "stringer" {
			return textual(s.B)
		}
		return string(s.B)
	case "bin":
		return append([]byte{}, s.B...)
	case "enum":
		return enumer{int(beInt(s.B[1:])), string(s.X)}
	case "num":
		switch c.Go {
		case "double":
			return thrift.NewNumericFromDouble(math.Float64frombits(uint64(beInt(s.D))))
		case "i64":
			return thrift.NewNumericFromI64(beInt(s.B[1:]))
		case "i32":
			return thrift.NewNumericFromI32(int32(beInt(s.B[1:])))
		case "string":
			return thrift.NewNumericFromString(string(s.X))
		case "json":
			return thrift.NewNumericFromJSONString(string(s.X), false)
		case "jsonnull":
			return thrift.NewNumericFromJSONString("null", true)
		case "null":
			return thrift.NewNullNumeric()
		}
	case "list":
		l := thrift.NewTList(thrift.I32, 1)
		l.Push(int32(1))
		return l
	case "set":
		l := thrift.NewTSet(thrift.I32, 1)
		l.Add(int32(1))
		return l
	case "map":
		l := thrift.NewTMap(thrift.I32, thrift.I32, 1)
		l.Set(int32(1), int32(1))
		return l
	case "struct":
		return thrift.NewTStruct("s", []thrift.TField{thrift.NewTField("f", thrift.I32, 1)})
	case "other":
		switch c.Go {
		case "chan":
			return make(chan int)
		case "complex":
			return complex(1, 2)
		case "ptr":
			return new(int)
		}
		return struct{}{}
	}
	panic("harness: unknown source")
}

// goForm is the Go type of a value and, of scalars, its bytes.
func goForm(x interface{}) (string, B) {
	switch d := x.(type) {
	case nil:
		return "nil", B{}
	case bool:
		return "bool", B{byte(b2i(d))}
	case byte:
		return "u8", B{d}
	case int16:
		return "i16", intBE(int64(d), 2)
	case int32:
		return "i32", intBE(int64(d), 4)
	case int64:
		return "i64", intBE(d, 8)
	case float64:
		return "f64", intBE(int64(math.Float64bits(d)), 8)
	case string:
		return "str", B(d)
	case []byte:
		return "bin", append(B{}, d...)
	case thrift.TStruct:
		return "struct", B{}
	case thrift.TMap:
		return "map", B{}
	case thrift.TSet:
		return "set", B{}
	case thrift.TList:
		return "list", B{}
	}
	return "other", B{}
}

// textForms: the doubles a text reads as, as a double and as a single.
func textForms(s string) (B, B) {
	a, b := B{}, B{}
	if d, err := strconv.ParseFloat(s, 64); err == nil {
		a = intBE(int64(math.Float64bits(d)), 8)
	}
	if d, err := strconv.ParseFloat(s, 32); err == nil {
		b = intBE(int64(math.Float64bits(d)), 8)
	}
	return a, b
}

func runCoerce(raw []byte, r *Rec) M {
	var c cCase
	if err := json.Unmarshal(raw, &c); err != nil {
		panic(err)
	}
	cur := c.source()
	for _, o := range c.Ops {
		var rc int
		switch o.O {
		case "To":
			rc = r.call(M{"o": "To", "t": o.T, "ok": 0, "rt": "", "b": B{}, "same": 0, "len": 0, "pd": B{}, "pd32": B{}}, func(ev M) error {
				v, ok := thrift.TType(o.T).CoerceData(cur)
				rt, b := goForm(v)
				ev["ok"], ev["rt"], ev["b"] = b2i(ok), rt, b
				if rt == "str" || rt == "bin" {
					ev["pd"], ev["pd32"] = textForms(string(b))
				}
				switch w := v.(type) {
				case interface{ Len() int }:
					ev["len"] = w.Len()
					ev["same"] = b2i(cur != nil && v == cur)
				}
				if ok {
					cur = v
				}
				return nil
			})
		case "TypeOf":
			rc = r.call(M{"o": "TypeOf", "t": 0}, func(ev M) error {
				ev["t"] = int(thrift.TypeFromValue(cur))
				return nil
			})
		case "View":
			n, ok := cur.(thrift.Numeric)
			if !ok {
				continue
			}
			rc = r.call(M{"o": "View"}, func(ev M) error {
				ev["i64"], ev["i32"], ev["i16"], ev["by"], ev["i"] = intBE(n.Int64(), 8), intBE(int64(n.Int32()), 4), intBE(int64(n.Int16()), 2), B{n.Byte()}, intBE(int64(n.Int()), 8)
				d := n.Float64()
				f := n.Float32()
				ev["f64"], ev["f32"] = intBE(int64(math.Float64bits(d)), 8), b2i(float32(d) == f || (d != d && f != f))
				ev["s"] = B(n.String())
				ev["pd"], _ = textForms(n.String())
				return nil
			})
		}
		if rc >= PANIC {
			break
		}
	}
	return M{"kind": "coerce", "src": c.Src, "go": c.Go}
}
