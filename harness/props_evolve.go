package main

// C35: data written with one version of a type, read with another.

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// evolveCase is a value of one version of a type and another version.
type evolveCase struct {
	Go  *goCase `json:"go"`
	New *Ty     `json:"new"`
}

// evolver draws a compatible version of a type.
type evolver struct {
	t       *rapid.T
	changes int
}

func (e *evolver) do(pct int, what string) bool {
	if chance(e.t, pct, what) {
		e.changes++
		return true
	}
	return false
}

var otherSign = map[string]string{"i8": "u8", "u8": "i8", "i16": "u16", "u16": "i16", "i32": "u32", "u32": "i32", "i64": "u64", "u64": "i64"}

var sameWire = map[string][]string{"bool": {"pBool"}, "i8": {"pI8", "pU8", "pOctet"}, "i16": {"pU16"}, "i32": {"pI32", "pU32"}, "u64": {"pI64"}, "string": {"pString", "pBytes", "bytes"}, "bytes": {"pString", "pBytes", "string"}, "f64": {"pF64"}, "f32": {"pF32", "f64", "pF64"}}

func kindOrPool(n string) *Ty {
	if scalarTypes[n] != nil {
		return &Ty{K: n}
	}
	return &Ty{K: "pool", N: n}
}

// typ returns another version of a type; as a key all values must stay
// distinct.
func (e *evolver) typ(y *Ty, key bool) *Ty {
	if y.K == "ptr" {
		if !key && e.do(20, "value for pointer") {
			return e.typ(y.E, key)
		}
		return &Ty{K: "ptr", E: e.typ(y.E, key)}
	}
	if e.do(8, "pointer for value") {
		return &Ty{K: "ptr", E: e.typ(y, key)}
	}
	switch y.K {
	case "slice":
		if y.E.K == "u8" { // a byte slice
			return y
		}
		if n := e.typ(y.E, false); n.K != "u8" {
			return &Ty{K: "slice", E: n}
		}
		return y
	case "map":
		return &Ty{K: "map", M: e.typ(y.M, true), E: e.typ(y.E, false)}
	case "struct":
		return e.structTy(y, key)
	}
	if s := otherSign[y.K]; s != "" && e.do(15, "sign") {
		return &Ty{K: s}
	}
	if n := sameWire[y.K]; n != nil && !key && e.do(15, "other type") {
		return kindOrPool(pick(e.t, "other", n...))
	}
	return y
}

func tagID(f TF) (int, bool) {
	n, _, _ := strings.Cut(f.Tag, ",")
	id, err := strconv.Atoi(n)
	return id, err == nil && !f.None
}

func (e *evolver) structTy(y *Ty, key bool) *Ty {
	out := &Ty{K: "struct"}
	used := map[int]bool{}
	for _, f := range y.F {
		id, ok := tagID(f)
		if ok {
			used[id] = true
		}
		if !key && ok && e.do(20, "removed") {
			continue
		}
		f.T = e.typ(f.T, key)
		if ok && e.do(15, "required") {
			f.Tag = strconv.Itoa(id)
			if rapid.Bool().Draw(e.t, "now required") {
				f.Tag += ",required"
			}
		}
		out.F = append(out.F, f)
	}
	if !key {
		for i := 0; i < 3 && e.do(25, "added"); i++ {
			id := pick(e.t, "id", 1, 2, 5, 16, 40, -1, 300, 32767, -32768)
			if len(y.F) > 0 && rapid.Bool().Draw(e.t, "near") {
				// differs in one bit from the id of another field
				if old, ok := tagID(pick(e.t, "near", y.F...)); ok {
					id = int(int16(old ^ 1<<between(e.t, "bit", 0, 15)))
				}
			}
			if used[id] {
				continue
			}
			used[id] = true
			f := TF{Tag: strconv.Itoa(id), T: tygen{}.typ(e.t, 1)}
			if chance(e.t, 30, "required") {
				f.Tag += ",required"
			}
			out.F = append(out.F, f)
		}
	}
	if len(out.F) > 1 && e.do(50, "order") {
		for i := range out.F {
			k := between(e.t, "place", i, len(out.F)-1)
			out.F[i], out.F[k] = out.F[k], out.F[i]
		}
	}
	has := len(out.F) == 0
	for _, f := range out.F {
		has = has || !f.None
	}
	if !has {
		out.F = append(out.F, TF{Tag: "-", T: &Ty{K: "i8"}})
	}
	return out
}

func drawEvolve(t *rapid.T) *evolveCase {
	c := &evolveCase{Go: drawGoCase(t)}
	e := &evolver{t: t}
	c.New = e.typ(c.Go.Ty, false)
	return c
}

// carry sets dst to what is left of src in the other version.
func carry(dst, src reflect.Value) {
	for src.Kind() == reflect.Pointer {
		if src.IsNil() {
			src = reflect.New(src.Type().Elem())
		}
		src = src.Elem()
	}
	for dst.Kind() == reflect.Pointer {
		dst.Set(reflect.New(dst.Type().Elem()))
		dst = dst.Elem()
	}
	text := func() []byte {
		if src.Kind() == reflect.String {
			return []byte(src.String())
		}
		return src.Bytes()
	}
	number := func() uint64 {
		if src.CanInt() {
			return uint64(src.Int())
		}
		return src.Uint()
	}
	switch dst.Kind() {
	case reflect.Bool:
		dst.SetBool(src.Bool())
	case reflect.Int8:
		dst.SetInt(int64(int8(number())))
	case reflect.Int16:
		dst.SetInt(int64(int16(number())))
	case reflect.Int32:
		dst.SetInt(int64(int32(number())))
	case reflect.Int64:
		dst.SetInt(int64(number()))
	case reflect.Uint8:
		dst.SetUint(uint64(uint8(number())))
	case reflect.Uint16:
		dst.SetUint(uint64(uint16(number())))
	case reflect.Uint32:
		dst.SetUint(uint64(uint32(number())))
	case reflect.Uint64:
		dst.SetUint(number())
	case reflect.Float32, reflect.Float64:
		dst.SetFloat(src.Float())
	case reflect.String:
		dst.SetString(string(text()))
	case reflect.Array:
		dst.Set(src)
	case reflect.Struct:
		to := map[int16]fieldInfo{}
		for _, f := range fieldsOf(dst.Type()) {
			to[f.id] = f
		}
		for _, f := range fieldsOf(src.Type()) {
			fv := src.Field(f.index)
			if g, ok := to[f.id]; ok && (f.required || !isZero(fv)) {
				carry(dst.Field(g.index), fv)
			}
		}
	case reflect.Map:
		dst.Set(reflect.MakeMap(dst.Type()))
		for it := src.MapRange(); it.Next(); {
			k, v := reflect.New(dst.Type().Key()).Elem(), reflect.New(dst.Type().Elem()).Elem()
			carry(k, it.Key())
			carry(v, it.Value())
			dst.SetMapIndex(k, v)
		}
	case reflect.Slice:
		if isBytes(dst.Type()) {
			dst.SetBytes(append([]byte{}, text()...))
			return
		}
		dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			carry(dst.Index(i), src.Index(i))
		}
	default:
		fault("carry: %v", dst.Type())
	}
}

func checkEvolve(c *evolveCase, x *Ctx) error {
	typ, p := c.Go.build()
	other := c.New.build()
	if typ != other {
		x.Label("versions differ")
		if refMarshal(p.Elem()).nodes() >= 3 {
			x.NonTrivial()
		}
	}
	step := func(in reflect.Value, to reflect.Type) (reflect.Value, error) {
		var buf bytes.Buffer
		w := protoByName(c.Go.Proto).NewWriter(&buf)
		if err := c.Go.marshalTo(w, c.Go.in(in)); err != nil {
			return in, fmt.Errorf("marshalling %v with %s failed: %v", in.Type().Elem(), c.Go.Proto, err)
		}
		if err := thrift.Marshal(w, &effortKey{7, "next"}); err != nil {
			return in, err
		}
		if err := w.Flush(); err != nil {
			return in, err
		}
		r := protoByName(c.Go.Proto).NewReader(&buf)
		q := reflect.New(to)
		if err := c.Go.unmarshalFrom(r, q.Interface()); err != nil {
			return q, fmt.Errorf("data of type %v was refused by type %v (%s): %v", in.Type().Elem(), to, c.Go.Proto, err)
		}
		want := reflect.New(to)
		carry(want.Elem(), in.Elem())
		if got, want := canonGo(q.Elem(), false, false), canonGo(want.Elem(), false, false); got != want {
			return q, fmt.Errorf("data of type %v read into type %v (%s):\n got %s\nwant %s", in.Type().Elem(), to, c.Go.Proto, clip(got, 2000), clip(want, 2000))
		}
		var next effortKey
		if err := thrift.Unmarshal(r, &next); err != nil || next != (effortKey{7, "next"}) {
			return q, fmt.Errorf("behind data of type %v read into type %v (%s): %+v, %v", in.Type().Elem(), to, c.Go.Proto, next, err)
		}
		return q, nil
	}
	q, err := step(p, other)
	if err != nil {
		return err
	}
	_, err = step(q, typ)
	return err
}

func init() {
	register(&property{
		id:          "C35",
		rule:        "a random type, a random value of it, and a version of the type that differs at random; non-trivial: the versions differ and the Thrift value has at least 3 nodes",
		assumptions: []string{"versions differ in fields added, removed, reordered, renamed, made required or optional, pointers for values and back, signs, names of types, strings and byte slices; keys only where they stay distinct"},
		subs:        []*subDef{sub("versions", 60000, 1200000, drawEvolve, checkEvolve)},
	})
}
