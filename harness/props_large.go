package main

// C09: large valid data.

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"time"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
)

// largeCase is a value with many parts.
type largeCase struct {
	Proto string `json:"proto"`
	Shape string `json:"shape"`
	N     int    `json:"n"`
	Sizes []int  `json:"sizes,omitempty"`
}

type largePair struct {
	A int32  `thrift:"1"`
	B string `thrift:"2"`
}

type largeFields struct {
	M map[int32]int32  `thrift:"1"`
	L []int32          `thrift:"2"`
	P *largePair       `thrift:"3"`
	S thrift.Set[int8] `thrift:"4"`
}

// largeEnc appends encodings with either protocol.
type largeEnc struct {
	b       []byte
	compact bool
}

func (e *largeEnc) size(n int) {
	if e.compact {
		e.b = uvar(e.b, uint64(n))
	} else {
		e.b = be(e.b, uint64(n), 4)
	}
}

func (e *largeEnc) num(v int64, n int) {
	if e.compact {
		e.b = uvar(e.b, zig(v))
	} else {
		e.b = be(e.b, uint64(v), n)
	}
}

func (e *largeEnc) i32(v int) { e.num(int64(int32(v)), 4) }

func (e *largeEnc) str(s string) {
	e.size(len(s))
	e.b = append(e.b, s...)
}

func (e *largeEnc) list(t byte, n int) {
	switch {
	case !e.compact:
		e.b = be(append(e.b, t), uint64(n), 4)
	case n < 15:
		e.b = append(e.b, byte(n)<<4|compactCode[t])
	default:
		e.b = uvar(append(e.b, 0xf0|compactCode[t]), uint64(n))
	}
}

func (e *largeEnc) dict(k, v byte, n int) {
	switch {
	case !e.compact:
		e.b = be(append(e.b, k, v), uint64(n), 4)
	case n == 0:
		e.b = append(e.b, 0)
	default:
		e.b = append(uvar(e.b, uint64(n)), compactCode[k]<<4|compactCode[v])
	}
}

func (e *largeEnc) field(t byte, id, last int) {
	switch {
	case !e.compact:
		e.b = be(append(e.b, t), uint64(uint16(id)), 2)
	case id > last && id-last <= 15:
		e.b = append(e.b, byte(id-last)<<4|compactCode[t])
	default:
		e.b = uvar(append(e.b, compactCode[t]), zig(int64(id)))
	}
}

func (e *largeEnc) pair(i int) {
	e.field(tI32, 1, 0)
	e.i32(i + 1)
	e.field(tString, 2, 1)
	e.str("s")
	e.b = append(e.b, 0)
}

type largeShape struct {
	typ   reflect.Type
	same  bool // the value is encoded in the same way again
	enc   func(e *largeEnc, n int)
	check func(v any, n int) bool
}

func mapOK(m map[int32]int32, n int) bool {
	return len(m) == n && (n == 0 || m[int32(n-1)] == int32(n-1) && m[int32(n/2)] == int32(n/2))
}

var largeShapes = map[string]largeShape{
	"list": {rt[[]int32](), true, func(e *largeEnc, n int) {
		e.list(tI32, n)
		for i := 0; i < n; i++ {
			e.i32(i)
		}
	}, func(v any, n int) bool {
		l := *v.(*[]int32)
		return len(l) == n && l[n-1] == int32(n-1) && l[n/2] == int32(n/2)
	}},
	"set": {rt[thrift.Set[int64]](), true, func(e *largeEnc, n int) {
		e.list(tI64, n)
		for i := 0; i < n; i++ {
			e.num(int64(-i), 8)
		}
	}, func(v any, n int) bool {
		l := *v.(*thrift.Set[int64])
		return len(l) == n && l[n-1] == int64(1-n)
	}},
	"bools": {rt[[]bool](), true, func(e *largeEnc, n int) {
		e.list(tBool, n)
		for i := 0; i < n; i++ {
			e.b = append(e.b, byte(i&1))
		}
	}, func(v any, n int) bool { l := *v.(*[]bool); return len(l) == n && l[1] && !l[2] }},
	"map": {rt[map[int32]int32](), true, func(e *largeEnc, n int) {
		e.dict(tI32, tI32, n)
		for i := 0; i < n; i++ {
			e.i32(i)
			e.i32(i)
		}
	}, func(v any, n int) bool { return mapOK(*v.(*map[int32]int32), n) }},
	"map of strings": {rt[map[string]*largePair](), true, func(e *largeEnc, n int) {
		e.dict(tString, tStruct, n)
		for i := 0; i < n; i++ {
			e.str("key " + strconv.Itoa(i))
			e.pair(i)
		}
	}, func(v any, n int) bool {
		m := *v.(*map[string]*largePair)
		return len(m) == n && m["key 7"].A == 8
	}},
	"repeated key": {rt[map[int8][]int32](), false, func(e *largeEnc, n int) {
		e.dict(tByte, tList, n)
		for i := 0; i < n; i++ {
			e.b = append(e.b, byte(i&3))
			e.list(tI32, 2)
			e.i32(i)
			e.i32(i)
		}
	}, func(v any, n int) bool { m := *v.(*map[int8][]int32); return len(m) == 4 && len(m[1]) == 2 }},
	"strings": {rt[[]string](), true, func(e *largeEnc, n int) {
		e.list(tString, n)
		for i := 0; i < n; i++ {
			e.str("string" + strconv.Itoa(i&7))
		}
	}, func(v any, n int) bool {
		l := *v.(*[]string)
		return len(l) == n && l[n-1] == "string"+strconv.Itoa((n-1)&7)
	}},
	"structs": {rt[[]largePair](), true, func(e *largeEnc, n int) {
		e.list(tStruct, n)
		for i := 0; i < n; i++ {
			e.pair(i)
		}
	}, func(v any, n int) bool { l := *v.(*[]largePair); return len(l) == n && l[n-1].A == int32(n) }},
	"pointers": {rt[thrift.List[*largePair]](), true, func(e *largeEnc, n int) {
		e.list(tStruct, n)
		for i := 0; i < n; i++ {
			e.pair(i)
		}
	}, func(v any, n int) bool {
		l := *v.(*thrift.List[*largePair])
		return len(l) == n && l[n-1].A == int32(n)
	}},
	"lists": {rt[[][]int32](), true, func(e *largeEnc, n int) {
		e.list(tList, n)
		for i := 0; i < n; i++ {
			e.list(tI32, i%3)
			for k := 0; k < i%3; k++ {
				e.i32(k)
			}
		}
	}, func(v any, n int) bool { l := *v.(*[][]int32); return len(l) == n && len(l[2]) == 2 }},
	"maps": {rt[[]map[int32]int32](), true, func(e *largeEnc, n int) {
		e.list(tMap, n)
		for i := 0; i < n; i++ {
			e.dict(tI32, tI32, i&1)
			if i&1 == 1 {
				e.i32(i)
				e.i32(i)
			}
		}
	}, func(v any, n int) bool { l := *v.(*[]map[int32]int32); return len(l) == n && l[3][3] == 3 }},
	"doubles": {rt[[]float64](), true, func(e *largeEnc, n int) {
		e.list(tDouble, n)
		e.b = append(e.b, make([]byte, 8*n)...)
	}, func(v any, n int) bool { return len(*v.(*[]float64)) == n }},
	"uuids": {rt[[][16]byte](), true, func(e *largeEnc, n int) {
		e.list(tUUID, n)
		e.b = append(e.b, fill(16*n, 1)...)
	}, func(v any, n int) bool { l := *v.(*[][16]byte); return len(l) == n && l[0][1] == fill(2, 1)[1] }},
	"string": {rt[string](), true, func(e *largeEnc, n int) { e.str(string(fill(16*n, 3))) },
		func(v any, n int) bool { return *v.(*string) == string(fill(16*n, 3)) }},
	"bytes": {rt[[]byte](), true, func(e *largeEnc, n int) { e.str(string(fill(16*n, 5))) },
		func(v any, n int) bool { return bytes.Equal(*v.(*[]byte), fill(16*n, 5)) }},
	"unknown fields": {rt[largePair](), false, func(e *largeEnc, n int) {
		last := 0
		for i := 0; i < n; i++ {
			e.field(tList, 3+i%5, last)
			last = 3 + i%5
			e.list(tI32, i%3)
			for k := 0; k < i%3; k++ {
				e.i32(k)
			}
		}
		e.field(tI32, 1, last)
		e.i32(77)
		e.b = append(e.b, 0)
	}, func(v any, n int) bool { return v.(*largePair).A == 77 }},
	"repeated maps": {rt[largeFields](), false, func(e *largeEnc, n int) {
		for i := 0; i < n; i++ {
			e.field(tMap, 1, min(i, 1))
			e.dict(tI32, tI32, 1)
			e.i32(i)
			e.i32(i)
		}
		e.b = append(e.b, 0)
	}, func(v any, n int) bool { return mapOK(v.(*largeFields).M, n) }},
	"repeated lists": {rt[largeFields](), false, func(e *largeEnc, n int) {
		e.field(tList, 2, 0)
		e.list(tI32, n)
		for i := 0; i < n; i++ {
			e.i32(i)
		}
		for i := 0; i < n; i++ {
			e.field(tList, 2, 2)
			e.list(tI32, 1)
			e.i32(i)
		}
		e.b = append(e.b, 0)
	}, func(v any, n int) bool { l := v.(*largeFields).L; return len(l) == 1 && l[0] == int32(n-1) }},
	"repeated structs": {rt[largeFields](), false, func(e *largeEnc, n int) {
		for i := 0; i < n; i++ {
			e.field(tStruct, 3, min(3*i, 3))
			e.pair(i)
		}
		e.b = append(e.b, 0)
	}, func(v any, n int) bool { return v.(*largeFields).P.A == int32(n) }},
}

func checkLarge(c *largeCase, x *Ctx) error {
	s, ok := largeShapes[c.Shape]
	if !ok {
		fault("shape %q", c.Shape)
	}
	x.NonTrivial()
	x.Label("%s", c.Shape)
	e := &largeEnc{compact: c.Proto == "compact"}
	s.enc(e, c.N)
	data := e.b
	memory := 512<<10 + (256+32*uint64(maxSize(s.typ)))*uint64(len(data))
	limit := 5*time.Second + time.Duration(len(data))*2*time.Microsecond
	wire := thriftwire.Type(wireOf(s.typ))
	source := func() *scriptReader { return &scriptReader{b: data, sizes: c.Sizes, end: io.EOF} }
	q := reflect.New(s.typ)
	var out bytes.Buffer
	for _, op := range []struct {
		name string
		run  func() error
	}{
		{"skipping", func() error { return thriftwire.Skip(protoByName(c.Proto).NewReader(source()), wire) }},
		{"unmarshalling", func() error {
			q = reflect.New(s.typ)
			return thrift.Unmarshal(protoByName(c.Proto).NewReader(source()), q.Interface())
		}},
		{"unmarshalling again", func() error {
			if !s.same {
				return nil
			}
			return thrift.Unmarshal(protoByName(c.Proto).NewReader(source()), q.Interface())
		}},
		{"marshalling", func() error {
			out = bytes.Buffer{}
			w := protoByName(c.Proto).NewWriter(&out)
			if err := thrift.Marshal(w, q.Interface()); err != nil {
				return err
			}
			return w.Flush()
		}},
	} {
		var used uint64
		var cpu time.Duration
		for i := 0; i < 3; i++ {
			before, start := allocated(), cpuTime()
			if err := op.run(); err != nil {
				return fmt.Errorf("%s %d bytes (%s, %s): %v", op.name, len(data), c.Shape, c.Proto, err)
			}
			used, cpu = allocated()-before, cpuTime()-start
			if used <= memory && cpu <= limit {
				break
			}
		}
		if used > memory || cpu > limit {
			return fmt.Errorf("%s %d bytes (%s, %s) allocated %d bytes of memory (limit %d) and used %v of CPU time (limit %v)", op.name, len(data), c.Shape, c.Proto, used, memory, cpu, limit)
		}
		if op.name != "skipping" && !s.check(q.Interface(), c.N) {
			return fmt.Errorf("%s %d bytes (%s, %s): wrong result", op.name, len(data), c.Shape, c.Proto)
		}
	}
	if s.same && out.Len() != len(data) {
		return fmt.Errorf("%d bytes were read and %d written (%s, %s)", len(data), out.Len(), c.Shape, c.Proto)
	}
	return nil
}

func enumLarge(yield func(*largeCase) bool) {
	for _, proto := range []string{"binary", "compact"} {
		for _, name := range sortedKeys(largeShapes) {
			for _, n := range []int{5000, 1100000} {
				for _, sizes := range [][]int{nil, {1000}} {
					if !yield(&largeCase{Proto: proto, Shape: name, N: n, Sizes: sizes}) {
						return
					}
				}
			}
		}
	}
}
