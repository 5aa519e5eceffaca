package main

// C33: effort proportional to the data, and nothing kept behind.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strconv"
	"time"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// partsOf counts what marshalling a value looks at.
func partsOf(rv reflect.Value) int {
	n := 1
	switch rv.Kind() {
	case reflect.Pointer:
		if !rv.IsNil() {
			n += partsOf(rv.Elem())
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			n += partsOf(rv.Field(i))
		}
	case reflect.Slice:
		if isBytes(rv.Type()) {
			return 1 + rv.Len()/8
		}
		for i := 0; i < rv.Len(); i++ {
			n += partsOf(rv.Index(i))
		}
	case reflect.String:
		n += rv.Len() / 8
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			n += 1 + partsOf(k) + partsOf(rv.MapIndex(k))
		}
	}
	return n
}

// cost is what an operation used.
type cost struct {
	mem uint64
	cpu time.Duration
}

// measured runs the operation until it stays within the limits, at most three
// times: something else may use the processor or allocate.
func (limit cost) measured(op func() error) (used cost, err error) {
	for i := 0; i < 3; i++ {
		before, start := allocated(), cpuTime()
		if err := op(); err != nil {
			return used, err
		}
		used = cost{allocated() - before, cpuTime() - start}
		if used.mem <= limit.mem && used.cpu <= limit.cpu {
			return used, nil
		}
	}
	return used, fmt.Errorf("allocated %d bytes of memory (limit %d) and used %v of CPU time (limit %v)", used.mem, limit.mem, used.cpu, limit.cpu)
}

// effortCase is a value repeated many times.
type effortCase struct {
	Ty    *Ty    `json:"ty"`
	V     *GV    `json:"v"`
	Proto string `json:"proto"`
	Shape string `json:"shape"`
	N     int    `json:"n"`
}

var effortShapes = []string{"list", "list of lists", "pointers", "same pointer", "map by number", "map by string", "map by uuid", "map by struct", "field"}

func drawEffortCase(t *rapid.T) *effortCase {
	c := &effortCase{Proto: pick(t, "proto", append([]string{"recorder"}, protoNames...)...), Shape: pick(t, "shape", effortShapes...), N: between(t, "n", 100000, 300000)}
	c.Ty = drawTy(t, tygen{})
	c.V = drawGV(t, c.Ty.build(), gvgen{})
	return c
}

type effortKey struct {
	A int32  `thrift:"1"`
	B string `thrift:"2"`
}

// build returns a pointer to the value with n elements.
func (c *effortCase) build(n int) reflect.Value {
	typ := c.Ty.build()
	first := newGV(typ, c.V)
	elem := func() reflect.Value { return newGV(typ, c.V).Elem() }
	fill := func(s reflect.Value, e func() reflect.Value) reflect.Value {
		for i := 0; i < s.Len(); i++ {
			s.Index(i).Set(e())
		}
		return s
	}
	var v reflect.Value
	byKey := func(k reflect.Type, key func(int) any) {
		v = reflect.MakeMapWithSize(reflect.MapOf(k, typ), n)
		for i := 0; i < n; i++ {
			v.SetMapIndex(reflect.ValueOf(key(i)), elem())
		}
	}
	switch c.Shape {
	case "list":
		v = fill(reflect.MakeSlice(reflect.SliceOf(typ), n, n), elem)
	case "list of lists":
		in := reflect.SliceOf(typ)
		v = fill(reflect.MakeSlice(reflect.SliceOf(in), n/3, n/3), func() reflect.Value { return fill(reflect.MakeSlice(in, 3, 3), elem) })
	case "pointers":
		v = fill(reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(typ)), n, n), func() reflect.Value { return elem().Addr() })
	case "same pointer":
		v = fill(reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(typ)), n, n), func() reflect.Value { return first })
	case "map by number":
		byKey(rt[int32](), func(i int) any { return int32(i) })
	case "map by string":
		byKey(rt[string](), func(i int) any { return "key " + strconv.Itoa(i) })
	case "map by uuid":
		byKey(rt[[16]byte](), func(i int) any {
			var u [16]byte
			binary.BigEndian.PutUint64(u[i%9:], uint64(i)+1)
			return u
		})
	case "map by struct":
		byKey(rt[effortKey](), func(i int) any { return effortKey{int32(i), "x"} })
	case "field":
		v = fill(reflect.MakeSlice(reflect.SliceOf(typ), n, n), elem)
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt[int32](), Tag: `thrift:"1"`}, {Name: "B", Type: v.Type(), Tag: `thrift:"2,required"`}})).Elem()
		s.Field(1).Set(v)
		v = s
	default:
		fault("shape %q", c.Shape)
	}
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

func checkEffort(c *effortCase, x *Ctx) error {
	x.Label("%s", c.Shape)
	per := partsOf(newGV(c.Ty.build(), c.V).Elem())
	n := min(c.N, 1000000/(per+2)+100)
	if n*(per+2) >= 100000 {
		x.NonTrivial()
	}
	return measureArshal(c.build(n), c.build(n/50), 50, c.Proto, c.Shape)
}

// measureArshal marshals, skips and unmarshals the large value, and the small
// one as often, and compares.
func measureArshal(large, small reflect.Value, times int, proto, what string) error {
	typ := large.Type().Elem()
	parts := partsOf(large.Elem())
	const (
		marshal = iota
		skip
		unmarshal
		again
	)
	type side struct {
		in, again reflect.Value
		b         []byte
		m         *thriftmemo.Memo
	}
	l, s := &side{in: large}, &side{in: small}
	newReader := func(x *side) thriftwire.Reader { return protoByName(proto).NewReader(bytes.NewReader(x.b)) }
	read := func(x *side, q reflect.Value) error {
		r := newReader(x)
		if err := thrift.Unmarshal(r, q.Interface()); err != nil {
			return err
		}
		return atEOF(r)
	}
	for _, op := range []struct {
		name string
		prep func(x *side) error
		run  func(x *side) error
	}{
		{"marshalling", nil, func(x *side) error {
			var out bytes.Buffer
			w := protoByName(proto).NewWriter(&out)
			if err := thrift.Marshal(w, x.in.Interface()); err != nil {
				return err
			}
			err := w.Flush()
			x.b = out.Bytes()
			return err
		}},
		{"skipping", nil, func(x *side) error {
			r := newReader(x)
			if err := thriftwire.Skip(r, thriftwire.Type(wireOf(typ))); err != nil {
				return err
			}
			return atEOF(r)
		}},
		{"unmarshalling", nil, func(x *side) error { return read(x, reflect.New(x.in.Type().Elem())) }},
		{"unmarshalling again", func(x *side) error {
			x.again = reflect.New(x.in.Type().Elem())
			return read(x, x.again)
		}, func(x *side) error { return read(x, x.again) }},
		{"recording", nil, func(x *side) error {
			x.m = &thriftmemo.Memo{}
			return thrift.Marshal(x.m.Writer(), x.in.Interface())
		}},
		{"replaying", nil, func(x *side) error {
			x.m = &thriftmemo.Memo{}
			if err := thrift.Marshal(x.m.Writer(), x.in.Interface()); err != nil {
				return err
			}
			return thrift.Unmarshal(x.m.Reader(), reflect.New(x.in.Type().Elem()).Interface())
		}},
	} {
		if (proto == "recorder") != (op.name == "recording" || op.name == "replaying") {
			continue
		}
		runtime.GC()
		if op.prep != nil {
			if err := op.prep(l); err != nil {
				return err
			}
			if err := op.prep(s); err != nil {
				return err
			}
		}
		n := parts + len(l.b)/8
		base, err := (cost{1<<20 + uint64(n)*effortMem, 3*time.Second + time.Duration(n)*effortCPU}).measured(func() error {
			for i := 0; i < times; i++ {
				if err := op.run(s); err != nil {
					return err
				}
			}
			return nil
		})
		if err == nil {
			runtime.GC()
			_, err = cost{2<<20 + 10*base.mem, 500*time.Millisecond + 10*base.cpu}.measured(func() error { return op.run(l) })
		}
		if err != nil {
			return fmt.Errorf("%s %d parts (%s, %s, type %s): %v", op.name, parts, what, proto, clip(typ.String(), 300), err)
		}
	}
	return nil
}

const (
	effortMem = 4000
	effortCPU = 10 * time.Microsecond
)

// ---- chosen shapes ----

type effortShape struct {
	Proto string `json:"proto"`
	Shape string `json:"shape"`
	N     int    `json:"n"`
}

type effortDag struct {
	A int8       `thrift:"1"`
	L *effortDag `thrift:"2"`
	R *effortDag `thrift:"3"`
}

type effortDagL struct {
	L []*effortDagL `thrift:"1"`
}

type effortZero struct {
	A int64             `thrift:"1"`
	B string            `thrift:"2"`
	C []effortZero      `thrift:"3"`
	D map[int8]pRec     `thrift:"4"`
	E *effortZero       `thrift:"5"`
	F pNested           `thrift:"6"`
	G [16]byte          `thrift:"7"`
	H thrift.Set[int32] `thrift:"8"`
}

// effortWide is a struct type with many fields.
func effortWide(n int) reflect.Type {
	fs := make([]reflect.StructField, n)
	for i := range fs {
		tag := strconv.Itoa(1 + i*7919%n) // not in order of the numbers
		if i%3 == 0 {
			tag += ",required"
		}
		fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: []reflect.Type{rt[int32](), rt[string](), rt[bool]()}[i%3], Tag: reflect.StructTag(`thrift:"` + tag + `"`)}
	}
	return reflect.StructOf(fs)
}

var effortBuild = map[string]func(n int) any{
	"numbers": func(n int) any { return many(n, func(i int) int64 { return int64(i) << (i % 60) }) },
	"bools":   func(n int) any { return many(n, func(i int) bool { return i%3 == 0 }) },
	"strings": func(n int) any { return many(n, func(i int) string { return "s" + strconv.Itoa(i) }) },
	"bytes":   func(n int) any { return many(n, func(i int) []byte { return fill(i%20, byte(i)) }) },
	"set of numbers": func(n int) any {
		s := thrift.Set[int32](*many(n, func(i int) int32 { return int32(i) }))
		return &s
	},
	"set of strings": func(n int) any {
		s := thrift.Set[string](*many(n, func(i int) string { return strconv.Itoa(i) }))
		return &s
	},
	"set of structs": func(n int) any {
		s := thrift.Set[largePair](*many(n/3, func(i int) largePair { return largePair{int32(i), "x"} }))
		return &s
	},
	"sets":          func(n int) any { return many(n/3, func(i int) thrift.Set[int8] { return thrift.Set[int8]{1, 2} }) },
	"empty structs": func(n int) any { return many(n, func(int) struct{} { return struct{}{} }) },
	"empty lists":   func(n int) any { return many(n, func(int) []pRec { return nil }) },
	"empty maps":    func(n int) any { return many(n, func(int) map[string]pRec { return map[string]pRec{} }) },
	"nil pointers":  func(n int) any { return many(n, func(int) *effortZero { return nil }) },
	"zero structs":  func(n int) any { return many(n/20, func(int) effortZero { return effortZero{} }) },
	"small structs": func(n int) any { return many(n/3, func(i int) largePair { return largePair{int32(i), "x"} }) },
	"map in structs": func(n int) any {
		return many(n/6, func(i int) largeFields { return largeFields{M: map[int32]int32{int32(i): 1}, L: []int32{1}} })
	},
	"wide structs": func(n int) any {
		width := n / 30
		typ := effortWide(width)
		l := reflect.New(reflect.SliceOf(typ))
		l.Elem().Set(reflect.MakeSlice(reflect.SliceOf(typ), 30, 30))
		for i := 0; i < 30; i++ {
			for k := 0; k < width; k++ {
				if f := l.Elem().Index(i).Field(k); (i+k)%2 == 0 {
					switch f.Kind() {
					case reflect.Bool:
						f.SetBool(true)
					case reflect.String:
						f.SetString("x")
					default:
						f.SetInt(int64(i + 1))
					}
				}
			}
		}
		return l.Interface()
	},
	"widest struct": func(n int) any { return reflect.New(effortWide(min(n/10, 32000))).Interface() },
	// n parts in chains of a length of about n/30, also for the small value
	"chain": func(n int) any {
		return many(30, func(int) *pRec {
			v := &pRec{V: 1}
			for i := 0; i < n/33; i++ {
				v = &pRec{V: int32(i), Next: v}
			}
			return v
		})
	},
	"chain of lists": func(n int) any {
		return many(60, func(int) pRec {
			v := pRec{V: 1}
			for i := 0; i < n/66; i++ {
				v = pRec{Kids: []pRec{v}}
			}
			return v
		})
	},
	"chain of maps": func(n int) any {
		return many(60, func(int) pVR {
			v := pVR{V: 1}
			for i := 0; i < n/66; i++ {
				v = pVR{M: map[int8]pVR{int8(i): v}}
			}
			return v
		})
	},
	"chain of keys": func(n int) any {
		return many(60, func(int) *pKR {
			v := &pKR{V: 1}
			for i := 0; i < n/66; i++ {
				v = &pKR{M: map[*pKR]bool{v: true}}
			}
			return v
		})
	},
	"shared parts": func(n int) any {
		v := &effortDag{A: 1}
		for i := 2; i < n; i *= 2 {
			v = &effortDag{L: v, R: v}
		}
		return v
	},
	"shared parts of lists": func(n int) any {
		v := &effortDagL{}
		for i := 3; i < n; i *= 3 {
			v = &effortDagL{L: []*effortDagL{v, v, v}}
		}
		return v
	},
	"tree": func(n int) any {
		var grow func(n int) *effortDag
		grow = func(n int) *effortDag {
			if n <= 0 {
				return nil
			}
			return &effortDag{A: 1, L: grow((n - 1) / 2), R: grow((n - 1) / 2)}
		}
		return grow(n)
	},
}

func many[T any](n int, f func(int) T) *[]T {
	l := make([]T, n)
	for i := range l {
		l[i] = f(i)
	}
	return &l
}

func enumEffort(yield func(*effortShape) bool) {
	for _, proto := range append([]string{"recorder"}, protoNames...) {
		for _, s := range sortedKeys(effortBuild) {
			if !yield(&effortShape{proto, s, 300000}) {
				return
			}
		}
		for _, s := range []string{"big string", "big bytes"} {
			if !yield(&effortShape{proto, s, 32 << 20}) {
				return
			}
		}
	}
}

func checkEffortShape(c *effortShape, x *Ctx) error {
	x.NonTrivial()
	x.Label("%s", c.Shape)
	switch c.Shape {
	case "big string":
		s := string(fill(c.N, 1))
		return measureBig(c, &s)
	case "big bytes":
		b := fill(c.N, 1)
		return measureBig(c, &b)
	}
	b := effortBuild[c.Shape]
	if b == nil {
		fault("shape %q", c.Shape)
	}
	const times = 50
	n := c.N
	large, small := reflect.ValueOf(b(n)), reflect.ValueOf(b(n/times))
	return measureArshal(large, small, times, c.Proto, c.Shape)
}

// measureBig writes and reads one long string.
func measureBig(c *effortShape, p any) error {
	limit := cost{1<<20 + 12*uint64(c.N), 3*time.Second + time.Duration(c.N)*30*time.Nanosecond}
	var m *thriftmemo.Memo
	var out bytes.Buffer
	for _, op := range []struct {
		name string
		run  func() error
	}{
		{"marshalling", func() error {
			if c.Proto == "recorder" {
				m = &thriftmemo.Memo{}
				return thrift.Marshal(m.Writer(), p)
			}
			w := protoByName(c.Proto).NewWriter(io.Discard)
			if err := thrift.Marshal(w, p); err != nil {
				return err
			}
			return w.Flush()
		}},
		{"unmarshalling", func() error {
			if c.Proto == "recorder" {
				m = &thriftmemo.Memo{}
				if err := thrift.Marshal(m.Writer(), p); err != nil {
					return err
				}
				return thrift.Unmarshal(m.Reader(), reflect.New(reflect.TypeOf(p).Elem()).Interface())
			}
			if out.Len() == 0 {
				w := protoByName(c.Proto).NewWriter(&out)
				if err := thrift.Marshal(w, p); err != nil {
					return err
				}
				if err := w.Flush(); err != nil {
					return err
				}
			}
			return thrift.Unmarshal(protoByName(c.Proto).NewReader(bytes.NewReader(out.Bytes())), reflect.New(reflect.TypeOf(p).Elem()).Interface())
		}},
		{"skipping", func() error {
			if c.Proto == "recorder" {
				return nil
			}
			return thriftwire.Skip(protoByName(c.Proto).NewReader(bytes.NewReader(out.Bytes())), thriftwire.String)
		}},
	} {
		if _, err := limit.measured(op.run); err != nil {
			return fmt.Errorf("%s %d bytes (%s, %s): %v", op.name, c.N, c.Shape, c.Proto, err)
		}
	}
	return nil
}

// ---- long use ----

// useCase is a reader, writer or recorder that is used for a long time.
type useCase struct {
	Proto   string    `json:"proto"`
	Msgs    []*goCase `json:"msgs"`
	Reading bool      `json:"reading,omitempty"`
	Reset   int       `json:"reset,omitempty"` // reset every so many messages
	Flush   int       `json:"flush,omitempty"`
	N       int       `json:"n"`
}

func drawUse(t *rapid.T) *useCase {
	c := &useCase{Proto: pick(t, "proto", append([]string{"recorder"}, protoNames...)...), N: between(t, "n", 20000, 40000)}
	for i, n := 0, between(t, "messages", 1, 4); i < n; i++ {
		g := drawGoCase(t)
		g.Nest, g.Msg, g.Proto = nil, nil, ""
		g.V = drawGV(t, g.Ty.build(), gvgen{})
		c.Msgs = append(c.Msgs, g)
	}
	c.Reading = rapid.Bool().Draw(t, "reading")
	if chance(t, 50, "resets") {
		c.Reset = between(t, "reset", 1, 50)
	}
	c.Flush = between(t, "flush", 1, 50)
	return c
}

// madeReader reads what is made when it is wanted.
type madeReader struct {
	b    []byte
	more func() ([]byte, error)
}

func (r *madeReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		var err error
		if r.b, err = r.more(); err != nil {
			return 0, err
		}
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func checkUse(c *useCase, x *Ctx) error {
	x.Label("%s", c.Proto)
	type val struct {
		c   *goCase
		typ reflect.Type
		in  any
	}
	var vals []val
	parts := 0
	for _, g := range c.Msgs {
		typ, p := g.build()
		vals = append(vals, val{g, typ, g.in(p)})
		parts = max(parts, partsOf(p.Elem())+20)
	}
	total := min(c.N, 1000000/parts+500)
	if total >= 15000 {
		x.NonTrivial()
	}
	// Message i has a name and content of its own.
	message := func(w thriftwire.Writer, i int) error {
		v := vals[i%len(vals)]
		if err := w.WriteMessageBegin(thriftwire.MessageHeader{Name: "call " + strconv.Itoa(i), Type: thriftwire.Call, ID: int32(i)}); err != nil {
			return err
		}
		if err := thrift.Marshal(w, &effortKey{int32(i), "text " + strconv.Itoa(i)}); err != nil {
			return err
		}
		if err := w.WriteMessageEnd(); err != nil {
			return err
		}
		return v.c.marshalTo(noFlusher{w}, v.in)
	}
	back := func(r thriftwire.Reader, i int) error {
		v := vals[i%len(vals)]
		h, err := r.ReadMessageBegin()
		if err != nil {
			return err
		}
		k := new(effortKey)
		if err := thrift.Unmarshal(r, k); err != nil {
			return err
		}
		if h.ID != int32(i) || k.A != int32(i) {
			return fmt.Errorf("message %d with value %d was read", h.ID, k.A)
		}
		if err := r.ReadMessageEnd(); err != nil {
			return err
		}
		return v.c.unmarshalFrom(r, reflect.New(v.typ).Interface())
	}
	every := func(n, i int) bool { return n > 0 && i%n == n-1 }
	use := func() (thing any, step func(i int) error) {
		m := &thriftmemo.Memo{}
		return m, func(i int) error {
			if err := message(m.Writer(), i); err != nil {
				return err
			}
			if i%3 > 0 {
				if err := back(m.Reader(), i); err != nil {
					return err
				}
			}
			m.Reset()
			return nil
		}
	}
	what := c.Proto
	if c.Proto != "recorder" {
		if what += " writer"; c.Reading {
			what = c.Proto + " reader"
		}
		use = func() (thing any, step func(i int) error) {
			if !c.Reading {
				w := protoByName(c.Proto).NewWriter(io.Discard)
				return w, func(i int) error {
					if err := message(w, i); err != nil {
						return err
					}
					if every(c.Flush, i) {
						if err := w.Flush(); err != nil {
							return err
						}
					}
					if every(c.Reset, i) {
						w.Reset(io.Discard)
					}
					return nil
				}
			}
			source := func(from int) io.Reader {
				i := from
				return &madeReader{more: func() ([]byte, error) {
					var buf bytes.Buffer
					w := protoByName(c.Proto).NewWriter(&buf)
					if err := message(w, i); err != nil {
						return nil, err
					}
					i++
					err := w.Flush()
					return buf.Bytes(), err
				}}
			}
			r := protoByName(c.Proto).NewReader(source(0))
			return r, func(i int) error {
				if err := back(r, i); err != nil {
					return err
				}
				if every(c.Reset, i) {
					r.Reset(source(i + 1))
				}
				return nil
			}
		}
	}
	warm := total / 20
	const limit = 64 << 10
	var err error
	for try := 0; try < 3; try++ {
		thing, step := use()
		var grown int64
		_, err = cost{1<<20 + uint64(2*total*parts)*effortMem, 3*time.Second + time.Duration(2*total*parts)*effortCPU}.measured(func() error {
			thing, step = use()
			var before int64
			for i := 0; i < total; i++ {
				if i == warm {
					before = liveHeap()
				}
				if err := step(i); err != nil {
					return fmt.Errorf("message %d: %v", i, err)
				}
			}
			grown = liveHeap() - before
			runtime.KeepAlive(thing)
			return nil
		})
		if err != nil {
			return fmt.Errorf("%d messages with one %s: %v", total, what, err)
		}
		if grown <= limit {
			return nil
		}
		err = fmt.Errorf("after %d messages with one %s, %d more bytes are in use than after %d messages", total, what, grown, warm)
	}
	return err
}

// noFlusher leaves flushing to the check.
type noFlusher struct{ thriftwire.Writer }

func (noFlusher) Flush() error { return nil }

func init() {
	register(&property{
		id:          "C33",
		rule:        "a value of a random type and chosen large shapes (long, wide, deep, shared, empty), with the effort for one large value against that for 50 values of a fiftieth of the size; readers, writers and recorders used for up to 40000 messages, each with a name and content of its own; non-trivial: at least 100000 parts, or 15000 messages",
		assumptions: []string{"effort is the CPU time of the process and the memory it allocates, within 10 times the comparison plus a constant; the best of three runs counts", "what is kept is the live heap after collection, to 64 KB"},
		subs: []*subDef{
			enumSub("shapes", enumEffort, checkEffortShape),
			sub("repeat", 160, 3000, drawEffortCase, checkEffort),
			sub("use", 240, 1000, drawUse, checkUse),
		},
	})
}
