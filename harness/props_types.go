package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// goCase is a Go value of a generated type.
type goCase struct {
	Ty    *Ty    `json:"ty"`
	V     *GV    `json:"v"`
	Proto string `json:"proto"`
	Msg   *Msg   `json:"msg,omitempty"` // envelope; without a body
	ByVal bool   `json:"byval,omitempty"`
	Nest  *nest  `json:"nest,omitempty"` // instead of Ty and V
}

// build returns the type and a pointer to the value.
func (c *goCase) build() (reflect.Type, reflect.Value) {
	if c.Nest != nil {
		p := c.Nest.value()
		return p.Type().Elem(), p
	}
	typ := c.Ty.build()
	return typ, newGV(typ, c.V)
}

func drawGoCase(t *rapid.T) *goCase {
	c := &goCase{Proto: pick(t, "proto", protoNames...), ByVal: chance(t, 25, "byval")}
	c.Ty = drawTy(t, tygen{})
	c.V = drawGV(t, c.Ty.build(), gvgen{big: rapid.Bool().Draw(t, "big"), junk: true})
	if chance(t, 30, "message") {
		c.Msg = &Msg{Name: drawName(t), Type: byte(between(t, "mtype", 1, 4)), ID: int32(drawInt(t, 32))}
	}
	return c
}

// in returns what is passed to Marshal for the value p points to.
func (c *goCase) in(p reflect.Value) any {
	if c.ByVal && p.Elem().Kind() != reflect.Pointer {
		return p.Elem().Interface()
	}
	return p.Interface()
}

// exactCanon renders a tree with sorted maps and with the element types of
// empty containers.
func (v *V) exactCanon() string {
	var sb strings.Builder
	sb.WriteString(v.canon())
	v.walk(func(x *V) {
		if x.T == tMap && len(x.L) == 0 {
			fmt.Fprintf(&sb, " empty map<%d,%d>", x.K, x.E)
		}
	})
	if v.hasWideMap() {
		return v.canon()
	}
	return sb.String()
}

// marshalTo writes the value, enveloped if there is an envelope.
func (c *goCase) marshalTo(w thriftwire.Writer, in any) error {
	if c.Msg != nil {
		if err := w.WriteMessageBegin(thriftwire.MessageHeader{Name: string(c.Msg.Name), Type: thriftwire.MessageType(c.Msg.Type), ID: c.Msg.ID}); err != nil {
			return err
		}
	}
	if err := thrift.Marshal(w, in); err != nil {
		return err
	}
	if c.Msg != nil {
		if err := w.WriteMessageEnd(); err != nil {
			return err
		}
	}
	return w.Flush()
}

func (c *goCase) unmarshalFrom(r thriftwire.Reader, out any) error {
	if c.Msg != nil {
		h, err := r.ReadMessageBegin()
		if err != nil {
			return err
		}
		if h.Name != string(c.Msg.Name) || byte(h.Type) != c.Msg.Type || h.ID != c.Msg.ID {
			return fmt.Errorf("message header read as %+v", h)
		}
	}
	if err := thrift.Unmarshal(r, out); err != nil {
		return err
	}
	if c.Msg != nil {
		return r.ReadMessageEnd()
	}
	return nil
}

func checkRoundTrip(c *goCase, x *Ctx) error {
	typ, p := c.build()
	labelType(x, c.Ty)
	model := refMarshal(p.Elem())
	if model.nodes() >= 3 {
		x.NonTrivial()
	}
	var buf bytes.Buffer
	if err := c.marshalTo(protoByName(c.Proto).NewWriter(&buf), c.in(p)); err != nil {
		return fmt.Errorf("marshalling %v with %s failed: %v", typ, c.Proto, err)
	}
	data := append([]byte{}, buf.Bytes()...)
	r := protoByName(c.Proto).NewReader(bytes.NewReader(append(append([]byte{}, data...), 0x5a)))
	q := reflect.New(typ)
	if err := c.unmarshalFrom(r, q.Interface()); err != nil {
		return fmt.Errorf("unmarshalling %v with %s failed: %v", typ, c.Proto, err)
	}
	if got, want := canonGo(q.Elem(), false, true), canonGo(p.Elem(), true, true); got != want {
		return fmt.Errorf("%s round trip changed a value of type %v:\n got %s\nwant %s", c.Proto, typ, clip(got, 2000), clip(want, 2000))
	}
	if b, err := r.ReadByte(); err != nil || b != 0x5a {
		return fmt.Errorf("%s: after the value: read %#x, %v instead of the byte written after it", c.Proto, b, err)
	}
	if err := atEOF(r); err != nil {
		return err
	}
	// Once more, from the decoded value.
	var buf2 bytes.Buffer
	if err := c.marshalTo(protoByName(c.Proto).NewWriter(&buf2), q.Interface()); err != nil {
		return fmt.Errorf("marshalling the result again failed: %v", err)
	}
	q2 := reflect.New(typ)
	if err := c.unmarshalFrom(protoByName(c.Proto).NewReader(&buf2), q2.Interface()); err != nil {
		return fmt.Errorf("unmarshalling the result again failed: %v", err)
	}
	if got, want := canonGo(q2.Elem(), false, true), canonGo(q.Elem(), true, true); got != want {
		return fmt.Errorf("second %s round trip changed a value of type %v:\n got %s\nwant %s", c.Proto, typ, clip(got, 2000), clip(want, 2000))
	}
	return nil
}

// ---- C05 ----

func (c *goCase) names() map[string]bool {
	names := map[string]bool{"": true}
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice:
			walk(t.Elem())
		case reflect.Map:
			walk(t.Key())
			walk(t.Elem())
		case reflect.Struct:
			names["struct "+t.Name()] = true
			for i := 0; i < t.NumField(); i++ {
				names[fmt.Sprintf("field %s %s", t.Field(i).Name, t.Field(i).Tag.Get("thrift"))] = true
				walk(t.Field(i).Type)
			}
		}
	}
	typ, _ := c.build()
	walk(typ)
	return names
}

func checkCalls(c *goCase, x *Ctx) error {
	typ, p := c.build()
	labelType(x, c.Ty)
	want := refMarshal(p.Elem())
	if want.nodes() >= 3 {
		x.NonTrivial()
	}
	w := newTokWriter()
	if err := thrift.Marshal(w, c.in(p)); err != nil {
		return fmt.Errorf("marshalling %v failed: %v", typ, err)
	}
	if w.misuse != nil {
		return w.misuse
	}
	got, rest, err := treeOf(w.toks, want.T)
	if err != nil {
		return fmt.Errorf("the calls for a value of type %v are not well formed: %v", typ, err)
	}
	if len(rest) > 0 {
		return fmt.Errorf("calls after the value: %v", rest)
	}
	if g, w := got.exactCanon(), want.exactCanon(); g != w {
		return fmt.Errorf("wrong calls for a value of type %v:\n got %s\nwant %s", typ, clip(g, 2000), clip(w, 2000))
	}
	names := c.names()
	for _, k := range w.toks {
		if k.Op == "StructBegin" && k.Name != "" && !names["struct "+k.Name] {
			return fmt.Errorf("struct name %q is not the name of a type", k.Name)
		}
		if k.Op == "FieldBegin" && k.Name != "" && !names[fmt.Sprintf("field %s %d", k.Name, k.ID)] && !names[fmt.Sprintf("field %s %d,required", k.Name, k.ID)] {
			return fmt.Errorf("field name %q with id %d is not a field", k.Name, k.ID)
		}
	}
	return nil
}

// ---- C06 ----

type applyCase struct {
	Ty    *Ty         `json:"ty"`
	Prior *GV         `json:"prior,omitempty"`
	Data  []*V        `json:"data"` // applied one after the other
	From  string      `json:"from"` // a protocol or "tokens"
	Opts  compactOpts `json:"opts"`
	Chunk int         `json:"chunk,omitempty"`
	Nest  *nest       `json:"nest,omitempty"` // instead of Ty and Data
	Twice bool        `json:"twice,omitempty"`
}

// datagen draws Thrift data for a Go type.
type datagen struct {
	budget   int
	mismatch int // percent
	unknown  bool
	stop     bool
	big      bool

	topMismatch int // becomes mismatch below the top
}

func (g *datagen) data(t *rapid.T, typ reflect.Type, depth int) *V {
	g.budget--
	wire := wireOf(typ)
	if wire == 0 || g.mismatch > 0 && chance(t, g.mismatch, "mismatch") {
		vg := vgen{noBig: true, noDeep: true, budget: 6}
		return vg.value(t, pick(t, "type", allTypes...), 2)
	}
	for typ.Kind() == reflect.Pointer {
		typ = typ.Elem()
	}
	if g.topMismatch > 0 {
		g.mismatch, g.topMismatch = g.topMismatch, 0
	}
	vg := vgen{noBig: !g.big, noDeep: true, budget: 1}
	v := &V{T: wire}
	small := depth <= 0 || g.budget <= 0
	switch wire {
	case tStruct:
		fs := fieldsOf(typ)
		known := map[int16]bool{}
		for _, f := range fs {
			known[f.id] = true
		}
		n := 0
		if !small {
			n = between(t, "fields", 0, len(fs)+2)
		}
		for i := 0; i < n; i++ {
			if len(fs) > 0 && (!g.unknown || !chance(t, 20, "unknown")) {
				f := fs[between(t, "field", 0, len(fs)-1)]
				if rapid.Bool().Draw(t, "inorder") {
					f = fs[i%len(fs)]
				}
				v.F = append(v.F, F{f.id, g.data(t, f.typ, depth-1)})
			} else if g.unknown {
				id := int16(drawInt(t, 16))
				for known[id] {
					id++
				}
				ug := vgen{noBig: true, noDeep: true, budget: 8, stopOK: true}
				v.F = append(v.F, F{id, ug.value(t, pick(t, "type", allTypes...), 2)})
			}
		}
	case tMap, tSet, tList:
		n := 0
		if !small {
			n = between(t, "size", 0, 5)
		}
		if wire == tMap {
			v.K = wireOf(typ.Key())
		}
		v.E = wireOf(typ.Elem())
		if n > 0 && g.mismatch > 0 && chance(t, g.mismatch, "elemmismatch") {
			v.E = pick(t, "etype", allTypes...)
		}
		if v.E == 0 || wire == tMap && v.K == 0 {
			n = 0
			v.E = tI32
			if wire == tMap {
				v.K = tI32
			}
		}
		if n == 0 && g.stop && rapid.Bool().Draw(t, "stop") {
			v.K, v.E = 0, 0
		}
		for i := 0; i < n; i++ {
			if wire == tMap {
				v.L = append(v.L, g.typed(t, typ.Key(), v.K, depth-1))
			}
			v.L = append(v.L, g.typed(t, typ.Elem(), v.E, depth-1))
		}
		if wire == tMap && n > 1 && chance(t, 40, "samekey") {
			v.L[2*(n-1)] = v.L[0]
		}
	default:
		return vg.value(t, wire, 0)
	}
	return v
}

// typed draws data of exactly the announced type.
func (g *datagen) typed(t *rapid.T, typ reflect.Type, wire byte, depth int) *V {
	v := g.data(t, typ, depth)
	if v.T != wire {
		vg := vgen{noBig: true, noDeep: true, budget: 4}
		return vg.value(t, wire, 1)
	}
	return v
}

func drawData(t *rapid.T, typ reflect.Type, g datagen) *V {
	g.budget = between(t, "budget", 2, 50)
	m := g.mismatch
	g.mismatch = 0 // at the top the data has no type of its own
	g.budget++
	v := g.root(t, typ, between(t, "depth", 1, 5), m)
	return v
}

// root draws data of the type that corresponds to typ, with mismatches only
// below the top.
func (g *datagen) root(t *rapid.T, typ reflect.Type, depth, mismatch int) *V {
	g.topMismatch = mismatch
	return g.data(t, typ, depth)
}

func drawApplyCase(t *rapid.T) *applyCase { return drawApplyTo(t, drawTy(t, tygen{})) }

func drawApplyTo(t *rapid.T, ty *Ty) *applyCase {
	c := &applyCase{From: pick(t, "from", "binary", "compact", "tokens"), Ty: ty}
	typ := c.Ty.build()
	if chance(t, 70, "prior") {
		c.Prior = drawGV(t, typ, gvgen{junk: true})
	}
	g := datagen{unknown: true, stop: true, big: chance(t, 30, "big")}
	if chance(t, 30, "mismatches") {
		g.mismatch = 8
	}
	for i, n := 0, between(t, "n", 1, 3); i < n; i++ {
		c.Data = append(c.Data, drawData(t, typ, g))
	}
	if c.From == "compact" {
		c.Opts = compactOpts{rapid.Bool().Draw(t, "longfield"), rapid.Bool().Draw(t, "longlist"), rapid.Bool().Draw(t, "boolelem1")}
	}
	c.Chunk = pick(t, "chunk", 0, 0, 1, 5)
	return c
}

// longCase is an applyCase whose containers are long.
type longCase struct {
	applyCase
	Grow []growth `json:"grow"`
}

// growth makes a container of the data longer.
type growth struct {
	Data int `json:"data"` // index
	Node int `json:"node"` // index among its containers, the outermost first
	N    int `json:"n"`
}

// vary returns a copy that differs in the first number or string.
func (v *V) vary(j int) *V {
	w := v.clone()
	done := false
	w.walk(func(x *V) {
		if done {
			return
		}
		done = true
		switch x.T {
		case tByte:
			x.I = int64(uint8(x.I + int64(j)))
		case tI16:
			x.I = int64(int16(x.I + int64(j)))
		case tI32:
			x.I = int64(int32(x.I + int64(j)))
		case tI64:
			x.I += int64(j)
		case tDouble:
			x.D = math.Float64bits(float64(j) + 0.5)
		case tString:
			x.S = strconv.AppendInt(x.S, int64(j), 10)
		case tUUID:
			x.S[3], x.S[9] = x.S[3]+byte(j), x.S[9]+byte(j>>8)
		default:
			done = false
		}
	})
	return w
}

// grown returns the data with a container made longer, by repeating its
// entries with other numbers.
func (g growth) grown(v *V) *V {
	v = v.clone()
	var cs []*V
	v.walk(func(x *V) {
		if len(x.L) > 0 {
			cs = append(cs, x)
		}
	})
	if len(cs) == 0 {
		return v
	}
	x := cs[g.Node%len(cs)]
	w, d := 1, len(x.L)
	if x.T == tMap {
		w = 2
	}
	n := min(g.N*w, 30000*d/max(x.nodes()+x.bytes()/8, 1)/w*w)
	for j := d; j < n; j++ {
		x.L = append(x.L, x.L[j%d].vary(j/w))
	}
	return v
}

func drawLongCase(t *rapid.T) *longCase {
	ty := drawTy(t, tygen{})
	if e := ty.build(); wireOf(e) != 0 && chance(t, 60, "container") {
		switch between(t, "of", 0, 4) {
		case 0:
			ty = &Ty{K: "slice", E: &Ty{K: "ptr", E: ty}}
		case 1:
			ty = &Ty{K: "map", M: &Ty{K: pick(t, "key", "string", "i64", "i32")}, E: ty}
		case 2:
			ty = &Ty{K: "slice", E: &Ty{K: "struct", F: []TF{{Tag: "1", T: &Ty{K: "i32"}}, {Tag: "2", T: ty}}}}
		default:
			ty = &Ty{K: "slice", E: ty}
		}
	}
	c := &longCase{applyCase: *drawApplyTo(t, ty)}
	for i, n := 0, between(t, "grow", 1, 3); i < n; i++ {
		c.Grow = append(c.Grow, growth{between(t, "data", 0, len(c.Data)-1), between(t, "node", 0, 7),
			pick(t, "n", 20, 40, 70, 140, 300, 600, 1100, 2100, 5000, 10000) + between(t, "more", 0, 15)})
	}
	if chance(t, 50, "again") {
		// From long to short to long.
		c.Data = append(c.Data, c.Data[c.Grow[0].Data])
		c.Grow = append(c.Grow, growth{len(c.Data) - 1, c.Grow[0].Node, between(t, "n", 10, 2500)})
	}
	if c.Chunk == 1 {
		c.Chunk = 0
	}
	return c
}

func checkLong(c *longCase, x *Ctx) error {
	a := c.applyCase
	a.Data = append([]*V(nil), c.Data...)
	for _, g := range c.Grow {
		a.Data[g.Data] = g.grown(a.Data[g.Data])
	}
	for _, v := range a.Data {
		if v.nodes() > 60 {
			x.NonTrivial()
			x.Label("long")
		}
	}
	return checkApply(&a, x)
}

func encodeAs(proto string, buf []byte, v *V, o compactOpts) []byte {
	if proto == "compact" {
		return refCompact(buf, v, o)
	}
	return refBinary(buf, v)
}

func checkApply(c *applyCase, x *Ctx) error {
	if c.Nest != nil {
		d := *c
		d.Data = []*V{c.Nest.data()}
		if c.Twice {
			d.Data = append(d.Data, d.Data[0])
		}
		return d.check(c.Nest.typ(), x)
	}
	return c.check(c.Ty.build(), x)
}

func (c *applyCase) check(typ reflect.Type, x *Ctx) error {
	labelType(x, c.Ty)
	got, want := newGV(typ, c.Prior), newGV(typ, c.Prior)
	if canonGo(got.Elem(), false, true) != canonGo(want.Elem(), false, true) {
		fault("value of type %v is not reproducible", typ)
	}
	var r thriftwire.Reader
	var tr *tokReader
	if c.From == "tokens" {
		var toks []Tok
		for _, v := range c.Data {
			toks = tokens(v, toks)
		}
		tr = newTokReader(toks)
		tr.names, tr.grow = true, true
		r = tr
	} else {
		var data []byte
		for _, v := range c.Data {
			data = encodeAs(c.From, data, v, c.Opts)
		}
		r = protoByName(c.From).NewReader(chunked(data, c.Chunk))
	}
	n := 0
	for i, v := range c.Data {
		n += v.nodes()
		before := canonGo(want.Elem(), false, true)
		a := &applier{}
		werr := a.apply(want.Elem(), v)
		err := thrift.Unmarshal(r, got.Interface())
		if tr != nil && tr.misuse != nil {
			// Reading something of the wrong type.
			if werr == nil {
				return fmt.Errorf("unmarshalling %s into %v: %v", clip(v.String(), 1000), typ, tr.misuse)
			}
			return fmt.Errorf("data of a type that does not match is read all the same: %v (data %s, type %v)", tr.misuse, clip(v.String(), 1000), typ)
		}
		if werr != nil {
			x.Label("mismatch")
			x.NonTrivial()
			if err == nil {
				return fmt.Errorf("data that does not match type %v (%v) was accepted: %s\nresult %s", typ, werr, clip(v.String(), 1000), clip(canonGo(got.Elem(), false, true), 1000))
			}
			return nil
		}
		if err != nil {
			if a.ambiguous {
				x.Label("empty container of another type")
				return nil
			}
			return fmt.Errorf("unmarshalling %s into %v from %s failed: %v", clip(v.String(), 1000), typ, c.From, err)
		}
		if g, w := canonGo(got.Elem(), false, true), canonGo(want.Elem(), false, true); g != w {
			return fmt.Errorf("step %d: unmarshalling %s from %s into a %v holding %s:\n got %s\nwant %s", i, clip(v.String(), 1000), c.From, typ, clip(before, 1000), clip(g, 2000), clip(w, 2000))
		}
	}
	if n >= 3 && (c.Prior != nil || c.Nest != nil) {
		x.NonTrivial()
	}
	if tr != nil {
		if tr.pos != len(tr.toks) {
			return fmt.Errorf("%d items of the data were not read", len(tr.toks)-tr.pos)
		}
		return nil
	}
	return atEOF(r)
}

var _ = errors.Is
var _ = io.EOF

func init() {
	register(&property{
		id:          "C01",
		rule:        "random Go types (reflect-built and declared) and values in all protocols, bare or in messages; non-trivial: the Thrift value has at least 3 nodes",
		subs:        []*subDef{sub("roundtrip", 60000, 1200000, drawGoCase, checkRoundTrip), sub("nested", 800, 20000, drawNestGo, checkRoundTrip)},
		assumptions: []string{"equality is decided by canonGo in harness/gotypes.go", "float32 signalling NaNs are not generated"},
	})
	register(&property{
		id:          "C05",
		rule:        "random Go types and values marshalled into a recording writer; non-trivial: the Thrift value has at least 3 nodes",
		subs:        []*subDef{sub("calls", 60000, 1200000, drawGoCase, checkCalls), sub("nested", 800, 20000, drawNestGo, checkCalls)},
		assumptions: []string{"refMarshal in harness/gotypes.go states the documented mapping", "names in headers may be empty"},
	})
	register(&property{
		id:          "C06",
		rule:        "random data (reordered, repeated, missing, unknown and mismatching fields) unmarshalled one after the other into a random prior value, from protocol readers and a strict in-memory reader; non-trivial: a mismatch, or a prior value and at least 3 nodes of data",
		subs:        []*subDef{sub("apply", 60000, 1200000, drawApplyCase, checkApply), sub("long", 6000, 120000, drawLongCase, checkLong), sub("nested", 800, 20000, drawNestApply, checkApply)},
		assumptions: []string{"refApply in harness/gotypes.go states the documented semantics", "an empty container of another element type may be accepted or rejected"},
	})
}
