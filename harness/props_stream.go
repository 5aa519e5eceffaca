package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"slices"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// ---- C07: skipping ----

type skipCase struct {
	From  string      `json:"from"` // a protocol, "tokens" or "memo"
	Vals  []*V        `json:"vals"`
	Skip  []bool      `json:"skip"` // whether to skip the next value met, cyclic
	Opts  compactOpts `json:"opts"`
	Sizes []int       `json:"sizes"`
	Nest  []*nest     `json:"nest,omitempty"` // deep values, in front of Vals
}

func drawSkipCase(t *rapid.T) *skipCase {
	c := &skipCase{From: pick(t, "from", "binary", "compact", "compact", "tokens", "memo"), Sizes: drawSizes(t)}
	g := vgen{dupIDs: true, stopOK: true, noBig: chance(t, 70, "small")}
	for i, n := 0, between(t, "values", 1, 4); i < n; i++ {
		c.Vals = append(c.Vals, g.drawValue(t, 0))
	}
	c.Skip = rapid.SliceOfN(rapid.Bool(), 1, 12).Draw(t, "skip")
	if c.From == "compact" {
		c.Opts = compactOpts{rapid.Bool().Draw(t, "longfield"), rapid.Bool().Draw(t, "longlist"), rapid.Bool().Draw(t, "boolelem1")}
	}
	return c
}

func drawSkipNest(t *rapid.T) *skipCase {
	c := drawSkipCase(t)
	c.Vals = c.Vals[:1]
	for i, n := 0, between(t, "nests", 1, 2); i < n; i++ {
		n := drawNest(t)
		if (n.Root == "pRL" || n.Root == "pRM") && chance(t, 30, "deeper") {
			n.N = between(t, "depth", 4000, 9500)
		}
		c.Nest = append(c.Nest, n)
	}
	return c
}

type selector struct {
	r       thriftwire.Reader
	skip    []bool
	i       int
	skipped int
	read    int
}

func (s *selector) value(v *V, path string) error {
	skip := s.skip[s.i%len(s.skip)]
	s.i++
	if skip {
		s.skipped += v.nodes()
		if err := thriftwire.Skip(s.r, thriftwire.Type(v.T)); err != nil {
			return fmt.Errorf("skipping %s (type %d) failed: %v", path, v.T, err)
		}
		return nil
	}
	s.read++
	get := func(op string) (Tok, error) {
		k, err := fetchTok(s.r, op, false)
		if err != nil {
			err = fmt.Errorf("reading %s of %s failed: %v", op, path, err)
		}
		return k, err
	}
	switch v.T {
	case tStruct:
		if _, err := get("StructBegin"); err != nil {
			return err
		}
		for i, f := range v.F {
			h, err := get("FieldBegin")
			if err != nil {
				return err
			}
			if h.T != f.V.T || h.ID != int64(f.ID) {
				return fmt.Errorf("field %d of %s: read header of type %d id %d instead of type %d id %d", i, path, h.T, h.ID, f.V.T, f.ID)
			}
			if err := s.value(f.V, fmt.Sprintf("%s.%d", path, f.ID)); err != nil {
				return err
			}
			if _, err := get("FieldEnd"); err != nil {
				return err
			}
		}
		if h, err := get("FieldBegin"); err != nil || h.T != tStop {
			return fmt.Errorf("end of %s: read field header %v, %v", path, h, err)
		}
		_, err := get("StructEnd")
		return err
	case tMap, tSet, tList:
		op := map[byte]string{tMap: "Map", tSet: "Set", tList: "List"}[v.T]
		h, err := get(op + "Begin")
		if err != nil {
			return err
		}
		if h.N != v.count() || h.N > 0 && (h.E != v.E || v.T == tMap && h.K != v.K) {
			return fmt.Errorf("header of %s read as %s instead of size %d", path, h, v.count())
		}
		for i, e := range v.L {
			if err := s.value(e, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
		_, err = get(op + "End")
		return err
	}
	k, err := get(opOfType[v.T])
	if err != nil {
		return err
	}
	got := V{T: v.T, I: k.I, D: k.D, S: Bytes(k.S)}
	if got.String() != v.String() {
		return fmt.Errorf("%s read as %s instead of %s", path, clip(got.String(), 200), clip(v.String(), 200))
	}
	return nil
}

func checkSkip(c *skipCase, x *Ctx) error {
	x.Label("from %s", c.From)
	var vals []*V
	for _, n := range c.Nest {
		vals = append(vals, n.data())
	}
	vals = append(vals, c.Vals...)
	var r thriftwire.Reader
	var tr *tokReader
	var memo thriftmemo.Memo
	switch c.From {
	case "tokens":
		var toks []Tok
		for _, v := range vals {
			toks = tokens(v, toks)
		}
		tr = newTokReader(toks)
		tr.names = true
		r = tr
	case "memo":
		for _, v := range vals {
			if err := writeV(memo.Writer(), v, 0); err != nil {
				return fmt.Errorf("recording failed: %v", err)
			}
		}
		r = memo.Reader()
	default:
		var data []byte
		for _, v := range vals {
			data = encodeAs(c.From, data, v, c.Opts)
		}
		r = protoByName(c.From).NewReader(&scriptReader{b: data, sizes: c.Sizes, end: io.EOF})
	}
	s := &selector{r: r, skip: c.Skip}
	for i, v := range vals {
		if err := s.value(v, fmt.Sprintf("value %d", i)); err != nil {
			if tr != nil && tr.misuse != nil {
				err = tr.misuse
			}
			return err
		}
	}
	if s.skipped > 1 && s.read > 0 {
		x.NonTrivial()
	}
	switch {
	case tr != nil:
		if tr.misuse != nil {
			return tr.misuse
		}
		if tr.pos != len(tr.toks) {
			return fmt.Errorf("%d items left unread", len(tr.toks)-tr.pos)
		}
		return nil
	case c.From == "memo":
		return nil
	}
	return atEOF(r)
}

// Unknown fields.

type unknownCase struct {
	Ty    *Ty         `json:"ty"`
	Prior *GV         `json:"prior,omitempty"`
	Data  *V          `json:"data"`
	Plus  *V          `json:"plus"` // Data with unknown fields
	From  string      `json:"from"`
	Opts  compactOpts `json:"opts"`
}

// withUnknown returns data with fields inserted that the type does not declare.
func withUnknown(t *rapid.T, v *V, typ reflect.Type, left *int) *V {
	for typ.Kind() == reflect.Pointer {
		typ = typ.Elem()
	}
	w := *v
	switch v.T {
	case tStruct:
		if typ.Kind() != reflect.Struct {
			return &w
		}
		byID := map[int16]reflect.Type{}
		for _, f := range fieldsOf(typ) {
			byID[f.id] = f.typ
		}
		w.F = nil
		insert := func() {
			for *left > 0 && chance(t, 30, "insert") {
				*left--
				id := int16(drawInt(t, 16))
				if between(t, "near", 0, 2) > 0 && len(w.F) > 0 {
					id = w.F[len(w.F)-1].ID + int16(between(t, "delta", -2, 17))
				}
				for byID[id] != nil {
					id++
				}
				g := vgen{noBig: chance(t, 90, "small"), noDeep: true, stopOK: true, dupIDs: true, budget: 10}
				w.F = append(w.F, F{id, g.value(t, pick(t, "type", allTypes...), 3)})
			}
		}
		for _, f := range v.F {
			insert()
			if ft := byID[f.ID]; ft != nil {
				f.V = withUnknown(t, f.V, ft, left)
			}
			w.F = append(w.F, f)
		}
		insert()
	case tList, tSet:
		w.L = nil
		for _, e := range v.L {
			w.L = append(w.L, withUnknown(t, e, typ.Elem(), left))
		}
	case tMap:
		w.L = nil
		for i, e := range v.L {
			et := typ.Elem()
			if i%2 == 0 {
				et = typ.Key()
			}
			w.L = append(w.L, withUnknown(t, e, et, left))
		}
	}
	return &w
}

func drawUnknownCase(t *rapid.T) *unknownCase {
	c := &unknownCase{From: pick(t, "from", "binary", "compact", "compact", "tokens")}
	g := tygen{}
	if chance(t, 80, "struct") {
		c.Ty = g.structTy(t, between(t, "tydepth", 1, 4))
	} else {
		c.Ty = &Ty{K: "pool", N: pick(t, "pool", "pRec", "pMutA", "pMutB", "pScattered", "pNested", "pAllReq", "pWide", "pEmpty", "pIgnoredOnly", "pEmb", "Set[*pBase]", "List[pBase]")}
	}
	typ := c.Ty.build()
	if rapid.Bool().Draw(t, "prior") {
		c.Prior = drawGV(t, typ, gvgen{junk: true})
	}
	c.Data = drawData(t, typ, datagen{})
	left := 8
	c.Plus = withUnknown(t, c.Data, typ, &left)
	if c.From == "compact" {
		c.Opts = compactOpts{LongField: rapid.Bool().Draw(t, "longfield"), LongList: rapid.Bool().Draw(t, "longlist")}
	}
	return c
}

func checkUnknown(c *unknownCase, x *Ctx) error {
	typ := c.Ty.build()
	n := c.Plus.nodes() - c.Data.nodes()
	if n > 0 {
		x.NonTrivial()
	}
	var res [2]reflect.Value
	for i, v := range []*V{c.Data, c.Plus} {
		res[i] = newGV(typ, c.Prior)
		var err error
		if c.From == "tokens" {
			tr := newTokReader(tokens(v, nil))
			err = thrift.Unmarshal(tr, res[i].Interface())
			if tr.misuse != nil {
				err = tr.misuse
			} else if err == nil && tr.pos != len(tr.toks) {
				err = errors.New("items left unread")
			}
		} else {
			r := protoByName(c.From).NewReader(bytes.NewReader(encodeAs(c.From, nil, v, c.Opts)))
			if err = thrift.Unmarshal(r, res[i].Interface()); err == nil {
				err = atEOF(r)
			}
		}
		if err != nil {
			return fmt.Errorf("unmarshalling %s into %v from %s: %v", clip(v.String(), 1500), typ, c.From, err)
		}
	}
	if a, b := canonGo(res[0].Elem(), false, true), canonGo(res[1].Elem(), false, true); a != b {
		return fmt.Errorf("unknown fields in %s (%s, type %v) change the result:\nwith    %s\nwithout %s", clip(c.Plus.String(), 1500), c.From, typ, clip(b, 1500), clip(a, 1500))
	}
	return nil
}

// ---- C08: truncation ----

type cutCase struct {
	Proto string      `json:"proto"`
	Mode  string      `json:"mode"` // unmarshal, skip, read, message
	Ty    *Ty         `json:"ty,omitempty"`
	Msg   *Msg        `json:"msg,omitempty"`
	V     *V          `json:"v"`
	Sizes []int       `json:"sizes"`
	Early bool        `json:"early"`
	Opts  compactOpts `json:"opts"`
	Bytes int         `json:"bytes"` // how strings are read
	Cuts  []int       `json:"cuts"`  // extra cuts of long encodings
}

func drawCutCase(t *rapid.T) *cutCase {
	c := &cutCase{Proto: pick(t, "proto", protoNames...), Mode: pick(t, "mode", "unmarshal", "unmarshal", "skip", "read", "message"), Sizes: drawSizes(t), Early: rapid.Bool().Draw(t, "early"), Bytes: between(t, "strmode", 0, 2)}
	if c.Proto == "compact" {
		c.Opts = compactOpts{rapid.Bool().Draw(t, "longfield"), rapid.Bool().Draw(t, "longlist"), rapid.Bool().Draw(t, "boolelem1")}
	}
	if c.Mode == "unmarshal" {
		c.Ty = drawTy(t, tygen{})
		c.V = drawData(t, c.Ty.build(), datagen{unknown: true, big: chance(t, 20, "big")})
	} else {
		g := vgen{dupIDs: true, noBig: chance(t, 80, "small")}
		if c.Mode == "message" {
			c.Msg = g.drawMsg(t, true)
			c.V = c.Msg.Body
		} else {
			c.V = g.drawValue(t, 0)
		}
	}
	c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 20, 20).Draw(t, "cuts")
	return c
}

func (c *cutCase) encode() []byte {
	var b []byte
	if c.Msg != nil {
		switch c.Proto {
		case "compact":
			b = refCompactMsg(b, c.Msg)
		default:
			b = refBinaryMsg(b, c.Msg, c.Proto == "binary")
		}
	}
	return encodeAs(c.Proto, b, c.V, c.Opts)
}

// run performs the operation on r.
func (c *cutCase) run(r thriftwire.Reader) error {
	switch c.Mode {
	case "unmarshal":
		return thrift.Unmarshal(r, reflect.New(c.Ty.build()).Interface())
	case "skip":
		return thriftwire.Skip(r, thriftwire.Type(c.V.T))
	case "message":
		_, err := readMsg(r, c.Bytes)
		return err
	}
	_, err := readV(r, c.V.T, c.Bytes)
	return err
}

// positions lists where to cut or fail: everywhere in short encodings.
func positions(n int, extra []int) (ps []int) {
	if n <= 400 {
		for i := 0; i < n; i++ {
			ps = append(ps, i)
		}
		return
	}
	edge, step, near := 100, 4096, 3
	if n > 1<<17 {
		edge, step, near = 12, 4096*(n>>16), 1
	}
	for i := 0; i < edge; i++ {
		ps = append(ps, i, n-1-i)
	}
	for b := step; b < n+8; b += step {
		for o := -near; o <= near; o++ {
			ps = append(ps, b+o)
		}
	}
	for _, e := range extra {
		ps = append(ps, e%n)
	}
	slices.Sort(ps)
	ps = slices.Compact(ps)
	for len(ps) > 0 && ps[len(ps)-1] >= n {
		ps = ps[:len(ps)-1]
	}
	return
}

func checkCuts(c *cutCase, x *Ctx) error {
	x.Label("%s %s", c.Proto, c.Mode)
	data := c.encode()
	if len(data) > 1 {
		x.NonTrivial()
	}
	newReader := func(b []byte) *logReader {
		return &logReader{Reader: protoByName(c.Proto).NewReader(&scriptReader{b: b, sizes: c.Sizes, early: c.Early, end: io.EOF})}
	}
	whole := newReader(data)
	if err := c.run(whole); err != nil {
		return fmt.Errorf("%s of %s (%s) failed although nothing is missing: %v", c.Mode, clip(c.V.String(), 500), c.Proto, err)
	}
	header := 0 // bytes of the message header
	if c.Msg != nil {
		header = len(data) - len(encodeAs(c.Proto, nil, c.V, c.Opts))
	}
	for _, n := range positions(len(data), c.Cuts) {
		r := newReader(data[:n])
		err := catch(func() error {
			if n%5 == 4 {
				return c.run(r.Reader)
			}
			return c.run(r)
		})
		if n < header && len(r.log) > 0 {
			return fmt.Errorf("%s of the first %d of %d bytes (%s): reading the header of %d bytes succeeded: %s", c.Mode, n, len(data), c.Proto, header, clip(r.log[0], 500))
		}
		for i, k := range r.log {
			// What is there is read as if it was whole, up to what is missing.
			if i >= len(whole.log) || k != whole.log[i] {
				return fmt.Errorf("%s of the first %d of %d bytes (%s): call %d succeeded with partial data: % x, value %s: %s", c.Mode, n, len(data), c.Proto, i, clipb(data[:n], 60), clip(c.V.String(), 500), clip(k, 500))
			}
		}
		if err == nil {
			return fmt.Errorf("%s of the first %d of %d bytes (%s) succeeded: % x, value %s", c.Mode, n, len(data), c.Proto, clipb(data[:n], 60), clip(c.V.String(), 500))
		}
		if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
			return fmt.Errorf("%s of the first %d of %d bytes (%s) failed with %v", c.Mode, n, len(data), c.Proto, err)
		}
	}
	return nil
}

// ---- C11: chunking ----

type chunkCase struct {
	Case  *cutCase `json:"case"`
	More  []*V     `json:"more"` // values that follow
	Cut   int      `json:"cut"`  // truncate to this permille
	Mut   []int    `json:"mut"`  // damaged positions
	Sizes [][]int  `json:"sizes"`
	Early bool     `json:"early"`
}

func drawChunkCase(t *rapid.T) *chunkCase {
	c := &chunkCase{Case: drawCutCase(t), Cut: 1000, Early: rapid.Bool().Draw(t, "early")}
	g := vgen{noDeep: true, stopOK: true}
	for i, n := 0, between(t, "more", 0, 2); i < n; i++ {
		c.More = append(c.More, g.drawValue(t, 0))
	}
	if chance(t, 30, "cut") {
		c.Cut = between(t, "cut", 0, 999)
	}
	if chance(t, 30, "damage") {
		c.Mut = rapid.SliceOfN(rapid.IntRange(0, 1<<16), 1, 3).Draw(t, "mut")
	}
	for i := 0; i < 3; i++ {
		c.Sizes = append(c.Sizes, drawSizes(t))
	}
	return c
}

// outcome of reading everything: values and error.
func (c *chunkCase) outcome(r thriftwire.Reader) string {
	var sb bytes.Buffer
	k := c.Case
	fail := func(err error) string {
		// The text of semantic errors varies on purpose.
		var se *thrift.SemanticError
		if errors.As(err, &se) {
			fmt.Fprintf(&sb, "error %v %v %v", se.ThriftType, se.GoType, se.Err)
		} else {
			fmt.Fprintf(&sb, "error %v", err)
		}
		return sb.String()
	}
	switch k.Mode {
	case "unmarshal":
		p := reflect.New(k.Ty.build())
		if err := thrift.Unmarshal(r, p.Interface()); err != nil {
			return fail(err)
		}
		sb.WriteString(canonGo(p.Elem(), false, true))
	case "skip":
		if err := thriftwire.Skip(r, thriftwire.Type(k.V.T)); err != nil {
			return fail(err)
		}
	case "message":
		m, err := readMsg(r, k.Bytes)
		if err != nil {
			return fail(err)
		}
		sb.WriteString(m.String())
	default:
		v, err := readV(r, k.V.T, k.Bytes)
		if err != nil {
			return fail(err)
		}
		sb.WriteString(v.String())
	}
	for _, w := range c.More {
		v, err := readV(r, w.T, k.Bytes)
		if err != nil {
			return fail(err)
		}
		sb.WriteString(" " + v.String())
	}
	rest := 0
	for {
		if _, err := r.ReadByte(); err != nil {
			fmt.Fprintf(&sb, " %d bytes, ", rest)
			return fail(err)
		}
		rest++
	}
}

func checkChunks(c *chunkCase, x *Ctx) error {
	k := c.Case
	data := k.encode()
	for _, v := range c.More {
		data = encodeAs(k.Proto, data, v, k.Opts)
	}
	for i, p := range c.Mut {
		data[p%len(data)] ^= byte(1 << (i % 8) << (p >> 13))
	}
	data = data[:len(data)*c.Cut/1000]
	if len(data) > 8 {
		x.NonTrivial()
	}
	if len(data) > 4096 {
		x.Label("longer than the buffer")
	}
	if c.Cut < 1000 || len(c.Mut) > 0 {
		x.Label("damaged")
	}
	proto := protoByName(k.Proto)
	want := c.outcome(proto.NewReader(bytes.NewReader(data)))
	for _, s := range c.Sizes {
		got := c.outcome(proto.NewReader(&scriptReader{b: data, sizes: s, early: c.Early, end: io.EOF}))
		if got != want {
			return fmt.Errorf("%s (%s), delivered in portions %v:\n got %s\nwant %s", k.Mode, k.Proto, s, clip(got, 1500), clip(want, 1500))
		}
	}
	return nil
}

// gateReader delivers one segment after the other, as a peer does that waits
// for the reply before it sends the next.
type gateReader struct {
	segs  [][]byte
	open  int // segments released
	sizes []int
	i     int
	over  bool // asked for more than was released
}

func (r *gateReader) Read(p []byte) (int, error) {
	for len(r.segs) > 0 && len(r.segs[0]) == 0 {
		r.segs = r.segs[1:]
		r.open--
	}
	if r.open <= 0 || len(r.segs) == 0 {
		r.over = true
		return 0, errInjected
	}
	n := len(r.segs[0])
	if len(r.sizes) > 0 {
		n = max(r.sizes[r.i%len(r.sizes)], 1)
		r.i++
	}
	n = copy(p, r.segs[0][:min(n, len(r.segs[0]))])
	r.segs[0] = r.segs[0][n:]
	return n, nil
}

type gateCase struct {
	Proto string     `json:"proto"`
	Steps []*cutCase `json:"steps"`
	Sizes []int      `json:"sizes"`
}

func drawGateCase(t *rapid.T) *gateCase {
	c := &gateCase{Proto: pick(t, "proto", protoNames...), Sizes: drawSizes(t)}
	for i, n := 0, between(t, "steps", 1, 5); i < n; i++ {
		k := drawCutCase(t)
		k.Proto, k.Cuts, k.Sizes, k.Opts = c.Proto, nil, nil, compactOpts{}
		c.Steps = append(c.Steps, k)
	}
	return c
}

func checkGate(c *gateCase, x *Ctx) error {
	g := &gateReader{sizes: c.Sizes}
	for _, k := range c.Steps {
		g.segs = append(g.segs, k.encode())
		x.Label("%s", k.Mode)
	}
	if len(c.Steps) > 1 {
		x.NonTrivial()
	}
	r := protoByName(c.Proto).NewReader(g)
	for i, k := range c.Steps {
		g.open++
		err := k.run(r)
		if g.over {
			return fmt.Errorf("step %d: %s (%s) of %s waits for data after the end of the value", i, k.Mode, c.Proto, clip(k.V.String(), 500))
		}
		if err != nil {
			return fmt.Errorf("step %d: %s (%s) of %s failed: %v", i, k.Mode, c.Proto, clip(k.V.String(), 500), err)
		}
	}
	return nil
}

// dripReader delivers what is available so far.
type dripReader struct {
	b     []byte
	pos   int
	avail int
	sizes []int
	i     int
	over  bool
}

func (r *dripReader) Read(p []byte) (int, error) {
	if r.pos >= r.avail {
		r.over = true
		return 0, errInjected
	}
	n := r.avail - r.pos
	if len(r.sizes) > 0 {
		n = min(n, max(r.sizes[r.i%len(r.sizes)], 1))
		r.i++
	}
	n = copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

// dripCase: a sender that waits after every item.
type dripCase struct {
	Proto string `json:"proto"`
	Msgs  []*Msg `json:"msgs,omitempty"`
	Vals  []*V   `json:"vals,omitempty"`
	Sizes []int  `json:"sizes"`
	Ahead []int  `json:"ahead"` // bytes available beyond those of the item
	Skip  []bool `json:"skip"`  // which strings are skipped
	Mode  int    `json:"mode"`
}

func drawDripCase(t *rapid.T) *dripCase {
	c := &dripCase{Proto: pick(t, "proto", "binary", "nonstrict", "compact", "compact"), Sizes: drawSizes(t), Mode: between(t, "mode", 0, 1)}
	g := vgen{noBig: chance(t, 80, "small"), dupIDs: true, noDeep: true}
	for i, n := 0, between(t, "values", 1, 3); i < n; i++ {
		if chance(t, 50, "message") {
			c.Msgs = append(c.Msgs, g.drawMsg(t, true))
		} else {
			c.Vals = append(c.Vals, g.drawValue(t, 0))
		}
	}
	if rapid.Bool().Draw(t, "ahead") {
		c.Ahead = rapid.SliceOfN(rapid.IntRange(0, 3), 1, 8).Draw(t, "ahead")
	}
	c.Skip = rapid.SliceOfN(rapid.Bool(), 1, 4).Draw(t, "skip")
	return c
}

// readEnds encodes tokens as a reader sees them and returns where the bytes
// of each end.
func readEnds(proto string, toks []Tok) ([]byte, []int) {
	e := tokEncoder{proto: proto}
	var ends []int
	for i, k := range toks {
		switch {
		case k.Op == "FieldBegin" && k.T == tStop:
			e.put(Tok{Op: "StructEnd"})
		case k.Op == "StructEnd":
		case k.Op == "FieldBegin" && k.T == tBool && proto == "compact":
			e.put(k) // together with the value
			e.put(toks[i+1])
		case k.Op == "Bool" && proto == "compact" && i > 0 && toks[i-1].Op == "FieldBegin":
		default:
			e.put(k)
		}
		ends = append(ends, len(e.buf))
	}
	return e.buf, ends
}

func checkDrip(c *dripCase, x *Ctx) error {
	var toks []Tok
	for _, m := range c.Msgs {
		toks = msgTokens(m, toks, false)
	}
	for _, v := range c.Vals {
		toks = tokens(v, toks)
	}
	data, ends := readEnds(c.Proto, toks)
	d := &dripReader{b: data, sizes: c.Sizes}
	r := protoByName(c.Proto).NewReader(d)
	if len(toks) > 4 {
		x.NonTrivial()
	}
	x.Label("%s", c.Proto)
	for i, k := range toks {
		if i > 3000 {
			break
		}
		ahead := 0
		if len(c.Ahead) > 0 {
			ahead = c.Ahead[i%len(c.Ahead)]
		}
		d.avail = max(d.avail, min(ends[i]+ahead, len(data)))
		op := k.Op
		if len(c.Skip) > 0 && c.Skip[i%len(c.Skip)] && (op == "String" || op == "UUID") {
			op = "Skip" + op
		}
		got, err := fetchTok(r, op, (i+c.Mode)%2 == 1)
		what := fmt.Sprintf("%s: item %d (%s, the bytes up to %d; %d are available)", c.Proto, i, k, ends[i], d.avail)
		if d.over {
			return fmt.Errorf("%s: the reader asks for more", what)
		}
		if err != nil {
			return fmt.Errorf("%s: reading fails: %v", what, err)
		}
		if op != k.Op {
			continue
		}
		want := k
		if k.Op == "FieldBegin" || k.Op == "StructBegin" {
			want.Name = ""
		}
		if c.Proto == "compact" && k.Op == "MapBegin" && k.N == 0 {
			want.K, want.E, got.K, got.E = 0, 0, 0, 0
		}
		if got != want {
			return fmt.Errorf("%s: %s is read", what, got)
		}
	}
	return nil
}

// ---- C12: reset ----

type segment struct {
	Wrap  int      `json:"wrap"` // size of a bufio of the caller around the stream, 0: none
	Data  Bytes    `json:"data,omitempty"`
	Sizes []int    `json:"sizes,omitempty"`
	Ops   []string `json:"ops,omitempty"`
	Fail  bool     `json:"fail,omitempty"`
	Skip  []byte   `json:"skip,omitempty"`
	// writers
	Toks  []Tok `json:"toks,omitempty"`
	Flush []int `json:"flush,omitempty"` // before which tokens
	Limit int   `json:"limit,omitempty"` // the stream fails after so many bytes, 0: never
	Plain bool  `json:"plain,omitempty"` // the stream has no Flush method
	Odd   bool  `json:"odd,omitempty"`   // the calls do not form values
}

type resetCase struct {
	Proto string    `json:"proto"`
	Segs  []segment `json:"segs"`
}

var allReadOps = []string{"MessageBegin", "MessageEnd", "StructBegin", "StructEnd", "FieldBegin", "FieldEnd", "MapBegin", "MapEnd", "SetBegin", "SetEnd", "ListBegin", "ListEnd", "Bool", "Byte", "I16", "I32", "I64", "Double", "String", "UUID", "SkipString", "SkipUUID"}

func drawResetCase(t *rapid.T) *resetCase {
	c := &resetCase{Proto: pick(t, "proto", "binary", "nonstrict", "compact", "compact")}
	for i, n := 0, between(t, "segments", 2, 4); i < n; i++ {
		s := segment{Wrap: pick(t, "wrap", 0, 0, 16, 4096, 8192), Sizes: drawSizes(t), Fail: chance(t, 20, "fail")}
		g := vgen{noDeep: true, noBig: chance(t, 80, "small")}
		for j, m := 0, between(t, "values", 1, 3); j < m; j++ {
			var toks []Tok
			if rapid.Bool().Draw(t, "message") {
				m := g.drawMsg(t, true)
				s.Data = append(s.Data, refEncodeMsg(c.Proto, nil, m)...)
				toks = msgTokens(m, nil, false)
			} else {
				v := g.drawValue(t, 0)
				s.Data = refEncode(c.Proto, s.Data, v)
				toks = tokens(v, nil)
			}
			if len(toks) > 150 {
				toks = toks[:150]
			}
			for _, k := range toks {
				s.Ops = append(s.Ops, k.Op)
			}
		}
		if chance(t, 60, "stop early") {
			s.Ops = s.Ops[:between(t, "ops", 0, len(s.Ops))]
		}
		if chance(t, 30, "odd calls") {
			for j, m := 0, between(t, "odd", 1, 3); j < m; j++ {
				s.Ops = slices.Insert(s.Ops, between(t, "at", 0, len(s.Ops)), pick(t, "op", allReadOps...))
			}
		}
		if chance(t, 20, "cut") {
			s.Data = s.Data[:between(t, "cut", 0, len(s.Data))]
		}
		c.Segs = append(c.Segs, s)
	}
	return c
}

func (s *segment) source() (*scriptReader, io.Reader) {
	end := io.EOF
	if s.Fail {
		end = errInjected
	}
	src := &scriptReader{b: append([]byte{}, s.Data...), sizes: s.Sizes, end: end}
	if s.Wrap > 0 {
		return src, bufio.NewReaderSize(src, s.Wrap)
	}
	return src, src
}

func runOps(r thriftwire.Reader, ops []string) (out []string) {
	for i, op := range ops {
		k, err := fetchTok(r, op, i%2 == 1)
		if err != nil {
			out = append(out, fmt.Sprintf("%s: error %v", op, err))
			if i > 3 && errClass(err) == "EOF" {
				break
			}
			continue
		}
		k.S = clip(k.S, 64) + fmt.Sprint(len(k.S))
		out = append(out, k.String())
	}
	return
}

func drain(r thriftwire.Reader, out []string) []string {
	n, sum := 0, 0
	for {
		b, err := r.ReadByte()
		if err != nil {
			return append(out, fmt.Sprintf("%d more bytes (%d), error %v", n, sum, err))
		}
		n++
		sum = sum*31 + int(b)
	}
}

func checkResetReader(c *resetCase, x *Ctx) error {
	var r thriftwire.Reader
	type used struct {
		src   *scriptReader
		in    io.Reader
		reads int
		data  []byte
	}
	var prev []used
	for i := range c.Segs {
		s := &c.Segs[i]
		src, in := s.source()
		if r == nil {
			r = protoByName(c.Proto).NewReader(in)
		} else {
			for j := range prev {
				prev[j].reads = prev[j].src.reads
			}
			r.Reset(in)
		}
		if src.reads > 0 {
			// Reading ahead when created is odd but its own business.
			x.Label("reads when reset")
		}
		_, in2 := s.source()
		fresh := protoByName(c.Proto).NewReader(in2)
		got, want := runOps(r, s.Ops), runOps(fresh, s.Ops)
		if i == len(c.Segs)-1 {
			got, want = drain(r, got), drain(fresh, want)
		}
		for k := range want {
			if k >= len(got) || got[k] != want[k] {
				g := "nothing"
				if k < len(got) {
					g = got[k]
				}
				return fmt.Errorf("segment %d, call %d after reset (%s): got %s, a new reader gives %s", i, k, c.Proto, clip(g, 300), clip(want[k], 300))
			}
		}
		for j, p := range prev {
			if p.src.reads != p.reads {
				return fmt.Errorf("the stream of segment %d is read after the reader was reset", j)
			}
		}
		prev = append(prev, used{src, in, 0, s.Data})
		if i > 0 {
			x.NonTrivial()
		}
		if s.Wrap > 0 {
			x.Label("bufio.Reader of the caller")
		}
	}
	// What is left in the caller's own readers belongs to their streams.
	for j, p := range prev[:len(prev)-1] {
		if b, ok := p.in.(*bufio.Reader); ok {
			rest, _ := io.ReadAll(b)
			if !bytes.HasSuffix(p.data, rest) {
				return fmt.Errorf("the caller's bufio.Reader of segment %d gives data of another stream: % x", j, clipb(rest, 40))
			}
		}
	}
	return nil
}

// ---- Token-level encoding (reference) ----

type tokEncoder struct {
	proto string
	buf   []byte
	last  int
	stack []int
	bool_ bool // a bool field header waits for its value
	id    int
}

func (e *tokEncoder) put(k Tok) {
	if e.proto != "compact" {
		switch k.Op {
		case "MessageBegin":
			e.buf = refBinaryMsg(e.buf, &Msg{Name: Bytes(k.Name), Type: k.T, ID: int32(k.ID)}, e.proto == "binary")
		case "FieldBegin":
			e.buf = be(append(e.buf, k.T), uint64(uint16(k.ID)), 2)
		case "StructEnd":
			e.buf = append(e.buf, 0)
		case "MapBegin":
			e.buf = be(append(e.buf, k.K, k.E), uint64(k.N), 4)
		case "SetBegin", "ListBegin":
			e.buf = be(append(e.buf, k.E), uint64(k.N), 4)
		default:
			e.leaf(k)
		}
		return
	}
	switch k.Op {
	case "MessageBegin":
		e.buf = refCompactMsg(e.buf, &Msg{Name: Bytes(k.Name), Type: k.T, ID: int32(k.ID)})
	case "StructBegin":
		e.stack = append(e.stack, e.last)
		e.last = 0
	case "FieldBegin":
		if k.T == tBool {
			e.bool_, e.id = true, int(k.ID)
			return
		}
		e.header(int(k.ID), compactCode[k.T])
	case "StructEnd":
		e.buf = append(e.buf, 0)
		e.last = e.stack[len(e.stack)-1]
		e.stack = e.stack[:len(e.stack)-1]
	case "MapBegin":
		if k.N == 0 {
			e.buf = append(e.buf, 0)
			return
		}
		e.buf = append(uvar(e.buf, uint64(k.N)), compactCode[k.K]<<4|compactCode[k.E])
	case "SetBegin", "ListBegin":
		if k.N < 15 {
			e.buf = append(e.buf, byte(k.N)<<4|compactCode[k.E])
		} else {
			e.buf = uvar(append(e.buf, 0xf0|compactCode[k.E]), uint64(k.N))
		}
	case "Bool":
		if e.bool_ {
			e.bool_ = false
			e.header(e.id, byte(2-k.I))
			return
		}
		e.buf = append(e.buf, byte(k.I))
	default:
		e.leaf(k)
	}
}

func (e *tokEncoder) header(id int, code byte) {
	if d := id - e.last; d >= 1 && d <= 15 {
		e.buf = append(e.buf, byte(d)<<4|code)
	} else {
		e.buf = uvar(append(e.buf, code), zig(int64(id)))
	}
	e.last = id
}

func (e *tokEncoder) leaf(k Tok) {
	for t, op := range opOfType {
		if op == k.Op {
			e.buf = refEncode(e.proto, e.buf, &V{T: t, I: k.I, D: k.D, S: Bytes(k.S)})
		}
	}
}

// ---- Recording streams ----

// sink is a stream that can fail and can be flushed.
type sink struct {
	b        []byte
	limit    int // -1: none
	writes   int
	flushes  int
	flushed  int // bytes received when it was last flushed
	flushErr error
	err      error
	short    bool // accept part of a write without an error
	chunks   int  // accept at most so many bytes per write, with an error? (0: all)
}

func (s *sink) Write(p []byte) (int, error) {
	s.writes++
	if s.limit >= 0 && len(s.b)+len(p) > s.limit {
		n := max(s.limit-len(s.b), 0)
		s.b = append(s.b, p[:n]...)
		if s.short {
			return n, nil
		}
		return n, s.err
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

type flushSink struct{ *sink }

func (s flushSink) Flush() error {
	s.flushes++
	s.flushed = len(s.b)
	return s.flushErr
}

func (s *segment) sink() (*sink, io.Writer) {
	k := &sink{limit: -1, err: errInjected}
	if s.Limit > 0 {
		k.limit = s.Limit - 1
	}
	var w io.Writer = k
	if !s.Plain {
		w = flushSink{k}
	}
	if s.Wrap > 0 {
		w = bufio.NewWriterSize(w, s.Wrap)
	}
	return k, w
}

func drawWriteToks(t *rapid.T, small bool) (toks []Tok) {
	g := vgen{noDeep: true, noBig: small, dupIDs: true}
	for j, m := 0, between(t, "values", 1, 3); j < m; j++ {
		if rapid.Bool().Draw(t, "message") {
			toks = msgTokens(g.drawMsg(t, true), toks, true)
		} else {
			toks = wtokens(g.drawValue(t, 0), toks)
		}
	}
	if len(toks) > 400 {
		toks = toks[:400]
	}
	return
}

func drawFlushes(t *rapid.T, n int) (fs []int) {
	if n == 0 {
		return nil
	}
	for i, m := 0, between(t, "flushes", 0, 4); i < m; i++ {
		fs = append(fs, between(t, "flush", 0, n-1))
	}
	return
}

func drawResetWriterCase(t *rapid.T) *resetCase {
	c := &resetCase{Proto: pick(t, "proto", "binary", "nonstrict", "compact", "compact")}
	for i, n := 0, between(t, "segments", 2, 4); i < n; i++ {
		s := segment{Wrap: pick(t, "wrap", 0, 0, 16, 4096, 8192), Plain: rapid.Bool().Draw(t, "plain")}
		s.Toks = drawWriteToks(t, chance(t, 80, "small"))
		if chance(t, 30, "odd calls") {
			s.Odd = true
			for j, m := 0, between(t, "odd", 1, 4); j < m; j++ {
				s.Toks = slices.Insert(s.Toks, between(t, "at", 0, min(len(s.Toks), 5)), drawOddTok(t))
			}
		}
		if i < n-1 {
			if chance(t, 60, "stop early") {
				s.Toks = s.Toks[:between(t, "toks", 0, len(s.Toks))]
			}
			if chance(t, 30, "fails") {
				s.Limit = between(t, "limit", 1, 40)
			}
		}
		s.Flush = drawFlushes(t, len(s.Toks))
		c.Segs = append(c.Segs, s)
	}
	return c
}

// drawOddTok draws a call of its own.
func drawOddTok(t *rapid.T) Tok {
	k := Tok{Op: pick(t, "op", "FieldBegin", "FieldBegin", "Bool", "StructBegin", "StructEnd", "FieldEnd", "MapBegin", "ListBegin", "SetBegin", "ListEnd", "I16", "String", "MessageBegin", "MessageEnd")}
	k.T, k.K, k.E = pick(t, "type", byte(tBool), tBool, tI32, tString, tStruct), tI32, tBool
	if k.Op == "MessageBegin" {
		k.T = 1
	}
	k.ID = int64(between(t, "id", -2, 20))
	k.N = between(t, "n", 0, 20)
	k.I = int64(between(t, "value", 0, 1))
	return k
}

func (s *segment) play(w thriftwire.Writer, k *sink, log *[]string) {
	at := map[int]bool{}
	for _, f := range s.Flush {
		at[f] = true
	}
	// How much a buffer holds back is only compared when the buffers are the
	// writer's own: one that is given a bufio.Writer may put its own before it.
	note := func(what string, err error) {
		switch {
		case s.Wrap == 0:
			*log = append(*log, fmt.Sprintf("%s: %v, received %d bytes, flushed %d", what, err, len(k.b), k.flushes))
		case what == "Flush":
			*log = append(*log, fmt.Sprintf("%s: %v, received %d bytes", what, err, len(k.b)))
		case s.Limit == 0:
			*log = append(*log, fmt.Sprintf("%s: %v", what, err))
		}
	}
	for i, t := range s.Toks {
		if at[i] {
			note("Flush", w.Flush())
		}
		if !s.Odd {
			note(t.Op, playTok(w, t, i%2 == 1))
			continue
		}
		// Only what a new writer does with calls in a wrong order counts.
		err := catch(func() error { return playTok(w, t, i%2 == 1) })
		if _, ok := err.(*panicError); ok {
			*log = append(*log, "panics")
			return
		}
		note(t.Op, err)
	}
}

func checkResetWriter(c *resetCase, x *Ctx) error {
	var w thriftwire.Writer
	type used struct {
		k       *sink
		w       io.Writer
		bytes   int
		flushes int
		want    []byte
	}
	var prev []used
	for i := range c.Segs {
		s := &c.Segs[i]
		lastSeg := i == len(c.Segs)-1
		k, out := s.sink()
		k2, out2 := s.sink()
		for j := range prev {
			prev[j].bytes, prev[j].flushes = len(prev[j].k.b), prev[j].k.flushes
		}
		if w == nil {
			w = protoByName(c.Proto).NewWriter(out)
		} else {
			w.Reset(out)
		}
		fresh := protoByName(c.Proto).NewWriter(out2)
		var got, want []string
		s.play(w, k, &got)
		s.play(fresh, k2, &want)
		if lastSeg {
			got = append(got, fmt.Sprintf("last flush: %v", w.Flush()))
			want = append(want, fmt.Sprintf("last flush: %v", fresh.Flush()))
		}
		if !bytes.Equal(k.b, k2.b) && (s.Wrap == 0 || lastSeg) {
			return fmt.Errorf("segment %d: after reset %s writes other bytes than a new writer: %s", i, c.Proto, firstDiff(k.b, k2.b))
		}
		for n := range want {
			if got[n] != want[n] {
				return fmt.Errorf("segment %d, call %d after reset (%s): %s; new writer: %s", i, n, c.Proto, got[n], want[n])
			}
		}
		if k.flushes != k2.flushes {
			return fmt.Errorf("segment %d: after reset the stream is flushed %d times, by a new writer %d times", i, k.flushes, k2.flushes)
		}
		for j, p := range prev {
			if len(p.k.b) != p.bytes || p.k.flushes != p.flushes {
				return fmt.Errorf("the stream of segment %d is written or flushed after the writer was reset (%d bytes)", j, len(p.k.b)-p.bytes)
			}
		}
		e := tokEncoder{proto: c.Proto}
		if !s.Odd {
			for _, t := range s.Toks {
				e.put(t)
			}
		} else {
			x.Label("odd calls")
		}
		if !lastSeg && s.Limit == 0 && !s.Odd && !bytes.HasPrefix(e.buf, k.b) {
			if !wrapsToks(s.Toks) {
				return fmt.Errorf("segment %d (%s): the stream received something else than what was written: %s", i, c.Proto, firstDiff(k.b, e.buf))
			}
		}
		prev = append(prev, used{k: k, w: out, want: e.buf})
		if i > 0 {
			x.NonTrivial()
		}
		if s.Wrap > 0 {
			x.Label("bufio.Writer of the caller")
		}
		if s.Limit > 0 {
			x.Label("failing stream before reset")
		}
	}
	for j, p := range prev[:len(prev)-1] {
		b, ok := p.w.(*bufio.Writer)
		if !ok || c.Segs[j].Limit > 0 || c.Segs[j].Odd {
			continue
		}
		b.WriteString("tail")
		b.Flush()
		if !bytes.HasSuffix(p.k.b, []byte("tail")) || !bytes.HasPrefix(p.want, p.k.b[:len(p.k.b)-4]) && !wrapsToks(c.Segs[j].Toks) {
			return fmt.Errorf("the caller's bufio.Writer of segment %d no longer leads to its stream", j)
		}
	}
	return nil
}

// wrapsToks reports whether a field id difference overflows 16 bits to a
// small delta.
func wrapsToks(toks []Tok) bool {
	var stack []int16
	var last int16
	for _, k := range toks {
		switch k.Op {
		case "StructBegin":
			stack = append(stack, last)
			last = 0
		case "StructEnd":
			if len(stack) > 0 {
				last = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
		case "FieldBegin":
			id := int16(k.ID)
			if d := id - last; d >= 1 && d <= 15 && id < last {
				return true
			}
			last = id
		}
	}
	return false
}

// ---- C13: flush ----

type flushCase struct {
	Proto string    `json:"proto"`
	Segs  []segment `json:"segs"` // separated by resets
	Join  bool      `json:"join"`
	// the underlying flush that fails, counted over all (0: none)
	FailFlush int `json:"failflush"`
	Kind      int `json:"kind,omitempty"` // which error it returns
}

func drawFlushCase(t *rapid.T) *flushCase {
	c := &flushCase{Proto: pick(t, "proto", "binary", "nonstrict", "compact", "compact"), Join: rapid.Bool().Draw(t, "join")}
	for i, n := 0, between(t, "segments", 1, 3); i < n; i++ {
		s := segment{Wrap: pick(t, "wrap", 0, 0, 16, 4096, 8192), Plain: chance(t, 25, "plain")}
		s.Toks = drawWriteToks(t, chance(t, 70, "small"))
		s.Flush = drawFlushes(t, len(s.Toks))
		c.Segs = append(c.Segs, s)
	}
	if chance(t, 30, "failflush") {
		c.FailFlush = between(t, "which", 1, 5)
		c.Kind = drawKind(t)
	}
	return c
}

func checkFlush(c *flushCase, x *Ctx) error {
	proto := protoByName(c.Proto)
	if c.Join {
		proto = thriftwire.JoinProtocol(protoByName("nonstrict"), proto)
	}
	var w thriftwire.Writer
	total := 0
	for i := range c.Segs {
		s := &c.Segs[i]
		k, out := s.sink()
		if w == nil {
			w = proto.NewWriter(out)
		} else {
			w.Reset(out)
			x.Label("after reset")
		}
		_, isFlusher := out.(thriftwire.Flusher)
		wraps := wrapsToks(s.Toks)
		e := tokEncoder{proto: c.Proto}
		before := k.flushes
		flush := func() error {
			fails := false
			if s.Wrap == 0 && !s.Plain {
				total++
				if fails = total == c.FailFlush; fails {
					k.flushErr = failKinds[c.Kind%len(failKinds)]
				}
			}
			err := w.Flush()
			k.flushErr = nil
			x.NonTrivial()
			was := before
			before = k.flushes
			if fails {
				x.Label("failing flush")
				if want := failKinds[c.Kind%len(failKinds)]; !errors.Is(err, want) {
					return fmt.Errorf("segment %d: the failure of the underlying flush was not returned: %v", i, err)
				}
				if !wraps && !bytes.Equal(k.b, e.buf) {
					return fmt.Errorf("segment %d: after a failing flush: %s", i, firstDiff(k.b, e.buf))
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("segment %d: Flush failed: %v", i, err)
			}
			if !wraps && !bytes.Equal(k.b, e.buf) {
				return fmt.Errorf("segment %d (%s): Flush succeeded but the stream received something else than what was written: %s", i, c.Proto, firstDiff(k.b, e.buf))
			}
			if isFlusher && s.Wrap == 0 {
				if k.flushes == was {
					return fmt.Errorf("segment %d: the underlying stream was not flushed", i)
				}
				if k.flushed != len(k.b) {
					return fmt.Errorf("segment %d: the underlying stream was flushed before it received all data", i)
				}
			}
			return nil
		}
		at := map[int]bool{}
		for _, f := range s.Flush {
			at[f] = true
		}
		for n, t := range s.Toks {
			if at[n] {
				if err := flush(); err != nil {
					return err
				}
			}
			if err := playTok(w, t, n%2 == 1); err != nil {
				return fmt.Errorf("segment %d: writing %s failed: %v", i, t, err)
			}
			e.put(t)
			if k.flushes != before {
				return fmt.Errorf("segment %d (%s): the stream was flushed though the writer was not", i, c.Proto)
			}
			if !wraps && !bytes.HasPrefix(e.buf, k.b) {
				return fmt.Errorf("segment %d (%s): the stream received what was not written: %s", i, c.Proto, firstDiff(k.b, e.buf))
			}
		}
		if err := flush(); err != nil {
			return err
		}
	}
	return nil
}

// ---- C22: memo ----

type memoCase struct {
	Rounds []memoRound `json:"rounds"`
}

type memoRound struct {
	Vals  []*V   `json:"vals"`
	Bytes []bool `json:"bytes"` // strings written as bytes, cyclic
	Skip  []bool `json:"skip"`  // strings and UUIDs skipped when read, cyclic
	Break int    `json:"break"` // breakpoint when writing, 0: none
	RBrk  int    `json:"rbreak"`
	// go on after a break with another breakpoint
	Resume, RResume bool `json:",omitempty"`
	Msg             *Msg `json:"msg,omitempty"`
}

func drawMemoCase(t *rapid.T) *memoCase {
	c := &memoCase{}
	for i, n := 0, between(t, "rounds", 1, 3); i < n; i++ {
		r := memoRound{Bytes: rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "bytes"), Skip: rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "skip")}
		g := vgen{noBig: true, noDeep: chance(t, 95, "flat"), stopOK: true, dupIDs: true}
		for j, m := 0, between(t, "values", 0, 3); j < m; j++ {
			r.Vals = append(r.Vals, g.drawValue(t, 0))
		}
		if rapid.Bool().Draw(t, "message") || len(r.Vals) == 0 {
			r.Msg = g.drawMsg(t, true)
		}
		n := len(r.toks())
		if chance(t, 50, "break") {
			r.Break = between(t, "at", 1, n+2)
			r.Resume = chance(t, 40, "resume")
		}
		if chance(t, 30, "rbreak") {
			r.RBrk = between(t, "rat", 1, n+2)
			r.RResume = chance(t, 40, "resume")
		}
		c.Rounds = append(c.Rounds, r)
	}
	return c
}

// toks are the calls of a reader.
func (r *memoRound) toks() (toks []Tok) {
	if r.Msg != nil {
		toks = msgTokens(r.Msg, toks, false)
	}
	for _, v := range r.Vals {
		toks = tokens(v, toks)
	}
	return
}

func checkMemo(c *memoCase, x *Ctx) error {
	var m thriftmemo.Memo
	for i := range c.Rounds {
		if err := checkMemoRound(&m, &c.Rounds[i], x); err != nil {
			return fmt.Errorf("round %d: %v", i, err)
		}
		if i > 0 {
			x.NonTrivial()
			x.Label("after Reset")
		}
		m.Reset()
		if s := m.Steps(); len(s) != 0 {
			return fmt.Errorf("round %d: steps after Reset: %v", i, s)
		}
		if m.Breakpoint != 0 {
			return fmt.Errorf("round %d: breakpoint %d after Reset", i, m.Breakpoint)
		}
	}
	return nil
}

func checkMemoRound(m *thriftmemo.Memo, r *memoRound, x *Ctx) error {
	all := r.toks()
	if len(all) > 4 {
		x.NonTrivial()
	}
	// Steps are named after the methods; a writer's StructEnd also records
	// the stop field a reader asks for.
	asBytes := func(n int) bool { return r.Bytes[n%len(r.Bytes)] }
	name := func(n int) string {
		if all[n].Op == "String" && asBytes(n) {
			return "Bytes"
		}
		return all[n].Op
	}
	m.Breakpoint = r.Break
	brk := r.Break
	w := m.Writer()
	done := len(all)
	var scribble [][]byte
	for n := 0; n < len(all); n++ {
		k := all[n]
		stop := k.Op == "FieldBegin" && k.T == tStop
		if stop {
			continue // recorded by StructEnd
		}
		first := n // the first step this call records
		if k.Op == "StructEnd" {
			first = n - 1
		}
		var err error
		switch {
		case k.Op == "String" && asBytes(n):
			b := []byte(k.S)
			err = w.WriteBytes(b)
			scribble = append(scribble, b)
		case k.Op == "UUID":
			var u [16]byte
			copy(u[:], k.S)
			err = w.WriteUUID(&u)
			u = [16]byte{0xff}
		default:
			err = playTok(w, k, false)
		}
		if brk > 0 && n+1 >= brk {
			// Step r.Break (counted from 1) must not be recorded.
			x.Label("break while writing")
			if !errors.Is(err, thriftmemo.ErrBreak) {
				return fmt.Errorf("write call %s, step %d with breakpoint %d: %v instead of a break", k, n+1, brk, err)
			}
			done = max(first, brk-1)
			if r.Resume && done == first {
				// Nothing of the call was recorded: go on from there.
				x.Label("go on writing")
				brk = 0
				if n%2 == 0 {
					brk = n + 1 + max(r.RBrk, 2)
				}
				m.Breakpoint, done = brk, len(all)
				n--
				continue
			}
			break
		}
		if err != nil {
			return fmt.Errorf("write call %s, step %d with breakpoint %d: %v", k, n+1, brk, err)
		}
	}
	for _, b := range scribble { // the recorder keeps what was written
		for i := range b {
			b[i] ^= 0xff
		}
	}
	var want []string
	for n := 0; n < done; n++ {
		want = append(want, name(n))
	}
	if got := m.Steps(); !slices.Equal(got, want) {
		return fmt.Errorf("steps after writing (breakpoint %d):\n got %v\nwant %v", r.Break, got, want)
	}
	// Stays broken.
	if brk > 0 && done < len(all) {
		if err := w.WriteI16(1); !errors.Is(err, thriftmemo.ErrBreak) {
			return fmt.Errorf("writing on after the break: %v", err)
		}
		if got := m.Steps(); !slices.Equal(got, want) {
			return fmt.Errorf("steps were recorded after the break: %v", got)
		}
	}
	got := m.Steps()
	if len(got) > 0 {
		got[0] = "changed"
		if m.Steps()[0] == "changed" {
			return errors.New("Steps does not return a copy")
		}
	}
	// Reading.
	m.Breakpoint = r.RBrk
	rbrk := r.RBrk
	rd := m.Reader()
	nskip := 0
	var keep [][]byte
	var keepWant []string
	for n := 0; n < done; n++ {
		k := all[n]
		var got Tok
		var err error
		skip := false
		switch k.Op {
		case "String", "UUID":
			skip = r.Skip[nskip%len(r.Skip)]
			nskip++
		}
		switch {
		case k.Op == "String" && asBytes(n):
			var b []byte
			b, err = rd.ReadBytes([]byte("ab"))
			if err == nil {
				if len(b) < 2 || string(b[:2]) != "ab" {
					return fmt.Errorf("ReadBytes lost the given buffer: %q", b)
				}
				got = Tok{Op: "String", S: string(b[2:])}
				keep, keepWant = append(keep, b), append(keepWant, string(b))
			}
		case skip && k.Op == "String":
			err = rd.SkipString()
			got = k
		case skip && k.Op == "UUID":
			err = rd.SkipUUID()
			got = k
		default:
			got, err = fetchTok(rd, k.Op, false)
			if k.Op == "FieldBegin" && k.T == tStop {
				k.ID = 0
			}
			if k.Op == "MessageBegin" {
				k.Name = string(r.Msg.Name)
			}
		}
		if rbrk > 0 && n+1 >= rbrk {
			x.Label("break while reading")
			if !errors.Is(err, thriftmemo.ErrBreak) {
				return fmt.Errorf("read step %d with breakpoint %d: %v instead of a break", n+1, rbrk, err)
			}
			if got := m.Steps(); !slices.Equal(got, want) {
				return fmt.Errorf("steps at the break:\n got %v\nwant %v", got, want)
			}
			if r.RResume {
				x.Label("go on reading")
				rbrk = 0
				if n%2 == 0 {
					rbrk = n + 3
				}
				m.Breakpoint = rbrk
				if k.Op == "String" || k.Op == "UUID" {
					nskip--
				}
				n--
				continue
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("read step %d (%s) with breakpoint %d: %v", n+1, k, rbrk, err)
		}
		want = append(want, name(n))
		if got != k && !(k.Op == "Double" && got.D == k.D) {
			return fmt.Errorf("step %d: wrote %+v, read %+v", n+1, k, got)
		}
	}
	if got := m.Steps(); !slices.Equal(got, want) {
		return fmt.Errorf("steps after reading:\n got %v\nwant %v", got, want)
	}
	for i, b := range keep {
		if string(b) != keepWant[i] {
			return fmt.Errorf("bytes returned earlier changed to %q from %q", b, keepWant[i])
		}
	}
	return nil
}

var _ = math.NaN

func init() {
	register(&property{
		id:   "C07",
		rule: "random values of which random parts are skipped and the others compared; random unknown fields inserted into data of random Go types; non-trivial: something composite is skipped and something read; at least one field inserted",
		subs: []*subDef{
			sub("skip", 60000, 600000, drawSkipCase, checkSkip),
			sub("nested", 800, 20000, drawSkipNest, checkSkip),
			sub("unknown", 60000, 600000, drawUnknownCase, checkUnknown),
		},
	})
	register(&property{
		id: "C08", level: "fault_enumeration",
		rule: "random encodings of messages, values and Go types, each cut at every position (long ones: 200 positions at the ends, around multiples of 4096 and 20 random ones); non-trivial: more than one byte",
		subs: []*subDef{sub("cuts", 8000, 120000, drawCutCase, checkCuts)},
	})
	register(&property{
		id:   "C11",
		rule: "random encodings, whole, cut or damaged, delivered in random portions with empty reads and end-of-file together with data; streams that must not be read past the end of each value; non-trivial: more than 8 bytes; more than one value",
		subs: []*subDef{
			sub("chunks", 16000, 250000, drawChunkCase, checkChunks),
			sub("gate", 16000, 250000, drawGateCase, checkGate),
			sub("drip", 16000, 250000, drawDripCase, checkDrip),
		},
	})
	register(&property{
		id:   "C12",
		rule: "random histories of calls on 1-3 streams, each abandoned by Reset, then lock-step comparison with a new reader or writer; non-trivial: at least one reset",
		subs: []*subDef{
			sub("reader", 16000, 250000, drawResetCase, checkResetReader),
			sub("writer", 16000, 250000, drawResetWriterCase, checkResetWriter),
		},
		assumptions: []string{"data left unflushed in a bufio.Writer of the caller may stay there"},
	})
	register(&property{
		id:          "C13",
		rule:        "random writes and flushes on new, reset and joined writers over recording streams with injected flush failures; non-trivial: at least one Flush",
		subs:        []*subDef{sub("flush", 24000, 400000, drawFlushCase, checkFlush)},
		assumptions: []string{"the header of a compact bool field may be held back until its value is written"},
	})
	register(&property{
		id:          "C22",
		rule:        "random sequences of values and messages recorded, replayed and skipped, with random breakpoints and resets; non-trivial: more than 4 steps",
		subs:        []*subDef{sub("memo", 120000, 1000000, drawMemoCase, checkMemo)},
		assumptions: []string{"a reader asks for what was recorded, strings written as bytes are read as bytes"},
	})
}
