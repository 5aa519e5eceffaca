package main

// C36: protocols put together from others, and the flush helper.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"pgregory.net/rapid"
)

// joinTree is a joined protocol, or one of the parts.
type joinTree struct {
	L    *joinTree `json:",omitempty"`
	R    *joinTree `json:",omitempty"`
	Part int       `json:"part"`
}

type joinPart struct {
	Base string `json:"base"`
	Kind string `json:"kind"`
	Name string `json:"name"`
}

type joinUse struct {
	Write bool      `json:"write"`
	Tree  int       `json:"tree"` // which of the protocols
	Msg   *Msg      `json:"msg"`
	Again *Msg      `json:"again,omitempty"` // after Reset
	Mode  int       `json:"mode"`
	Chunk int       `json:"chunk"`
	sink  *joinSink // of a writer
}

type joinCase struct {
	Parts []joinPart  `json:"parts"`
	Trees []*joinTree `json:"trees"`
	Uses  []*joinUse  `json:"uses"`
}

// joinSink is a stream that remembers how often it was flushed.
type joinSink struct {
	bytes.Buffer
	flushes int
}

func (s *joinSink) Flush() error { s.flushes++; return nil }

type joinLog struct {
	readers []io.Reader
	writers []io.Writer
}

// The parts come as pointers, as comparable and as uncomparable values, and
// as functions.
type ptrPart struct {
	log  *joinLog
	base thriftwire.Protocol
	name string
}

func (p *ptrPart) NewReader(r io.Reader) thriftwire.Reader {
	p.log.readers = append(p.log.readers, r)
	return p.base.NewReader(r)
}
func (p *ptrPart) NewWriter(w io.Writer) thriftwire.Writer {
	p.log.writers = append(p.log.writers, w)
	return p.base.NewWriter(w)
}
func (p *ptrPart) String() string { return p.name }

type valuePart struct{ ptr *ptrPart }

func (p valuePart) NewReader(r io.Reader) thriftwire.Reader { return p.ptr.NewReader(r) }
func (p valuePart) NewWriter(w io.Writer) thriftwire.Writer { return p.ptr.NewWriter(w) }
func (p valuePart) String() string                          { return p.ptr.name }

type slicePart []*ptrPart

func (p slicePart) NewReader(r io.Reader) thriftwire.Reader { return p[0].NewReader(r) }
func (p slicePart) NewWriter(w io.Writer) thriftwire.Writer { return p[0].NewWriter(w) }
func (p slicePart) String() string                          { return p[0].name }

type funcPart func() *ptrPart

func (p funcPart) NewReader(r io.Reader) thriftwire.Reader { return p().NewReader(r) }
func (p funcPart) NewWriter(w io.Writer) thriftwire.Writer { return p().NewWriter(w) }
func (p funcPart) String() string                          { return p().name }

func (p joinPart) build(log *joinLog) thriftwire.Protocol {
	base := protoByName(p.Base)
	ptr := &ptrPart{log, base, p.Name}
	switch p.Kind {
	case "bare":
		return base
	case "ptr":
		return ptr
	case "value":
		return valuePart{ptr}
	case "slice":
		return slicePart{ptr}
	case "func":
		return funcPart(func() *ptrPart { return ptr })
	}
	fault("part %q", p.Kind)
	return nil
}

func drawJoinTree(t *rapid.T, parts, depth int) *joinTree {
	if depth == 0 || chance(t, 30, "part") {
		return &joinTree{Part: between(t, "which", 0, parts-1)}
	}
	return &joinTree{L: drawJoinTree(t, parts, depth-1), R: drawJoinTree(t, parts, depth-1)}
}

// side returns the part that reads or writes.
func (j *joinTree) side(write bool) int {
	for j.L != nil {
		if write {
			j = j.R
		} else {
			j = j.L
		}
	}
	return j.Part
}

func drawJoinCase(t *rapid.T) *joinCase {
	c := &joinCase{}
	for i, n := 0, between(t, "parts", 1, 5); i < n; i++ {
		c.Parts = append(c.Parts, joinPart{
			Base: pick(t, "base", "binary", "nonstrict", "compact"),
			Kind: pick(t, "kind", "bare", "ptr", "value", "slice", "func"),
			Name: pick(t, "name", "x", "other", "%d", "100%", "a, b", "(", "JoinProtocol", "thriftwire.JoinProtocol(a, b)", "ünï", ""),
		})
	}
	for i, n := 0, between(t, "protocols", 1, 3); i < n; i++ {
		d := between(t, "depth", 0, 4)
		c.Trees = append(c.Trees, &joinTree{L: drawJoinTree(t, len(c.Parts), d), R: drawJoinTree(t, len(c.Parts), d)})
	}
	g := vgen{noBig: true, noDeep: true}
	for i, n := 0, between(t, "uses", 1, 5); i < n; i++ {
		u := &joinUse{
			Write: rapid.Bool().Draw(t, "write"),
			Tree:  between(t, "protocol", 0, len(c.Trees)-1),
			Msg:   g.drawMsg(t, true),
			Mode:  between(t, "mode", 0, 2),
			Chunk: between(t, "chunk", 0, 3),
		}
		if chance(t, 40, "again") {
			u.Again = g.drawMsg(t, true)
		}
		c.Uses = append(c.Uses, u)
	}
	return c
}

func checkJoin(c *joinCase, x *Ctx) error {
	logs := make([]joinLog, len(c.Parts))
	parts := make([]thriftwire.Protocol, len(c.Parts))
	for i, p := range c.Parts {
		parts[i] = p.build(&logs[i])
		x.Label("part: %s", p.Kind)
	}
	var named func(p thriftwire.Protocol, l, r thriftwire.Protocol) error
	named = func(p, l, r thriftwire.Protocol) error {
		s, a, b := fmt.Sprint(p), fmt.Sprint(l), fmt.Sprint(r)
		i := strings.Index(s, a)
		if i < 0 || !strings.Contains(s, b) || a != b && !strings.Contains(s[i+len(a):], b) {
			return fmt.Errorf("the protocol joined of %q and %q prints as %q", a, b, s)
		}
		return nil
	}
	var build func(j *joinTree) (thriftwire.Protocol, error)
	build = func(j *joinTree) (thriftwire.Protocol, error) {
		if j.L == nil {
			return parts[j.Part], nil
		}
		l, err := build(j.L)
		if err != nil {
			return nil, err
		}
		r, err := build(j.R)
		if err != nil {
			return nil, err
		}
		p := thriftwire.JoinProtocol(l, r)
		if p == nil {
			return nil, fmt.Errorf("no protocol")
		}
		return p, named(p, l, r)
	}
	trees := make([]thriftwire.Protocol, len(c.Trees))
	for i, j := range c.Trees {
		var err error
		if trees[i], err = build(j); err != nil {
			return err
		}
		if j.L.L != nil || j.R.L != nil {
			x.Label("nested")
			x.NonTrivial()
		}
		if j.side(true) != j.side(false) {
			x.Label("reads and writes with different parts")
			x.NonTrivial()
		}
	}
	// All readers and writers are in use at the same time.
	want := make([]joinLog, len(c.Parts))
	rs, ws := make([]thriftwire.Reader, len(c.Uses)), make([]thriftwire.Writer, len(c.Uses))
	name := func(u *joinUse) string { return c.Parts[c.Trees[u.Tree].side(u.Write)].Base }
	for i, u := range c.Uses {
		part := c.Trees[u.Tree].side(u.Write)
		if u.Write {
			u.sink = &joinSink{}
			ws[i] = trees[u.Tree].NewWriter(u.sink)
			want[part].writers = append(want[part].writers, u.sink)
		} else {
			src := chunked(refEncodeMsg(name(u), nil, u.Msg), u.Chunk)
			rs[i] = trees[u.Tree].NewReader(src)
			want[part].readers = append(want[part].readers, src)
		}
	}
	round := func(i int, u *joinUse, m *Msg) error {
		if u.Write {
			if err := writeMsg(ws[i], m, u.Mode); err != nil {
				return fmt.Errorf("use %d: writing as %s: %v", i, name(u), err)
			}
			was := u.sink.flushes
			if err := ws[i].Flush(); err != nil {
				return fmt.Errorf("use %d: flush: %v", i, err)
			}
			if ref := refEncodeMsg(name(u), nil, m); !wraps(m.Body) && !bytes.Equal(u.sink.Bytes(), ref) {
				return fmt.Errorf("use %d: should have written as %s: %s", i, name(u), firstDiff(u.sink.Bytes(), ref))
			}
			if u.sink.flushes == was {
				return fmt.Errorf("use %d: the stream was not flushed", i)
			}
			return nil
		}
		got, err := readMsg(rs[i], u.Mode)
		if err != nil {
			return fmt.Errorf("use %d: reading as %s: %v", i, name(u), err)
		}
		if string(got.Name) != string(m.Name) || got.Type != m.Type || got.ID != m.ID || got.Body.emptyNorm() != m.Body.emptyNorm() {
			return fmt.Errorf("use %d: read %s instead of %s", i, clip(got.String(), 800), clip(m.String(), 800))
		}
		return atEOF(rs[i])
	}
	for i, u := range c.Uses {
		if err := round(i, u, u.Msg); err != nil {
			return err
		}
	}
	for i, u := range c.Uses {
		if u.Again == nil {
			continue
		}
		x.Label("after reset")
		if u.Write {
			u.sink = &joinSink{}
			ws[i].Reset(u.sink)
		} else {
			rs[i].Reset(chunked(refEncodeMsg(name(u), nil, u.Again), u.Chunk))
		}
		if err := round(i, u, u.Again); err != nil {
			return fmt.Errorf("after reset: %v", err)
		}
	}
	for i, p := range c.Parts {
		if p.Kind == "bare" {
			continue
		}
		if len(logs[i].readers) != len(want[i].readers) || len(logs[i].writers) != len(want[i].writers) {
			return fmt.Errorf("part %d made %d readers and %d writers instead of %d and %d", i, len(logs[i].readers), len(logs[i].writers), len(want[i].readers), len(want[i].writers))
		}
		for k, r := range want[i].readers {
			if logs[i].readers[k] != r {
				return fmt.Errorf("part %d was given another stream to read", i)
			}
		}
		for k, w := range want[i].writers {
			if logs[i].writers[k] != w {
				return fmt.Errorf("part %d was given another stream to write", i)
			}
		}
	}
	return nil
}

// ---- Flush ----

type helperCase struct {
	Layers []string `json:"layers"` // from the innermost on
	Data   []Bytes  `json:"data"`
	Fail   int      `json:"fail"` // which flush of the innermost fails, 0: none
	Kind   int      `json:"kind"`
	Short  bool     `json:"short"` // writes of the innermost fail
}

type baseStream struct {
	bytes.Buffer
	flushes, writes int
	fail            int
	err             error
	short           bool
}

func (b *baseStream) Write(p []byte) (int, error) {
	b.writes++
	if b.short {
		return 0, b.err
	}
	return b.Buffer.Write(p)
}

type flushBase struct{ *baseStream }

func (b flushBase) Flush() error {
	b.flushes++
	if b.flushes == b.fail {
		return b.err
	}
	return nil
}

// passFlush forwards Flush to what it is around, with the helper.
type passFlush struct{ io.Writer }

func (p passFlush) Flush() error { return thriftwire.Flush(p.Writer) }

// hideFlush has no Flush of its own, though what it is around may.
type hideFlush struct{ w io.Writer }

func (h hideFlush) Write(p []byte) (int, error) { return h.w.Write(p) }

// fakeFlush has a method of that name that is another one.
type fakeFlush struct{ io.Writer }

func (fakeFlush) Flush() { panic("a method that is not Flusher's was called") }

// writeFunc is a stream of an uncomparable type.
type writeFunc func(p []byte) (int, error)

func (f writeFunc) Write(p []byte) (int, error) { return f(p) }

func drawHelperCase(t *rapid.T) *helperCase {
	c := &helperCase{Layers: []string{pick(t, "base", "plain", "flusher", "flusher")}, Kind: drawKind(t)}
	for i, n := 0, between(t, "layers", 0, 4); i < n; i++ {
		c.Layers = append(c.Layers, pick(t, "layer", "pass", "pass", "bufio", "hide", "fake", "func"))
	}
	for i, n := 0, between(t, "flushes", 1, 4); i < n; i++ {
		c.Data = append(c.Data, fill(between(t, "bytes", 0, 40), byte(i+1)))
	}
	if chance(t, 40, "fails") {
		c.Fail = between(t, "which", 1, len(c.Data))
	}
	c.Short = chance(t, 15, "no writes")
	return c
}

// modelStream says what a stream of layers does. All data fits the buffers.
type modelStream struct {
	layer string
	below *modelStream
	got   []byte // the base: written; a buffer: not yet passed on
	err   error  // a buffer: the failure it repeats
	c     *helperCase
	flushes,
	writes int
}

func (m *modelStream) write(p []byte) error {
	switch m.layer {
	case "plain", "flusher":
		m.writes++
		if m.c.Short {
			return m.c.err()
		}
		m.got = append(m.got, p...)
		return nil
	case "bufio":
		if m.err == nil {
			m.got = append(m.got, p...)
		}
		return m.err
	}
	return m.below.write(p)
}

func (m *modelStream) flush() error {
	switch m.layer {
	case "flusher":
		if m.flushes++; m.flushes == m.c.Fail {
			return m.c.err()
		}
	case "pass":
		return m.below.flush()
	case "bufio":
		if m.err == nil && len(m.got) > 0 {
			m.err = m.below.write(m.got)
			m.got = nil
		}
		return m.err
	}
	return nil
}

func (c *helperCase) err() error { return failKinds[c.Kind%len(failKinds)] }

func checkHelper(c *helperCase, x *Ctx) error {
	b := &baseStream{fail: c.Fail, err: c.err(), short: c.Short}
	var w io.Writer
	var m, base *modelStream
	for _, l := range c.Layers {
		switch l {
		case "plain":
			w = b
		case "flusher":
			w = flushBase{b}
		case "pass":
			w = passFlush{w}
		case "bufio":
			if _, ok := w.(*bufio.Writer); ok {
				continue // would be the same
			}
			w = bufio.NewWriter(w)
		case "hide":
			w = hideFlush{w}
		case "fake":
			w = fakeFlush{w}
		case "func":
			w = writeFunc(w.Write)
		default:
			fault("layer %q", l)
		}
		m = &modelStream{layer: l, below: m, c: c}
		if base == nil {
			base = m
		}
		x.Label("layer: %s", l)
	}
	if len(c.Layers) > 1 {
		x.NonTrivial()
	}
	for i, d := range c.Data {
		if _, err := w.Write(d); err != m.write(d) {
			fault("%v: write %d: %v", c.Layers, i, err)
		}
		err, want := thriftwire.Flush(w), m.flush()
		if want != nil {
			x.Label("failing flush")
			x.NonTrivial()
		}
		if err != want {
			return fmt.Errorf("%v: Flush %d returned %v instead of %v", c.Layers, i, err, want)
		}
		if b.flushes != base.flushes {
			return fmt.Errorf("%v: after Flush %d the stream was flushed %d times instead of %d", c.Layers, i, b.flushes, base.flushes)
		}
		if b.writes != base.writes || !bytes.Equal(b.Bytes(), base.got) {
			return fmt.Errorf("%v: after Flush %d the stream had %d writes instead of %d: %s", c.Layers, i, b.writes, base.writes, firstDiff(b.Bytes(), base.got))
		}
	}
	return nil
}

func init() {
	register(&property{
		id:          "C36",
		rule:        "random trees of joined protocols over real and user-made parts, several readers and writers of them in use at once; streams made of random layers with and without Flush; non-trivial: nested joins or different parts for reading and writing; at least two layers or a failing flush",
		assumptions: []string{"the wire references of C02 and C03 describe what a part writes"},
		subs: []*subDef{
			sub("join", 30000, 400000, drawJoinCase, checkJoin),
			sub("flush", 40000, 400000, drawHelperCase, checkHelper),
		},
	})
}
