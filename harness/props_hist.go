package main

// C30: calls do not affect later calls.

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// drawHistCase draws calls to be made one after the other.
func drawHistCase(t *rapid.T) *concCase {
	c := drawConcCase(t)
	for i := range c.Jobs {
		j := &c.Jobs[i]
		if c.Types[j.Type].Bad {
			continue
		}
		switch {
		case j.V != nil && chance(t, 25, "fault"):
			j.Op = pick(t, "fault", "fail", "panic")
		case j.Op == "unmarshal" && chance(t, 25, "fault"):
			j.Op = pick(t, "fault", "cut", "panic")
		}
		j.At = between(t, "at", 0, 12)
	}
	var order []int
	for i, n := 0, between(t, "calls", 2, 12); i < n; i++ {
		order = append(order, between(t, "job", 0, len(c.Jobs)-1))
	}
	c.Plan, c.Procs = [][]int{order}, 0
	return c
}

var errAborted = errors.New("aborted")

type panicWriter struct {
	*tokWriter
	at int
}

func (w *panicWriter) step() {
	if len(w.toks) >= w.at {
		panic(errAborted)
	}
}
func (w *panicWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	w.step()
	return w.tokWriter.WriteFieldBegin(h)
}
func (w *panicWriter) WriteI32(v int32) error { w.step(); return w.tokWriter.WriteI32(v) }
func (w *panicWriter) WriteListBegin(h thriftwire.ListHeader) error {
	w.step()
	return w.tokWriter.WriteListBegin(h)
}
func (w *panicWriter) WriteStructEnd() error { w.step(); return w.tokWriter.WriteStructEnd() }

type panicReader struct {
	*tokReader
	at int
}

func (r *panicReader) step() {
	if r.pos >= r.at {
		panic(errAborted)
	}
}
func (r *panicReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	r.step()
	return r.tokReader.ReadFieldBegin()
}
func (r *panicReader) ReadI32() (int32, error) { r.step(); return r.tokReader.ReadI32() }
func (r *panicReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	r.step()
	return r.tokReader.ReadMapBegin()
}
func (r *panicReader) ReadStructEnd() error { r.step(); return r.tokReader.ReadStructEnd() }

// prepareFault prepares the calls that do not come to an end.
func (c *concCase) prepareFault(i int, typ reflect.Type) *prepared {
	j := c.Jobs[i]
	p := &prepared{typ: typ}
	switch {
	case j.Op == "fail":
		p.in = newGV(typ, j.V)
		p.run = func() error {
			w := newTokWriter()
			w.failAt, w.fail = j.At, errAborted
			err := thrift.Marshal(w, p.in.Interface())
			p.note(err)
			if w.failed && !errors.Is(err, errAborted) {
				return fmt.Errorf("a failing writer is reported as %v", err)
			}
			if !w.failed && err != nil {
				return err
			}
			return nil
		}
	case j.Op == "cut":
		enc := refEncode(j.Proto, nil, j.Data)
		data := enc[:len(enc)*j.At/13]
		p.run = func() error {
			err := thrift.Unmarshal(protoByName(j.Proto).NewReader(bytes.NewReader(data)), reflect.New(typ).Interface())
			p.note(err)
			if err == nil {
				return fmt.Errorf("%d of %d bytes are accepted", len(data), len(enc))
			}
			return nil
		}
	case j.V != nil: // panic
		p.in = newGV(typ, j.V)
		p.run = func() (err error) {
			defer func() {
				if x := recover(); x != nil && x != any(errAborted) {
					panic(x)
				}
			}()
			thrift.Marshal(&panicWriter{newTokWriter(), j.At}, p.in.Interface())
			return nil
		}
	default:
		toks := tokens(j.Data, nil)
		p.run = func() (err error) {
			defer func() {
				if x := recover(); x != nil && x != any(errAborted) {
					panic(x)
				}
			}()
			thrift.Unmarshal(&panicReader{newTokReader(toks), j.At}, reflect.New(typ).Interface())
			return nil
		}
	}
	return p
}

func (p *prepared) note(err error) {
	if p.keep != nil {
		p.keep(err)
	}
}

// wording is the text of an error without its random part, and what can be
// got out of it.
func wording(err error) string {
	s := strings.ReplaceAll(err.Error(), "unable to ", "cannot ")
	var se *thrift.SemanticError
	if errors.As(err, &se) {
		s += fmt.Sprintf(" | %d %v", se.ThriftType, se.GoType)
		if se.Err != nil {
			s += " | " + se.Err.Error()
		}
	}
	return s
}

func checkHist(c *concCase, x *Ctx) error {
	n := concSerial.Add(1)
	fam := families[int(n)%len(families)]
	var types []reflect.Type
	for i := range c.Types {
		types = append(types, c.Types[i].build(fam, strconv.FormatInt(n, 10)))
	}
	var jobs []*prepared
	for i, j := range c.Jobs {
		if typ := types[j.Type]; j.Op == "fail" || j.Op == "cut" || j.Op == "panic" {
			jobs = append(jobs, c.prepareFault(i, typ))
		} else {
			jobs = append(jobs, c.prepare(i, typ))
		}
	}
	type told struct {
		err  error
		text string
		call int
	}
	var errs []told
	used := map[int]bool{}
	for i, k := range c.Plan[0] {
		if i > 0 && used[c.Jobs[k].Type] {
			x.NonTrivial() // a type that was used before
		}
		used[c.Jobs[k].Type] = true
		x.Label("%s", c.Jobs[k].Op)
		if c.Types[c.Jobs[k].Type].Bad {
			x.Label("broken type")
		}
		jobs[k].keep = func(err error) {
			if err != nil {
				errs = append(errs, told{err, wording(err), i})
			}
		}
		if err := catch(jobs[k].run); err != nil {
			return fmt.Errorf("call %d (%s): %w", i, c.Jobs[k].Op, err)
		}
		for _, e := range errs {
			if w := wording(e.err); w != e.text {
				return fmt.Errorf("call %d (%s) turns the error of call %d, which was\n     %s\ninto %s", i, c.Jobs[k].Op, e.call, e.text, w)
			}
		}
	}
	return nil
}

// ---- values of different types in one stream ----

type mixedCase struct {
	Items []*goCase `json:"items"` // the protocol is that of the first
	Flush bool      `json:"flush"`
	Chunk int       `json:"chunk"`
}

func drawMixedCase(t *rapid.T) *mixedCase {
	c := &mixedCase{Flush: rapid.Bool().Draw(t, "flush"), Chunk: pick(t, "chunk", 0, 0, 1, 5, 4096)}
	for i, n := 0, between(t, "items", 2, 5); i < n; i++ {
		g := drawGoCase(t)
		if i > 0 && chance(t, 30, "same type") {
			g.Ty = c.Items[0].Ty
			g.V = drawGV(t, g.Ty.build(), gvgen{junk: true})
		}
		c.Items = append(c.Items, g)
	}
	return c
}

func checkMixed(c *mixedCase, x *Ctx) error {
	proto := protoByName(c.Items[0].Proto)
	x.Label("%s", c.Items[0].Proto)
	var buf bytes.Buffer
	w := proto.NewWriter(&buf)
	var ps []reflect.Value
	for i, g := range c.Items {
		typ := g.Ty.build()
		p := newGV(typ, g.V)
		ps = append(ps, p)
		labelType(x, g.Ty)
		if refMarshal(p.Elem()).nodes() > 1 && i > 0 {
			x.NonTrivial()
		}
		var err error
		if m := g.Msg; m != nil {
			err = w.WriteMessageBegin(thriftwire.MessageHeader{Name: string(m.Name), Type: thriftwire.MessageType(m.Type), ID: m.ID})
		}
		if err == nil {
			err = thrift.Marshal(w, g.in(p))
		}
		if err == nil && g.Msg != nil {
			err = w.WriteMessageEnd()
		}
		if err == nil && c.Flush {
			err = w.Flush()
		}
		if err != nil {
			return fmt.Errorf("item %d: marshalling a %v: %v", i, typ, err)
		}
	}
	if err := w.Flush(); err != nil {
		return err
	}
	r := proto.NewReader(chunked(buf.Bytes(), c.Chunk))
	for i, g := range c.Items {
		typ := g.Ty.build()
		q := reflect.New(typ)
		if err := g.unmarshalFrom(r, q.Interface()); err != nil {
			return fmt.Errorf("item %d: unmarshalling a %v from %s: %v", i, typ, c.Items[0].Proto, err)
		}
		if got, want := canonGo(q.Elem(), false, true), canonGo(ps[i].Elem(), true, true); got != want {
			return fmt.Errorf("item %d: %s changed a value of type %v:\n got %s\nwant %s", i, c.Items[0].Proto, typ, clip(got, 1500), clip(want, 1500))
		}
	}
	return atEOF(r)
}

func init() {
	register(&property{
		id:   "C30",
		rule: "sequences of calls with types that are new to the process, among them failing, aborted and panicking ones, each compared with the model; values of several types written by one writer and read by one reader; non-trivial: a type is used again; a second value of more than one node",
		subs: []*subDef{
			sub("history", 40000, 800000, drawHistCase, checkHist).repeats(2).perProcess(400),
			sub("stream", 20000, 400000, drawMixedCase, checkMixed),
		},
		assumptions: []string{"what a panic of a user's reader or writer leads to is not asserted, only that later calls are not affected"},
	})
}
