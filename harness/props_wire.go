package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"pgregory.net/rapid"
)

// ---- C02, C03: exact bytes ----

type wireCase struct {
	Proto string      `json:"proto"`
	Msg   *Msg        `json:"msg,omitempty"`
	Vals  []*V        `json:"vals,omitempty"`
	Mode  int         `json:"mode"`
	Opts  compactOpts `json:"opts"`
}

func (c *wireCase) bytes(v *V) int { return v.bytes() }

func drawWireCase(protos ...string) func(*rapid.T) *wireCase {
	return func(t *rapid.T) *wireCase {
		c := &wireCase{Proto: pick(t, "proto", protos...), Mode: between(t, "mode", 0, 2)}
		g := vgen{dupIDs: true, stopOK: true}
		if chance(t, 60, "message") {
			c.Msg = g.drawMsg(t, c.Proto == "compact")
		} else {
			for i, n := 0, between(t, "values", 1, 4); i < n; i++ {
				c.Vals = append(c.Vals, g.drawValue(t, 0))
			}
		}
		if c.Proto == "compact" {
			c.Opts = compactOpts{rapid.Bool().Draw(t, "longfield"), rapid.Bool().Draw(t, "longlist"), rapid.Bool().Draw(t, "boolelem1")}
		}
		return c
	}
}

func (c *wireCase) classify(x *Ctx) {
	vs := c.Vals
	if c.Msg != nil {
		x.Label("message")
		vs = []*V{c.Msg.Body}
		if len(c.Msg.Name) > 4096 {
			x.Label("message name longer than the buffer")
		}
		if c.Msg.ID < 0 {
			x.Label("negative sequence id")
		}
	}
	n, depth := 0, 0
	for _, v := range vs {
		n += v.nodes()
		depth = max(depth, v.depth())
		if v.bytes() > 4096 {
			x.Label("string data longer than the buffer")
		}
		if v.any(func(v *V) bool { return v.count() >= 15 }) {
			x.Label("long container")
		}
		if v.any(func(v *V) bool {
			for i := 1; i < len(v.F); i++ {
				if v.F[i].ID <= v.F[i-1].ID {
					return true
				}
			}
			return false
		}) {
			x.Label("field ids not increasing")
		}
		if v.any(func(v *V) bool { return (v.T == tList || v.T == tSet || v.T == tMap) && v.E == 0 }) {
			x.Label("empty container without element type")
		}
	}
	if depth > 8 {
		x.Label("deep")
	}
	if n >= 4 {
		x.NonTrivial()
	}
}

func (c *wireCase) reference(longForms bool) []byte {
	var b []byte
	o := c.Opts
	if !longForms {
		o = compactOpts{}
	}
	enc := func(v *V) {
		if c.Proto == "compact" {
			b = refCompact(b, v, o)
		} else {
			b = refBinary(b, v)
		}
	}
	if c.Msg != nil {
		if c.Proto == "compact" {
			b = refCompactMsg(b, c.Msg)
		} else {
			b = refBinaryMsg(b, c.Msg, c.Proto == "binary")
		}
		enc(c.Msg.Body)
	}
	for _, v := range c.Vals {
		enc(v)
	}
	return b
}

// wraps reports whether a field id difference overflows 16 bits to a small
// delta; the specification does not say which header form to use then.
func wraps(v *V) bool {
	return v.any(func(v *V) bool {
		last := int16(0)
		for _, f := range v.F {
			if d := f.ID - last; d >= 1 && d <= 15 && int(f.ID) < int(last) {
				return true
			}
			last = f.ID
		}
		return false
	})
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-8)
	return fmt.Sprintf("first difference at byte %d: got (from %d) % x, want % x (lengths %d, %d)", i, lo, a[lo:min(len(a), i+16)], b[lo:min(len(b), i+16)], len(a), len(b))
}

func checkWireWrite(c *wireCase, x *Ctx) error {
	c.classify(x)
	var out bytes.Buffer
	w := protoByName(c.Proto).NewWriter(&out)
	if c.Msg != nil {
		if err := writeMsg(w, c.Msg, c.Mode); err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
	}
	for _, v := range c.Vals {
		if err := writeV(w, v, c.Mode); err != nil {
			return fmt.Errorf("writing failed: %v", err)
		}
	}
	if err := w.Flush(); err != nil {
		return fmt.Errorf("Flush failed: %v", err)
	}
	if want := c.reference(false); !bytes.Equal(out.Bytes(), want) {
		if c.Proto == "compact" {
			for _, v := range append(c.Vals, c.body()...) {
				if wraps(v) {
					x.Label("field id difference overflows")
					return nil
				}
			}
		}
		return fmt.Errorf("wrong bytes written by %s: %s", c.Proto, firstDiff(out.Bytes(), want))
	}
	return nil
}

func (c *wireCase) body() []*V {
	if c.Msg == nil {
		return nil
	}
	return []*V{c.Msg.Body}
}

func checkWireRead(c *wireCase, x *Ctx) error {
	c.classify(x)
	data := c.reference(true)
	r := protoByName(c.Proto).NewReader(bytes.NewReader(data))
	same := func(got, want *V) error {
		g, w := got.String(), want.String()
		if c.Proto == "compact" {
			g, w = got.emptyNorm(), want.emptyNorm()
		}
		if g != w {
			return fmt.Errorf("wrong value read by %s:\n got %s\nwant %s", c.Proto, clip(g, 2000), clip(w, 2000))
		}
		return nil
	}
	if c.Msg != nil {
		m, err := readMsg(r, c.Mode)
		if err != nil {
			return fmt.Errorf("reading %s failed: %v", c.Proto, err)
		}
		if string(m.Name) != string(c.Msg.Name) || m.Type != c.Msg.Type || m.ID != c.Msg.ID {
			return fmt.Errorf("wrong message header: got %q %d %d, want %q %d %d", clip(string(m.Name), 100), m.Type, m.ID, clip(string(c.Msg.Name), 100), c.Msg.Type, c.Msg.ID)
		}
		if err := same(m.Body, c.Msg.Body); err != nil {
			return err
		}
	}
	for _, want := range c.Vals {
		got, err := readV(r, want.T, c.Mode)
		if err != nil {
			return fmt.Errorf("reading %s failed: %v", c.Proto, err)
		}
		if err := same(got, want); err != nil {
			return err
		}
	}
	return atEOF(r)
}

// atEOF checks that all data was consumed.
func atEOF(r thriftwire.Reader) error {
	if b, err := r.ReadByte(); err == nil {
		return fmt.Errorf("data left over: %#x", b)
	} else if !errors.Is(err, io.EOF) {
		return fmt.Errorf("at the end: error %v instead of end of file", err)
	}
	return nil
}

// ---- C04: streams of messages, transcoding ----

type streamCase struct {
	Chain []string `json:"chain"` // protocols; "a+b" reads with a and writes with b
	Msgs  []*Msg   `json:"msgs"`
	Flush []int    `json:"flush"` // calls after which to flush
	Mode  int      `json:"mode"`
	Chunk int      `json:"chunk"` // bytes per read, 0: all
}

func drawStreamCase(t *rapid.T) *streamCase {
	c := &streamCase{Mode: between(t, "mode", 0, 3), Chunk: pick(t, "chunk", 0, 1, 7, 4096)}
	for i, n := 0, between(t, "hops", 1, 4); i < n; i++ {
		p := pick(t, "proto", protoNames...)
		if chance(t, 40, "join") {
			p = drawJoin(t, p, false, 0) + "|" + drawJoin(t, p, true, 0)
		}
		c.Chain = append(c.Chain, p)
	}
	g := vgen{dupIDs: true, stopOK: true, noBig: rapid.Bool().Draw(t, "small")}
	for i, n := 0, between(t, "msgs", 1, 6); i < n; i++ {
		c.Msgs = append(c.Msgs, g.drawMsg(t, true))
	}
	c.Flush = rapid.SliceOfN(rapid.IntRange(0, 80), 0, 6).Draw(t, "flush")
	return c
}

// drawJoin draws a tree of joined protocols that reads or writes as name.
func drawJoin(t *rapid.T, name string, reads bool, depth int) string {
	if chance(t, 30+20*depth, "leaf") {
		return name
	}
	this := drawJoin(t, name, reads, depth+1)
	other := drawJoin(t, pick(t, "other", protoNames...), !reads, depth+1)
	if reads {
		return "(" + this + "," + other + ")"
	}
	return "(" + other + "," + this + ")"
}

// protoBySpec builds a protocol from its name, or from "(r,w)" one that reads
// as r and writes as w.
func protoBySpec(s string) thriftwire.Protocol {
	if !strings.HasPrefix(s, "(") {
		return protoByName(s)
	}
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 1 {
				return thriftwire.JoinProtocol(protoBySpec(s[1:i]), protoBySpec(s[i+1:len(s)-1]))
			}
		}
	}
	fault("protocol %q", s)
	return nil
}

func checkStream(c *streamCase, x *Ctx) error {
	x.Label("messages: %d", len(c.Msgs))
	if len(c.Msgs) > 1 {
		x.NonTrivial()
	}
	for _, p := range c.Chain {
		if strings.ContainsAny(p, "(|") {
			p = fmt.Sprintf("joined, %d pairs", strings.Count(p, "("))
		}
		x.Label("protocol %s", p)
	}
	proto := func(i int) thriftwire.Protocol {
		switch w, _, ok := strings.Cut(c.Chain[i], "|"); {
		case ok:
			return protoBySpec(w)
		case w != "join":
			return protoByName(w)
		case i%2 == 0: // alternates between joined pairs
			return protoBySpec("(compact,binary)")
		}
		return protoBySpec("(binary,compact)")
	}
	// readerOf returns the reading half that understands what hop i wrote.
	readerOf := func(i int) thriftwire.Protocol {
		switch w, r, ok := strings.Cut(c.Chain[i], "|"); {
		case ok:
			return protoBySpec(r)
		case w != "join":
			return protoByName(w)
		case i%2 == 0:
			return protoBySpec("(binary,compact)")
		}
		return protoBySpec("(compact,nonstrict)")
	}
	flushAt := map[int]bool{}
	for _, f := range c.Flush {
		flushAt[f] = true
	}
	check := func(data []byte, hop int) error {
		r := readerOf(hop).NewReader(chunked(data, c.Chunk))
		for i, want := range c.Msgs {
			got, err := readMsg(r, c.Mode%3)
			if err != nil {
				return fmt.Errorf("hop %d (%s): reading message %d: %v", hop, c.Chain[hop], i, err)
			}
			if string(got.Name) != string(want.Name) || got.Type != want.Type || got.ID != want.ID || got.Body.emptyNorm() != want.Body.emptyNorm() {
				return fmt.Errorf("hop %d (%s): message %d changed:\n got %s\nwant %s", hop, c.Chain[hop], i, clip(got.String(), 1500), clip(want.String(), 1500))
			}
		}
		return atEOF(r)
	}
	var out bytes.Buffer
	w := proto(0).NewWriter(&out)
	n := 0
	for _, m := range c.Msgs {
		for _, k := range msgTokens(m, nil, true) {
			if err := playTok(w, k, c.Mode%2 == 1); err != nil {
				return fmt.Errorf("writing %s with %s: %v", k, c.Chain[0], err)
			}
			if flushAt[n] {
				if err := w.Flush(); err != nil {
					return fmt.Errorf("flush: %v", err)
				}
			}
			n++
		}
	}
	if err := w.Flush(); err != nil {
		return fmt.Errorf("flush: %v", err)
	}
	if err := check(out.Bytes(), 0); err != nil {
		return err
	}
	data := append([]byte(nil), out.Bytes()...)
	for hop := 1; hop < len(c.Chain); hop++ {
		r := readerOf(hop - 1).NewReader(chunked(data, c.Chunk))
		var out bytes.Buffer
		w := proto(hop).NewWriter(&out)
		for i := range c.Msgs {
			if err := transcodeMsg(r, w, c.Mode); err != nil {
				return fmt.Errorf("transcoding message %d from %s to %s: %v", i, c.Chain[hop-1], c.Chain[hop], err)
			}
			if flushAt[i] {
				if err := w.Flush(); err != nil {
					return fmt.Errorf("flush: %v", err)
				}
			}
		}
		if err := w.Flush(); err != nil {
			return fmt.Errorf("flush: %v", err)
		}
		if err := atEOF(r); err != nil {
			return fmt.Errorf("transcoding from %s: %v", c.Chain[hop-1], err)
		}
		data = append([]byte(nil), out.Bytes()...)
		if err := check(data, hop); err != nil {
			return err
		}
	}
	return nil
}

// chunkReader delivers at most n bytes per read.
type chunkReader struct {
	b []byte
	n int
}

func chunked(b []byte, n int) io.Reader {
	if n <= 0 {
		return bytes.NewReader(b)
	}
	return &chunkReader{b, n}
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.n)], r.b)
	r.b = r.b[n:]
	return n, nil
}

func init() {
	register(&property{
		id:   "C02",
		rule: "random value trees over all wire types and message envelopes, bare or in messages, strict and non-strict; non-trivial: at least 4 nodes",
		subs: []*subDef{
			sub("write", 60000, 600000, drawWireCase("binary", "nonstrict"), checkWireWrite),
			sub("read", 60000, 600000, drawWireCase("binary", "nonstrict"), checkWireRead),
		},
		assumptions: []string{"the reference encoder in harness/wire.go follows the Thrift Binary protocol specification"},
	})
	register(&property{
		id:   "C03",
		rule: "random value trees over all wire types and message envelopes, bare or in messages, read also in the long forms the specification allows; non-trivial: at least 4 nodes",
		subs: []*subDef{
			sub("write", 60000, 600000, drawWireCase("compact"), checkWireWrite),
			sub("read", 60000, 600000, drawWireCase("compact"), checkWireRead),
		},
		assumptions: []string{"the reference encoder in harness/wire.go follows the Thrift Compact protocol specification; where a field id difference overflows 16 bits either header form is accepted"},
	})
	register(&property{
		id:   "C04",
		rule: "sequences of 1-6 random messages, random flush points, chains of 1-4 protocols and joined pairs; non-trivial: more than one message",
		subs: []*subDef{sub("stream", 16000, 250000, drawStreamCase, checkStream)},
	})
}
