package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"testing"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/testing/thrifttest"
	"pgregory.net/rapid"
)

// ---- C23 ----

// A protocol put together from functions.
type funcProto struct {
	r func(io.Reader) thriftwire.Reader
	w func(io.Writer) thriftwire.Writer
}

func (p funcProto) NewReader(r io.Reader) thriftwire.Reader { return p.r(r) }
func (p funcProto) NewWriter(w io.Writer) thriftwire.Writer { return p.w(w) }

// callWriter and callReader turn every call into one function call.
type callWriter struct {
	put   func(Tok) error
	flush func() error
	reset func(io.Writer)
}

func (w *callWriter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return w.put(Tok{Op: "MessageBegin", Name: h.Name, T: byte(h.Type), ID: int64(h.ID)})
}
func (w *callWriter) WriteMessageEnd() error { return w.put(Tok{Op: "MessageEnd"}) }
func (w *callWriter) WriteStructBegin(h thriftwire.StructHeader) error {
	return w.put(Tok{Op: "StructBegin", Name: h.Name})
}
func (w *callWriter) WriteStructEnd() error { return w.put(Tok{Op: "StructEnd"}) }
func (w *callWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return w.put(Tok{Op: "FieldBegin", Name: h.Name, T: byte(h.Type), ID: int64(h.ID)})
}
func (w *callWriter) WriteFieldEnd() error { return w.put(Tok{Op: "FieldEnd"}) }
func (w *callWriter) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.put(Tok{Op: "MapBegin", K: byte(h.Key), E: byte(h.Value), N: h.Size})
}
func (w *callWriter) WriteMapEnd() error { return w.put(Tok{Op: "MapEnd"}) }
func (w *callWriter) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.put(Tok{Op: "SetBegin", E: byte(h.Element), N: h.Size})
}
func (w *callWriter) WriteSetEnd() error { return w.put(Tok{Op: "SetEnd"}) }
func (w *callWriter) WriteListBegin(h thriftwire.ListHeader) error {
	return w.put(Tok{Op: "ListBegin", E: byte(h.Element), N: h.Size})
}
func (w *callWriter) WriteListEnd() error { return w.put(Tok{Op: "ListEnd"}) }
func (w *callWriter) WriteBool(v bool) error {
	k := Tok{Op: "Bool"}
	if v {
		k.I = 1
	}
	return w.put(k)
}
func (w *callWriter) WriteByte(v byte) error { return w.put(Tok{Op: "Byte", I: int64(v)}) }
func (w *callWriter) WriteDouble(v float64) error {
	return w.put(Tok{Op: "Double", D: math.Float64bits(v)})
}
func (w *callWriter) WriteI16(v int16) error      { return w.put(Tok{Op: "I16", I: int64(v)}) }
func (w *callWriter) WriteI32(v int32) error      { return w.put(Tok{Op: "I32", I: int64(v)}) }
func (w *callWriter) WriteI64(v int64) error      { return w.put(Tok{Op: "I64", I: v}) }
func (w *callWriter) WriteString(v string) error  { return w.put(Tok{Op: "String", S: v}) }
func (w *callWriter) WriteBytes(v []byte) error   { return w.put(Tok{Op: "String", S: string(v)}) }
func (w *callWriter) WriteUUID(v *[16]byte) error { return w.put(Tok{Op: "UUID", S: string(v[:])}) }
func (w *callWriter) Flush() error                { return w.flush() }
func (w *callWriter) Reset(u io.Writer)           { w.reset(u) }

type callReader struct {
	get   func(op string) (Tok, error)
	reset func(io.Reader)
}

func (r *callReader) end(op string) error { _, err := r.get(op); return err }

func (r *callReader) ReadMessageBegin() (thriftwire.MessageHeader, error) {
	k, err := r.get("MessageBegin")
	return thriftwire.MessageHeader{Name: k.Name, Type: thriftwire.MessageType(k.T), ID: int32(k.ID)}, err
}
func (r *callReader) ReadMessageEnd() error { return r.end("MessageEnd") }
func (r *callReader) ReadStructBegin() (thriftwire.StructHeader, error) {
	_, err := r.get("StructBegin")
	return thriftwire.StructHeader{}, err
}
func (r *callReader) ReadStructEnd() error { return r.end("StructEnd") }
func (r *callReader) ReadFieldBegin() (thriftwire.FieldHeader, error) {
	k, err := r.get("FieldBegin")
	return thriftwire.FieldHeader{Type: thriftwire.Type(k.T), ID: int16(k.ID)}, err
}
func (r *callReader) ReadFieldEnd() error { return r.end("FieldEnd") }
func (r *callReader) ReadMapBegin() (thriftwire.MapHeader, error) {
	k, err := r.get("MapBegin")
	return thriftwire.MapHeader{Key: thriftwire.Type(k.K), Value: thriftwire.Type(k.E), Size: k.N}, err
}
func (r *callReader) ReadMapEnd() error { return r.end("MapEnd") }
func (r *callReader) ReadSetBegin() (thriftwire.SetHeader, error) {
	k, err := r.get("SetBegin")
	return thriftwire.SetHeader{Element: thriftwire.Type(k.E), Size: k.N}, err
}
func (r *callReader) ReadSetEnd() error { return r.end("SetEnd") }
func (r *callReader) ReadListBegin() (thriftwire.ListHeader, error) {
	k, err := r.get("ListBegin")
	return thriftwire.ListHeader{Element: thriftwire.Type(k.E), Size: k.N}, err
}
func (r *callReader) ReadListEnd() error      { return r.end("ListEnd") }
func (r *callReader) ReadBool() (bool, error) { k, err := r.get("Bool"); return k.I != 0, err }
func (r *callReader) ReadByte() (byte, error) { k, err := r.get("Byte"); return byte(k.I), err }
func (r *callReader) ReadI16() (int16, error) { k, err := r.get("I16"); return int16(k.I), err }
func (r *callReader) ReadI32() (int32, error) { k, err := r.get("I32"); return int32(k.I), err }
func (r *callReader) ReadI64() (int64, error) { k, err := r.get("I64"); return k.I, err }
func (r *callReader) ReadString() (string, error) {
	k, err := r.get("String")
	return k.S, err
}
func (r *callReader) ReadDouble() (float64, error) {
	k, err := r.get("Double")
	return math.Float64frombits(k.D), err
}
func (r *callReader) ReadBytes(b []byte) ([]byte, error) {
	k, err := r.get("String")
	return append(b, k.S...), err
}
func (r *callReader) ReadUUID(u *[16]byte) error {
	k, err := r.get("UUID")
	copy(u[:], k.S)
	return err
}
func (r *callReader) SkipString() error { return r.end("SkipString") }
func (r *callReader) SkipUUID() error   { return r.end("SkipUUID") }
func (r *callReader) Reset(u io.Reader) { r.reset(u) }

// ---- protocols that are right ----

// plainProto is a protocol of its own: every call is one record, an opcode
// followed by its numbers and text. It reads no further than it has to.
var plainOps = []string{"MessageBegin", "MessageEnd", "StructBegin", "StructEnd", "FieldBegin", "FieldEnd", "MapBegin", "MapEnd", "SetBegin", "SetEnd", "ListBegin", "ListEnd", "Bool", "Byte", "I16", "I32", "I64", "Double", "String", "UUID"}

func plainCode(op string) byte {
	switch op {
	case "SkipString":
		op = "String"
	case "SkipUUID":
		op = "UUID"
	}
	for i, o := range plainOps {
		if o == op {
			return byte(i + 'A')
		}
	}
	fault("plain protocol: %s", op)
	return 0
}

var plainProto = funcProto{
	w: func(u io.Writer) thriftwire.Writer {
		var buf []byte
		w := &callWriter{}
		w.put = func(k Tok) error {
			buf = append(buf, plainCode(k.Op))
			switch k.Op {
			case "MessageBegin":
				buf = append(buf, k.T)
				buf = binary.AppendVarint(buf, k.ID)
				buf = binary.AppendUvarint(buf, uint64(len(k.Name)))
				buf = append(buf, k.Name...)
			case "FieldBegin":
				buf = append(buf, k.T)
				buf = binary.AppendVarint(buf, k.ID)
			case "MapBegin", "SetBegin", "ListBegin":
				buf = append(buf, k.K, k.E)
				buf = binary.AppendUvarint(buf, uint64(k.N))
			case "Bool", "Byte", "I16", "I32", "I64":
				buf = binary.AppendVarint(buf, k.I)
			case "Double":
				buf = binary.LittleEndian.AppendUint64(buf, k.D)
			case "UUID":
				buf = append(buf, k.S...)
			case "String":
				buf = binary.AppendUvarint(buf, uint64(len(k.S)))
				buf = append(buf, k.S...)
			case "StructEnd":
				// The end of the fields.
				buf = append(buf[:len(buf)-1], plainCode("FieldBegin"), 0, 0, plainCode("StructEnd"))
			}
			return nil
		}
		w.flush = func() error {
			_, err := u.Write(buf)
			buf = nil
			if err == nil {
				err = thriftwire.Flush(u)
			}
			return err
		}
		w.reset = func(v io.Writer) { u, buf = v, nil }
		return w
	},
	r: func(u io.Reader) thriftwire.Reader {
		r := &callReader{}
		r.get = func(op string) (k Tok, err error) {
			defer func() {
				if e, ok := recover().(plainErr); ok {
					err = e
				}
			}()
			k.Op = op
			if c := plainNext(u, 1)[0]; c != plainCode(op) {
				return k, fmt.Errorf("found %q for a %s", c, op)
			}
			switch op {
			case "MessageBegin":
				k.T = plainNext(u, 1)[0]
				k.ID = plainVarint(u)
				k.Name = string(plainNext(u, int(plainUvarint(u))))
			case "FieldBegin":
				k.T = plainNext(u, 1)[0]
				k.ID = plainVarint(u)
			case "MapBegin", "SetBegin", "ListBegin":
				b := plainNext(u, 2)
				k.K, k.E = b[0], b[1]
				k.N = int(plainUvarint(u))
			case "Bool", "Byte", "I16", "I32", "I64":
				k.I = plainVarint(u)
			case "Double":
				k.D = binary.LittleEndian.Uint64(plainNext(u, 8))
			case "UUID", "SkipUUID":
				k.S = string(plainNext(u, 16))
			case "String", "SkipString":
				k.S = string(plainNext(u, int(plainUvarint(u))))
			}
			return k, nil
		}
		r.reset = func(v io.Reader) { u = v }
		return r
	},
}

type plainErr struct{ error }

func plainNext(u io.Reader, n int) []byte {
	if n < 0 || n > 1<<20 {
		panic(plainErr{errors.New("bad length")})
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(u, b); err != nil {
		panic(plainErr{err})
	}
	return b
}

type plainBytes struct{ u io.Reader }

func (p plainBytes) ReadByte() (byte, error) { return plainNext(p.u, 1)[0], nil }

func plainVarint(u io.Reader) int64 {
	x, err := binary.ReadVarint(plainBytes{u})
	if err != nil {
		panic(plainErr{err})
	}
	return x
}

func plainUvarint(u io.Reader) uint64 {
	x, err := binary.ReadUvarint(plainBytes{u})
	if err != nil {
		panic(plainErr{err})
	}
	return x
}

// Layers that change what the bytes look like.

type xorReader struct {
	r    io.Reader
	mask byte
}

func (x xorReader) Read(b []byte) (int, error) {
	n, err := x.r.Read(b)
	for i := range b[:n] {
		b[i] ^= x.mask
	}
	return n, err
}

type xorWriter struct {
	w    io.Writer
	mask byte
}

func (x xorWriter) Write(b []byte) (int, error) {
	c := make([]byte, len(b))
	for i := range b {
		c[i] = b[i] ^ x.mask
	}
	return x.w.Write(c)
}

func (x xorWriter) Flush() error { return thriftwire.Flush(x.w) }

type xorR struct {
	thriftwire.Reader
	mask byte
}

func (x xorR) Reset(r io.Reader) { x.Reader.Reset(xorReader{r, x.mask}) }

type xorW struct {
	thriftwire.Writer
	mask byte
}

func (x xorW) Reset(w io.Writer) { x.Writer.Reset(xorWriter{w, x.mask}) }

func xorProto(p thriftwire.Protocol, mask byte) thriftwire.Protocol {
	return funcProto{
		r: func(r io.Reader) thriftwire.Reader { return xorR{p.NewReader(xorReader{r, mask}), mask} },
		w: func(w io.Writer) thriftwire.Writer { return xorW{p.NewWriter(xorWriter{w, mask}), mask} },
	}
}

// framed puts what is flushed in a frame with its length before it and some
// padding behind it, and reads exactly one frame at a time. A faulty one
// leaves some of the padding unread.
type frameW struct {
	thriftwire.Writer
	buf  bytes.Buffer
	u    io.Writer
	tail int
}

func (w *frameW) Flush() error {
	if err := w.Writer.Flush(); err != nil {
		return err
	}
	b := binary.BigEndian.AppendUint32(nil, uint32(w.buf.Len()))
	b = append(b, w.buf.Bytes()...)
	b = append(b, fill(w.tail, 0x80)...)
	w.buf.Reset()
	if _, err := w.u.Write(b); err != nil {
		return err
	}
	return thriftwire.Flush(w.u)
}

func (w *frameW) Reset(u io.Writer) {
	w.buf.Reset()
	w.u = u
	w.Writer.Reset(&w.buf)
}

type frameR struct {
	thriftwire.Reader
	in     *bytes.Reader
	u      io.Reader
	tail   int
	unread int
	from   int // ID of the first message that shows the fault
	id     int
	open   bool
	lazy   bool // unread only after strings that were not skipped
	strs   int
}

func (r *frameR) ReadString() (string, error) {
	r.strs++
	return r.Reader.ReadString()
}

func (r *frameR) ReadBytes(buf []byte) ([]byte, error) {
	r.strs++
	return r.Reader.ReadBytes(buf)
}

func (r *frameR) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	if !r.open {
		var l [4]byte
		if _, err := io.ReadFull(r.u, l[:]); err != nil {
			return h, err
		}
		n := binary.BigEndian.Uint32(l[:])
		if n > 1<<20 {
			return h, errors.New("huge frame")
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r.u, b); err != nil {
			return h, err
		}
		r.in = bytes.NewReader(b)
		r.Reader.Reset(r.in)
		r.open = true
	}
	h, err = r.Reader.ReadMessageBegin()
	r.id, r.strs = int(h.ID), 0
	return h, err
}

func (r *frameR) ReadMessageEnd() error {
	if err := r.Reader.ReadMessageEnd(); err != nil {
		return err
	}
	r.open = false
	n := r.tail
	if r.id >= r.from && (!r.lazy || r.strs > 0) {
		n -= r.unread
	}
	_, err := io.ReadFull(r.u, make([]byte, n))
	return err
}

func (r *frameR) Reset(u io.Reader) { r.u, r.open = u, false }

func frameProto(p thriftwire.Protocol, tail, unread, from int, lazy bool) thriftwire.Protocol {
	return funcProto{
		r: func(u io.Reader) thriftwire.Reader {
			return &frameR{Reader: p.NewReader(nil), u: u, tail: tail, unread: unread, from: from, lazy: lazy}
		},
		w: func(u io.Writer) thriftwire.Writer {
			w := &frameW{u: u, tail: tail}
			w.Writer = p.NewWriter(&w.buf)
			return w
		},
	}
}

// treeProto passes whole messages through a function, when writing or when
// reading.
func treeProto(p thriftwire.Protocol, write, read func(m *Msg, nth int) *Msg) thriftwire.Protocol {
	fp := funcProto{r: p.NewReader, w: p.NewWriter}
	if write != nil {
		fp.w = func(u io.Writer) thriftwire.Writer {
			inner := p.NewWriter(u)
			nth := 0
			var toks []Tok
			w := &callWriter{flush: inner.Flush}
			w.put = func(k Tok) error {
				toks = append(toks, k)
				if k.Op != "MessageEnd" {
					return nil
				}
				nth++
				h := toks[0]
				if h.Op != "MessageBegin" {
					return errors.New("no message")
				}
				body, rest, err := treeOf(toks[1:len(toks)-1], tStruct)
				if err != nil || len(rest) > 0 {
					return fmt.Errorf("ill-formed message: %v", err)
				}
				toks = nil
				return writeMsg(inner, write(&Msg{Name: []byte(h.Name), Type: h.T, ID: int32(h.ID), Body: body}, nth), 0)
			}
			w.reset = func(u io.Writer) { toks, nth = nil, 0; inner.Reset(u) }
			return w
		}
	}
	if read != nil {
		fp.r = func(u io.Reader) thriftwire.Reader {
			inner := p.NewReader(u)
			nth := 0
			var serve *tokReader
			r := &callReader{}
			r.get = func(op string) (Tok, error) {
				if op == "MessageBegin" {
					m, err := readMsg(inner, 0)
					if err != nil {
						return Tok{}, err
					}
					nth++
					serve = newTokReader(msgTokens(read(m, nth), nil, false))
				}
				if serve == nil {
					return Tok{}, errors.New("no message")
				}
				return fetchTok(serve, op, false)
			}
			r.reset = func(u io.Reader) { serve, nth = nil, 0; inner.Reset(u) }
			return r
		}
	}
	return fp
}

// hookProto calls a function before every call.
func hookProto(p thriftwire.Protocol, write, read func(k Tok, nth int, name string) error) thriftwire.Protocol {
	return funcProto{
		w: func(u io.Writer) thriftwire.Writer {
			inner := p.NewWriter(u)
			nth, name := 0, ""
			w := &callWriter{}
			call := func(k Tok) error {
				if k.Op == "MessageBegin" {
					nth++
					name = k.Name
				}
				return write(k, nth, name)
			}
			w.put = func(k Tok) error {
				if err := call(k); err != nil {
					return err
				}
				return playTok(inner, k, false)
			}
			w.flush = func() error {
				if err := call(Tok{Op: "Flush"}); err != nil {
					return err
				}
				return inner.Flush()
			}
			w.reset = func(u io.Writer) { nth = 0; inner.Reset(u) }
			return w
		},
		r: func(u io.Reader) thriftwire.Reader {
			inner := p.NewReader(u)
			nth, name := 0, ""
			r := &callReader{}
			r.get = func(op string) (Tok, error) {
				k, err := fetchTok(inner, op, false)
				if op == "MessageBegin" {
					nth++
					name = k.Name
				}
				if err == nil {
					err = read(k, nth, name)
				}
				return k, err
			}
			r.reset = func(u io.Reader) { nth = 0; inner.Reset(u) }
			return r
		},
	}
}

// ---- faults ----

// suiteFault is one thing that is wrong with a protocol.
type suiteFault struct {
	Side string `json:"side"` // write, read
	Kind string `json:"kind"`
	How  string `json:"how"`
	When string `json:"when,omitempty"`
	N    int    `json:"n,omitempty"`    // parameter of how
	From int    `json:"from,omitempty"` // messages with an ID from here on (write and message faults)
	Nth  int    `json:"nth,omitempty"`  // only the nth message since the last reset, and later ones; -1: only the first call of all
}

// All values the suite has to notice: kind, condition, change.
type faultChoice struct {
	kind  string
	whens []string
	hows  []string
}

var faultChoices = []faultChoice{
	{"Bool", []string{"any", "in list", "in set"}, []string{"invert"}},
	{"Bool", []string{"any", "true", "in map"}, []string{"false"}},
	{"Bool", []string{"any", "false", "in list", "in set"}, []string{"true"}},
	{"I16", []string{"any", "negative", "positive"}, []string{"flip", "truncate", "zero", "negate or add"}},
	{"I32", []string{"any", "negative", "positive"}, []string{"flip", "truncate", "zero", "negate or add"}},
	{"I64", []string{"any", "negative", "positive"}, []string{"flip", "truncate", "zero", "negate or add"}},
	{"Double", []string{"any", "large", "small"}, []string{"flip", "zero", "negate", "float32"}},
	{"String", []string{"any", "long", "short", "map key", "map value", "in list", "in set", "nested", "nested twice", "field 2", "field 3"}, []string{"flip", "cut", "behead", "append", "empty"}},
	{"String", []string{"any", "long", "in list", "in set"}, []string{"reverse"}},
	{"UUID", []string{"any"}, []string{"flip"}},
	{"List", []string{"any", "large", "few"}, []string{"lose last", "lose first", "lose all", "repeat", "retype"}},
	{"List", []string{"few"}, []string{"reverse"}},
	{"Set", []string{"any", "large", "few"}, []string{"lose last", "lose first", "lose all", "repeat", "retype"}},
	{"Map", []string{"any", "large", "few"}, []string{"lose last", "lose first", "lose all"}},
	{"Map", []string{"few"}, []string{"swap"}},
	{"Field", []string{"any", "id 0", "id 1", "id 2", "id 3", "id 32", "id 64", "nested", "nested twice"}, []string{"lose", "renumber"}},
	{"Struct", []string{"nested", "nested twice"}, []string{"lose fields"}},
	{"Message", []string{"any", "type 1", "type 2", "type 3", "type 4"}, []string{"type"}},
	{"Message", []string{"any"}, []string{"id", "same id", "name"}},
}

var hookOps = map[string][]string{
	"write": {"MessageBegin", "MessageEnd", "StructBegin", "StructEnd", "FieldBegin", "FieldEnd", "MapBegin", "MapEnd", "SetBegin", "SetEnd", "ListBegin", "ListEnd", "Bool", "I16", "I32", "I64", "Double", "String", "UUID", "Flush"},
	"read":  {"MessageBegin", "MessageEnd", "StructBegin", "StructEnd", "FieldBegin", "FieldEnd", "MapBegin", "MapEnd", "SetBegin", "SetEnd", "ListBegin", "ListEnd", "Bool", "I16", "I32", "I64", "Double", "String", "UUID", "SkipString", "SkipUUID"},
}

type suiteCase struct {
	Base   string      `json:"base"` // plain or a known protocol
	Mask   int         `json:"mask,omitempty"`
	Frame  bool        `json:"frame,omitempty"`
	Tail   int         `json:"tail,omitempty"`
	Names  string      `json:"names,omitempty"`  // "drop": message names are lost when writing, "forget": when reading
	Fields string      `json:"fields,omitempty"` // "reverse": fields travel in reverse order
	NoUUID bool        `json:"no_uuid,omitempty"`
	UUID   bool        `json:"uuid,omitempty"` // what the suite is told
	Fault  *suiteFault `json:"fault,omitempty"`
}

func drawGoodCase(t *rapid.T) *suiteCase {
	c := &suiteCase{Base: "plain", UUID: chance(t, 70, "uuid")}
	if chance(t, 50, "known") {
		c.Base = pick(t, "base", protoNames...)
	}
	if chance(t, 40, "mask") {
		c.Mask = between(t, "mask", 1, 255)
	}
	if chance(t, 40, "frame") {
		c.Frame = true
		c.Tail = between(t, "tail", 0, 9)
	}
	if chance(t, 30, "names") {
		c.Names = pick(t, "lost names", "drop", "forget")
	}
	if chance(t, 20, "fields") {
		c.Fields = "reverse"
	}
	if !c.UUID {
		c.NoUUID = chance(t, 50, "no uuid")
	}
	return c
}

func drawFaultyCase(t *rapid.T) *suiteCase {
	c := drawGoodCase(t)
	f := &suiteFault{Side: pick(t, "side", "write", "read")}
	c.Fault = f
	switch between(t, "fault", 0, 9) {
	case 0, 1:
		f.Kind = "call"
		f.How = pick(t, "call", hookOps[f.Side]...)
		if f.Side == "write" {
			f.Nth = between(t, "nth", 1, 4)
		} else {
			f.Nth = between(t, "nth", 1, 3)
			switch f.How {
			case "String", "UUID":
				f.Nth = 1 // later ones are skipped
			}
		}
		if chance(t, 25, "once") {
			f.Nth = -1
		}
	case 2:
		f.Side = "read"
		f.Kind = "unread"
		f.How = pick(t, "how", "tail", "tail after strings")
		c.Frame = true
		c.Tail = between(t, "tail", 1, 9)
		f.N = between(t, "unread", 1, c.Tail)
		f.From = between(t, "from", 1, 12)
	case 3:
		f.Kind = "no UUID"
		c.NoUUID, c.UUID = true, true
	default:
		ch := pick(t, "choice", faultChoices...)
		f.Kind = ch.kind
		f.When = pick(t, "when", ch.whens...)
		f.How = pick(t, "how", ch.hows...)
		f.N = between(t, "n", 0, 63)
		if f.Side == "write" && ch.kind != "Message" && f.When != "in map" && f.When != "id 0" && !(ch.kind == "Map" && f.When == "large") && chance(t, 30, "later") {
			f.Nth = between(t, "nth", 2, 4)
		}
		if f.Kind == "Message" {
			f.From = between(t, "from", 1, 10)
			if f.How == "type" && f.From > 8 {
				f.From = 8
			}
			if f.How == "name" {
				c.Names = ""
			}
			if f.Side == "write" {
				f.Nth = 0
			}
		}
	}
	if f.How == "UUID" || f.How == "SkipUUID" || f.Kind == "UUID" {
		c.UUID, c.NoUUID = true, false
	}
	return c
}

// key identifies what the fault does.
func (f *suiteFault) key() string {
	k := []string{f.Side, f.Kind, f.How}
	if w := map[string]int{"I16": 16, "I32": 32, "I64": 64, "Double": 64}[f.Kind]; w > 0 && f.How == "flip" {
		k = append(k, strconv.Itoa(f.N%w))
	}
	return strings.ReplaceAll(strings.Join(append(k, f.When), "/"), " ", "-")
}

// showsKnown reports whether the suite passes for a fault with this key.
func showsKnown(key string) bool {
	for _, side := range []string{"write", "read"} {
		for _, ch := range faultChoices {
			for _, when := range ch.whens {
				for _, how := range ch.hows {
					for n := range 64 {
						f := &suiteFault{Side: side, Kind: ch.kind, How: how, When: when, N: n, From: 3}
						if f.key() == key {
							c := &suiteCase{Base: "plain", UUID: true, Fault: f}
							return runSuite(c.protocol(), thrifttest.ProtocolOptions{UUID: true})
						}
					}
				}
			}
		}
	}
	fault("no fault with the key %s", key)
	return false
}

// place is where a value is.
type place struct {
	in    byte // enclosing container or struct
	key   bool
	field int16
	depth int // number of enclosing structs
	index int
}

func (f *suiteFault) placed(v *V, p place) bool {
	switch f.When {
	case "any":
		return true
	case "in list":
		return p.in == tList
	case "in set":
		return p.in == tSet
	case "in map":
		return p.in == tMap
	case "map key":
		return p.in == tMap && p.key
	case "map value":
		return p.in == tMap && !p.key
	case "true":
		return v.I != 0
	case "false":
		return v.I == 0
	case "negative":
		return v.I < 0
	case "positive":
		return v.I > 0
	case "large":
		if v.T == tDouble {
			return math.Abs(math.Float64frombits(v.D)) > 1
		}
		return v.count() >= 16
	case "small":
		return math.Abs(math.Float64frombits(v.D)) < 1
	case "few":
		return v.count() > 0 && v.count() < 5
	case "long":
		return len(v.S) >= 2
	case "short":
		return len(v.S) == 1
	case "nested":
		return p.depth >= 2
	case "nested twice":
		return p.depth >= 3
	case "field 2":
		return p.in == tStruct && p.field == 2
	case "field 3":
		return p.in == tStruct && p.field == 3
	}
	fault("condition %q", f.When)
	return false
}

var faultKinds = map[byte]string{tBool: "Bool", tI16: "I16", tI32: "I32", tI64: "I64", tDouble: "Double", tString: "String", tUUID: "UUID", tList: "List", tSet: "Set", tMap: "Map"}

func (f *suiteFault) apply(v *V, p place) {
	if v.T == tStruct {
		p = place{depth: p.depth + 1}
		if f.Kind == "Struct" && f.How == "lose fields" && f.placed(v, p) {
			v.F = nil
		}
		var out []F
		for _, x := range v.F {
			if f.Kind == "Field" {
				var hit bool
				switch f.When {
				case "any":
					hit = true
				case "nested", "nested twice":
					hit = f.placed(x.V, p)
				default:
					hit = f.When == fmt.Sprintf("id %d", x.ID)
				}
				if hit && f.How == "lose" {
					continue
				}
				if hit {
					x.ID += int16(f.N) + 100
				}
			}
			out = append(out, x)
		}
		v.F = out
		for _, x := range v.F {
			f.apply(x.V, place{in: tStruct, field: x.ID, depth: p.depth})
		}
		return
	}
	for i, e := range v.L {
		f.apply(e, place{in: v.T, key: v.T == tMap && i%2 == 0, depth: p.depth, index: i})
	}
	if faultKinds[v.T] != f.Kind || !f.placed(v, p) {
		return
	}
	width := map[byte]int{tI16: 16, tI32: 32, tI64: 64}[v.T]
	switch v.T {
	case tBool:
		switch f.How {
		case "invert":
			v.I ^= 1
		case "true":
			v.I = 1
		case "false":
			v.I = 0
		}
	case tI16, tI32, tI64:
		switch f.How {
		case "flip":
			k := f.N % width
			v.I ^= 1 << k
			v.I = v.I << (64 - width) >> (64 - width)
		case "truncate":
			k := 1 + f.N%(width-1)
			v.I = v.I << (64 - k) >> (64 - k)
		case "zero":
			v.I = 0
		case "negate or add":
			if v.I > 0 {
				v.I = -v.I
			} else {
				v.I++
			}
		}
	case tDouble:
		x := math.Float64frombits(v.D)
		switch f.How {
		case "flip":
			v.D ^= 1 << f.N
		case "zero":
			v.D = 0
		case "negate":
			v.D ^= 1 << 63
		case "float32":
			v.D = math.Float64bits(float64(float32(x)))
		}
	case tString, tUUID:
		s := bytes.Clone(v.S)
		switch {
		case f.How == "flip" && len(s) > 0:
			s[f.N%len(s)] ^= 1 << (f.N % 7)
		case f.How == "cut" && len(s) > 0:
			s = s[:len(s)-1]
		case f.How == "behead" && len(s) > 0:
			s = s[1:]
		case f.How == "append":
			s = append(s, byte(f.N))
		case f.How == "empty":
			s = nil
		case f.How == "reverse":
			for i := range s {
				s[i] = v.S[len(v.S)-1-i]
			}
		}
		v.S = s
	case tList, tSet, tMap:
		n := 1
		if v.T == tMap {
			n = 2
		}
		if len(v.L) == 0 {
			return
		}
		switch f.How {
		case "lose last":
			v.L = v.L[:len(v.L)-n]
		case "lose first":
			v.L = v.L[n:]
		case "lose all":
			v.L = nil
		case "repeat":
			v.L = append(v.L, v.L[len(v.L)-1].clone())
		case "retype":
			v.T = tList + tSet - v.T
		case "reverse":
			l := make([]*V, len(v.L))
			for i := range l {
				l[i] = v.L[len(v.L)-1-i]
			}
			v.L = l
		case "swap":
			for i := 0; i < len(v.L); i += 2 {
				v.L[i], v.L[i+1] = v.L[i+1], v.L[i]
			}
		}
	}
}

func (f *suiteFault) applyMsg(m *Msg, nth int) *Msg {
	if f.Nth > nth {
		return m
	}
	if f.Kind != "Message" {
		f.apply(m.Body, place{})
		return m
	}
	if int(m.ID) < f.From {
		return m
	}
	switch f.How {
	case "type":
		if f.When == "any" || f.When == fmt.Sprintf("type %d", m.Type) {
			m.Type = m.Type%4 + 1
		}
	case "id":
		m.ID ^= 1 << (f.N % 31)
	case "same id":
		m.ID = int32(f.From) - 1
	case "name":
		switch f.N % 4 {
		case 0:
			m.Name = append(bytes.Clone(m.Name), 'x')
		case 1:
			m.Name = append([]byte("The"), m.Name...)
		case 2:
			if len(m.Name) > 1 {
				m.Name = bytes.Clone(m.Name[:len(m.Name)-1])
			}
		case 3:
			m.Name = bytes.ToUpper(m.Name)
		}
	}
	return m
}

var errNoUUID = errors.New("no UUIDs")

func (c *suiteCase) protocol() thriftwire.Protocol {
	var p thriftwire.Protocol = plainProto
	if c.Base != "plain" {
		p = protoByName(c.Base)
	}
	f := c.Fault
	if c.Mask != 0 {
		p = xorProto(p, byte(c.Mask))
	}
	if c.Frame {
		unread, from, lazy := 0, 0, false
		if f != nil && f.Kind == "unread" {
			unread, from, lazy = f.N, f.From, f.How == "tail after strings"
		}
		p = frameProto(p, c.Tail, unread, from, lazy)
	}
	if c.Fields == "reverse" {
		rev := func(m *Msg, _ int) *Msg {
			m.Body.walk(func(v *V) {
				for i, j := 0, len(v.F)-1; i < j; i, j = i+1, j-1 {
					v.F[i], v.F[j] = v.F[j], v.F[i]
				}
			})
			return m
		}
		p = treeProto(p, rev, nil)
	}
	anon := func(m *Msg, _ int) *Msg { m.Name = nil; return m }
	switch c.Names {
	case "drop":
		p = treeProto(p, anon, nil)
	case "forget":
		p = treeProto(p, nil, anon)
	}
	if c.NoUUID {
		no := func(k Tok, _ int, _ string) error {
			if k.Op == "UUID" || k.Op == "SkipUUID" {
				return errNoUUID
			}
			return nil
		}
		p = hookProto(p, no, no)
	}
	if f == nil {
		return p
	}
	switch f.Kind {
	case "unread", "no UUID":
	case "call":
		done := false
		hook := func(k Tok, nth int, _ string) error {
			if k.Op == f.How && nth >= f.Nth && !done {
				done = f.Nth < 0
				return errors.New("failed as planned")
			}
			return nil
		}
		ok := func(Tok, int, string) error { return nil }
		if f.Side == "write" {
			p = hookProto(p, hook, ok)
		} else {
			p = hookProto(p, ok, hook)
		}
	default:
		if f.Side == "write" {
			p = treeProto(p, f.applyMsg, nil)
		} else {
			p = treeProto(p, nil, f.applyMsg)
		}
	}
	return p
}

// suiteT is the test that this process is running; see main_test.go.
var suiteT *testing.T
var suiteRuns int

// runSuite runs the published suite and returns whether it passes.
func runSuite(p thriftwire.Protocol, opts thrifttest.ProtocolOptions) bool {
	if suiteT == nil {
		fault("not run as a test")
	}
	suiteRuns++
	return suiteT.Run(strconv.Itoa(suiteRuns), func(t *testing.T) { thrifttest.TestProtocol(t, p, opts) })
}

func checkSuite(c *suiteCase, x *Ctx) error {
	x.Label("base %s", c.Base)
	opts := thrifttest.ProtocolOptions{UUID: c.UUID}
	passed := runSuite(c.protocol(), opts)
	if c.Fault == nil {
		if c.Base == "plain" || c.Mask != 0 || c.Frame || c.Names != "" || c.Fields != "" || c.NoUUID {
			x.NonTrivial()
		}
		if !passed {
			return errors.New("the suite fails for a protocol that preserves everything")
		}
		return nil
	}
	x.NonTrivial()
	f := c.Fault
	x.Label("%s %s", f.Side, f.Kind)
	if passed && f.Nth == 0 && isKnown("C23", f.key()) {
		x.Label("known finding")
		return nil
	}
	if passed {
		return fmt.Errorf("the suite passes for a protocol with this fault: %+v", *f)
	}
	return nil
}

func init() {
	register(&property{
		id:   "C23",
		rule: "the suite run on right protocols made from a protocol of the harness and the library's own by masking, framing, padding, reversing fields and dropping names; and on ones that in addition have a single fault; non-trivial: not one of the library's own protocols as it is",
		assumptions: []string{
			"protocols write the same bytes for the same message, as the suite compares bytes",
			"a fault is one that the values of the suite exhibit: a bit flipped in a UUID, say, not its bytes swapped, as the only UUID of the suite is zero; the order of sets is left open",
		},
		confirm: showsKnown,
		subs: []*subDef{
			sub("good", 1500, 20000, drawGoodCase, checkSuite),
			sub("faulty", 8000, 150000, drawFaultyCase, checkSuite),
		},
	})
}
