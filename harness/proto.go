package main

import (
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftbinary"
	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// The protocols of the repository, by the names used in cases.
var protoNames = []string{"binary", "nonstrict", "compact"}

func protoByName(n string) thriftwire.Protocol {
	switch n {
	case "binary":
		return thriftbinary.Protocol
	case "nonstrict":
		return thriftbinary.ProtocolNonStrict
	case "compact":
		return thriftcompact.Protocol
	}
	fault("no protocol %q", n)
	return nil
}

func refEncode(proto string, buf []byte, v *V) []byte {
	if proto == "compact" {
		return refCompact(buf, v, compactOpts{})
	}
	return refBinary(buf, v)
}

func refEncodeMsg(proto string, buf []byte, m *Msg) []byte {
	switch proto {
	case "compact":
		buf = refCompactMsg(buf, m)
	default:
		buf = refBinaryMsg(buf, m, proto == "binary")
	}
	return refEncode(proto, buf, m.Body)
}

func refDecode(proto string, b []byte, t byte) (*V, []byte, error) {
	d := &refDec{b: b}
	var v *V
	var err error
	if proto == "compact" {
		v, err = d.compact(t)
	} else {
		v, err = d.binary(t)
	}
	return v, d.b, err
}

// writeV writes a tree through a Writer. strMode: 0 WriteString, 1
// WriteBytes, 2 both alternating.
func writeV(w thriftwire.Writer, v *V, strMode int) error {
	switch v.T {
	case tBool:
		return w.WriteBool(v.I != 0)
	case tByte:
		return w.WriteByte(byte(v.I))
	case tI16:
		return w.WriteI16(int16(v.I))
	case tI32:
		return w.WriteI32(int32(v.I))
	case tI64:
		return w.WriteI64(v.I)
	case tDouble:
		return w.WriteDouble(math.Float64frombits(v.D))
	case tString:
		if strMode == 1 || strMode == 2 && len(v.S)%2 == 1 {
			return w.WriteBytes(v.S)
		}
		return w.WriteString(string(v.S))
	case tUUID:
		var u [16]byte
		copy(u[:], v.S)
		return w.WriteUUID(&u)
	case tStruct:
		if err := w.WriteStructBegin(thriftwire.StructHeader{Name: "S"}); err != nil {
			return err
		}
		for _, f := range v.F {
			if err := w.WriteFieldBegin(thriftwire.FieldHeader{Name: "f", Type: thriftwire.Type(f.V.T), ID: f.ID}); err != nil {
				return err
			}
			if err := writeV(w, f.V, strMode); err != nil {
				return err
			}
			if err := w.WriteFieldEnd(); err != nil {
				return err
			}
		}
		return w.WriteStructEnd()
	case tMap:
		if err := w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(v.K), Value: thriftwire.Type(v.E), Size: v.count()}); err != nil {
			return err
		}
	case tSet:
		if err := w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(v.E), Size: v.count()}); err != nil {
			return err
		}
	case tList:
		if err := w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(v.E), Size: v.count()}); err != nil {
			return err
		}
	default:
		fault("writeV: type %d", v.T)
	}
	for _, e := range v.L {
		if err := writeV(w, e, strMode); err != nil {
			return err
		}
	}
	switch v.T {
	case tMap:
		return w.WriteMapEnd()
	case tSet:
		return w.WriteSetEnd()
	}
	return w.WriteListEnd()
}

func writeMsg(w thriftwire.Writer, m *Msg, strMode int) error {
	if err := w.WriteMessageBegin(thriftwire.MessageHeader{Name: string(m.Name), Type: thriftwire.MessageType(m.Type), ID: m.ID}); err != nil {
		return err
	}
	if err := writeV(w, m.Body, strMode); err != nil {
		return err
	}
	return w.WriteMessageEnd()
}

var errTooDeep = errors.New("harness: nested too deeply")

// readV reads a value of type t. Element types of empty containers are kept
// as reported.
func readV(r thriftwire.Reader, t byte, strMode int) (*V, error) {
	v := &V{T: t}
	var err error
	switch t {
	case tBool:
		var b bool
		if b, err = r.ReadBool(); b {
			v.I = 1
		}
	case tByte:
		var b byte
		b, err = r.ReadByte()
		v.I = int64(b)
	case tI16:
		var x int16
		x, err = r.ReadI16()
		v.I = int64(x)
	case tI32:
		var x int32
		x, err = r.ReadI32()
		v.I = int64(x)
	case tI64:
		v.I, err = r.ReadI64()
	case tDouble:
		var x float64
		x, err = r.ReadDouble()
		v.D = math.Float64bits(x)
	case tString:
		switch strMode {
		case 0:
			var s string
			s, err = r.ReadString()
			v.S = []byte(s)
		case 1:
			v.S, err = r.ReadBytes(nil)
		default:
			v.S, err = r.ReadBytes([]byte("prefix"))
			if err == nil {
				if string(v.S[:min(6, len(v.S))]) != "prefix" {
					return v, fmt.Errorf("ReadBytes did not keep the given buffer: %q", clip(string(v.S), 50))
				}
				v.S = v.S[6:]
			}
		}
	case tUUID:
		u := [16]byte{0xaa, 0xbb}
		err = r.ReadUUID(&u)
		v.S = u[:]
	case tStruct:
		if _, err = r.ReadStructBegin(); err != nil {
			return v, err
		}
		for {
			h, err := r.ReadFieldBegin()
			if err != nil {
				return v, err
			}
			if h.Type == thriftwire.Stop {
				break
			}
			fv, err := readV(r, byte(h.Type), strMode)
			if err != nil {
				return v, err
			}
			v.F = append(v.F, F{h.ID, fv})
			if err := r.ReadFieldEnd(); err != nil {
				return v, err
			}
		}
		err = r.ReadStructEnd()
	case tMap:
		h, err := r.ReadMapBegin()
		if err != nil {
			return v, err
		}
		v.K, v.E = byte(h.Key), byte(h.Value)
		for i := 0; i < h.Size; i++ {
			k, err := readV(r, v.K, strMode)
			if err != nil {
				return v, err
			}
			e, err := readV(r, v.E, strMode)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, k, e)
		}
		return v, r.ReadMapEnd()
	case tSet, tList:
		var h thriftwire.SetHeader
		if t == tSet {
			h, err = r.ReadSetBegin()
		} else {
			var lh thriftwire.ListHeader
			lh, err = r.ReadListBegin()
			h = thriftwire.SetHeader(lh)
		}
		if err != nil {
			return v, err
		}
		v.E = byte(h.Element)
		for i := 0; i < h.Size; i++ {
			e, err := readV(r, v.E, strMode)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, e)
		}
		if t == tSet {
			return v, r.ReadSetEnd()
		}
		return v, r.ReadListEnd()
	default:
		return v, fmt.Errorf("harness: read type %d", t)
	}
	return v, err
}

func readMsg(r thriftwire.Reader, strMode int) (*Msg, error) {
	h, err := r.ReadMessageBegin()
	if err != nil {
		return nil, err
	}
	m := &Msg{Name: []byte(h.Name), Type: byte(h.Type), ID: h.ID}
	if m.Body, err = readV(r, tStruct, strMode); err != nil {
		return m, err
	}
	return m, r.ReadMessageEnd()
}

func (m *Msg) String() string {
	return fmt.Sprintf("%q/%d/%d %s", string(m.Name), m.Type, m.ID, m.Body)
}

func sameMsg(a, b *Msg) bool {
	return string(a.Name) == string(b.Name) && a.Type == b.Type && a.ID == b.ID && a.Body.String() == b.Body.String()
}

// emptyNorm renders a tree ignoring the element types of empty containers.
func (v *V) emptyNorm() string {
	w := v.clone()
	w.walk(func(x *V) {
		if (x.T == tList || x.T == tSet || x.T == tMap) && len(x.L) == 0 {
			x.K, x.E = 0, 0
		}
	})
	return w.String()
}

func (v *V) clone() *V {
	w := *v
	w.S = append(Bytes(nil), v.S...)
	w.F = nil
	for _, f := range v.F {
		w.F = append(w.F, F{f.ID, f.V.clone()})
	}
	w.L = nil
	for _, e := range v.L {
		w.L = append(w.L, e.clone())
	}
	return &w
}

func (v *V) walk(f func(*V)) {
	f(v)
	for _, x := range v.F {
		x.V.walk(f)
	}
	for _, x := range v.L {
		x.walk(f)
	}
}

// ---- Tokens: the calls that describe a value ----

// Tok is one call on a Reader or Writer.
type Tok struct {
	Op   string
	Name string // of a header
	T    byte   // field type, message type
	K, E byte   // key, element type
	ID   int64
	N    int
	I    int64
	D    uint64
	S    string
}

func (k Tok) String() string {
	switch k.Op {
	case "MessageBegin":
		return fmt.Sprintf("MessageBegin(%q %d %d)", k.Name, k.T, k.ID)
	case "FieldBegin":
		return fmt.Sprintf("FieldBegin(%d type %d)", k.ID, k.T)
	case "MapBegin", "SetBegin", "ListBegin":
		return fmt.Sprintf("%s(%d,%d size %d)", k.Op, k.K, k.E, k.N)
	case "Bool", "Byte", "I16", "I32", "I64":
		return fmt.Sprintf("%s(%d)", k.Op, k.I)
	case "Double":
		return fmt.Sprintf("Double(%x)", k.D)
	case "String", "Bytes", "UUID":
		return fmt.Sprintf("%s(%q)", k.Op, clip(k.S, 40))
	}
	return k.Op
}

// tokens flattens a tree into the calls a Reader answers: a struct ends with
// a stop field header.
func tokens(v *V, out []Tok) []Tok {
	switch v.T {
	case tBool:
		return append(out, Tok{Op: "Bool", I: v.I})
	case tByte:
		return append(out, Tok{Op: "Byte", I: v.I})
	case tI16:
		return append(out, Tok{Op: "I16", I: v.I})
	case tI32:
		return append(out, Tok{Op: "I32", I: v.I})
	case tI64:
		return append(out, Tok{Op: "I64", I: v.I})
	case tDouble:
		return append(out, Tok{Op: "Double", D: v.D})
	case tString:
		return append(out, Tok{Op: "String", S: string(v.S)})
	case tUUID:
		return append(out, Tok{Op: "UUID", S: string(v.S)})
	case tStruct:
		out = append(out, Tok{Op: "StructBegin"})
		for _, f := range v.F {
			out = append(out, Tok{Op: "FieldBegin", T: f.V.T, ID: int64(f.ID)})
			out = tokens(f.V, out)
			out = append(out, Tok{Op: "FieldEnd"})
		}
		return append(out, Tok{Op: "FieldBegin"}, Tok{Op: "StructEnd"})
	}
	op := map[byte]string{tMap: "Map", tSet: "Set", tList: "List"}[v.T]
	out = append(out, Tok{Op: op + "Begin", K: v.K, E: v.E, N: v.count()})
	for _, e := range v.L {
		out = tokens(e, out)
	}
	return append(out, Tok{Op: op + "End"})
}

// errMisuse is reported by the strict reader when it is driven wrongly.
type errMisuse struct{ msg string }

func (e *errMisuse) Error() string { return "protocol misuse: " + e.msg }

// tokReader is a strict Reader over tokens. Calls that do not match the
// stream are recorded as misuse and answered with an error.
type tokReader struct {
	toks   []Tok
	pos    int
	calls  int
	failAt int   // the call (0-based) to fail; -1: none
	fail   error // what it fails with
	after  int   // calls made after a failure
	failed bool
	misuse error
	names  bool // announce names in headers
	failOp string
	eofErr error // returned at the end of the tokens
	grow   bool  // ReadBytes returns slices with spare capacity
	junk   bool  // a failing call also returns rubbish
}

func newTokReader(toks []Tok) *tokReader {
	return &tokReader{toks: toks, failAt: -1, eofErr: io.ErrUnexpectedEOF}
}

func (r *tokReader) next(op string) (Tok, error) {
	if r.failed || r.misuse != nil {
		r.after++
		return Tok{}, errors.New("call after a failure")
	}
	if r.calls == r.failAt {
		r.failed = true
		r.failOp = op
		return Tok{}, r.fail
	}
	r.calls++
	if r.pos >= len(r.toks) {
		r.failed = true
		r.failOp = op
		return Tok{}, r.eofErr
	}
	k := r.toks[r.pos]
	if k.Op != op {
		r.misuse = &errMisuse{fmt.Sprintf("Read%s called at token %d, where %s comes", op, r.pos, k)}
		return Tok{}, r.misuse
	}
	r.pos++
	return k, nil
}

func (r *tokReader) end(op string) error { _, err := r.next(op); return err }

func (r *tokReader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
	k, err := r.next("MessageBegin")
	return thriftwire.MessageHeader{Name: k.Name, Type: thriftwire.MessageType(k.T), ID: int32(k.ID)}, err
}
func (r *tokReader) ReadMessageEnd() error { return r.end("MessageEnd") }
func (r *tokReader) ReadStructBegin() (h thriftwire.StructHeader, err error) {
	_, err = r.next("StructBegin")
	if r.names {
		h.Name = "SomeName"
	}
	return
}
func (r *tokReader) ReadStructEnd() error { return r.end("StructEnd") }
func (r *tokReader) ReadFieldBegin() (h thriftwire.FieldHeader, err error) {
	k, err := r.next("FieldBegin")
	if r.names {
		h.Name = "wrong_name"
	}
	h.Type, h.ID = thriftwire.Type(k.T), int16(k.ID)
	if err != nil && r.junk {
		h.Type, h.ID = thriftwire.I64, 1
	}
	return
}
func (r *tokReader) ReadFieldEnd() error { return r.end("FieldEnd") }
func (r *tokReader) ReadMapBegin() (h thriftwire.MapHeader, err error) {
	k, err := r.next("MapBegin")
	if err != nil && r.junk {
		k.N = 3
	}
	return thriftwire.MapHeader{Key: thriftwire.Type(k.K), Value: thriftwire.Type(k.E), Size: k.N}, err
}
func (r *tokReader) ReadMapEnd() error { return r.end("MapEnd") }
func (r *tokReader) ReadSetBegin() (h thriftwire.SetHeader, err error) {
	k, err := r.next("SetBegin")
	if err != nil && r.junk {
		k.N = 3
	}
	return thriftwire.SetHeader{Element: thriftwire.Type(k.E), Size: k.N}, err
}
func (r *tokReader) ReadSetEnd() error { return r.end("SetEnd") }
func (r *tokReader) ReadListBegin() (h thriftwire.ListHeader, err error) {
	k, err := r.next("ListBegin")
	if err != nil && r.junk {
		k.N = 3
	}
	return thriftwire.ListHeader{Element: thriftwire.Type(k.E), Size: k.N}, err
}
func (r *tokReader) ReadListEnd() error { return r.end("ListEnd") }
func (r *tokReader) ReadBool() (bool, error) {
	k, err := r.next("Bool")
	return k.I != 0, err
}
func (r *tokReader) ReadByte() (byte, error) {
	k, err := r.next("Byte")
	return byte(k.I), err
}
func (r *tokReader) ReadDouble() (float64, error) {
	k, err := r.next("Double")
	return math.Float64frombits(k.D), err
}
func (r *tokReader) ReadI16() (int16, error) {
	k, err := r.next("I16")
	return int16(k.I), err
}
func (r *tokReader) ReadI32() (int32, error) {
	k, err := r.next("I32")
	return int32(k.I), err
}
func (r *tokReader) ReadI64() (int64, error) {
	k, err := r.next("I64")
	return k.I, err
}
func (r *tokReader) ReadString() (string, error) {
	k, err := r.next("String")
	return k.S, err
}
func (r *tokReader) ReadBytes(b []byte) ([]byte, error) {
	k, err := r.next("String")
	if err != nil {
		return b, err
	}
	b = append(b, k.S...)
	if r.grow {
		c := make([]byte, len(b), len(b)+7)
		copy(c, b)
		for i := len(b); i < cap(c); i++ {
			c[:cap(c)][i] = 0xee
		}
		b = c
	}
	return b, nil
}
func (r *tokReader) ReadUUID(u *[16]byte) error {
	k, err := r.next("UUID")
	copy(u[:], k.S)
	return err
}
func (r *tokReader) SkipString() error { _, err := r.next("String"); return err }
func (r *tokReader) SkipUUID() error   { _, err := r.next("UUID"); return err }
func (r *tokReader) Reset(io.Reader)   { r.misuse = &errMisuse{"Reset called"} }

// tokWriter records the calls it receives.
type tokWriter struct {
	toks    []Tok
	failAt  int
	fail    error
	failOp  string
	failed  bool
	after   int
	misuse  error
	mutate  func(*Tok) // called for every token before it is recorded
	flushes int
}

func newTokWriter() *tokWriter { return &tokWriter{failAt: -1} }

func (w *tokWriter) put(k Tok) error {
	if w.failed {
		w.after++
		return errors.New("call after a failure")
	}
	if len(w.toks) == w.failAt {
		w.failed = true
		w.failOp = k.Op
		return w.fail
	}
	w.toks = append(w.toks, k)
	return nil
}

func (w *tokWriter) WriteMessageBegin(h thriftwire.MessageHeader) error {
	return w.put(Tok{Op: "MessageBegin", Name: h.Name, T: byte(h.Type), ID: int64(h.ID)})
}
func (w *tokWriter) WriteMessageEnd() error { return w.put(Tok{Op: "MessageEnd"}) }
func (w *tokWriter) WriteStructBegin(h thriftwire.StructHeader) error {
	return w.put(Tok{Op: "StructBegin", Name: h.Name})
}
func (w *tokWriter) WriteStructEnd() error { return w.put(Tok{Op: "StructEnd"}) }
func (w *tokWriter) WriteFieldBegin(h thriftwire.FieldHeader) error {
	return w.put(Tok{Op: "FieldBegin", Name: h.Name, T: byte(h.Type), ID: int64(h.ID)})
}
func (w *tokWriter) WriteFieldEnd() error { return w.put(Tok{Op: "FieldEnd"}) }
func (w *tokWriter) WriteMapBegin(h thriftwire.MapHeader) error {
	return w.put(Tok{Op: "MapBegin", K: byte(h.Key), E: byte(h.Value), N: h.Size})
}
func (w *tokWriter) WriteMapEnd() error { return w.put(Tok{Op: "MapEnd"}) }
func (w *tokWriter) WriteSetBegin(h thriftwire.SetHeader) error {
	return w.put(Tok{Op: "SetBegin", E: byte(h.Element), N: h.Size})
}
func (w *tokWriter) WriteSetEnd() error { return w.put(Tok{Op: "SetEnd"}) }
func (w *tokWriter) WriteListBegin(h thriftwire.ListHeader) error {
	return w.put(Tok{Op: "ListBegin", E: byte(h.Element), N: h.Size})
}
func (w *tokWriter) WriteListEnd() error { return w.put(Tok{Op: "ListEnd"}) }
func (w *tokWriter) WriteBool(v bool) error {
	k := Tok{Op: "Bool"}
	if v {
		k.I = 1
	}
	return w.put(k)
}
func (w *tokWriter) WriteByte(v byte) error { return w.put(Tok{Op: "Byte", I: int64(v)}) }
func (w *tokWriter) WriteDouble(v float64) error {
	return w.put(Tok{Op: "Double", D: math.Float64bits(v)})
}
func (w *tokWriter) WriteI16(v int16) error     { return w.put(Tok{Op: "I16", I: int64(v)}) }
func (w *tokWriter) WriteI32(v int32) error     { return w.put(Tok{Op: "I32", I: int64(v)}) }
func (w *tokWriter) WriteI64(v int64) error     { return w.put(Tok{Op: "I64", I: v}) }
func (w *tokWriter) WriteString(v string) error { return w.put(Tok{Op: "String", S: v}) }
func (w *tokWriter) WriteBytes(v []byte) error  { return w.put(Tok{Op: "String", S: string(v)}) }
func (w *tokWriter) WriteUUID(v *[16]byte) error {
	return w.put(Tok{Op: "UUID", S: string(v[:])})
}
func (w *tokWriter) Flush() error    { w.flushes++; return nil }
func (w *tokWriter) Reset(io.Writer) { w.misuse = &errMisuse{"Reset called"} }

// treeOf parses recorded calls of a writer back into a tree of type t and
// reports bad nesting, wrong counts and element types.
func treeOf(toks []Tok, t byte) (*V, []Tok, error) {
	if len(toks) == 0 {
		return nil, nil, fmt.Errorf("calls end where a value of type %d should come", t)
	}
	k := toks[0]
	toks = toks[1:]
	leaf := map[string]byte{"Bool": tBool, "Byte": tByte, "I16": tI16, "I32": tI32, "I64": tI64, "Double": tDouble, "String": tString, "UUID": tUUID}
	if lt, ok := leaf[k.Op]; ok {
		if lt != t {
			return nil, nil, fmt.Errorf("%s where a value of type %d should come", k, t)
		}
		return &V{T: t, I: k.I, D: k.D, S: []byte(k.S)}, toks, nil
	}
	v := &V{T: t}
	switch {
	case t == tStruct && k.Op == "StructBegin":
		for {
			if len(toks) == 0 {
				return nil, nil, errors.New("calls end inside a struct")
			}
			k := toks[0]
			toks = toks[1:]
			if k.Op == "StructEnd" {
				return v, toks, nil
			}
			if k.Op != "FieldBegin" {
				return nil, nil, fmt.Errorf("%s directly inside a struct", k)
			}
			fv, rest, err := treeOf(toks, k.T)
			if err != nil {
				return nil, nil, err
			}
			if len(rest) == 0 || rest[0].Op != "FieldEnd" {
				return nil, nil, fmt.Errorf("field %d is not ended after its value", k.ID)
			}
			toks = rest[1:]
			v.F = append(v.F, F{int16(k.ID), fv})
		}
	case t == tMap && k.Op == "MapBegin", t == tSet && k.Op == "SetBegin", t == tList && k.Op == "ListBegin":
		v.K, v.E = k.K, k.E
		for i := 0; i < k.N; i++ {
			types := []byte{k.E}
			if t == tMap {
				types = []byte{k.K, k.E}
			}
			for _, et := range types {
				e, rest, err := treeOf(toks, et)
				if err != nil {
					return nil, nil, err
				}
				toks = rest
				v.L = append(v.L, e)
			}
		}
		want := map[byte]string{tMap: "MapEnd", tSet: "SetEnd", tList: "ListEnd"}[t]
		if len(toks) == 0 || toks[0].Op != want {
			next := "nothing"
			if len(toks) > 0 {
				next = toks[0].String()
			}
			return nil, nil, fmt.Errorf("%s after %d entries where %s should come", next, k.N, want)
		}
		return v, toks[1:], nil
	}
	return nil, nil, fmt.Errorf("%s where a value of type %d should come", k, t)
}

// wtokens flattens a tree into the calls that write it (no stop field).
func wtokens(v *V, out []Tok) []Tok {
	for _, k := range tokens(v, nil) {
		if k.Op == "FieldBegin" && k.T == tStop {
			continue
		}
		out = append(out, k)
	}
	return out
}

func msgTokens(m *Msg, out []Tok, write bool) []Tok {
	out = append(out, Tok{Op: "MessageBegin", Name: string(m.Name), T: m.Type, ID: int64(m.ID)})
	if write {
		out = wtokens(m.Body, out)
	} else {
		out = tokens(m.Body, out)
	}
	return append(out, Tok{Op: "MessageEnd"})
}

// playTok issues one write call.
func playTok(w thriftwire.Writer, k Tok, bytesMode bool) error {
	switch k.Op {
	case "MessageBegin":
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: k.Name, Type: thriftwire.MessageType(k.T), ID: int32(k.ID)})
	case "MessageEnd":
		return w.WriteMessageEnd()
	case "StructBegin":
		return w.WriteStructBegin(thriftwire.StructHeader{Name: k.Name})
	case "StructEnd":
		return w.WriteStructEnd()
	case "FieldBegin":
		return w.WriteFieldBegin(thriftwire.FieldHeader{Name: k.Name, Type: thriftwire.Type(k.T), ID: int16(k.ID)})
	case "FieldEnd":
		return w.WriteFieldEnd()
	case "MapBegin":
		return w.WriteMapBegin(thriftwire.MapHeader{Key: thriftwire.Type(k.K), Value: thriftwire.Type(k.E), Size: k.N})
	case "MapEnd":
		return w.WriteMapEnd()
	case "SetBegin":
		return w.WriteSetBegin(thriftwire.SetHeader{Element: thriftwire.Type(k.E), Size: k.N})
	case "SetEnd":
		return w.WriteSetEnd()
	case "ListBegin":
		return w.WriteListBegin(thriftwire.ListHeader{Element: thriftwire.Type(k.E), Size: k.N})
	case "ListEnd":
		return w.WriteListEnd()
	case "Bool":
		return w.WriteBool(k.I != 0)
	case "Byte":
		return w.WriteByte(byte(k.I))
	case "I16":
		return w.WriteI16(int16(k.I))
	case "I32":
		return w.WriteI32(int32(k.I))
	case "I64":
		return w.WriteI64(k.I)
	case "Double":
		return w.WriteDouble(math.Float64frombits(k.D))
	case "String":
		if bytesMode {
			return w.WriteBytes([]byte(k.S))
		}
		return w.WriteString(k.S)
	case "UUID":
		var u [16]byte
		copy(u[:], k.S)
		return w.WriteUUID(&u)
	}
	fault("playTok: %s", k.Op)
	return nil
}

// fetchTok issues the read call named op and returns what it answers.
func fetchTok(r thriftwire.Reader, op string, bytesMode bool) (Tok, error) {
	k := Tok{Op: op}
	var err error
	switch op {
	case "MessageBegin":
		var h thriftwire.MessageHeader
		h, err = r.ReadMessageBegin()
		k.Name, k.T, k.ID = h.Name, byte(h.Type), int64(h.ID)
	case "MessageEnd":
		err = r.ReadMessageEnd()
	case "StructBegin":
		_, err = r.ReadStructBegin()
	case "StructEnd":
		err = r.ReadStructEnd()
	case "FieldBegin":
		var h thriftwire.FieldHeader
		h, err = r.ReadFieldBegin()
		k.T, k.ID = byte(h.Type), int64(h.ID)
		if h.Type == thriftwire.Stop {
			k.ID = 0
		}
	case "FieldEnd":
		err = r.ReadFieldEnd()
	case "MapBegin":
		var h thriftwire.MapHeader
		h, err = r.ReadMapBegin()
		k.K, k.E, k.N = byte(h.Key), byte(h.Value), h.Size
	case "MapEnd":
		err = r.ReadMapEnd()
	case "SetBegin":
		var h thriftwire.SetHeader
		h, err = r.ReadSetBegin()
		k.E, k.N = byte(h.Element), h.Size
	case "SetEnd":
		err = r.ReadSetEnd()
	case "ListBegin":
		var h thriftwire.ListHeader
		h, err = r.ReadListBegin()
		k.E, k.N = byte(h.Element), h.Size
	case "ListEnd":
		err = r.ReadListEnd()
	case "Bool":
		var b bool
		if b, err = r.ReadBool(); b {
			k.I = 1
		}
	case "Byte":
		var b byte
		b, err = r.ReadByte()
		k.I = int64(b)
	case "I16":
		var x int16
		x, err = r.ReadI16()
		k.I = int64(x)
	case "I32":
		var x int32
		x, err = r.ReadI32()
		k.I = int64(x)
	case "I64":
		k.I, err = r.ReadI64()
	case "Double":
		var x float64
		x, err = r.ReadDouble()
		k.D = math.Float64bits(x)
	case "String":
		if bytesMode {
			var b []byte
			b, err = r.ReadBytes(nil)
			k.S = string(b)
		} else {
			k.S, err = r.ReadString()
		}
	case "UUID":
		var u [16]byte
		err = r.ReadUUID(&u)
		k.S = string(u[:])
	case "SkipString":
		err = r.SkipString()
	case "SkipUUID":
		err = r.SkipUUID()
	default:
		fault("fetchTok: %s", op)
	}
	return k, err
}

var opOfType = map[byte]string{tBool: "Bool", tByte: "Byte", tI16: "I16", tI32: "I32", tI64: "I64", tDouble: "Double", tString: "String", tUUID: "UUID"}

// transcode reads a value of type t from r and writes every item to w as it
// is read.
func transcode(r thriftwire.Reader, w thriftwire.Writer, t byte, mode int) error {
	both := func(op string) (Tok, error) {
		k, err := fetchTok(r, op, mode%2 == 1)
		if err != nil {
			return k, fmt.Errorf("reading %s: %w", op, err)
		}
		if op == "FieldBegin" && k.T == tStop {
			return k, nil
		}
		if err := playTok(w, k, mode/2%2 == 1); err != nil {
			return k, fmt.Errorf("writing %s: %w", k, err)
		}
		return k, nil
	}
	switch t {
	case tStruct:
		if _, err := both("StructBegin"); err != nil {
			return err
		}
		for {
			k, err := both("FieldBegin")
			if err != nil {
				return err
			}
			if k.T == tStop {
				break
			}
			if err := transcode(r, w, k.T, mode); err != nil {
				return err
			}
			if _, err := both("FieldEnd"); err != nil {
				return err
			}
		}
		_, err := both("StructEnd")
		return err
	case tMap, tSet, tList:
		op := map[byte]string{tMap: "Map", tSet: "Set", tList: "List"}[t]
		k, err := both(op + "Begin")
		if err != nil {
			return err
		}
		for i := 0; i < k.N; i++ {
			if t == tMap {
				if err := transcode(r, w, k.K, mode); err != nil {
					return err
				}
			}
			if err := transcode(r, w, k.E, mode); err != nil {
				return err
			}
		}
		_, err = both(op + "End")
		return err
	}
	op, ok := opOfType[t]
	if !ok {
		return fmt.Errorf("item of type %d", t)
	}
	_, err := both(op)
	return err
}

func transcodeMsg(r thriftwire.Reader, w thriftwire.Writer, mode int) error {
	k, err := fetchTok(r, "MessageBegin", false)
	if err != nil {
		return err
	}
	if err := playTok(w, k, false); err != nil {
		return err
	}
	if err := transcode(r, w, tStruct, mode); err != nil {
		return err
	}
	if err := r.ReadMessageEnd(); err != nil {
		return err
	}
	return w.WriteMessageEnd()
}
