package main

// C29: what is accepted is exactly what the bytes say.

import (
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// strictDec decodes by the letter of the protocol specifications. It reports
// an encoding as malformed, as well-formed, or as one whose acceptance
// (laxAccept) or value (laxValue) the specifications leave to the reader.
type strictDec struct {
	b         []byte
	compact   bool
	laxAccept bool
	laxValue  bool
	depth     int
	maxDepth  int
}

var errMalformed = errors.New("malformed")

func malformed(format string, a ...any) error {
	return fmt.Errorf("%w: %s", errMalformed, fmt.Sprintf(format, a...))
}

func (d *strictDec) take(n int) ([]byte, error) {
	if n > len(d.b) {
		return nil, malformed("%d bytes missing", n-len(d.b))
	}
	x := d.b[:n:n]
	d.b = d.b[n:]
	return x, nil
}

func (d *strictDec) u8() (byte, error) {
	x, err := d.take(1)
	if err != nil {
		return 0, err
	}
	return x[0], nil
}

func (d *strictDec) be(n int) (v uint64, err error) {
	x, err := d.take(n)
	for _, c := range x {
		v = v<<8 | uint64(c)
	}
	return v, err
}

// uvar decodes a base 128 number of at most 64 bits in at most ten bytes.
func (d *strictDec) uvar() (v uint64, err error) {
	for i := 0; ; i++ {
		c, err := d.u8()
		if err != nil {
			return 0, err
		}
		if i == 9 && c > 1 {
			return 0, malformed("number of more than 64 bits")
		}
		v |= uint64(c&0x7f) << (7 * i)
		if c < 0x80 {
			if i > 0 && c == 0 {
				d.laxAccept = true // longer than necessary
			}
			return v, nil
		}
	}
}

// varint decodes a signed number that should have that many bits.
func (d *strictDec) varint(bits int) (int64, error) {
	u, err := d.uvar()
	v := unzig(u)
	if bits < 64 && (v < -1<<(bits-1) || v >= 1<<(bits-1)) {
		d.laxAccept, d.laxValue = true, true
	}
	return v, err
}

func (d *strictDec) size() (int, error) {
	if d.compact {
		u, err := d.uvar()
		if err != nil {
			return 0, err
		}
		if u > math.MaxInt32 {
			return 0, malformed("size %d", u)
		}
		return int(u), nil
	}
	u, err := d.be(4)
	if err != nil {
		return 0, err
	}
	if u > math.MaxInt32 {
		return 0, malformed("size %d", int32(u))
	}
	return int(u), nil
}

func (d *strictDec) str() ([]byte, error) {
	n, err := d.size()
	if err != nil {
		return nil, err
	}
	return d.take(n)
}

func (d *strictDec) code(c byte) (byte, error) {
	if c == 0 {
		return 0, nil
	}
	if t, ok := compactType[c]; ok {
		return t, nil
	}
	return 0, malformed("compact type code %d", c)
}

func (d *strictDec) bool() (int64, error) {
	c, err := d.u8()
	if err != nil {
		return 0, err
	}
	if c > 1 {
		// Compact containers have 2 for false in some implementations.
		d.laxAccept, d.laxValue = true, true
	}
	return int64(c), nil
}

func (d *strictDec) value(t byte) (*V, error) {
	v := &V{T: t}
	var u uint64
	var err error
	if d.depth++; d.depth > d.maxDepth {
		d.maxDepth = d.depth
	}
	defer func() { d.depth-- }()
	switch t {
	case tBool:
		v.I, err = d.bool()
	case tByte:
		u, err = d.be(1)
		v.I = int64(u)
	case tI16, tI32, tI64:
		bits := map[byte]int{tI16: 16, tI32: 32, tI64: 64}[t]
		if d.compact {
			v.I, err = d.varint(bits)
		} else {
			u, err = d.be(bits / 8)
			v.I = int64(u<<(64-bits)) >> (64 - bits)
		}
	case tDouble:
		if v.D, err = d.be(8); d.compact {
			var r uint64
			for i := 0; i < 64; i += 8 {
				r |= v.D >> i & 0xff << (56 - i)
			}
			v.D = r
		}
	case tString:
		v.S, err = d.str()
	case tUUID:
		v.S, err = d.take(16)
	case tStruct:
		return v, d.fields(v)
	case tMap, tSet, tList:
		return v, d.container(v)
	default:
		return v, malformed("type %d", t)
	}
	return v, err
}

func (d *strictDec) fields(v *V) error {
	last := 0
	for {
		h, err := d.u8()
		if err != nil {
			return err
		}
		t, id := h, 0
		var val *V
		if d.compact {
			if t, err = d.code(h & 15); err != nil {
				return err
			}
			if t == 0 {
				if h != 0 {
					d.laxAccept, d.laxValue = true, true
				}
				return nil
			}
			if h>>4 == 0 {
				n, err := d.varint(16)
				if err != nil {
					return err
				}
				id = int(int16(n))
			} else if id = last + int(h>>4); id > math.MaxInt16 {
				d.laxAccept, d.laxValue = true, true
				id = int(int16(id))
			}
			last = id
			if t == tBool {
				val = &V{T: tBool, I: int64(h & 1)}
			}
		} else {
			if t == 0 {
				return nil
			}
			u, err := d.be(2)
			if err != nil {
				return err
			}
			id = int(int16(u))
		}
		if val == nil {
			if val, err = d.value(t); err != nil {
				return err
			}
		}
		v.F = append(v.F, F{int16(id), val})
	}
}

func (d *strictDec) container(v *V) (err error) {
	n, step := 0, 1
	if v.T == tMap {
		step = 2
	}
	switch {
	case d.compact && v.T == tMap:
		if n, err = d.size(); err != nil || n == 0 {
			return err
		}
		kv, err := d.u8()
		if err != nil {
			return err
		}
		if v.K, err = d.code(kv >> 4); err != nil {
			return err
		}
		if v.E, err = d.code(kv & 15); err != nil {
			return err
		}
	case d.compact:
		h, err := d.u8()
		if err != nil {
			return err
		}
		if v.E, err = d.code(h & 15); err != nil {
			return err
		}
		if n = int(h >> 4); n == 15 {
			if n, err = d.size(); err != nil {
				return err
			}
			if n < 15 {
				d.laxAccept = true // longer than necessary
			}
		}
	default:
		h, err := d.take(step)
		if err != nil {
			return err
		}
		v.E = h[step-1]
		if v.T == tMap {
			v.K = h[0]
		}
		if n, err = d.size(); err != nil {
			return err
		}
	}
	if n == 0 {
		if compactCode[v.E] == 0 || v.T == tMap && compactCode[v.K] == 0 {
			d.laxAccept = true // nothing has that type
		}
		return nil
	}
	for i := 0; i < n; i++ {
		if v.T == tMap {
			k, err := d.value(v.K)
			if err != nil {
				return err
			}
			v.L = append(v.L, k)
		}
		e, err := d.value(v.E)
		if err != nil {
			return err
		}
		v.L = append(v.L, e)
	}
	return nil
}

func (d *strictDec) message(unversioned bool) (m *Msg, err error) {
	m = &Msg{}
	var u uint64
	if d.compact {
		h, err := d.take(2)
		if err != nil {
			return m, err
		}
		if h[0] != 0x82 || h[1]&31 != 1 {
			return m, malformed("protocol id or version")
		}
		m.Type = h[1] >> 5
		if u, err = d.uvar(); err != nil {
			return m, err
		}
		if u > math.MaxUint32 {
			d.laxAccept, d.laxValue = true, true
		}
		m.ID = int32(u)
		if m.Name, err = d.str(); err != nil {
			return m, err
		}
	} else {
		if u, err = d.be(4); err != nil {
			return m, err
		}
		switch {
		case u>>16 == 0x8001:
			if u&0xff00 != 0 {
				d.laxAccept = true
			}
			m.Type = byte(u)
			if m.Name, err = d.str(); err != nil {
				return m, err
			}
		case u > math.MaxInt32:
			return m, malformed("version")
		case !unversioned:
			return m, malformed("no version")
		default:
			if m.Name, err = d.take(int(u)); err != nil {
				return m, err
			}
			if m.Type, err = d.u8(); err != nil {
				return m, err
			}
		}
		if u, err = d.be(4); err != nil {
			return m, err
		}
		m.ID = int32(u)
	}
	if m.Type < 1 || m.Type > 4 {
		d.laxAccept, d.laxValue = true, true
	}
	m.Body, err = d.value(tStruct)
	return m, err
}

type soundCase struct {
	hostileCase
	Tail Bytes `json:"tail,omitempty"` // what follows
}

func drawSoundCase(t *rapid.T) *soundCase {
	c := &soundCase{hostileCase: *drawHostileCase(t)}
	switch {
	case chance(t, 30, "random bytes"):
		// Small numbers are likelier to mean something.
		var b []byte
		for i, n := 0, between(t, "n", 1, 24); i < n; i++ {
			b = append(b, pick(t, "byte", rapid.Byte().Draw(t, "any"), byte(between(t, "small", 0, 17)), pick(t, "size", byte(0), 0, 1, 0xff, 0x80, 0x7f), byte(between(t, "short", 0, 3)<<4|between(t, "code", 1, 13))))
		}
		c.Parts = []part{{b, 1}}
	case c.Mode == "message" && chance(t, 50, "envelope"):
		b := refEncodeMsg(c.Proto, nil, vgen{noBig: true}.drawMsg(t, true))
		c.Parts = []part{{drawMutation(t, b, c.Proto), 1}}
	case chance(t, 40, "size"): // a valid encoding with one changed size or type
		c.Mode = pick(t, "mode", "read", "skip")
		if compactCode[c.T] == 0 {
			c.T = tStruct
		}
		v := vgen{noBig: true, noDeep: true}.drawValue(t, c.T)
		c.Parts = []part{{spoil(t, c.Proto, v), 1}}
	}
	c.Tail = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "tail")
	return c
}

// spoil encodes a value with one header of it changed.
func spoil(t *rapid.T, proto string, v *V) []byte {
	n := between(t, "node", 0, v.nodes()-1)
	var node *V
	v = v.clone()
	i := 0
	v.walk(func(x *V) {
		if i == n {
			node = x
		}
		i++
	})
	orig := node
	enc := refEncode(proto, nil, node)
	var b []byte
	typ := func() byte { return pick(t, "type", byte(0), 1, 5, 7, 9, 14, 15, 16, 17, 3, 255) }
	// The size it has, as far as 32 bits tell.
	grown := uint64(max(orig.count(), len(orig.S))) + uint64(between(t, "more", 1, 1<<10))<<32
	same := func(b byte) byte { // or another byte
		if rapid.Bool().Draw(t, "same") {
			return b
		}
		return byte(between(t, "b", 0, 255))
	}
	size := func() uint64 {
		return pick(t, "size", uint64(0xffffffff), 0x80000000, 0x80000001, 0x7fffffff, 1<<32, 1<<63, 1<<64-1, 1<<63+1, 1<<31, uint64(orig.count()+1), uint64(len(orig.S)+1), 0xffffffff00000000, grown, grown)
	}
	isMap, isCont := orig.T == tMap, orig.T == tMap || orig.T == tSet || orig.T == tList
	switch {
	case orig.T == tStruct && proto == "compact":
		b = append([]byte{byte(between(t, "h", 0, 255))}, enc...)
	case orig.T == tStruct:
		b = append([]byte{typ(), 0, 1}, enc...)
	case isCont && proto == "compact":
		h := 1
		if isMap {
			if orig.count() > 0 {
				h = len(uvar(nil, uint64(orig.count()))) + 1
			}
			kv := byte(0)
			if orig.count() > 0 {
				kv = enc[h-1]
			}
			b = append(uvar(nil, size()), same(kv))
		} else {
			if orig.count() >= 15 {
				h += len(uvar(nil, uint64(orig.count())))
			}
			b = []byte{same(enc[0] | 0xf0)}
			if b[0] >= 0xf0 {
				b = uvar(b, size())
			}
		}
		b = append(b, enc[h:]...)
	case isCont:
		h := 5
		if isMap {
			h = 6
		}
		b = append(b, enc[:h]...)
		if chance(t, 50, "type") {
			b[between(t, "which", 0, h-5)] = typ()
		} else {
			b = be(b[:h-4], size(), 4)
		}
		b = append(b, enc[h:]...)
	case orig.T == tString && proto == "compact":
		b = append(uvar(nil, size()), orig.S...)
	case orig.T == tString:
		b = append(be(nil, size(), 4), orig.S...)
	case proto == "compact" && (orig.T == tI16 || orig.T == tI32 || orig.T == tI64):
		for i, n := 0, between(t, "bytes", 0, 11); i < n; i++ {
			b = append(b, pick(t, "byte", byte(0x80), 0xff, 0x81))
		}
		b = append(b, pick(t, "last", byte(0), 1, 2, 3, 0x7f))
	default:
		b = enc[:between(t, "cut", 0, len(enc))]
	}
	return spliceTo(nil, proto, v, node, b)
}

// spliceTo encodes v with b in the place of the encoding of one node.
func spliceTo(buf []byte, proto string, v, node *V, b []byte) []byte {
	if v == node {
		return append(buf, b...)
	}
	hasNode := false
	v.walk(func(x *V) { hasNode = hasNode || x == node })
	if !hasNode {
		return refEncode(proto, buf, v)
	}
	if v.T == tStruct {
		for _, f := range v.F {
			if proto == "compact" {
				// Encode the field alone; the id is in long form then, which
				// is the same everywhere.
				one := refCompact(nil, &V{T: tStruct, F: []F{{f.ID, f.V}}}, compactOpts{LongField: true})
				one = one[:len(one)-1]
				if f.V.T == tBool {
					buf = append(buf, one...)
					continue
				}
				body := refCompact(nil, f.V, compactOpts{LongField: true})
				buf = append(buf, one[:len(one)-len(body)]...)
				buf = spliceTo(buf, proto, f.V, node, b)
			} else {
				buf = be(append(buf, f.V.T), uint64(uint16(f.ID)), 2)
				buf = spliceTo(buf, proto, f.V, node, b)
			}
		}
		return append(buf, 0)
	}
	// A container: its header is the encoding without the elements.
	whole := refEncode(proto, nil, v)
	n := len(whole)
	for _, e := range v.L {
		n -= len(refEncode(proto, nil, e))
	}
	buf = append(buf, whole[:n]...)
	for _, e := range v.L {
		buf = spliceTo(buf, proto, e, node, b)
	}
	return buf
}

func checkSound(c *soundCase, x *Ctx) error {
	data := append(c.data(), c.Tail...)
	d := &strictDec{b: data, compact: c.Proto == "compact"}
	var want *V
	var wantMsg *Msg
	var werr error
	typ := c.T
	gotypeOf := c.Ty
	switch c.Mode {
	case "message":
		wantMsg, werr = d.message(c.Proto == "nonstrict")
		want = wantMsg.Body
	case "unmarshal":
		if typ = wireOf(gotypeOf.build()); typ == 0 {
			x.Label("not a Thrift type")
			return nil
		}
		want, werr = d.value(typ)
	default:
		want, werr = d.value(typ)
	}
	rest := d.b
	r := protoByName(c.Proto).NewReader(&scriptReader{b: data, sizes: c.Sizes, end: io.EOF})

	var got *V
	var gotMsg *Msg
	var err, mismatch error
	ambiguous := false
	var gotGo, wantGo string
	switch c.Mode {
	case "message":
		if c.Bytes == 0 {
			var h thriftwire.MessageHeader
			if h, err = r.ReadMessageBegin(); err == nil {
				err = thriftwire.Skip(r, thriftwire.Struct)
			}
			gotMsg = &Msg{Name: []byte(h.Name), Type: byte(h.Type), ID: h.ID, Body: want}
		} else if gotMsg, err = readMsg(r, c.Bytes); err == nil {
			got = gotMsg.Body
		}
	case "skip":
		err = thriftwire.Skip(r, thriftwire.Type(typ))
	case "read":
		got, err = readV(r, typ, c.Bytes)
	case "unmarshal":
		rv := newGV(gotypeOf.build(), c.Prior)
		err = thrift.Unmarshal(r, rv.Interface())
		if werr == nil {
			wv := newGV(gotypeOf.build(), c.Prior)
			a := &applier{}
			mismatch = a.apply(wv.Elem(), want)
			ambiguous = a.ambiguous
			if err == nil && mismatch == nil {
				gotGo, wantGo = canonGo(rv.Elem(), false, true), canonGo(wv.Elem(), false, true)
			}
		}
	}

	errorf := func(format string, a ...any) error {
		head := fmt.Sprintf("%s %s of type %d (%s bytes) of % x", c.Proto, c.Mode, typ, []string{"string", "byte", "appended"}[c.Bytes], clipb(data, 80))
		return errors.New(head + fmt.Sprintf(format, a...))
	}
	if werr != nil {
		x.Label("%s %s: malformed", c.Proto, c.Mode)
		x.NonTrivial()
		if err == nil {
			return errorf(": accepted although it is %v", werr)
		}
		return nil
	}
	if d.maxDepth > 300 {
		x.Label("deep")
		return nil
	}
	switch {
	case err != nil && (d.laxAccept || mismatch != nil || ambiguous):
		x.Label("%s %s: unspecified, refused", c.Proto, c.Mode)
		return nil
	case err != nil:
		return errorf(": well-formed (%s), but refused: %v", clip(want.String(), 500), err)
	case mismatch != nil:
		return errorf(": accepted, but %v", mismatch)
	}
	if d.laxAccept {
		x.Label("%s %s: unspecified, accepted", c.Proto, c.Mode)
	} else {
		x.Label("%s %s: well-formed", c.Proto, c.Mode)
	}
	if !d.laxValue {
		if len(data)-len(rest) > 2 {
			x.NonTrivial()
		}
		if got != nil && got.emptyNorm() != want.emptyNorm() {
			return errorf(":\n got %s\nwant %s", clip(got.String(), 1500), clip(want.String(), 1500))
		}
		if gotMsg != nil && (string(gotMsg.Name) != string(wantMsg.Name) || gotMsg.Type != wantMsg.Type || gotMsg.ID != wantMsg.ID) {
			return errorf(":\n got %q type %d id %d\nwant %q type %d id %d", gotMsg.Name, gotMsg.Type, gotMsg.ID, wantMsg.Name, wantMsg.Type, wantMsg.ID)
		}
		if gotGo != wantGo {
			return errorf(" into %v:\n got %s\nwant %s", gotypeOf.build(), clip(gotGo, 1500), clip(wantGo, 1500))
		}
	}
	for i, b := range rest {
		if i >= 40 {
			return nil
		}
		if g, err := r.ReadByte(); err != nil || g != b {
			return errorf(": %d bytes should be left, but byte %d of them reads as %#x, %v", len(rest), i, g, err)
		}
	}
	if err := atEOF(r); err != nil {
		return errorf(": %v", err)
	}
	return nil
}

// ---- all short inputs ----

type shortCase struct {
	Proto string `json:"proto"`
	T     byte   `json:"t"`     // 0: a message
	First byte   `json:"first"` // the first byte
}

// thirds are the bytes that may follow the first two.
var thirds = []byte{0, 1, 2, 3, 0x11, 0x13, 0x7f, 0x80, 0x81, 0xff}

// tails are what may follow these; they take turns.
var tails = []string{"", "\x00", "\x00\x00", "\x00\x01\x00", "\x01\x01\x00\x00\x00", "\xff\xff\xff\xff\xff\xff\xff\x01\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\x01\x00", "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", "\x01\x00", "\x02\x01\x00\x01\x00"}

func checkShort(c *shortCase, x *Ctx) error {
	x.NonTrivial()
	x.Label("%s", c.Proto)
	run := func(b []byte) error {
		for _, mode := range []string{"read", "skip"} {
			s := &soundCase{hostileCase: hostileCase{Proto: c.Proto, Mode: mode, T: c.T, Parts: []part{{b, 1}}}}
			if c.T == 0 {
				if mode == "skip" {
					return nil
				}
				s.Mode = "message"
			}
			if err := checkSound(s, &Ctx{}); err != nil {
				return err
			}
		}
		return nil
	}
	var head []byte
	if c.T == 0 { // the envelope of a message up to its name
		head = map[string][]byte{"binary": {0x80, 1, 0, 1}, "nonstrict": {}, "compact": {0x82, 0x21, 5}}[c.Proto]
	}
	for i := 0; i < 256; i++ {
		b := append(append([]byte{}, head...), c.First, byte(i))
		if err := run(b); err != nil {
			return err
		}
		for j, th := range thirds {
			if err := run(append(append(b[:len(b):len(b)], th), tails[(i+j)%len(tails)]...)); err != nil {
				return err
			}
		}
	}
	return nil
}

func enumShort(yield func(*shortCase) bool) {
	for _, p := range protoNames {
		for _, t := range append([]byte{0}, allTypes...) {
			for f := 0; f < 256; f++ {
				number := t == tI16 || t == tI32 || t == tI64
				if (t == tBool || t == tByte || t == tDouble || t == tUUID || number && p != "compact") && f%51 != 0 {
					continue // all bytes mean the same
				}
				if !yield(&shortCase{p, t, byte(f)}) {
					return
				}
			}
		}
	}
}

func init() {
	register(&property{
		id:   "C29",
		rule: "random bytes, mutated and spoiled encodings and all short inputs, against a strict decoder; non-trivial: malformed, or more than two bytes of well-formed data",
		subs: []*subDef{
			sub("bytes", 60000, 1500000, drawSoundCase, checkSound),
			enumSub("short", enumShort, checkShort),
		},
		assumptions: []string{
			"strictDec in harness/props_sound.go follows the protocol specifications",
			"left to the reader: boolean bytes other than 0 and 1, element types of empty containers, numbers and sizes in more bytes than needed, compact numbers out of the range of their type, field id deltas beyond 32767, unknown message types, the unused byte of a binary header, data nested more than 300 deep",
		},
	})
}
