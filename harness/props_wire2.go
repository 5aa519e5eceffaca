package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"pgregory.net/rapid"
)

// errClass is the kind of an error, as far as callers can tell.
func errClass(err error) string {
	switch {
	case err == nil:
		return "none"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "unexpected EOF"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, errInjected):
		return "injected"
	}
	return "other"
}

var errInjected = errors.New("injected failure")

// scriptReader delivers data in the given portions and then fails with end.
type scriptReader struct {
	b     []byte
	sizes []int // of the reads, cyclic; 0 delivers nothing once
	i     int
	end   error
	early bool // report end together with the last bytes
	reads int
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.reads++
	if len(r.b) == 0 {
		return 0, r.end
	}
	n := len(r.b)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	n = copy(p, r.b[:min(n, len(r.b))])
	r.b = r.b[n:]
	if r.early && len(r.b) == 0 {
		return n, r.end
	}
	return n, nil
}

func drawSizes(t *rapid.T) []int {
	switch between(t, "chunking", 0, 5) {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{pick(t, "size", 2, 3, 7, 15, 16, 17, 4095, 4096, 4097)}
	case 3: // with empty reads, never many in a row
		return []int{0, between(t, "size", 1, 20), 0, 0, 1}
	}
	s := rapid.SliceOfN(rapid.IntRange(1, 40), 1, 6).Draw(t, "sizes")
	return s
}

// ---- C24 ----

type envCase struct {
	Write string      `json:"write"` // protocols
	Read  string      `json:"read"`
	Msgs  []*Msg      `json:"msgs"`
	Sizes []int       `json:"sizes"`
	Join  [2]string   `json:"join"` // the same, joined with others
	Opts  compactOpts `json:"-"`
}

func drawEnvCase(t *rapid.T) *envCase {
	c := &envCase{}
	p := pick(t, "protocols", "binary binary", "nonstrict nonstrict", "compact compact", "binary nonstrict", "compact compact")
	c.Write, c.Read, _ = strings.Cut(p, " ")
	c.Join = [2]string{drawJoin(t, c.Write, false, 0), drawJoin(t, c.Read, true, 0)}
	c.Sizes = drawSizes(t)
	for i, n := 0, between(t, "msgs", 1, 5); i < n; i++ {
		c.Msgs = append(c.Msgs, &Msg{Name: drawName(t), Type: byte(between(t, "mtype", 1, 4)), ID: int32(drawInt(t, 32)), Body: &V{T: tStruct}})
	}
	return c
}

func checkEnvelopes(c *envCase, x *Ctx) error {
	x.Label("%s to %s", c.Write, c.Read)
	for _, m := range c.Msgs {
		if m.ID < 0 || len(m.Name) > 0 {
			x.NonTrivial()
		}
	}
	// The other halves must not matter.
	wp, rp := protoBySpec(c.Join[0]), protoBySpec(c.Join[1])
	var out bytes.Buffer
	w := wp.NewWriter(&out)
	var want []byte
	for _, m := range c.Msgs {
		if err := writeMsg(w, m, 0); err != nil {
			return fmt.Errorf("writing %s failed: %v", m, err)
		}
		want = refEncodeMsg(c.Write, want, m)
	}
	if err := w.Flush(); err != nil {
		return fmt.Errorf("Flush failed: %v", err)
	}
	if !bytes.Equal(out.Bytes(), want) {
		return fmt.Errorf("joined writer does not write %s: %s", c.Write, firstDiff(out.Bytes(), want))
	}
	r := rp.NewReader(&scriptReader{b: want, sizes: c.Sizes, end: io.EOF})
	for i, m := range c.Msgs {
		got, err := readMsg(r, 0)
		if err != nil {
			return fmt.Errorf("message %d written by %s and read by %s: %v", i, c.Write, c.Read, err)
		}
		if !sameMsg(got, m) {
			return fmt.Errorf("message %d written by %s and read by %s:\n got %s\nwant %s", i, c.Write, c.Read, clip(got.String(), 500), clip(m.String(), 500))
		}
	}
	return atEOF(r)
}

type foreignCase struct {
	Proto string `json:"proto"`
	Data  Bytes  `json:"data"`
	Sizes []int  `json:"sizes"`
}

func drawForeignCase(t *rapid.T) *foreignCase {
	c := &foreignCase{Proto: pick(t, "proto", protoNames...), Sizes: drawSizes(t)}
	m := &Msg{Name: drawName(t), Type: byte(between(t, "mtype", 1, 4)), ID: int32(drawInt(t, 32)), Body: &V{T: tStruct}}
	b := refEncodeMsg(pick(t, "as", protoNames...), nil, m)
	switch between(t, "damage", 0, 5) {
	case 0:
	case 1: // any four bytes first
		copy(b, rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "head"))
	case 2: // one bit
		i := between(t, "bit", 0, 31)
		if i/8 < len(b) {
			b[i/8] ^= 1 << (i % 8)
		}
	case 3: // a version of its own
		v := uint16(between(t, "version", 0, 65535))
		b[0], b[1] = byte(v>>8)|0x80, byte(v)
	case 4: // compact header bytes
		b[0], b[1] = pick(t, "id", byte(0x82), 0x82, 0x02, 0x83, 0x81, 0xc2), byte(between(t, "vt", 0, 255))
	case 5:
		b = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes")
	}
	c.Data = b
	return c
}

// checkForeign compares the decision on the first bytes with the protocol
// specifications.
func checkForeign(c *foreignCase, x *Ctx) error {
	r := protoByName(c.Proto).NewReader(&scriptReader{b: c.Data, sizes: c.Sizes, end: io.EOF})
	got, err := r.ReadMessageBegin()
	d := c.Data
	reject := ""
	var want *Msg
	var rest []byte
	if c.Proto == "compact" {
		switch {
		case len(d) < 2:
			reject = "too short"
			if len(d) == 1 && d[0] != 0x82 {
				reject = "bad protocol id"
			}
		case d[0] != 0x82:
			reject = "bad protocol id"
		case d[1]&0x1f != 1:
			reject = "bad version"
		default:
			want, rest = refCompactMsgHeader(d)
		}
	} else {
		switch {
		case len(d) < 4:
			reject = "too short"
		case d[0]&0x80 != 0 && (d[0] != 0x80 || d[1] != 0x01):
			reject = "bad version"
		case d[0]&0x80 == 0 && c.Proto == "binary":
			reject = "missing version"
		default:
			want, rest = refBinaryMsgHeader(d)
		}
	}
	if reject == "" && want == nil {
		reject = "truncated"
	}
	if reject == "truncated" && c.Proto == "compact" {
		if id, n := binary.Uvarint(d[2:]); n > 0 && id > 1<<32-1 {
			x.Label("sequence id of more than 32 bits")
			return nil
		}
	}
	if reject != "" {
		x.Label("%s: %s", c.Proto, reject)
		x.NonTrivial()
		if err == nil {
			return fmt.Errorf("%s reader accepted a foreign envelope (%s): % x read as %+v", c.Proto, reject, clipb(d, 40), got)
		}
		return nil
	}
	if err != nil {
		if want.Type < 1 || want.Type > 4 || c.Proto != "compact" && d[0]&0x80 != 0 && d[2] != 0 {
			x.Label("unknown message type or unused byte refused")
			return nil
		}
		return fmt.Errorf("%s reader refused % x: %v", c.Proto, clipb(d, 40), err)
	}
	x.Label("%s: accepted", c.Proto)
	if want.Type >= 1 && want.Type <= 4 {
		x.NonTrivial()
	}
	if got.Name != string(want.Name) || byte(got.Type) != want.Type || got.ID != want.ID {
		return fmt.Errorf("%s reader read % x as %+v instead of %q type %d id %d", c.Proto, clipb(d, 40), got, want.Name, want.Type, want.ID)
	}
	for _, b := range rest {
		if g, err := r.ReadByte(); err != nil || g != b {
			return fmt.Errorf("%s reader does not stop after the envelope: read %#x, %v instead of %#x", c.Proto, g, err, b)
		}
	}
	return atEOF(r)
}

func clipb(b []byte, n int) []byte { return b[:min(len(b), n)] }

func refBinaryMsgHeader(d []byte) (*Msg, []byte) {
	m := &Msg{}
	strict := d[0]&0x80 != 0
	if strict {
		m.Type = d[3]
		d = d[4:]
	}
	if len(d) < 4 {
		return nil, nil
	}
	n := int64(int32(binary.BigEndian.Uint32(d)))
	d = d[4:]
	if n < 0 || n > int64(len(d)) {
		return nil, nil
	}
	m.Name, d = Bytes(d[:n]), d[n:]
	if !strict {
		if len(d) < 1 {
			return nil, nil
		}
		m.Type, d = d[0], d[1:]
	}
	if len(d) < 4 {
		return nil, nil
	}
	m.ID = int32(binary.BigEndian.Uint32(d))
	return m, d[4:]
}

func refCompactMsgHeader(d []byte) (*Msg, []byte) {
	m := &Msg{Type: d[1] >> 5}
	d = d[2:]
	id, n := binary.Uvarint(d)
	if n <= 0 {
		return nil, nil
	}
	if id > 1<<32-1 {
		return nil, nil
	}
	m.ID, d = int32(id), d[n:]
	size, n := binary.Uvarint(d)
	if n <= 0 || size > uint64(len(d)-n) {
		return nil, nil
	}
	m.Name, d = Bytes(d[n:n+int(size)]), d[n+int(size):]
	return m, d
}

// ---- C25 ----

type varintCase struct {
	Data  Bytes  `json:"data"`
	Sizes []int  `json:"sizes"`
	Buf   int    `json:"buf"`
	Ops   string `json:"ops"` // u, v: varints; b: a byte
	Fail  bool   `json:"fail"`
	Early bool   `json:"early"`
}

func drawVarintCase(t *rapid.T) *varintCase {
	c := &varintCase{Sizes: drawSizes(t), Buf: pick(t, "buf", 16, 17, 20, 32, 4096), Fail: chance(t, 20, "fail"), Early: rapid.Bool().Draw(t, "early")}
	for i, n := 0, between(t, "items", 1, 12); i < n; i++ {
		switch between(t, "item", 0, 6) {
		case 0, 1, 2:
			c.Data = uvar(c.Data, zig(drawInt(t, 64)))
		case 3: // overlong
			k := between(t, "len", 1, 11)
			for j := 0; j < k; j++ {
				c.Data = append(c.Data, 0x80)
			}
			c.Data = append(c.Data, byte(between(t, "last", 0, 127)))
		case 4: // overflow
			k := between(t, "len", 8, 12)
			for j := 0; j < k; j++ {
				c.Data = append(c.Data, 0xff)
			}
			c.Data = append(c.Data, byte(between(t, "last", 0, 3)))
		default:
			c.Data = append(c.Data, rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "bytes")...)
		}
	}
	if chance(t, 40, "cut") {
		c.Data = c.Data[:between(t, "at", 0, len(c.Data))]
	}
	for i, n := 0, between(t, "ops", 1, 16); i < n; i++ {
		c.Ops += pick(t, "op", "u", "v", "u", "v", "b")
	}
	return c
}

func (c *varintCase) reader() *bufio.Reader {
	end := io.EOF
	if c.Fail {
		end = errInjected
	}
	return bufio.NewReaderSize(&scriptReader{b: append([]byte{}, c.Data...), sizes: c.Sizes, end: end, early: c.Early}, c.Buf)
}

func checkVarint(c *varintCase, x *Ctx) error {
	got, want := c.reader(), c.reader()
	for i, op := range c.Ops {
		var g, w uint64
		var gerr, werr error
		switch op {
		case 'u':
			g, gerr = thriftwire.ReadUvarint(got)
			w, werr = binary.ReadUvarint(want)
		case 'v':
			var a, b int64
			a, gerr = thriftwire.ReadVarint(got)
			b, werr = binary.ReadVarint(want)
			g, w = uint64(a), uint64(b)
		default:
			var a, b byte
			a, gerr = got.ReadByte()
			b, werr = want.ReadByte()
			g, w = uint64(a), uint64(b)
		}
		x.Label("error: %s", errClass(werr))
		if werr != nil || w > 127 {
			x.NonTrivial()
		}
		if errClass(gerr) != errClass(werr) {
			return fmt.Errorf("read %d (%c): error %v, the standard library says %v", i, op, gerr, werr)
		}
		if werr == nil && g != w {
			return fmt.Errorf("read %d (%c): %#x, the standard library says %#x", i, op, g, w)
		}
	}
	a, _ := io.ReadAll(got)
	b, _ := io.ReadAll(want)
	if !bytes.Equal(a, b) {
		return fmt.Errorf("%d bytes left, the standard library leaves %d", len(a), len(b))
	}
	return nil
}

type bulkCase struct {
	Len   int      `json:"len"`
	Sizes []int    `json:"sizes"`
	Buf   int      `json:"buf"`
	Ops   []bulkOp `json:"ops"`
	Fail  bool     `json:"fail"`
	Early bool     `json:"early"`
}

type bulkOp struct {
	Op    string `json:"op"` // string, bytes, next
	N     int    `json:"n"`
	Have  int    `json:"have,omitempty"` // bytes already in the buffer
	Spare int    `json:"spare,omitempty"`
}

func drawBulkCase(t *rapid.T) *bulkCase {
	c := &bulkCase{Sizes: drawSizes(t), Buf: pick(t, "buf", 16, 16, 17, 31, 64, 4096), Fail: chance(t, 20, "fail"), Early: rapid.Bool().Draw(t, "early")}
	if c.Buf == 4096 {
		c.Len = between(t, "len", 0, 16000)
	} else {
		c.Len = between(t, "len", 0, 300)
	}
	for i, n := 0, between(t, "ops", 1, 8); i < n; i++ {
		o := bulkOp{Op: pick(t, "op", "string", "bytes", "bytes", "next")}
		switch between(t, "nkind", 0, 5) {
		case 0:
			o.N = pick(t, "n", 0, -1, -5, -2147483648)
		case 1:
			o.N = c.Buf*between(t, "mult", 1, 3) + between(t, "off", -2, 2)
		case 2:
			o.N = c.Len + between(t, "off", -3, 3)
		default:
			o.N = between(t, "n", 0, c.Buf)
		}
		if o.Op == "next" && o.N > c.Buf {
			o.N = c.Buf
		}
		if o.Op == "bytes" {
			o.Have, o.Spare = between(t, "have", 0, 5), between(t, "spare", 0, 40)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func checkBulk(c *bulkCase, x *Ctx) error {
	end := io.EOF
	if c.Fail {
		end = errInjected
	}
	data := fill(c.Len, 3)
	b := bufio.NewReaderSize(&scriptReader{b: append([]byte{}, data...), sizes: c.Sizes, end: end, early: c.Early}, c.Buf)
	size := b.Size()
	pos := 0
	for i, o := range c.Ops {
		var got []byte
		var err error
		have := append(make([]byte, 0, o.Have+o.Spare), fill(o.Have, 0x90)...)
		switch o.Op {
		case "string":
			var s string
			s, err = thriftwire.ReadString(b, o.N)
			got = []byte(s)
		case "bytes":
			got, err = thriftwire.ReadBytes(b, o.N, have)
			if len(got) < o.Have || !bytes.Equal(got[:o.Have], fill(o.Have, 0x90)) {
				return fmt.Errorf("step %d: ReadBytes(%d) lost the content of the buffer", i, o.N)
			}
			if !bytes.Equal(have, fill(o.Have, 0x90)) {
				return fmt.Errorf("step %d: ReadBytes(%d) changed the given buffer", i, o.N)
			}
			got = got[o.Have:]
		case "next":
			if o.N > size {
				continue
			}
			got, err = thriftwire.Next(b, o.N)
		}
		what := fmt.Sprintf("step %d: %s of %d bytes at %d of %d (buffer %d)", i, o.Op, o.N, pos, c.Len, size)
		if o.N < 0 {
			x.Label("negative size")
			x.NonTrivial()
			if err == nil {
				return fmt.Errorf("%s: no error", what)
			}
			if len(got) > 0 {
				return fmt.Errorf("%s: returned data", what)
			}
			continue
		}
		want := data[pos:min(pos+o.N, len(data))]
		if !bytes.Equal(got, want) {
			return fmt.Errorf("%s: wrong data: %s", what, firstDiff(got, want))
		}
		pos += len(want)
		switch {
		case len(want) == o.N:
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if o.N > size {
				x.Label("larger than the buffer")
				x.NonTrivial()
			}
		default:
			x.NonTrivial()
			w := "EOF"
			if len(want) > 0 {
				w = "unexpected EOF"
			}
			if c.Fail {
				w = "injected"
			}
			x.Label("short: %s", w)
			if g := errClass(err); g != w {
				return fmt.Errorf("%s, %d available: error %v instead of %s", what, len(want), err, w)
			}
		}
	}
	rest, _ := io.ReadAll(b)
	if !bytes.Equal(rest, data[pos:]) {
		return fmt.Errorf("after %v: %d bytes left instead of %d", c.Ops, len(rest), len(data)-pos)
	}
	return nil
}

// ---- C27 ----

type headerCase struct {
	Kind   string `json:"kind"` // field, map, set, list
	T, K   byte
	Size   int   `json:"size"`
	ID     int16 `json:"id"`
	Last   int16 `json:"last"`
	IsTrue bool  `json:"istrue"`
	Have   int   `json:"have"`
	Spare  int   `json:"spare"`
}

func drawHeaderCase(t *rapid.T) *headerCase {
	c := &headerCase{Kind: pick(t, "kind", "field", "map", "set", "list", "field"), IsTrue: rapid.Bool().Draw(t, "true"), Have: between(t, "have", 0, 4), Spare: between(t, "spare", 0, 24)}
	typ := func(l string) byte {
		if chance(t, 15, "anytype") {
			return byte(between(t, l, 0, 255))
		}
		return pick(t, l, allTypes...)
	}
	c.T, c.K = typ("type"), typ("key")
	switch between(t, "sizekind", 0, 4) {
	case 0:
		c.Size = between(t, "size", 0, 17)
	case 4:
		if rapid.Bool().Draw(t, "huge") {
			c.Size = int(rapid.Int64().Draw(t, "size"))
		} else {
			c.Size = 1<<between(t, "pow", 31, 62) + between(t, "off", -1, 1)
		}
	case 1:
		c.Size = 1<<between(t, "pow", 0, 30) + between(t, "off", -1, 1)
	case 2:
		c.Size = int(rapid.Int32Range(0, 1<<31-1).Draw(t, "size"))
	default:
		c.Size = pick(t, "size", 0, 14, 15, 16, 127, 128, 1<<31-1)
	}
	c.Last = int16(drawInt(t, 16))
	if rapid.Bool().Draw(t, "near") {
		c.ID = c.Last + int16(between(t, "delta", -20, 20))
	} else {
		c.ID = int16(drawInt(t, 16))
	}
	return c
}

func validType(b byte) bool { return compactCode[b] != 0 }

func checkHeader(c *headerCase, x *Ctx) error {
	x.Label("%s", c.Kind)
	prefix := fill(c.Have, 0x70)
	buf := append(make([]byte, 0, c.Have+c.Spare), prefix...)
	var got []byte
	var err error
	var maxSize int
	T, K := thriftwire.Type(c.T), thriftwire.Type(c.K)
	switch c.Kind {
	case "field":
		got, err = thriftcompact.AppendFieldHeader(buf, thriftwire.FieldHeader{Type: T, ID: c.ID}, c.IsTrue, c.Last)
		maxSize = thriftcompact.MaxFieldHeaderSize
	case "map":
		got, err = thriftcompact.AppendMapHeader(buf, thriftwire.MapHeader{Key: K, Value: T, Size: c.Size})
		maxSize = thriftcompact.MaxMapHeaderSize
	case "set":
		got, err = thriftcompact.AppendSetHeader(buf, thriftwire.SetHeader{Element: T, Size: c.Size})
		maxSize = thriftcompact.MaxSetHeaderSize
	case "list":
		got, err = thriftcompact.AppendListHeader(buf, thriftwire.ListHeader{Element: T, Size: c.Size})
		maxSize = thriftcompact.MaxListHeaderSize
	}
	if len(got) < c.Have || !bytes.Equal(got[:c.Have], prefix) {
		return fmt.Errorf("the content of the buffer was not kept")
	}
	if !bytes.Equal(buf, prefix) {
		return fmt.Errorf("the given buffer was changed")
	}
	added := got[c.Have:]
	if err == nil && len(added) > maxSize {
		return fmt.Errorf("%d bytes added, more than the maximum %d", len(added), maxSize)
	}
	if c.Size != int(int32(c.Size)) || c.Size < 0 {
		x.Label("size out of range")
		x.NonTrivial()
		return nil // only the bounds count
	}
	stop := c.Kind != "field" && c.Size == 0 && c.T == 0 && (c.Kind != "map" || c.K == 0)
	ok := validType(c.T) && (c.Kind != "map" || validType(c.K)) || stop
	if !ok {
		x.Label("invalid type")
		x.NonTrivial()
		if c.Kind == "map" && c.Size == 0 {
			return nil // an empty map does not carry types
		}
		if err == nil {
			return fmt.Errorf("type that cannot be encoded was accepted: % x", added)
		}
		if len(added) != 0 {
			return fmt.Errorf("a rejected header changed the buffer: % x", added)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("header was rejected: %v", err)
	}
	if len(added) > 1 {
		x.NonTrivial()
	}
	// The specification.
	var want []byte
	switch c.Kind {
	case "field":
		code := compactCode[c.T]
		if c.T == tBool && c.IsTrue {
			code = 1
		}
		d := int(c.ID) - int(c.Last)
		if d >= 1 && d <= 15 {
			want = []byte{byte(d)<<4 | code}
		} else {
			want = uvar([]byte{code}, zig(int64(c.ID)))
			if d16 := c.ID - c.Last; d16 >= 1 && d16 <= 15 && len(added) == 1 {
				want = []byte{byte(d16)<<4 | code} // either is understood
			}
		}
	case "map":
		if c.Size == 0 {
			want = []byte{0}
		} else {
			want = append(uvar(nil, uint64(c.Size)), compactCode[c.K]<<4|compactCode[c.T])
		}
	default:
		if c.Size < 15 {
			want = []byte{byte(c.Size)<<4 | compactCode[c.T]}
		} else {
			want = uvar([]byte{0xf0 | compactCode[c.T]}, uint64(c.Size))
		}
	}
	if !bytes.Equal(added, want) {
		return fmt.Errorf("added % x, the specification says % x", added, want)
	}
	// The writer.
	var out bytes.Buffer
	w := thriftcompact.Protocol.NewWriter(&out)
	skip := 0
	switch c.Kind {
	case "field":
		err = w.WriteStructBegin(thriftwire.StructHeader{})
		if err == nil && c.Last != 0 {
			err = errors.Join(w.WriteFieldBegin(thriftwire.FieldHeader{Type: thriftwire.Byte, ID: c.Last}), w.WriteByte(9), w.WriteFieldEnd(), w.Flush())
			skip = out.Len()
		}
		if err == nil {
			err = w.WriteFieldBegin(thriftwire.FieldHeader{Type: T, ID: c.ID})
		}
		if err == nil && T == thriftwire.Bool {
			err = w.WriteBool(c.IsTrue)
		}
	case "map":
		err = w.WriteMapBegin(thriftwire.MapHeader{Key: K, Value: T, Size: c.Size})
	case "set":
		err = w.WriteSetBegin(thriftwire.SetHeader{Element: T, Size: c.Size})
	case "list":
		err = w.WriteListBegin(thriftwire.ListHeader{Element: T, Size: c.Size})
	}
	if err := errors.Join(err, w.Flush()); err != nil {
		return fmt.Errorf("the writer failed: %v", err)
	}
	if !bytes.Equal(out.Bytes()[skip:], added) {
		return fmt.Errorf("the writer emits % x, the helper % x", out.Bytes()[skip:], added)
	}
	// Back.
	stream := append(append([]byte{}, added...), 0x77)
	b := bufio.NewReaderSize(bytes.NewReader(stream), 16)
	switch c.Kind {
	case "field":
		r := thriftcompact.Protocol.NewReader(bytes.NewReader(append(append([]byte{}, out.Bytes()...), 0x77)))
		if _, err := r.ReadStructBegin(); err != nil {
			return err
		}
		if c.Last != 0 {
			if _, err := r.ReadFieldBegin(); err != nil {
				return err
			}
			if _, err := r.ReadByte(); err != nil {
				return err
			}
		}
		h, err := r.ReadFieldBegin()
		if err != nil || h.ID != c.ID || h.Type != T {
			return fmt.Errorf("read back as %+v, %v", h, err)
		}
		if T == thriftwire.Bool {
			if v, err := r.ReadBool(); err != nil || v != c.IsTrue {
				return fmt.Errorf("bool read back as %v, %v", v, err)
			}
		}
		if v, err := r.ReadByte(); v != 0x77 || err != nil {
			return fmt.Errorf("reading back consumes other bytes: then %#x, %v", v, err)
		}
		return nil
	case "map":
		h, err := thriftcompact.ReadMapHeader(b)
		if err != nil || h.Size != c.Size || c.Size > 0 && (h.Key != K || h.Value != T) {
			return fmt.Errorf("read back as %+v, %v", h, err)
		}
	case "set":
		h, err := thriftcompact.ReadSetHeader(b)
		if err != nil || h.Size != c.Size || h.Element != T {
			return fmt.Errorf("read back as %+v, %v", h, err)
		}
	case "list":
		h, err := thriftcompact.ReadListHeader(b)
		if err != nil || h.Size != c.Size || h.Element != T {
			return fmt.Errorf("read back as %+v, %v", h, err)
		}
	}
	if v, err := b.ReadByte(); v != 0x77 || err != nil {
		return fmt.Errorf("reading back consumes other bytes: then %#x, %v", v, err)
	}
	return nil
}

// enumHeaders goes through all type codes.
func enumHeaders(yield func(*headerCase) bool) {
	for _, kind := range []string{"field", "map", "set", "list"} {
		for t := 0; t < 256; t++ {
			for _, size := range []int{0, 1, 14, 15, 16, 127, 128, 1 << 20} {
				if kind == "field" {
					for _, id := range []int16{-1, 0, 1, 15, 16} {
						if !yield(&headerCase{Kind: kind, T: byte(t), ID: id, IsTrue: size%2 == 0, Have: 1, Spare: size % 30}) {
							return
						}
					}
					continue
				}
				for _, k := range []byte{tI32, 0, tBool} {
					if !yield(&headerCase{Kind: kind, T: byte(t), K: k, Size: size, Have: 2}) {
						return
					}
					if kind != "map" {
						break
					}
					if !yield(&headerCase{Kind: kind, T: k, K: byte(t), Size: size, Have: 2}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	register(&property{
		id:   "C24",
		rule: "random sequences of envelopes written and read by each (joined) protocol, and random foreign or damaged first bytes; non-trivial: a name or a negative id; a rejected envelope or one with a valid type",
		subs: []*subDef{
			sub("own", 24000, 400000, drawEnvCase, checkEnvelopes),
			sub("foreign", 60000, 1000000, drawForeignCase, checkForeign),
		},
	})
	register(&property{
		id:   "C25",
		rule: "random streams, portions, buffer sizes and sequences of reads; non-trivial: a multi-byte varint or an error; a read larger than the buffer, short or of negative size",
		subs: []*subDef{
			sub("varint", 300000, 3000000, drawVarintCase, checkVarint),
			sub("bulk", 300000, 3000000, drawBulkCase, checkBulk),
		},
		assumptions: []string{"encoding/binary is the reference for varints", "Next is only asked for what fits into the buffer"},
	})
	register(&property{
		id:   "C27",
		rule: "random headers, previous ids, buffers; all 256 type codes; random and enumerated header bytes, read by the helpers and the reader; non-trivial: more than one byte or an invalid type; bytes that are no header",
		subs: []*subDef{
			sub("random", 600000, 6000000, drawHeaderCase, checkHeader),
			enumSub("types", enumHeaders, checkHeader),
			sub("read", 600000, 6000000, drawRawHeader, checkRawHeader),
			enumSub("firstbytes", enumRawHeaders, checkRawHeader),
		},
		assumptions: []string{"sizes are from 0 to 2^31-1"},
	})
}
