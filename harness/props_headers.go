package main

// C27: header bytes of any kind, read by the helpers and by the reader.

import (
	"bufio"
	"bytes"
	"fmt"
	"math"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"pgregory.net/rapid"
)

type rawHeader struct {
	Kind   string `json:"kind"` // field, map, set, list
	B      Bytes  `json:"b"`
	Reader bool   `json:"reader,omitempty"` // by the reader's own call
	Buf    int    `json:"buf,omitempty"`    // buffer of the helper
}

func drawRawHeader(t *rapid.T) *rawHeader {
	c := &rawHeader{Kind: pick(t, "kind", "map", "set", "list", "map", "field"), Reader: rapid.Bool().Draw(t, "reader"), Buf: pick(t, "buf", 16, 17, 4096)}
	c.Reader = c.Reader || c.Kind == "field" // no helper
	size := func() []byte {
		switch between(t, "size", 0, 6) {
		case 0: // longer than necessary
			b := uvar(nil, uint64(between(t, "n", 0, 300)))
			b[len(b)-1] |= 0x80
			for i, n := 0, between(t, "zeros", 0, 9); i < n; i++ {
				b = append(b, 0x80)
			}
			return append(b, byte(between(t, "last", 0, 2)))
		case 1:
			return uvar(nil, math.MaxInt32+uint64(between(t, "off", 0, 2))-1)
		case 2:
			return uvar(nil, uint64(between(t, "high", 1, 1<<20))<<32+uint64(between(t, "low", 0, 40)))
		case 3:
			return uvar(nil, rapid.Uint64().Draw(t, "n"))
		}
		return uvar(nil, uint64(between(t, "n", 0, 1<<between(t, "bits", 1, 20))))
	}
	code := func() byte {
		if chance(t, 25, "any code") {
			return byte(between(t, "code", 0, 15))
		}
		return byte(between(t, "code", 1, 13))
	}
	switch {
	case chance(t, 10, "any"):
		c.B = rapid.SliceOfN(rapid.Byte(), 0, 14).Draw(t, "bytes")
	case c.Kind == "map":
		c.B = append(size(), code()<<4|code())
	case c.Kind == "field":
		c.B = []byte{byte(between(t, "delta", 0, 15))<<4 | code()}
		if c.B[0]>>4 == 0 {
			c.B = uvar(c.B, zig(drawInt(t, 16)))
		}
	default:
		if rapid.Bool().Draw(t, "long") {
			c.B = append([]byte{0xf0 | code()}, size()...)
		} else {
			c.B = []byte{byte(between(t, "n", 0, 14))<<4 | code()}
		}
	}
	if chance(t, 15, "cut") {
		c.B = c.B[:between(t, "at", 0, len(c.B))]
	}
	if chance(t, 70, "more") {
		c.B = append(c.B, fill(between(t, "n", 1, 20), 9)...)
	}
	return c
}

// enumRawHeaders goes through all first bytes, and all types of maps.
func enumRawHeaders(yield func(*rawHeader) bool) {
	for _, reader := range []bool{true, false} {
		for b := 0; b < 256; b++ {
			for _, kind := range []string{"field", "set", "list"} {
				if kind == "field" && !reader {
					continue
				}
				for _, tail := range []string{"", "\x00", "\x01", "\x14\x00", "\x80", "\x90\x01", "\xff\xff\xff\xff\x07", "\xff\xff\xff\xff\x0f", "\x83\x80\x80\x80\x10\x00"} {
					if !yield(&rawHeader{Kind: kind, B: append([]byte{byte(b)}, tail...), Reader: reader, Buf: 16}) {
						return
					}
				}
			}
			for _, size := range []string{"\x00", "\x01", "\x0e", "\x0f", "\x10", "\x80\x01", "\xff\xff\xff\xff\x07", "\x80\x80\x80\x80\x08", "\x81\x80\x80\x80\x10"} {
				for _, tail := range []string{"", "\x05"} {
					if !yield(&rawHeader{Kind: "map", B: append([]byte(size), append([]byte{byte(b)}, tail...)...), Reader: reader, Buf: 16}) {
						return
					}
				}
			}
		}
	}
}

func checkRawHeader(c *rawHeader, x *Ctx) error {
	x.Label("%s", c.Kind)
	// What the bytes say.
	d := &strictDec{b: c.B, compact: true}
	want, key, size, err := byte(0), byte(0), 0, error(nil)
	stop := false
	var h byte
	switch c.Kind {
	case "map":
		if size, err = d.size(); err != nil || size == 0 {
			break
		}
		if h, err = d.u8(); err != nil {
			break
		}
		if key, err = d.code(h >> 4); err == nil {
			want, err = d.code(h & 15)
		}
		stop = key == 0 || want == 0
	case "field":
		if h, err = d.u8(); err != nil {
			break
		}
		if want, err = d.code(h & 15); err != nil {
			break
		}
		if want == 0 {
			d.laxAccept = h != 0
		} else if size = int(h >> 4); size == 0 {
			var id int64
			id, err = d.varint(16)
			size = int(int16(id))
		}
	default:
		if h, err = d.u8(); err != nil {
			break
		}
		if want, err = d.code(h & 15); err != nil {
			break
		}
		if size = int(h >> 4); size == 15 {
			size, err = d.size()
			d.laxAccept = d.laxAccept || size < 15
		}
		stop = want == 0
	}
	// What is read.
	var got, gotKey thriftwire.Type
	var gotSize int
	var gerr error
	var rest func() (byte, error)
	if c.Reader {
		r := thriftcompact.Protocol.NewReader(bytes.NewReader(c.B))
		if c.Kind == "field" {
			if _, err := r.ReadStructBegin(); err != nil {
				return fmt.Errorf("ReadStructBegin: %v", err)
			}
		}
		switch c.Kind {
		case "field":
			h, e := r.ReadFieldBegin()
			got, gotSize, gerr = h.Type, int(h.ID), e
		case "map":
			h, e := r.ReadMapBegin()
			gotKey, got, gotSize, gerr = h.Key, h.Value, h.Size, e
		case "set":
			h, e := r.ReadSetBegin()
			got, gotSize, gerr = h.Element, h.Size, e
		case "list":
			h, e := r.ReadListBegin()
			got, gotSize, gerr = h.Element, h.Size, e
		}
		if got == thriftwire.Bool && c.Kind == "field" && gerr == nil {
			v, err := r.ReadBool()
			if err != nil || v != (h&15 == 1) {
				return fmt.Errorf("% x: the field is %v, %v", []byte(c.B), v, err)
			}
		}
		rest = r.ReadByte
	} else {
		b := bufio.NewReaderSize(bytes.NewReader(c.B), max(c.Buf, 16))
		switch c.Kind {
		case "map":
			h, e := thriftcompact.ReadMapHeader(b)
			gotKey, got, gotSize, gerr = h.Key, h.Value, h.Size, e
		case "set":
			h, e := thriftcompact.ReadSetHeader(b)
			got, gotSize, gerr = h.Element, h.Size, e
		case "list":
			h, e := thriftcompact.ReadListHeader(b)
			got, gotSize, gerr = h.Element, h.Size, e
		default:
			return nil
		}
		rest = b.ReadByte
	}
	what := fmt.Sprintf("% x as the header of a %s (reader: %v)", []byte(c.B), c.Kind, c.Reader)
	if err != nil {
		x.Label("malformed")
		x.NonTrivial()
		if gerr == nil {
			return fmt.Errorf("%s: accepted although it is not one: %v", what, err)
		}
		return nil
	}
	if gerr != nil {
		if d.laxAccept || stop || d.laxValue {
			x.Label("may be refused")
			return nil
		}
		return fmt.Errorf("%s: refused: %v", what, gerr)
	}
	x.Label("well-formed")
	if len(c.B) > 1 {
		x.NonTrivial()
	}
	ok := byte(got) == want && (gotSize == size || d.laxValue) && byte(gotKey) == key
	switch {
	case c.Kind == "field" && want == 0:
		ok = got == thriftwire.Stop
	case c.Kind == "map" && size == 0:
		ok = gotSize == 0 // no types
	}
	if !ok {
		return fmt.Errorf("%s: read as type %d, key %d, size or id %d, want %d, %d, %d", what, got, gotKey, gotSize, want, key, size)
	}
	for i := range len(d.b) {
		if v, err := rest(); err != nil || v != d.b[i] {
			return fmt.Errorf("%s: then %#x, %v is read, want %#x", what, v, err, d.b[i])
		}
	}
	if v, err := rest(); err == nil {
		return fmt.Errorf("%s: then %#x is read, want the end", what, v)
	}
	return nil
}
