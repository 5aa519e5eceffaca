package main

// Reference model of Thrift data: a generic value tree with independent
// encoders and decoders for the Binary and Compact protocols, written from
// the protocol specifications. Nothing here uses the code under test.

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

// Wire type codes as the Thrift specification numbers them.
const (
	tStop   = 0
	tBool   = 2
	tByte   = 3
	tDouble = 4
	tI16    = 6
	tI32    = 8
	tI64    = 10
	tString = 11
	tStruct = 12
	tMap    = 13
	tSet    = 14
	tList   = 15
	tUUID   = 16
)

var allTypes = []byte{tBool, tByte, tDouble, tI16, tI32, tI64, tString, tStruct, tMap, tSet, tList, tUUID}

// Bytes is a byte string that is written to JSON in hex.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(b)) }
func (b *Bytes) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*b = v
	return err
}

// V is a Thrift value.
type V struct {
	T byte   `json:"t"`
	I int64  `json:"i,omitempty"` // bool, byte (0..255), i16, i32, i64
	D uint64 `json:"d,omitempty"` // double bits
	S Bytes  `json:"s,omitempty"` // string, uuid
	F []F    `json:"f,omitempty"` // struct fields in wire order
	K byte   `json:"k,omitempty"` // map key type
	E byte   `json:"e,omitempty"` // map value, set, list element type
	L []*V   `json:"l,omitempty"` // set/list elements; map keys and values alternating
}

type F struct {
	ID int16 `json:"id"`
	V  *V    `json:"v"`
}

// Msg is a message: an envelope and a struct.
type Msg struct {
	Name Bytes `json:"name"`
	Type byte  `json:"type"`
	ID   int32 `json:"id"`
	Body *V    `json:"body"`
}

func (v *V) count() int {
	if v.T == tMap {
		return len(v.L) / 2
	}
	return len(v.L)
}

// nodes counts the nodes of the tree.
func (v *V) nodes() int {
	n := 1
	for _, f := range v.F {
		n += f.V.nodes()
	}
	for _, e := range v.L {
		n += e.nodes()
	}
	return n
}

func (v *V) depth() int {
	d := 0
	for _, f := range v.F {
		d = max(d, f.V.depth())
	}
	for _, e := range v.L {
		d = max(d, e.depth())
	}
	return d + 1
}

// canon renders the value; maps are rendered with sorted entries.
func (v *V) canon() string {
	var sb strings.Builder
	v.render(&sb, true)
	return sb.String()
}

func (v *V) String() string {
	var sb strings.Builder
	v.render(&sb, false)
	return sb.String()
}

func (v *V) render(sb *strings.Builder, sorted bool) {
	switch v.T {
	case tBool, tByte, tI16, tI32, tI64:
		fmt.Fprintf(sb, "%d:%d", v.T, v.I)
	case tDouble:
		fmt.Fprintf(sb, "d:%x", v.D)
	case tString:
		fmt.Fprintf(sb, "s:%x", []byte(v.S))
	case tUUID:
		fmt.Fprintf(sb, "u:%x", []byte(v.S))
	case tStruct:
		sb.WriteString("{")
		for i, f := range v.F {
			if i > 0 {
				sb.WriteString(" ")
			}
			fmt.Fprintf(sb, "%d=", f.ID)
			f.V.render(sb, sorted)
		}
		sb.WriteString("}")
	case tMap:
		var es []string
		for i := 0; i+1 < len(v.L); i += 2 {
			var e strings.Builder
			v.L[i].render(&e, sorted)
			e.WriteString("->")
			v.L[i+1].render(&e, sorted)
			es = append(es, e.String())
		}
		if sorted {
			sort.Strings(es)
		}
		if len(es) == 0 {
			sb.WriteString("map[]") // an empty map may have no element types
		} else {
			fmt.Fprintf(sb, "map<%d,%d>[%s]", v.K, v.E, strings.Join(es, " "))
		}
	case tSet, tList:
		fmt.Fprintf(sb, "%d<%d>[", v.T, v.E)
		for i, e := range v.L {
			if i > 0 {
				sb.WriteString(" ")
			}
			e.render(sb, sorted)
		}
		sb.WriteString("]")
	default:
		fmt.Fprintf(sb, "?%d", v.T)
	}
}

// hasWideMap reports whether a map with more than one entry occurs, i.e.
// whether the order of bytes is not determined by the value alone.
func (v *V) hasWideMap() bool {
	if v.T == tMap && len(v.L) > 2 {
		return true
	}
	for _, f := range v.F {
		if f.V.hasWideMap() {
			return true
		}
	}
	for _, e := range v.L {
		if e.hasWideMap() {
			return true
		}
	}
	return false
}

func (v *V) any(p func(*V) bool) bool {
	if p(v) {
		return true
	}
	for _, f := range v.F {
		if f.V.any(p) {
			return true
		}
	}
	for _, e := range v.L {
		if e.any(p) {
			return true
		}
	}
	return false
}

// ---- Binary protocol, reference encoder ----

func be(buf []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		buf = append(buf, byte(v>>(8*i)))
	}
	return buf
}

func refBinary(buf []byte, v *V) []byte {
	switch v.T {
	case tBool, tByte:
		return append(buf, byte(v.I))
	case tI16:
		return be(buf, uint64(v.I), 2)
	case tI32:
		return be(buf, uint64(v.I), 4)
	case tI64:
		return be(buf, uint64(v.I), 8)
	case tDouble:
		return be(buf, v.D, 8)
	case tString:
		buf = be(buf, uint64(len(v.S)), 4)
		return append(buf, v.S...)
	case tUUID:
		return append(buf, v.S...)
	case tStruct:
		for _, f := range v.F {
			buf = append(buf, f.V.T)
			buf = be(buf, uint64(uint16(f.ID)), 2)
			buf = refBinary(buf, f.V)
		}
		return append(buf, tStop)
	case tMap:
		buf = append(buf, v.K, v.E)
	case tSet, tList:
		buf = append(buf, v.E)
	default:
		fault("refBinary: type %d", v.T)
	}
	buf = be(buf, uint64(v.count()), 4)
	for _, e := range v.L {
		buf = refBinary(buf, e)
	}
	return buf
}

func refBinaryMsg(buf []byte, m *Msg, strict bool) []byte {
	if strict {
		buf = append(buf, 0x80, 0x01, 0x00, m.Type)
		buf = be(buf, uint64(len(m.Name)), 4)
		buf = append(buf, m.Name...)
		return be(buf, uint64(uint32(m.ID)), 4)
	}
	buf = be(buf, uint64(len(m.Name)), 4)
	buf = append(buf, m.Name...)
	buf = append(buf, m.Type)
	return be(buf, uint64(uint32(m.ID)), 4)
}

// ---- Compact protocol, reference encoder ----

var compactCode = map[byte]byte{
	tBool: 2, tByte: 3, tI16: 4, tI32: 5, tI64: 6, tDouble: 7, tString: 8,
	tList: 9, tSet: 10, tMap: 11, tStruct: 12, tUUID: 13,
}

var compactType = map[byte]byte{
	1: tBool, 2: tBool, 3: tByte, 4: tI16, 5: tI32, 6: tI64, 7: tDouble, 8: tString,
	9: tList, 10: tSet, 11: tMap, 12: tStruct, 13: tUUID,
}

func uvar(buf []byte, v uint64) []byte {
	for v >= 0x80 {
		buf = append(buf, byte(v)|0x80)
		v >>= 7
	}
	return append(buf, byte(v))
}

func zig(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }

// compactOpts selects among the encodings the specification allows.
type compactOpts struct {
	LongField bool `json:"long_field,omitempty"` // never use delta field headers
	LongList  bool `json:"long_list,omitempty"`  // always use the long list header
	BoolElem1 bool `json:"bool_elem1,omitempty"` // announce bool elements with type 1 instead of 2
}

func refCompact(buf []byte, v *V, o compactOpts) []byte {
	elem := func(t byte) byte {
		if t == tBool && o.BoolElem1 {
			return 1
		}
		return compactCode[t] // Stop (empty containers only) is 0
	}
	switch v.T {
	case tBool, tByte:
		return append(buf, byte(v.I))
	case tI16, tI32, tI64:
		return uvar(buf, zig(v.I))
	case tDouble:
		for i := 0; i < 8; i++ {
			buf = append(buf, byte(v.D>>(8*i)))
		}
		return buf
	case tString:
		buf = uvar(buf, uint64(len(v.S)))
		return append(buf, v.S...)
	case tUUID:
		return append(buf, v.S...)
	case tStruct:
		last := 0
		for _, f := range v.F {
			c := compactCode[f.V.T]
			if f.V.T == tBool {
				c = 2
				if f.V.I != 0 {
					c = 1
				}
			}
			if d := int(f.ID) - last; d >= 1 && d <= 15 && !o.LongField {
				buf = append(buf, byte(d)<<4|c)
			} else {
				buf = append(buf, c)
				buf = uvar(buf, zig(int64(f.ID)))
			}
			last = int(f.ID)
			if f.V.T != tBool {
				buf = refCompact(buf, f.V, o)
			}
		}
		return append(buf, 0)
	case tMap:
		if v.count() == 0 {
			return append(buf, 0)
		}
		buf = uvar(buf, uint64(v.count()))
		buf = append(buf, elem(v.K)<<4|elem(v.E))
	case tSet, tList:
		if n := v.count(); n < 15 && !o.LongList {
			buf = append(buf, byte(n)<<4|elem(v.E))
		} else {
			buf = append(buf, 0xf0|elem(v.E))
			buf = uvar(buf, uint64(n))
		}
	default:
		fault("refCompact: type %d", v.T)
	}
	for _, e := range v.L {
		buf = refCompact(buf, e, o)
	}
	return buf
}

func refCompactMsg(buf []byte, m *Msg) []byte {
	buf = append(buf, 0x82, 1|m.Type<<5)
	buf = uvar(buf, uint64(uint32(m.ID)))
	buf = uvar(buf, uint64(len(m.Name)))
	return append(buf, m.Name...)
}

// ---- Reference decoders (used where the order of map entries on the wire is up to the code under test) ----

var errRef = errors.New("reference decoder: malformed")

type refDec struct {
	b []byte
}

func (d *refDec) take(n int) ([]byte, error) {
	if n < 0 || n > len(d.b) {
		return nil, errRef
	}
	x := d.b[:n]
	d.b = d.b[n:]
	return x, nil
}

func (d *refDec) u8() (byte, error) {
	x, err := d.take(1)
	if err != nil {
		return 0, err
	}
	return x[0], nil
}

func (d *refDec) be(n int) (uint64, error) {
	x, err := d.take(n)
	if err != nil {
		return 0, err
	}
	var v uint64
	for _, c := range x {
		v = v<<8 | uint64(c)
	}
	return v, nil
}

func (d *refDec) uvar() (uint64, error) {
	var v uint64
	for s := 0; s < 70; s += 7 {
		c, err := d.u8()
		if err != nil {
			return 0, err
		}
		v |= uint64(c&0x7f) << s
		if c < 0x80 {
			return v, nil
		}
	}
	return 0, errRef
}

func unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func (d *refDec) binary(t byte) (*V, error) {
	v := &V{T: t}
	var u uint64
	var err error
	switch t {
	case tBool, tByte:
		u, err = d.be(1)
		v.I = int64(u)
	case tI16:
		u, err = d.be(2)
		v.I = int64(int16(u))
	case tI32:
		u, err = d.be(4)
		v.I = int64(int32(u))
	case tI64:
		u, err = d.be(8)
		v.I = int64(u)
	case tDouble:
		v.D, err = d.be(8)
	case tString:
		u, err = d.be(4)
		if err == nil {
			v.S, err = d.take(int(int32(u)))
		}
	case tUUID:
		v.S, err = d.take(16)
	case tStruct:
		for {
			ft, err := d.u8()
			if err != nil || ft == tStop {
				return v, err
			}
			id, err := d.be(2)
			if err != nil {
				return v, err
			}
			fv, err := d.binary(ft)
			if err != nil {
				return v, err
			}
			v.F = append(v.F, F{int16(id), fv})
		}
	case tMap, tSet, tList:
		if t == tMap {
			if v.K, err = d.u8(); err != nil {
				return v, err
			}
		}
		if v.E, err = d.u8(); err != nil {
			return v, err
		}
		if u, err = d.be(4); err != nil {
			return v, err
		}
		for i := 0; i < int(int32(u)); i++ {
			if t == tMap {
				e, err := d.binary(v.K)
				if err != nil {
					return v, err
				}
				v.L = append(v.L, e)
			}
			e, err := d.binary(v.E)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, e)
		}
	default:
		return v, errRef
	}
	return v, err
}

func (d *refDec) compact(t byte) (*V, error) {
	v := &V{T: t}
	var u uint64
	var err error
	switch t {
	case tBool, tByte:
		u, err = d.be(1)
		v.I = int64(u)
	case tI16, tI32, tI64:
		u, err = d.uvar()
		v.I = unzig(u)
	case tDouble:
		var x []byte
		x, err = d.take(8)
		for i, c := range x {
			v.D |= uint64(c) << (8 * i)
		}
	case tString:
		if u, err = d.uvar(); err == nil {
			if u > math.MaxInt32 {
				return v, errRef
			}
			v.S, err = d.take(int(u))
		}
	case tUUID:
		v.S, err = d.take(16)
	case tStruct:
		last := int16(0)
		for {
			h, err := d.u8()
			if err != nil || h&15 == 0 {
				return v, err
			}
			ft, ok := compactType[h&15]
			if !ok {
				return v, errRef
			}
			if h>>4 == 0 {
				u, err := d.uvar()
				if err != nil {
					return v, err
				}
				last = int16(unzig(u))
			} else {
				last += int16(h >> 4)
			}
			var fv *V
			if ft == tBool {
				fv = &V{T: tBool}
				if h&15 == 1 {
					fv.I = 1
				}
			} else if fv, err = d.compact(ft); err != nil {
				return v, err
			}
			v.F = append(v.F, F{last, fv})
		}
	case tMap, tSet, tList:
		var n uint64
		if t == tMap {
			if n, err = d.uvar(); err != nil || n == 0 {
				return v, err
			}
			kv, err := d.u8()
			if err != nil {
				return v, err
			}
			v.K, v.E = compactType[kv>>4], compactType[kv&15]
			if v.K == 0 || v.E == 0 {
				return v, errRef
			}
		} else {
			h, err := d.u8()
			if err != nil {
				return v, err
			}
			v.E = compactType[h&15]
			if n = uint64(h >> 4); n == 15 {
				if n, err = d.uvar(); err != nil {
					return v, err
				}
			}
		}
		for i := uint64(0); i < n; i++ {
			if t == tMap {
				e, err := d.compact(v.K)
				if err != nil {
					return v, err
				}
				v.L = append(v.L, e)
			}
			e, err := d.compact(v.E)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, e)
		}
	default:
		return v, errRef
	}
	return v, err
}
