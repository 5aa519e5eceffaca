package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"net"
	"os"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"syscall"
	"time"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// ---- C09: arbitrary bytes ----

// part is a piece of data repeated N times.
type part struct {
	B Bytes `json:"b"`
	N int   `json:"n"`
}

type hostileCase struct {
	Proto string `json:"proto"`
	Mode  string `json:"mode"` // message, skip, unmarshal, read
	T     byte   `json:"t,omitempty"`
	Ty    *Ty    `json:"ty,omitempty"`
	Prior *GV    `json:"prior,omitempty"`
	Parts []part `json:"parts"`
	Sizes []int  `json:"sizes"`
	Bytes int    `json:"bytes,omitempty"`
}

func (c *hostileCase) data() (b []byte) {
	for _, p := range c.Parts {
		b = append(b, bytes.Repeat(p.B, p.N)...)
	}
	return
}

func drawHostileSize(t *rapid.T) uint64 {
	switch between(t, "hsize", 0, 6) {
	case 0:
		return uint64(pick[uint64](t, "size", 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x80000001))
	case 1:
		return uint64(pick(t, "size", 1<<24, 1<<20, 1<<16, 1<<28, 1<<30))
	case 2:
		return math.MaxUint64 >> between(t, "shift", 0, 40)
	case 3:
		return uint64(between(t, "size", 0, 100))
	case 4:
		return uint64(pick(t, "size", 4095, 4096, 4097, 65536, 1<<31-8))
	}
	return uint64(between(t, "size", 1<<16, 1<<31-1))
}

// drawHostileBytes draws pieces of an encoding with hostile sizes.
func drawHostileBytes(t *rapid.T, proto string, n int) (b []byte) {
	typ := func() byte {
		if chance(t, 10, "badtype") {
			return rapid.Byte().Draw(t, "type")
		}
		return pick(t, "type", allTypes...)
	}
	for i := 0; i < n; i++ {
		s := drawHostileSize(t)
		if proto == "compact" {
			code := func() byte {
				c := typ()
				if k, ok := compactCode[c]; ok {
					return k
				}
				return c & 15
			}
			switch between(t, "piece", 0, 6) {
			case 0:
				b = append(b, 0xf0|code())
				b = uvar(b, s)
			case 1:
				b = uvar(b, max(s, 1))
				b = append(b, code()<<4|code())
			case 2:
				b = uvar(b, s)
			case 3:
				b = append(b, byte(between(t, "delta", 0, 15))<<4|code())
			case 4:
				b = append(b, byte(between(t, "n", 0, 14))<<4|code())
			case 5:
				b = append(append(b, code()), rapid.SliceOfN(rapid.Byte(), 1, 11).Draw(t, "id")...)
			case 6:
				b = append(b, fill(between(t, "content", 0, 40), 3)...)
			}
			continue
		}
		switch between(t, "piece", 0, 5) {
		case 0:
			b = be(append(b, typ()), s, 4)
		case 1:
			b = be(append(b, typ(), typ()), s, 4)
		case 2:
			b = be(b, s, 4)
		case 3:
			b = be(append(b, typ()), uint64(between(t, "id", 0, 4)), 2)
		case 4:
			b = be(append(b, typ()), uint64(between(t, "n", 1, 5)), 4)
		case 5:
			b = append(b, fill(between(t, "content", 0, 40), 3)...)
		}
	}
	return
}

// units of nesting that can be repeated
func nestUnits(proto string) [][]byte {
	if proto == "compact" {
		return [][]byte{
			{0x19}, {0x1a}, {0x1c}, {0x1b, 0}, // list of list, set of set
			{0x29}, {0xf9, 0xff, 0xff, 0xff, 0xff, 0x07}, {0xfa, 0xff, 0xff, 0xff, 0xff, 0x07},
			{1, 0x3b, 5}, {1, 0xbb}, {0x0c, 2}, {0x0c, 0x00}, {0xff, 0xff, 0x03, 0x3b, 5},
			{0x1c, 0x1c}, {0x19, 0x1c, 0x1c}, {0x1c, 0x19}, {0x19, 0x19, 0x1b}, {0x1a, 0x1c, 0x1a},
		}
	}
	return [][]byte{
		{15, 0, 0, 0, 1}, {14, 0, 0, 0, 1}, {12, 0, 1}, {12, 0, 2}, {12, 0, 3},
		{13, 13, 0, 0, 0, 1}, {3, 13, 0, 0, 0, 1, 7}, {13, 3, 0, 0, 0, 2},
		{15, 0x7f, 0xff, 0xff, 0xff}, {14, 0x7f, 0xff, 0xff, 0xff}, {13, 13, 0x7f, 0xff, 0xff, 0xff},
		{11, 13, 0, 0, 0, 9, 0, 0, 0, 0}, {15, 0, 1, 12, 0, 0, 0, 1}, {12, 0, 0, 0, 1, 15, 0, 3},
		{12, 0, 0, 0, 3}, {13, 0, 4, 11, 12, 0, 0, 0, 1, 0, 0, 0, 1, 'a'},
	}
}

func drawMutation(t *rapid.T, b []byte, proto string) []byte {
	b = append([]byte{}, b...)
	for i, n := 0, between(t, "mutations", 1, 4); i < n; i++ {
		at := 0
		if len(b) > 0 {
			at = between(t, "at", 0, min(len(b)-1, between(t, "near", 0, 1)*5000+40))
		}
		switch between(t, "mutation", 0, 6) {
		case 0:
			if len(b) > 0 {
				b[at] ^= 1 << between(t, "bit", 0, 7)
			}
		case 1:
			if len(b) > 0 {
				b[at] = rapid.Byte().Draw(t, "byte")
			}
		case 2:
			end := min(at+between(t, "len", 1, 6), len(b))
			b = append(b[:at], b[end:]...)
		case 3:
			ins := drawHostileBytes(t, proto, 1)
			b = append(b[:at:at], append(ins, b[at:]...)...)
		case 4:
			copy(b[min(at, len(b)):], drawHostileBytes(t, proto, 1))
		case 5:
			b = b[:at]
		case 6:
			end := min(at+between(t, "len", 1, 30), len(b))
			b = append(b[:end:end], b[at:]...)
		}
	}
	return b
}

var hostileTypes = []string{"pRL", "pRM", "pRS", "pLL", "pRSE", "pRec", "pKR", "pKV", "pVR", "pMutA", "pMutB", "pScattered", "pNested", "pAllReq", "pWide", "Set[byte]", "Set[[]byte]", "List[byte]", "List[pBase]", "Set[Set[int64]]", "pZPtr", "pEmpty", "pMap", "pList"}

func drawHostileCase(t *rapid.T) *hostileCase {
	c := &hostileCase{Proto: pick(t, "proto", "binary", "nonstrict", "compact", "compact"), Mode: pick(t, "mode", "message", "skip", "unmarshal", "unmarshal", "unmarshal", "read"), Sizes: drawSizes(t), Bytes: between(t, "strmode", 0, 2)}
	c.T = pick(t, "type", allTypes...)
	if chance(t, 5, "badtype") && c.Mode == "skip" {
		c.T = rapid.Byte().Draw(t, "type")
	}
	var valid []byte
	switch c.Mode {
	case "unmarshal":
		if chance(t, 50, "declared") {
			c.Ty = &Ty{K: "pool", N: pick(t, "pool", hostileTypes...)}
		} else {
			c.Ty = drawTy(t, tygen{bad: between(t, "bad", 0, 1) * 4})
		}
		typ := c.Ty.build()
		if chance(t, 20, "prior") {
			c.Prior = drawGV(t, typ, gvgen{junk: true})
		}
		valid = encodeAs(c.Proto, nil, dataOrAny(t, typ), compactOpts{})
	case "message":
		valid = refEncodeMsg(pick(t, "as", protoNames...), nil, vgen{noBig: true}.drawMsg(t, true))
	default:
		vt := c.T
		if compactCode[vt] == 0 {
			vt = tStruct
		}
		valid = refEncode(c.Proto, nil, vgen{dupIDs: true, noBig: chance(t, 80, "small")}.drawValue(t, vt))
	}
	add := func(b []byte, n int) { c.Parts = append(c.Parts, part{b, n}) }
	switch between(t, "data", 0, 7) {
	case 0:
		add(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"), 1)
	case 1, 2, 3:
		add(drawMutation(t, valid, c.Proto), 1)
	case 4, 5:
		add(drawHostileBytes(t, c.Proto, between(t, "pieces", 1, 8)), 1)
		if rapid.Bool().Draw(t, "tail") {
			add(fill(between(t, "tail", 1, 200), 1), between(t, "times", 1, 100))
		}
	case 6:
		add(valid[:between(t, "head", 0, min(len(valid), 12))], 1)
		for i, n := 0, between(t, "nests", 1, 3); i < n; i++ {
			add(pick(t, "unit", nestUnits(c.Proto)...), pick(t, "times", 5, 50, 1000, 5000, 12000, 20000))
		}
	case 7: // few bytes, much repeated
		if len(valid) > 0 && rapid.Bool().Draw(t, "head") {
			add(valid[:between(t, "head", 0, len(valid)-1)], 1)
		}
		add(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(t, "unit"), pick(t, "times", 10, 100, 3000, 30000))
	}
	return c
}

// dataOrAny draws data for a type, or any data if it has no Thrift type.
func dataOrAny(t *rapid.T, typ reflect.Type) *V {
	if supported(typ) != 0 {
		return vgen{noBig: true}.drawValue(t, 0)
	}
	return drawData(t, typ, datagen{unknown: true, mismatch: between(t, "mismatch", 0, 1) * 5, big: chance(t, 30, "big")})
}

// supported classifies a type: 0 all of it can be serialised, 1 some value
// of it may contain something unsupported, 2 it has no Thrift type itself.
func supported(t reflect.Type) int {
	if wireOf(t) == 0 {
		return 2
	}
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type) bool
	walk = func(t reflect.Type) bool {
		if wireOf(t) == 0 {
			return false
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Pointer:
			return walk(t.Elem())
		case reflect.Slice:
			return isBytes(t) || walk(t.Elem())
		case reflect.Map:
			return walk(t.Key()) && walk(t.Elem())
		case reflect.Struct:
			for _, f := range fieldsOf(t) {
				if !walk(f.typ) {
					return false
				}
			}
		}
		return true
	}
	if !walk(t) {
		return 1
	}
	return 0
}

// maxSize is the size of the largest type within t.
func maxSize(t reflect.Type) int {
	seen := map[reflect.Type]bool{}
	n := 0
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		n = max(n, int(t.Size()))
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array:
			walk(t.Elem())
		case reflect.Map:
			walk(t.Key())
			walk(t.Elem())
			n = max(n, 10*int(t.Key().Size()+t.Elem().Size()))
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		}
	}
	walk(t)
	return n
}

func (c *hostileCase) run(r thriftwire.Reader, target any) error {
	switch c.Mode {
	case "message":
		_, err := r.ReadMessageBegin()
		if err == nil {
			err = thriftwire.Skip(r, thriftwire.Struct)
		}
		return err
	case "skip":
		return thriftwire.Skip(r, thriftwire.Type(c.T))
	case "unmarshal":
		return thrift.Unmarshal(r, target)
	}
	// Read calls in the order a value of the type would have them, without
	// building it.
	left := 3000
	return readLimited(r, c.T, c.Bytes, 0, &left)
}

// readLimited reads at most so many items and levels.
func readLimited(r thriftwire.Reader, t byte, strMode, depth int, left *int) error {
	if *left--; *left < 0 || depth > 200 {
		return nil
	}
	leaf := func(op string) (Tok, error) { return fetchTok(r, op, strMode == 1) }
	switch t {
	case tStruct:
		if _, err := leaf("StructBegin"); err != nil {
			return err
		}
		for *left > 0 {
			k, err := leaf("FieldBegin")
			if err != nil {
				return err
			}
			if k.T == tStop {
				_, err := leaf("StructEnd")
				return err
			}
			if err := readLimited(r, k.T, strMode, depth+1, left); err != nil {
				return err
			}
			if _, err := leaf("FieldEnd"); err != nil {
				return err
			}
		}
		return nil
	case tMap, tSet, tList:
		op := map[byte]string{tMap: "Map", tSet: "Set", tList: "List"}[t]
		k, err := leaf(op + "Begin")
		if err != nil {
			return err
		}
		if k.N < 0 {
			return errors.New("negative size")
		}
		for i := 0; i < k.N && *left > 0; i++ {
			if t == tMap {
				if err := readLimited(r, k.K, strMode, depth+1, left); err != nil {
					return err
				}
			}
			if err := readLimited(r, k.E, strMode, depth+1, left); err != nil {
				return err
			}
		}
		if *left > 0 {
			_, err = leaf(op + "End")
		}
		return err
	}
	op, ok := opOfType[t]
	if !ok {
		return fmt.Errorf("type %d", t)
	}
	_, err := leaf(op)
	return err
}

// cpuFor is the CPU time that processing n bytes may take: more than ten
// times what it takes. It is far below what anything but a linear algorithm
// needs for the large inputs.
func cpuFor(n int) time.Duration {
	return 3*time.Second + time.Duration(n)*15*time.Microsecond
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func checkHostile(c *hostileCase, x *Ctx) error {
	x.Label("%s %s", c.Proto, c.Mode)
	data := c.data()
	factor := uint64(256)
	var typ reflect.Type
	if c.Mode == "unmarshal" {
		typ = c.Ty.build()
		factor += 32 * uint64(maxSize(typ))
	}
	limit := 512<<10 + factor*uint64(len(data))
	if len(c.Parts) > 0 && len(data) > 2 {
		x.NonTrivial()
	}
	var used uint64
	var cpu time.Duration
	for i := 0; i < 3; i++ {
		var target any
		if typ != nil {
			target = newGV(typ, c.Prior).Interface()
		}
		r := protoByName(c.Proto).NewReader(&scriptReader{b: data, sizes: c.Sizes, end: io.EOF})
		before, start := allocated(), cpuTime()
		err := c.run(r, target)
		used, cpu = allocated()-before, cpuTime()-start
		if err == nil {
			x.Label("accepted")
		}
		if used <= limit && cpu <= cpuFor(len(data)) {
			return nil
		}
		// Something else may have allocated: measure again.
	}
	return fmt.Errorf("%s of %d bytes (%s) allocated %d bytes of memory (limit %d) and used %v of CPU time: % x", c.Mode, len(data), c.Proto, used, limit, cpu, clipb(data, 60))
}

func enumHostile(yield func(*hostileCase) bool) {
	for _, proto := range []string{"binary", "compact"} {
		for _, u := range nestUnits(proto) {
			for _, t := range []byte{tStruct, tList, tSet, tMap} {
				if !yield(&hostileCase{Proto: proto, Mode: "skip", T: t, Parts: []part{{u, 9 << 20 / len(u)}}}) {
					return
				}
			}
			for _, n := range []string{"pRL", "pRM", "pRS", "pRSE", "pRec", "pMutA", "pEmpty"} {
				if !yield(&hostileCase{Proto: proto, Mode: "unmarshal", Ty: &Ty{K: "pool", N: n}, Parts: []part{{u, 9 << 20 / len(u)}}}) {
					return
				}
			}
		}
		// Units that match the types, also behind a finished element.
		type unit struct {
			typ  string
			unit Bytes
		}
		us := []unit{
			{"pRL", Bytes{15, 0, 0, 0, 1}},
			{"pRL", Bytes{15, 0, 0, 0, 2, 15, 0, 0, 0, 0}},
			{"pRM", Bytes{11, 13, 0, 0, 0, 1, 0, 0, 0, 0}},
			{"pRS", Bytes{12, 0, 0, 0, 1, 14, 0, 1}},
			{"pRSE", Bytes{14, 0, 1, 12, 0, 0, 0, 1}},
			{"pRec", Bytes{12, 0, 2}},
			{"pRec", Bytes{12, 0, 2, 0, 12, 0, 2}},
			{"pRec", Bytes{15, 0, 3, 12, 0, 0, 0, 1}},
			{"pRec", Bytes{15, 0, 3, 12, 0, 0, 0, 3, 0}},
			{"pRec", Bytes{13, 0, 4, 11, 12, 0, 0, 0, 1, 0, 0, 0, 0}},
			{"pRec", Bytes{13, 0, 4, 11, 12, 0, 0, 0, 2, 0, 0, 0, 1, 'a', 0, 0, 0, 0, 0}},
			{"pRec", Bytes{14, 0xff, 0xfb, 12, 0, 0, 0, 1}},
			{"pRec", Bytes{14, 0xff, 0xfb, 12, 0, 0, 0, 2, 0}},
			{"pMutA", Bytes{12, 0, 1, 15, 0, 1, 12, 0, 0, 0, 1}},
			{"pMutB", Bytes{15, 0, 1, 12, 0, 0, 0, 1, 12, 0, 1}},
			{"pKR", Bytes{13, 0, 1, 12, 2, 0, 0, 0, 1}},
			{"pKR", Bytes{13, 0, 1, 12, 2, 0, 0, 0, 2, 0, 1}},
			{"pKV", Bytes{12, 0, 1, 13, 0, 1, 12, 3, 0, 0, 0, 1}},
			{"pVR", Bytes{13, 0, 1, 3, 12, 0, 0, 0, 1, 5}},
			{"pVR", Bytes{13, 0, 1, 3, 12, 0, 0, 0, 2, 5, 0, 5}},
			{"pVR", Bytes{15, 0, 2, 12, 0, 0, 0, 1}},
			{"pVR", Bytes{15, 0, 2, 12, 0, 0, 0, 2, 0}},
			{"pVR", Bytes{14, 0, 3, 12, 0, 0, 0, 1}},
			{"pVR", Bytes{12, 0, 4}},
			{"pVR", Bytes{12, 0, 9}},
		}
		if proto == "compact" {
			us = []unit{
				{"pRL", Bytes{0x19}},
				{"pRL", Bytes{0x29, 0x09}},
				{"pRM", Bytes{1, 0x8b, 1, 'a'}},
				{"pRS", Bytes{0x1c, 0x1a}},
				{"pRSE", Bytes{0x1a, 0x1c}},
				{"pRec", Bytes{0x2c}},
				{"pRec", Bytes{0x2c, 0, 0x0c, 4}},
				{"pRec", Bytes{0x39, 0x1c}},
				{"pRec", Bytes{0x39, 0x3c, 0}},
				{"pRec", Bytes{0x4b, 1, 0x8c, 0}},
				{"pRec", Bytes{0x4b, 2, 0x8c, 1, 'a', 0, 0}},
				{"pRec", Bytes{0x0a, 9, 0x1c}},
				{"pRec", Bytes{0x0a, 9, 0x2c, 0}},
				{"pMutA", Bytes{0x1c, 0x19, 0x1c}},
				{"pMutB", Bytes{0x19, 0x1c, 0x1c}},
				{"pKR", Bytes{0x1b, 1, 0xc1}},
				{"pKR", Bytes{0x1b, 2, 0xc1, 0, 1}},
				{"pKV", Bytes{0x1c, 0x1b, 1, 0xc3}},
				{"pVR", Bytes{0x1b, 1, 0x3c, 5}},
				{"pVR", Bytes{0x1b, 2, 0x3c, 5, 0, 5}},
				{"pVR", Bytes{0x29, 0x1c}},
				{"pVR", Bytes{0x29, 0x2c, 0}},
				{"pVR", Bytes{0x3a, 0x1c}},
				{"pVR", Bytes{0x4c}},
				{"pVR", Bytes{0x9c}},
			}
		}
		for _, u := range us {
			if !yield(&hostileCase{Proto: proto, Mode: "unmarshal", Ty: &Ty{K: "pool", N: u.typ}, Parts: []part{{u.unit, 3 << 20}}}) {
				return
			}
		}
	}
}

// ---- C10: failures ----

type failCase struct {
	Go    *goCase  `json:"go,omitempty"`  // writer calls and streams
	Cut   *cutCase `json:"cut,omitempty"` // reader calls and streams
	Prior *GV      `json:"prior,omitempty"`
	Vals  []*V     `json:"vals,omitempty"` // written directly
	Wrap  int      `json:"wrap,omitempty"`
	Once  bool     `json:"once,omitempty"` // the stream fails only once
	Extra []int    `json:"extra"`
	Junk  bool     `json:"junk,omitempty"`
	Kind  int      `json:"kind"` // which error
}

// failures that a careless comparison may take for something else
var failKinds = []error{
	errInjected, io.EOF, io.ErrUnexpectedEOF, errComposite{errInjected}, io.ErrShortWrite,
	io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, os.ErrClosed, os.ErrDeadlineExceeded, net.ErrClosed,
	context.Canceled, context.DeadlineExceeded, bufio.ErrBufferFull, bufio.ErrNegativeCount, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.EAGAIN}, errTemporary{}, fs.ErrNotExist, errors.ErrUnsupported,
}

// errTemporary calls itself temporary and a timeout.
type errTemporary struct{}

func (errTemporary) Error() string   { return "temporary failure" }
func (errTemporary) Temporary() bool { return true }
func (errTemporary) Timeout() bool   { return true }

func drawKind(t *rapid.T) int { return between(t, "kind", 0, len(failKinds)-1) }

type errComposite struct{ error }

func (e errComposite) Error() string { return "wrapped failure" }
func (e errComposite) Unwrap() error { return e.error }

func (c *failCase) err() error { return failKinds[c.Kind%len(failKinds)] }

func drawExtra(t *rapid.T) []int {
	return rapid.SliceOfN(rapid.IntRange(0, 1<<20), 20, 20).Draw(t, "extra")
}

func drawWriteCallsCase(t *rapid.T) *failCase {
	return &failCase{Go: drawGoCase(t), Extra: drawExtra(t), Kind: drawKind(t)}
}

func checkWriteCalls(c *failCase, x *Ctx) error {
	typ := c.Go.Ty.build()
	p := newGV(typ, c.Go.V)
	model := refMarshal(p.Elem())
	fixed := !model.hasWideMap() // the order of map entries may vary
	full := newTokWriter()
	if err := thrift.Marshal(full, c.Go.in(p)); err != nil {
		return fmt.Errorf("marshalling %v failed: %v", typ, err)
	}
	n := len(full.toks)
	if n > 2 {
		x.NonTrivial()
	}
	for _, k := range positions(n, c.Extra) {
		w := newTokWriter()
		w.failAt, w.fail = k, c.err()
		err := thrift.Marshal(w, c.Go.in(p))
		what := fmt.Sprintf("type %v, call %d of %d (%s) fails with %v", typ, k, n, w.failOp, w.fail)
		if !w.failed {
			return fmt.Errorf("type %v: the second time there are fewer than %d calls", typ, n)
		}
		if err == nil {
			return fmt.Errorf("Marshal reports success although %s", what)
		}
		if !errors.Is(err, w.fail) {
			return fmt.Errorf("Marshal reports another error (%v) although %s", err, what)
		}
		if w.after > 0 {
			return fmt.Errorf("%d calls are made after a failure: %s", w.after, what)
		}
		for i, got := range w.toks {
			if fixed && got != full.toks[i] {
				return fmt.Errorf("%s: call %d is %s, without failure %s", what, i, got, full.toks[i])
			}
		}
	}
	return nil
}

func drawReadCallsCase(t *rapid.T) *failCase {
	c := &failCase{Cut: &cutCase{Mode: pick(t, "mode", "unmarshal", "unmarshal", "skip")}, Extra: drawExtra(t), Junk: rapid.Bool().Draw(t, "junk"), Kind: drawKind(t)}
	if c.Cut.Mode == "unmarshal" {
		c.Cut.Ty = drawTy(t, tygen{})
		typ := c.Cut.Ty.build()
		c.Cut.V = drawData(t, typ, datagen{unknown: true, big: chance(t, 20, "big")})
		if chance(t, 30, "prior") {
			c.Prior = drawGV(t, typ, gvgen{junk: true})
		}
	} else {
		c.Cut.V = vgen{dupIDs: true, noBig: chance(t, 80, "small")}.drawValue(t, 0)
	}
	return c
}

func checkReadCalls(c *failCase, x *Ctx) error {
	toks := tokens(c.Cut.V, nil)
	if len(toks) > 2 {
		x.NonTrivial()
	}
	x.Label(c.Cut.Mode)
	run := func(r *tokReader) error {
		if c.Cut.Mode == "skip" {
			return thriftwire.Skip(r, thriftwire.Type(c.Cut.V.T))
		}
		return thrift.Unmarshal(r, newGV(c.Cut.Ty.build(), c.Prior).Interface())
	}
	full := newTokReader(toks)
	if err := run(full); err != nil {
		return fmt.Errorf("%s of %s failed: %v %v", c.Cut.Mode, clip(c.Cut.V.String(), 500), err, full.misuse)
	}
	ps := positions(len(toks), c.Extra)
	if len(ps) > 120 { // each takes time in proportion to its position
		ps = ps[:120]
		ps = append(ps, len(toks)-1, len(toks)-2)
		for _, e := range c.Extra {
			ps = append(ps, e%len(toks))
		}
	}
	for _, k := range ps {
		r := newTokReader(toks)
		r.failAt, r.fail, r.junk = k, c.err(), c.Junk
		err := run(r)
		what := fmt.Sprintf("%s of %s, call %d of %d (%s) fails with %v", c.Cut.Mode, clip(c.Cut.V.String(), 500), k, len(toks), r.failOp, r.fail)
		if err == nil {
			return fmt.Errorf("success is reported although %s", what)
		}
		if !errors.Is(err, r.fail) {
			return fmt.Errorf("another error (%v) is reported although %s", err, what)
		}
		if r.after > 0 {
			return fmt.Errorf("%d calls are made after a failure: %s", r.after, what)
		}
	}
	return nil
}

// failWriter accepts up to limit bytes.
type failWriter struct {
	got    []byte
	limit  int
	err    error
	once   bool // accept everything after the failure
	failed int
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.failed > 0 && w.once {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if len(w.got)+len(p) > w.limit {
		n := max(w.limit-len(w.got), 0)
		w.got = append(w.got, p[:n]...)
		w.failed++
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

func drawWriteStreamCase(t *rapid.T) *failCase {
	c := &failCase{Extra: drawExtra(t), Kind: drawKind(t), Once: chance(t, 30, "once"), Wrap: pick(t, "wrap", 0, 0, 0, 16, 5000)}
	c.Go = &goCase{Proto: pick(t, "proto", protoNames...)}
	if rapid.Bool().Draw(t, "marshal") {
		p := c.Go.Proto
		c.Go = drawGoCase(t)
		c.Go.Proto = p
	} else {
		g := vgen{noBig: chance(t, 60, "small"), dupIDs: true}
		for i, n := 0, between(t, "values", 1, 3); i < n; i++ {
			c.Vals = append(c.Vals, g.drawValue(t, 0))
		}
	}
	return c
}

func (c *failCase) write(w thriftwire.Writer, in any) error {
	if c.Go.Ty != nil {
		return c.Go.marshalTo(w, in)
	}
	for i, v := range c.Vals {
		if err := writeV(w, v, i); err != nil {
			return err
		}
	}
	return w.Flush()
}

func checkWriteStream(c *failCase, x *Ctx) error {
	fixed := true
	var in any
	if c.Go.Ty != nil {
		p := newGV(c.Go.Ty.build(), c.Go.V)
		fixed = !refMarshal(p.Elem()).hasWideMap()
		in = c.Go.in(p)
		x.Label("marshal")
	}
	attempt := func(limit int) (*failWriter, error) {
		f := &failWriter{limit: limit, err: c.err(), once: c.Once}
		var out io.Writer = f
		if c.Wrap > 0 {
			out = bufio.NewWriterSize(f, c.Wrap)
		}
		err := c.write(protoByName(c.Go.Proto).NewWriter(out), in)
		return f, err
	}
	f, err := attempt(math.MaxInt)
	if err != nil {
		return fmt.Errorf("writing failed: %v", err)
	}
	full := f.got
	n := len(full)
	if n > 4 {
		x.NonTrivial()
	}
	if n > 4096 {
		x.Label("longer than the buffer")
	}
	ps := positions(n, c.Extra)
	if len(ps) > 100 {
		ps = append(append(ps[:40:40], ps[len(ps)-40:]...), ps[len(ps)/2-10:len(ps)/2+10]...)
	}
	for _, limit := range append(ps, n) {
		f, err := attempt(limit)
		what := fmt.Sprintf("%s: the stream fails after %d of %d bytes (once %v)", c.Go.Proto, limit, n, c.Once)
		if f.failed == 0 {
			if err != nil {
				return fmt.Errorf("%s: error %v although nothing failed", what, err)
			}
			if len(f.got) != n || fixed && !bytes.Equal(f.got, full) {
				return fmt.Errorf("%s: success was reported but the stream received something else: %s", what, firstDiff(f.got, full))
			}
			continue
		}
		if err == nil {
			return fmt.Errorf("%s but success was reported", what)
		}
		if !errors.Is(err, c.err()) {
			return fmt.Errorf("%s with %v but another error was reported: %v", what, c.err(), err)
		}
		if fixed && !bytes.HasPrefix(full, f.got[:min(limit, len(f.got))]) {
			return fmt.Errorf("%s: the stream received something else before: %s", what, firstDiff(f.got, full))
		}
		if len(f.got) > limit {
			return fmt.Errorf("%s: more was written after the failure", what)
		}
	}
	return nil
}

// failReader fails at one position.
type failReader struct {
	b      []byte
	pos    int
	at     int
	err    error
	once   bool
	early  bool // return the error together with the data before it
	sizes  []int
	i      int
	failed bool
}

func (r *failReader) Read(p []byte) (int, error) {
	if r.pos >= r.at && !(r.failed && r.once) {
		r.failed = true
		return 0, r.err
	}
	end := len(r.b)
	if !r.failed {
		end = min(end, r.at)
	}
	if r.pos >= end {
		return 0, io.EOF
	}
	n := end - r.pos
	if len(r.sizes) > 0 {
		n = min(n, max(r.sizes[r.i%len(r.sizes)], 1))
		r.i++
	}
	n = copy(p, r.b[r.pos:r.pos+n])
	r.pos += n
	if r.early && r.pos == r.at && !r.failed {
		r.failed = true
		return n, r.err
	}
	return n, nil
}

func drawReadStreamCase(t *rapid.T) *failCase {
	c := &failCase{Cut: drawCutCase(t), Kind: drawKind(t), Once: chance(t, 40, "once")}
	if failKinds[c.Kind] == io.EOF || failKinds[c.Kind] == bufio.ErrBufferFull || failKinds[c.Kind] == bufio.ErrNegativeCount {
		// The end of the stream is C05; the others are how bufio.Reader
		// answers Peek and Discard.
		c.Kind = 0
	}
	if c.Once {
		// A failure that comes with data and does not last is dropped by
		// the standard library's bufio.Reader.Discard.
		c.Cut.Early = false
	}
	return c
}

func checkReadStream(c *failCase, x *Ctx) error {
	k := c.Cut
	x.Label("%s %s", k.Proto, k.Mode)
	data := k.encode()
	if len(data) > 1 {
		x.NonTrivial()
	}
	ps := positions(len(data), k.Cuts)
	if len(ps) > 120 {
		ps = append(append(ps[:50:50], ps[len(ps)-50:]...), ps[len(ps)/2-10:len(ps)/2+10]...)
	}
	for _, at := range append(ps, len(data)) {
		f := &failReader{b: data, at: at, err: c.err(), once: c.Once, early: k.Early, sizes: k.Sizes}
		err := k.run(k.reader(f))
		what := fmt.Sprintf("%s of %s (%s): the stream fails at %d of %d bytes with %v", k.Mode, clip(k.V.String(), 500), k.Proto, at, len(data), c.err())
		if at == len(data) {
			if err != nil {
				return fmt.Errorf("%s, after the value, but the error %v is reported", what, err)
			}
			continue
		}
		if err == nil {
			return fmt.Errorf("%s but success is reported", what)
		}
		if !errors.Is(err, c.err()) {
			return fmt.Errorf("%s but another error is reported: %v", what, err)
		}
	}
	return nil
}

func (c *cutCase) reader(in io.Reader) thriftwire.Reader { return protoByName(c.Proto).NewReader(in) }

var _ = strings.Contains

func init() {
	register(&property{
		id:          "C09",
		rule:        "random bytes, mutated encodings, pieces with hostile sizes, extreme nesting and repetition, read as messages, values and Go types; memory is measured, CPU time, memory and stack are watched; an enumeration of data nested millions of levels deep; non-trivial: more than two bytes",
		assumptions: []string{"memory may be 512 KB plus 256 bytes plus 32 times the largest Go type per received byte", "60 s of CPU time for one case count as not terminating"},
		subs: []*subDef{
			enumSub("large", enumLarge, checkLarge),
			sub("bytes", 40000, 1500000, drawHostileCase, checkHostile),
			enumSub("nesting", enumHostile, checkHostile),
		},
	})
	register(&property{
		id: "C10", level: "fault_enumeration",
		rule: "random values; each protocol call and each byte of the stream (long ones: up to 220 positions) fails once per case, with errors that look like others, permanently or once; non-trivial: more than two calls or four bytes",
		subs: []*subDef{
			sub("writecalls", 4000, 60000, drawWriteCallsCase, checkWriteCalls),
			sub("readcalls", 4000, 60000, drawReadCallsCase, checkReadCalls),
			sub("writestream", 4000, 60000, drawWriteStreamCase, checkWriteStream),
			sub("readstream", 6000, 90000, drawReadStreamCase, checkReadStream),
		},
	})
}

func sortedKeys[T any](m map[string]T) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return
}

func newBufio(r io.Reader, n int) *bufio.Reader { return bufio.NewReaderSize(r, n) }
