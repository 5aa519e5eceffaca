package main

import (
	"math"
	"math/bits"

	"pgregory.net/rapid"
)

// vgen draws value trees.
type vgen struct {
	budget  int  // nodes left
	noBig   bool // no long strings and wide containers
	dupIDs  bool // allow repeated field ids in a struct
	stopOK  bool // empty containers may have no element type
	noDeep  bool
	maxDeep int
}

// between draws a number from lo to hi, all equally likely (the generators of
// rapid prefer small numbers). It shrinks towards lo.
func between(t *rapid.T, label string, lo, hi int) int {
	n := hi - lo + 1
	if n <= 0 {
		fault("between %d and %d", lo, hi)
	}
	if n == 1 {
		return lo
	}
	k := bits.Len(uint(n-1)) + 2
	v := int64(0)
	for i := 0; i < k; i++ {
		v <<= 1
		if boolGen.Draw(t, label) {
			v |= 1
		}
	}
	return lo + int(v*int64(n)>>k)
}

var boolGen = rapid.Bool()

func chance(t *rapid.T, pct int, label string) bool {
	return between(t, label, 0, 99) >= 100-pct
}

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[between(t, label, 0, len(xs)-1)]
}

// fill makes deterministic, position-dependent content.
func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)*7 + byte(i>>8)*13 + seed
	}
	return b
}

// boundary sizes of the varint encodings and of the internal buffers.
func drawBigSize(t *rapid.T) int {
	base := pick(t, "base", 127, 128, 255, 256, 4096, 4096-8, 8192, 16383, 16384, 12288, 65535, 65536, 70000)
	if chance(t, 4, "huge") {
		base = pick(t, "base", 1<<17, 200000, 1<<18, 1<<19, 1<<20, 1<<21)
	}
	return max(base+between(t, "off", -20, 20), 0)
}

func drawBytes(t *rapid.T, big bool) []byte {
	switch k := between(t, "strkind", 0, 19); {
	case k < 3:
		return []byte{}
	case k < 12:
		return rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "str")
	case k < 16:
		return []byte(rapid.StringN(0, 10, 40).Draw(t, "text"))
	case k < 18:
		return fill(between(t, "len", 13, 300), rapid.Byte().Draw(t, "seed"))
	default:
		if !big {
			return []byte("x")
		}
		return fill(drawBigSize(t), rapid.Byte().Draw(t, "seed"))
	}
}

func drawInt(t *rapid.T, bits int) int64 {
	lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	var v int64
	switch between(t, "intkind", 0, 4) {
	case 0:
		v = rapid.Int64Range(-3, 3).Draw(t, "int")
	case 1:
		v = rapid.Int64Range(lo, hi).Draw(t, "int")
	case 2:
		// around powers of two: the boundaries of varint lengths
		v = int64(1)<<between(t, "pow", 0, bits-2) + rapid.Int64Range(-2, 2).Draw(t, "off")
		if rapid.Bool().Draw(t, "neg") {
			v = -v
		}
	case 3:
		v = pick(t, "ext", lo, hi, lo+1, hi-1, 0, -1)
	default:
		v = rapid.Int64Range(-200, 200).Draw(t, "int")
	}
	return min(max(v, lo), hi)
}

func drawDouble(t *rapid.T) uint64 {
	switch between(t, "dblkind", 0, 3) {
	case 0:
		return math.Float64bits(float64(between(t, "dbl", -100, 100)) / 4)
	case 1:
		return rapid.Uint64().Draw(t, "bits")
	case 2:
		return pick(t, "special", math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), math.Float64bits(math.NaN()),
			0x8000000000000000, 1, math.Float64bits(math.MaxFloat64), 0x0102030405060708, 0x7ff0000000000001)
	default:
		return math.Float64bits(rapid.Float64().Draw(t, "dbl"))
	}
}

func (g *vgen) typ(t *rapid.T, depth int) byte {
	if depth <= 0 || g.budget <= 0 {
		return pick(t, "type", byte(tBool), tByte, tI16, tI32, tI64, tDouble, tString, tUUID)
	}
	return pick(t, "type", byte(tBool), tByte, tI16, tI32, tI64, tDouble, tString, tUUID, tStruct, tList, tSet, tMap, tStruct)
}

// fieldIDs draws n field ids in some order that stresses delta encoding.
func (g *vgen) fieldIDs(t *rapid.T, n int) []int16 {
	ids := make([]int16, 0, n)
	seen := map[int16]bool{}
	mode := between(t, "idmode", 0, 5)
	last := int32(0)
	for len(ids) < n {
		var id int32
		switch mode {
		case 0, 1:
			id = last + int32(between(t, "delta", 1, 3))
		case 2:
			id = last + pick(t, "delta", int32(1), 14, 15, 16, 17, 2)
		case 3:
			id = last + pick(t, "delta", int32(-1), 1, 15, 16, -15, -16, 100, -100, 127, 128)
		case 4:
			id = pick(t, "id", int32(math.MinInt16), math.MaxInt16, 0, 1, -1, 15, 16, 63, 64, -64, -65, 8191, 8192, math.MinInt16+1, math.MaxInt16-1) + rapid.Int32Range(-3, 3).Draw(t, "off")
		default:
			id = int32(rapid.Int16().Draw(t, "id"))
		}
		if id < math.MinInt16 || id > math.MaxInt16 {
			id = int32(rapid.Int16().Draw(t, "id"))
		}
		if seen[int16(id)] && !g.dupIDs {
			// walk to a free id
			for seen[int16(id)] {
				id++
			}
			id = int32(int16(id))
		}
		seen[int16(id)] = true
		ids = append(ids, int16(id))
		last = id
	}
	return ids
}

func (g *vgen) size(t *rapid.T) int {
	k := between(t, "sizekind", 0, 39)
	switch {
	case k < 8:
		return 0
	case k < 32 || g.noBig || g.budget < 40:
		return between(t, "size", 1, 4)
	case k < 38:
		return between(t, "size", 13, 17)
	case k < 39:
		return between(t, "size", 125, 130)
	default:
		return pick(t, "size", 300, 1000, 4096, 5000)
	}
}

func (g *vgen) value(t *rapid.T, typ byte, depth int) *V {
	g.budget--
	v := &V{T: typ}
	switch typ {
	case tBool:
		v.I = int64(between(t, "bool", 0, 1))
	case tByte:
		v.I = int64(rapid.Byte().Draw(t, "byte"))
	case tI16:
		v.I = drawInt(t, 16)
	case tI32:
		v.I = drawInt(t, 32)
	case tI64:
		v.I = drawInt(t, 64)
	case tDouble:
		v.D = drawDouble(t)
	case tString:
		v.S = drawBytes(t, !g.noBig)
	case tUUID:
		v.S = fill(16, rapid.Byte().Draw(t, "uuid"))
	case tStruct:
		n := between(t, "fields", 0, 5)
		if g.budget <= 0 {
			n = min(n, 1)
		}
		if n == 5 && !g.noBig && chance(t, 10, "wide") {
			n = between(t, "fields", 14, 40)
		}
		for _, id := range g.fieldIDs(t, n) {
			v.F = append(v.F, F{id, g.value(t, g.typ(t, depth-1), depth-1)})
		}
	case tMap:
		n := g.size(t)
		v.K, v.E = g.typ(t, depth-1), g.typ(t, depth-1)
		v.L = g.elems(t, n, depth, v.K, v.E)
	case tSet, tList:
		n := g.size(t)
		v.E = g.typ(t, depth-1)
		v.L = g.elems(t, n, depth, v.E)
	}
	if g.stopOK && (typ == tMap || typ == tSet || typ == tList) && len(v.L) == 0 && rapid.Bool().Draw(t, "stop") {
		v.K, v.E = 0, 0
	}
	return v
}

// elems draws n entries; long containers repeat a few drawn entries.
func (g *vgen) elems(t *rapid.T, n, depth int, types ...byte) (l []*V) {
	d := min(n, 5)
	if n > 5 {
		d = 3
	}
	for i := 0; i < d; i++ {
		for _, e := range types {
			l = append(l, g.value(t, e, depth-1))
		}
	}
	w := d * len(types)
	if n > d && w > 0 {
		big := 0
		for _, e := range l {
			big += e.nodes() + e.bytes()/16
		}
		// big counts the nodes and data of d entries; bound the whole.
		n = max(d, min(n, 12000*d/max(big, 1)))
	}
	for i := d; i < n; i++ {
		l = append(l, l[len(l)-w:len(l)-w+len(types)]...)
	}
	return
}

func (v *V) bytes() int {
	n := len(v.S)
	for _, f := range v.F {
		n += f.V.bytes()
	}
	for _, e := range v.L {
		n += e.bytes()
	}
	return n
}

// deep wraps a value into many levels of containers.
func (g *vgen) deep(t *rapid.T, v *V, levels int) *V {
	mode := between(t, "deepmode", 0, 4)
	for i := 0; i < levels; i++ {
		switch (mode + i*(mode/4)) % 4 {
		case 0:
			v = &V{T: tStruct, F: []F{{int16(i%20 + 1), v}}}
		case 1:
			v = &V{T: tList, E: v.T, L: []*V{v}}
		case 2:
			v = &V{T: tMap, K: tByte, E: v.T, L: []*V{{T: tByte, I: int64(i & 255)}, v}}
		default:
			v = &V{T: tSet, E: v.T, L: []*V{v}}
		}
	}
	return v
}

// drawValue draws a tree of the given type (0: any).
func (g vgen) drawValue(t *rapid.T, typ byte) *V {
	g.budget = between(t, "budget", 3, 60)
	depth := between(t, "depth", 1, 5)
	if typ == 0 {
		typ = pick(t, "root", allTypes...)
	}
	if !g.noDeep && chance(t, 4, "deep") && (typ == tStruct || typ == tList) {
		inner := g.value(t, tStruct, 2)
		levels := between(t, "levels", 10, 300)
		if chance(t, 25, "deeper") {
			levels = pick(t, "levels", 350, 520, 1030, 2050, 2900) // encoding/json has its limits
		}
		v := g.deep(t, inner, levels)
		if typ == tList {
			return &V{T: tList, E: v.T, L: []*V{v}}
		}
		if v.T != tStruct {
			v = &V{T: tStruct, F: []F{{1, v}}}
		}
		return v
	}
	return g.value(t, typ, depth)
}

func drawName(t *rapid.T) []byte {
	if chance(t, 10, "longname") {
		return fill(drawBigSize(t), 'a')
	}
	if chance(t, 20, "rawname") {
		return rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "name")
	}
	return []byte(rapid.StringMatching(`[a-zA-Z_]{0,12}`).Draw(t, "name"))
}

// drawMsg draws a message; compact message types are limited to 3 bits.
func (g vgen) drawMsg(t *rapid.T, compact bool) *Msg {
	m := &Msg{Name: drawName(t), ID: int32(drawInt(t, 32)), Type: byte(between(t, "mtype", 1, 4))}
	m.Body = g.drawValue(t, tStruct)
	return m
}
