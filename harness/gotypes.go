package main

// Generated Go types and values, and an independent model of the documented
// mapping between Go and Thrift values (reflection over exported facts only).

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// ---- Declared types ----

type (
	pBool   bool
	pI8     int8
	pU8     uint8
	pI16    int16
	pU16    uint16
	pI32    int32
	pU32    uint32
	pI64    int64
	pU64    uint64
	pF32    float32
	pF64    float64
	pString string
	pBytes  []byte
	pOctet  byte
	pOctets []pOctet
	pList   []int32
	pSet    thrift.Set[int32] // a plain slice type: the marker method is not inherited
	pMap    map[string]int64
	pPtr    *int32

	pRL []pRL
	pRM map[string]pRM
	pRS thrift.Set[pRSE]
	pLL thrift.List[string]
)

type pRSE struct {
	S pRSSet `thrift:"1"`
	V int16  `thrift:"2"`
}
type pRSSet []pRSE

type pRec struct {
	V    int32            `thrift:"1"`
	Next *pRec            `thrift:"2"`
	Kids []pRec           `thrift:"3"`
	M    map[string]*pRec `thrift:"4"`
	S    thrift.Set[pRec] `thrift:"-5"`
}

// recursive through map keys, map values, and pointers
type pKR struct {
	M map[*pKR]bool `thrift:"1"`
	V int16         `thrift:"2"`
}
type pKV struct {
	P *pKV2 `thrift:"1"`
}
type pKV2 struct {
	M map[pKV]int8 `thrift:"1"`
}
type pVR struct {
	M  map[int8]pVR     `thrift:"1"`
	L  []*pVR           `thrift:"2"`
	S  thrift.Set[*pVR] `thrift:"3"`
	PP **pVR            `thrift:"4"`
	V  int16            `thrift:"-1"`
}

type pMutA struct {
	B *pMutB `thrift:"1"`
	X string `thrift:"2,required"`
}
type pMutB struct {
	A []pMutA `thrift:"1"`
	B pRL     `thrift:"2"`
}

// zero test by method: value and pointer receivers
type pZInt int32

func (z pZInt) IsZero() bool { return z == 7 }

type pZStr string

func (z pZStr) IsZero() bool { return len(z) >= 3 }

type pZStruct struct {
	A int32  `thrift:"1"`
	B string `thrift:"2"`
}

func (z pZStruct) IsZero() bool { return z.A < 0 }

type pZPtr struct {
	A int32  `thrift:"1,required"`
	B []int8 `thrift:"2"`
}

func (z *pZPtr) IsZero() bool { return z.A%2 == 0 }

type pZList []int16

func (z *pZList) IsZero() bool { return len(*z) < 2 }

type pZMap map[string]bool

func (z pZMap) IsZero() bool { return z != nil && len(z) == 0 }

// IsZero with another signature does not count.
type pZWrong int16

func (z pZWrong) IsZero() int { return 1 }

type pZArg int16

func (z pZArg) IsZero(bool) bool { return true }

type pZNever bool

func (z pZNever) IsZero() bool { return false }

type pBase struct {
	X int64  `thrift:"1"`
	Y string `thrift:"3,required"`
}

type pEmb struct {
	pHidden
	pBase2 `thrift:"-"`
	PBase  `thrift:"2"`
	Z      bool `thrift:"1"`
}
type PBase = pExported
type pExported pBase
type pHidden struct{ q int }
type pBase2 struct{ Q int }

type PEmbS struct {
	A int8 `thrift:"1"`
}
type pEmb2 struct {
	PEmbS `thrift:"7"`
	Other *PEmbS `thrift:"-7,required"`
}

// embeds the marker method of Set but is a struct
type PSetInt = thrift.Set[int32]
type pHoldsSet struct {
	thrift.Set[int32] `thrift:"1"`
}

type pScattered struct {
	E bool             `thrift:"300"`
	A int64            `thrift:"-32768"`
	D float64          `thrift:"16,required"`
	B []byte           `thrift:"32767,required"`
	C [16]byte         `thrift:"0"`
	G bool             `thrift:"17,required"`
	H map[int16][]bool `thrift:"1"`
	i int32
	J int32 `thrift:"-"`
}

type pNested struct {
	A map[string][]map[int32]thrift.Set[string] `thrift:"1"`
	B *[]*int16                                 `thrift:"2"`
	C [][]byte                                  `thrift:"3"`
	D map[[16]byte]*pBase                       `thrift:"4"`
	E **string                                  `thrift:"5"`
	F thrift.List[thrift.List[bool]]            `thrift:"6"`
}

type pAllReq struct {
	A bool               `thrift:"1,required"`
	B int8               `thrift:"2,required"`
	C uint16             `thrift:"3,required"`
	D *float64           `thrift:"4,required"`
	E string             `thrift:"5,required"`
	F []string           `thrift:"6,required"`
	G map[uint8]float32  `thrift:"7,required"`
	H pBase              `thrift:"8,required"`
	I *pBase             `thrift:"9,required"`
	J [16]byte           `thrift:"10,required"`
	K thrift.Set[uint64] `thrift:"11,required"`
	L []byte             `thrift:"12,required"`
}

type pEmpty struct{}

type pIgnoredOnly struct {
	A int `thrift:"-"`
	b int
}

type pWide struct {
	A00 bool    `thrift:"1"`
	A01 bool    `thrift:"2"`
	A02 int8    `thrift:"3"`
	A03 int16   `thrift:"4"`
	A04 int32   `thrift:"5"`
	A05 int64   `thrift:"6"`
	A06 float64 `thrift:"7"`
	A07 string  `thrift:"8"`
	A08 []byte  `thrift:"9"`
	A09 uint8   `thrift:"10"`
	A10 uint16  `thrift:"20"`
	A11 uint32  `thrift:"36"`
	A12 uint64  `thrift:"51"`
	A13 float32 `thrift:"52"`
	A14 bool    `thrift:"200"`
	A15 *bool   `thrift:"215"`
}

// fields of unsupported types that are ignored do not matter
type pIgnoresBad struct {
	A chan int `thrift:"-"`
	B func()   `thrift:"-"`
	C int32    `thrift:"1"`
	d interface{ x() }
}

var typePool = map[string]reflect.Type{
	"pBool": rt[pBool](), "pI8": rt[pI8](), "pU8": rt[pU8](), "pI16": rt[pI16](), "pU16": rt[pU16](), "pI32": rt[pI32](), "pU32": rt[pU32](), "pI64": rt[pI64](), "pU64": rt[pU64](),
	"pF32": rt[pF32](), "pF64": rt[pF64](), "pString": rt[pString](), "pBytes": rt[pBytes](), "pOctet": rt[pOctet](), "pOctets": rt[pOctets](), "pList": rt[pList](), "pSet": rt[pSet](), "pMap": rt[pMap](), "pPtr": rt[pPtr](),
	"pRL": rt[pRL](), "pRM": rt[pRM](), "pRS": rt[pRS](), "pLL": rt[pLL](), "pRSE": rt[pRSE](), "pRec": rt[pRec](), "pKR": rt[pKR](), "pKV": rt[pKV](), "pKV2": rt[pKV2](), "pVR": rt[pVR](), "pMutA": rt[pMutA](), "pMutB": rt[pMutB](),
	"pZInt": rt[pZInt](), "pZStr": rt[pZStr](), "pZStruct": rt[pZStruct](), "pZPtr": rt[pZPtr](), "pZList": rt[pZList](), "pZMap": rt[pZMap](), "pZWrong": rt[pZWrong](), "pZArg": rt[pZArg](), "pZNever": rt[pZNever](),
	"pBase": rt[pBase](), "pEmb": rt[pEmb](), "pEmb2": rt[pEmb2](), "pHoldsSet": rt[pHoldsSet](), "pScattered": rt[pScattered](), "pNested": rt[pNested](), "pAllReq": rt[pAllReq](), "pEmpty": rt[pEmpty](), "pIgnoredOnly": rt[pIgnoredOnly](), "pWide": rt[pWide](), "pIgnoresBad": rt[pIgnoresBad](),

	"Set[int32]": rt[thrift.Set[int32]](), "Set[byte]": rt[thrift.Set[byte]](), "Set[string]": rt[thrift.Set[string]](), "Set[bool]": rt[thrift.Set[bool]](), "Set[[16]byte]": rt[thrift.Set[[16]byte]](), "Set[[]byte]": rt[thrift.Set[[]byte]](), "Set[Set[int64]]": rt[thrift.Set[thrift.Set[int64]]](), "Set[*int16]": rt[thrift.Set[*int16]](), "Set[pBase]": rt[thrift.Set[pBase]](), "Set[*pBase]": rt[thrift.Set[*pBase]](), "Set[map]": rt[thrift.Set[map[string]int32]](), "Set[pZPtr]": rt[thrift.Set[pZPtr]](),
	"List[int32]": rt[thrift.List[int32]](), "List[byte]": rt[thrift.List[byte]](), "List[string]": rt[thrift.List[string]](), "List[bool]": rt[thrift.List[bool]](), "List[[]byte]": rt[thrift.List[[]byte]](), "List[List[int8]]": rt[thrift.List[thrift.List[int8]]](), "List[pBase]": rt[thrift.List[pBase]](), "List[Set[float64]]": rt[thrift.List[thrift.Set[float64]]](),
}

// Unsupported types, by name.
var badPool = map[string]reflect.Type{
	"int": rt[int](), "uint": rt[uint](), "uintptr": rt[uintptr](), "complex64": rt[complex64](), "complex128": rt[complex128](),
	"chan": rt[chan int](), "func": rt[func()](), "any": rt[any](), "error": rt[error](), "iszeroer": rt[interface{ IsZero() bool }](),
	"[4]byte": rt[[4]byte](), "[16]int8": rt[[16]int8](), "[0]int": rt[[0]int](), "namedUUID": rt[bUUID](), "unsafe": rt[unsafe.Pointer](),
	"ptrcycle": rt[bPtr](), "ptrcycle2": rt[bPtrA](), "namedint": rt[bInt](), "[17]byte": rt[[17]byte](), "[16]octet": rt[[16]pOctet](),
}

type (
	bUUID [16]byte
	bPtr  *bPtr
	bPtrA *bPtrB
	bPtrB *bPtrA
	bInt  int
)

func rt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var poolNames, badNames []string

func init() {
	for n := range typePool {
		poolNames = append(poolNames, n)
	}
	sort.Strings(poolNames)
	for n := range badPool {
		badNames = append(badNames, n)
	}
	sort.Strings(badNames)
}

// ---- Type descriptors ----

// Ty describes a Go type.
type Ty struct {
	K string `json:"k"`           // kind; "pool", "bad"
	N string `json:"n,omitempty"` // name of a declared type
	E *Ty    `json:"e,omitempty"`
	M *Ty    `json:"m,omitempty"` // map key
	F []TF   `json:"f,omitempty"`
}

type TF struct {
	Tag string `json:"tag"` // content of the thrift tag; "" with None: no tag
	// None: no thrift tag at all; Hidden: the field is unexported
	None   bool `json:"none,omitempty"`
	Hidden bool `json:"hidden,omitempty"`
	T      *Ty  `json:"t"`
}

var scalarTypes = map[string]reflect.Type{
	"bool": rt[bool](), "i8": rt[int8](), "u8": rt[uint8](), "i16": rt[int16](), "u16": rt[uint16](), "i32": rt[int32](), "u32": rt[uint32](), "i64": rt[int64](), "u64": rt[uint64](),
	"f32": rt[float32](), "f64": rt[float64](), "string": rt[string](), "bytes": rt[[]byte](), "uuid": rt[[16]byte](),
}

var scalarNames = []string{"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "string", "bytes", "uuid"}

func (y *Ty) build() reflect.Type { return y.salted("") }

// salted builds the type with a different identity for every salt, if it
// contains a struct.
func (y *Ty) salted(salt string) reflect.Type {
	if t, ok := scalarTypes[y.K]; ok {
		return t
	}
	switch y.K {
	case "pool":
		if t := typePool[y.N]; t != nil {
			return t
		}
		fault("no type %s", y.N)
	case "bad":
		if t := badPool[y.N]; t != nil {
			return t
		}
		fault("no type %s", y.N)
	case "slice":
		return reflect.SliceOf(y.E.salted(salt))
	case "array":
		return reflect.ArrayOf(3, y.E.salted(salt))
	case "ptr":
		return reflect.PointerTo(y.E.salted(salt))
	case "map":
		return reflect.MapOf(y.M.salted(salt), y.E.salted(salt))
	case "struct":
		var fs []reflect.StructField
		for i, f := range y.F {
			sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.T.salted(salt)}
			if f.Hidden {
				sf.Name, sf.PkgPath = fmt.Sprintf("f%d", i), "verif"
			}
			if !f.None {
				sf.Tag = reflect.StructTag(`json:"x` + salt + `" thrift:` + strconv.Quote(f.Tag))
			}
			fs = append(fs, sf)
		}
		return reflect.StructOf(fs)
	}
	fault("no kind %s", y.K)
	return nil
}

// tygen draws type descriptors.
type tygen struct {
	bad     int  // percent of unsupported types
	noZero  bool // no types with IsZero
	ordered bool
}

func (g tygen) scalar(t *rapid.T) *Ty { return &Ty{K: pick(t, "kind", scalarNames...)} }

// key draws a map key type: comparable and with lossless round trip.
func (g tygen) key(t *rapid.T) *Ty {
	switch between(t, "keykind", 0, 9) {
	case 0:
		return &Ty{K: "pool", N: pick(t, "pool", "pBool", "pI8", "pU8", "pI16", "pU32", "pI64", "pF64", "pString", "pOctet", "pZWrong")}
	case 1:
		y := &Ty{K: "struct"}
		for i, n := 0, between(t, "fields", 0, 3); i < n; i++ {
			y.F = append(y.F, TF{Tag: fmt.Sprint(i + 1), T: g.cmpScalar(t)})
		}
		return y
	case 2:
		return &Ty{K: "ptr", E: g.cmpScalar(t)}
	case 3:
		return &Ty{K: "uuid"}
	}
	return g.cmpScalar(t)
}

func (g tygen) cmpScalar(t *rapid.T) *Ty {
	return &Ty{K: pick(t, "kind", "string", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "uuid")}
}

func (g tygen) typ(t *rapid.T, depth int) *Ty {
	if g.bad > 0 && chance(t, g.bad, "bad") {
		if depth > 0 && rapid.Bool().Draw(t, "array") {
			return &Ty{K: "array", E: g.typ(t, depth-1)}
		}
		return &Ty{K: "bad", N: pick(t, "badtype", badNames...)}
	}
	k := between(t, "tykind", 0, 19)
	if depth <= 0 && k >= 8 && k != 19 {
		k = 0
	}
	switch {
	case k < 6:
		return g.scalar(t)
	case k < 8:
		names := poolNames
		return &Ty{K: "pool", N: pick(t, "pool", names...)}
	case k < 11:
		return &Ty{K: "slice", E: g.typ(t, depth-1)}
	case k < 13:
		return &Ty{K: "map", M: g.key(t), E: g.typ(t, depth-1)}
	case k < 15:
		return &Ty{K: "ptr", E: g.typ(t, depth-1)}
	case k < 19:
		return g.structTy(t, depth)
	}
	return &Ty{K: "pool", N: pick(t, "pool", poolNames...)}
}

func (g tygen) structTy(t *rapid.T, depth int) *Ty {
	y := &Ty{K: "struct"}
	n := between(t, "fields", 0, 6)
	if chance(t, 2, "wide") {
		n = drawWide(t)
		depth = 0
	}
	vg := vgen{}
	ids := vg.fieldIDs(t, n)
	for _, id := range ids {
		switch f := between(t, "fieldkind", 0, 24); {
		case f == 23:
			y.F = append(y.F, TF{Tag: "-", T: g.scalar(t)})
		case f == 24:
			y.F = append(y.F, TF{None: true, Hidden: true, T: g.scalar(t)})
		default:
			tag := fmt.Sprint(id)
			if f%4 == 3 {
				tag += ",required"
			}
			y.F = append(y.F, TF{Tag: tag, T: g.typ(t, depth-1)})
		}
	}
	if n > 0 {
		has := false
		for _, f := range y.F {
			has = has || !f.None
		}
		if !has { // a struct with nothing to serialise is invalid
			y.F = append(y.F, TF{Tag: "-", T: g.scalar(t)})
		}
	}
	return y
}

// drawWide draws the number of fields of an unusually large struct.
func drawWide(t *rapid.T) int {
	return pick(t, "wide", 7, 9, 12, 16, 20, 30, 31, 45, 63, 80, 127, 150, 255, 310) + between(t, "more", 0, 4)
}

func drawTy(t *rapid.T, g tygen) *Ty {
	d := between(t, "tydepth", 0, 4)
	if chance(t, 60, "structroot") {
		return g.structTy(t, max(d, 1))
	}
	return g.typ(t, d)
}

// ---- Model of the mapping ----

type fieldInfo struct {
	index    int
	id       int16
	required bool
	typ      reflect.Type
	name     string
}

// fieldsOf interprets well-formed tags.
func fieldsOf(t reflect.Type) (fs []fieldInfo) {
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		tag := sf.Tag.Get("thrift")
		if tag == "-" || sf.PkgPath != "" {
			continue
		}
		parts := strings.Split(tag, ",")
		id, err := strconv.ParseInt(parts[0], 10, 16)
		if err != nil {
			fault("type %v: tag %q", t, tag)
		}
		f := fieldInfo{index: i, id: int16(id), typ: sf.Type, name: sf.Name}
		for _, o := range parts[1:] {
			f.required = f.required || o == "required"
		}
		fs = append(fs, f)
	}
	return
}

func markerOf(t reflect.Type) string {
	if t.PkgPath() == "github.com/itstarsun/go-thrift/thrift" && t.Kind() == reflect.Slice {
		n, _, _ := strings.Cut(t.Name(), "[")
		return n
	}
	return ""
}

func isBytes(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && markerOf(t) == "" && t.Elem() == rt[byte]()
}

// wireOf returns the Thrift type of a Go type, 0 if it has none.
func wireOf(t reflect.Type) byte {
	switch t.Kind() {
	case reflect.Bool:
		return tBool
	case reflect.Int8, reflect.Uint8:
		return tByte
	case reflect.Int16, reflect.Uint16:
		return tI16
	case reflect.Int32, reflect.Uint32:
		return tI32
	case reflect.Int64, reflect.Uint64:
		return tI64
	case reflect.Float32, reflect.Float64:
		return tDouble
	case reflect.String:
		return tString
	case reflect.Struct:
		return tStruct
	case reflect.Map:
		return tMap
	case reflect.Slice:
		switch {
		case markerOf(t) == "Set":
			return tSet
		case isBytes(t):
			return tString
		}
		return tList
	case reflect.Array:
		if t == rt[[16]byte]() {
			return tUUID
		}
	case reflect.Pointer:
		seen := map[reflect.Type]bool{}
		for t.Kind() == reflect.Pointer {
			if seen[t] {
				return 0
			}
			seen[t] = true
			t = t.Elem()
		}
		return wireOf(t)
	}
	return 0
}

// isZero is the zero test of optional fields.
func isZero(rv reflect.Value) bool {
	call := func(m reflect.Value) (bool, bool) {
		if !m.IsValid() {
			return false, false
		}
		f, ok := m.Interface().(func() bool)
		if !ok {
			return false, false
		}
		return f(), true
	}
	t := rv.Type()
	if t.Kind() == reflect.Pointer {
		if _, ok := t.MethodByName("IsZero"); ok && rv.IsNil() {
			if m, _ := t.MethodByName("IsZero"); m.Type.NumIn() == 1 && m.Type.NumOut() == 1 && m.Type.Out(0) == rt[bool]() {
				return true
			}
		}
	}
	if z, ok := call(rv.MethodByName("IsZero")); ok {
		return z
	}
	if t.Kind() != reflect.Pointer {
		p := rv
		if !p.CanAddr() {
			p = reflect.New(t).Elem()
			p.Set(rv)
		}
		if z, ok := call(p.Addr().MethodByName("IsZero")); ok {
			return z
		}
	}
	return rv.IsZero()
}

// refMarshal returns the Thrift value of a Go value of a supported type.
func refMarshal(rv reflect.Value) *V {
	t := rv.Type()
	v := &V{T: wireOf(t)}
	switch t.Kind() {
	case reflect.Bool:
		if rv.Bool() {
			v.I = 1
		}
	case reflect.Int8:
		v.I = int64(uint8(rv.Int()))
	case reflect.Int16, reflect.Int32, reflect.Int64:
		v.I = rv.Int()
	case reflect.Uint8:
		v.I = int64(rv.Uint())
	case reflect.Uint16:
		v.I = int64(int16(rv.Uint()))
	case reflect.Uint32:
		v.I = int64(int32(rv.Uint()))
	case reflect.Uint64:
		v.I = int64(rv.Uint())
	case reflect.Float32, reflect.Float64:
		v.D = math.Float64bits(rv.Float())
	case reflect.String:
		v.S = []byte(rv.String())
	case reflect.Array:
		v.S = make([]byte, 16)
		for i := range v.S {
			v.S[i] = byte(rv.Index(i).Uint())
		}
	case reflect.Pointer:
		if rv.IsNil() {
			return refMarshal(reflect.New(t.Elem()).Elem())
		}
		return refMarshal(rv.Elem())
	case reflect.Struct:
		fs := fieldsOf(t)
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		for _, f := range fs {
			fv := rv.Field(f.index)
			if !f.required && isZero(fv) {
				continue
			}
			v.F = append(v.F, F{f.id, refMarshal(fv)})
		}
	case reflect.Map:
		v.K, v.E = wireOf(t.Key()), wireOf(t.Elem())
		for it := rv.MapRange(); it.Next(); {
			v.L = append(v.L, refMarshal(it.Key()), refMarshal(it.Value()))
		}
	case reflect.Slice:
		if isBytes(t) {
			v.S = append([]byte{}, rv.Bytes()...)
			break
		}
		v.E = wireOf(t.Elem())
		for i := 0; i < rv.Len(); i++ {
			v.L = append(v.L, refMarshal(rv.Index(i)))
		}
	default:
		fault("refMarshal: %v", t)
	}
	return v
}

// applier is the reference interpreter of Unmarshal.
type applier struct {
	ambiguous bool // an empty container announced other element types
}

// refApply applies Thrift data to an addressable Go value. It reports the
// first type mismatch.
func refApply(rv reflect.Value, v *V) error { return new(applier).apply(rv, v) }

func (a *applier) elem(t reflect.Type, wire byte) {
	if wire != 0 && wireOf(t) != wire {
		a.ambiguous = true
	}
}

func (a *applier) apply(rv reflect.Value, v *V) error {
	t := rv.Type()
	if t.Kind() == reflect.Pointer && wireOf(t) != 0 {
		if rv.IsNil() {
			rv.Set(reflect.New(t.Elem()))
		}
		return a.apply(rv.Elem(), v)
	}
	if wireOf(t) != v.T || v.T == 0 {
		return &mismatchError{t, v.T}
	}
	switch t.Kind() {
	case reflect.Bool:
		rv.SetBool(v.I != 0)
	case reflect.Int8:
		rv.SetInt(int64(int8(v.I)))
	case reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(v.I)
	case reflect.Uint8:
		rv.SetUint(uint64(uint8(v.I)))
	case reflect.Uint16:
		rv.SetUint(uint64(uint16(v.I)))
	case reflect.Uint32:
		rv.SetUint(uint64(uint32(v.I)))
	case reflect.Uint64:
		rv.SetUint(uint64(v.I))
	case reflect.Float32, reflect.Float64:
		rv.SetFloat(math.Float64frombits(v.D))
	case reflect.String:
		rv.SetString(string(v.S))
	case reflect.Array:
		for i := range v.S {
			rv.Index(i).SetUint(uint64(v.S[i]))
		}
	case reflect.Struct:
		byID := map[int16]fieldInfo{}
		for _, f := range fieldsOf(t) {
			byID[f.id] = f
		}
		for _, f := range v.F {
			if fi, ok := byID[f.ID]; ok {
				if err := a.apply(rv.Field(fi.index), f.V); err != nil {
					return err
				}
			}
		}
	case reflect.Map:
		if len(v.L) == 0 {
			a.elem(t.Key(), v.K)
			a.elem(t.Elem(), v.E)
			break
		}
		m := reflect.MakeMap(t)
		for it := rv.MapRange(); it.Next(); {
			m.SetMapIndex(it.Key(), it.Value())
		}
		for i := 0; i < len(v.L); i += 2 {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			if err := a.apply(k, v.L[i]); err != nil {
				return err
			}
			if old := m.MapIndex(k); old.IsValid() {
				e.Set(old)
			}
			if err := a.apply(e, v.L[i+1]); err != nil {
				return err
			}
			m.SetMapIndex(k, e)
		}
		rv.Set(m)
	case reflect.Slice:
		if isBytes(t) {
			rv.SetBytes(append([]byte{}, v.S...))
			break
		}
		if len(v.L) == 0 {
			a.elem(t.Elem(), v.E)
		}
		s := reflect.MakeSlice(t, len(v.L), len(v.L))
		for i, e := range v.L {
			if err := a.apply(s.Index(i), e); err != nil {
				return err
			}
		}
		rv.Set(s)
	default:
		fault("refApply: %v", t)
	}
	return nil
}

type mismatchError struct {
	goType reflect.Type
	wire   byte
}

func (e *mismatchError) Error() string { return fmt.Sprintf("type %d into %v", e.wire, e.goType) }

// canonGo renders a Go value; nil and empty slices and maps are the same.
// With rt, it renders what the value is expected to be after a round trip
// into a fresh variable: must is set where a value is always written.
func canonGo(rv reflect.Value, rtrip, must bool) string {
	var sb strings.Builder
	canonGoTo(&sb, rv, rtrip, must)
	return sb.String()
}

func canonGoTo(sb *strings.Builder, rv reflect.Value, rtrip, must bool) {
	t := rv.Type()
	switch t.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sb.WriteString(strconv.FormatInt(rv.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sb.WriteString(strconv.FormatUint(rv.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%#x", math.Float64bits(rv.Float()))
	case reflect.String:
		sb.WriteString(strconv.Quote(rv.String()))
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < rv.Len(); i++ {
			canonGoTo(sb, rv.Index(i), rtrip, must)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Pointer:
		if rv.IsNil() {
			if !rtrip || !must || wireOf(t) == 0 {
				sb.WriteString("nil")
				return
			}
			rv = reflect.New(t.Elem())
		}
		sb.WriteString("&")
		canonGoTo(sb, rv.Elem(), rtrip, true)
	case reflect.Struct:
		sb.WriteString("{")
		if rtrip {
			known := map[int]fieldInfo{}
			for _, f := range fieldsOf(t) {
				known[f.index] = f
			}
			for i := 0; i < t.NumField(); i++ {
				f, ok := known[i]
				switch fv := rv.Field(i); {
				case !ok:
					canonGoTo(sb, reflect.Zero(fv.Type()), false, false)
				case !f.required && isZero(fv):
					canonGoTo(sb, reflect.Zero(fv.Type()), false, false)
				default:
					canonGoTo(sb, fv, true, true)
				}
				sb.WriteString("; ")
			}
		} else {
			for i := 0; i < t.NumField(); i++ {
				canonGoTo(sb, rv.Field(i), false, false)
				sb.WriteString("; ")
			}
		}
		sb.WriteString("}")
	case reflect.Map:
		var es []string
		for it := rv.MapRange(); it.Next(); {
			es = append(es, canonGo(it.Key(), rtrip, true)+": "+canonGo(it.Value(), rtrip, true))
		}
		sort.Strings(es)
		fmt.Fprintf(sb, "map[%s]", strings.Join(es, ", "))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "x%x", rv.Bytes())
			return
		}
		sb.WriteString("[")
		for i := 0; i < rv.Len(); i++ {
			canonGoTo(sb, rv.Index(i), rtrip, true)
			sb.WriteString(", ")
		}
		sb.WriteString("]")
	default:
		if rv.IsZero() {
			sb.WriteString("zero")
		} else {
			sb.WriteString("nonzero " + t.String())
		}
	}
}

// ---- Go values ----

// GV describes a Go value of a known type.
type GV struct {
	Nil bool   `json:"nil,omitempty"`
	I   int64  `json:"i,omitempty"`
	D   uint64 `json:"d,omitempty"`
	S   Bytes  `json:"s,omitempty"`
	L   []*GV  `json:"l,omitempty"` // elements, fields, map keys and values, pointee
	J   []*GV  `json:"j,omitempty"` // what the spare capacity of a slice holds
}

type gvgen struct {
	budget int
	big    bool
	junk   bool
}

func (g *gvgen) draw(t *rapid.T, typ reflect.Type, depth int) *GV {
	return g.value(t, typ, depth, false)
}

func (g *gvgen) value(t *rapid.T, typ reflect.Type, depth int, key bool) *GV {
	g.budget--
	v := &GV{}
	small := depth <= 0 || g.budget <= 0
	switch typ.Kind() {
	case reflect.Bool:
		v.I = int64(between(t, "bool", 0, 1))
	case reflect.Int8, reflect.Uint8:
		v.I = drawInt(t, 8)
	case reflect.Int16, reflect.Uint16:
		v.I = drawInt(t, 16)
	case reflect.Int32, reflect.Uint32:
		v.I = drawInt(t, 32)
		if chance(t, 30, "small") {
			v.I = int64(between(t, "int", -2, 8))
		}
	case reflect.Int64, reflect.Uint64:
		v.I = drawInt(t, 64)
	case reflect.Int, reflect.Uint, reflect.Uintptr, reflect.Complex64, reflect.Complex128, reflect.Chan, reflect.Func, reflect.Interface, reflect.UnsafePointer:
		v.I = int64(between(t, "opaque", 0, 5))
	case reflect.Float32:
		v.D = uint64(pick(t, "f32", rapid.Uint32().Draw(t, "bits"), 0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00001, 1, 0x7f7fffff))
		if f := math.Float32frombits(uint32(v.D)); f != f {
			v.D |= 0x400000 // quiet NaNs survive the conversion
			if key && !chance(t, 40, "nan") {
				v.D = 0x40490fdb
			}
		}
	case reflect.Float64:
		v.D = drawDouble(t)
		if f := math.Float64frombits(v.D); key && f != f && !chance(t, 40, "nan") {
			v.D = 0x400921fb54442d18
		}
		if chance(t, 20, "zero") {
			v.D = 0
		}
	case reflect.String:
		v.S = drawBytes(t, g.big)
	case reflect.Array:
		if typ.Elem().Kind() == reflect.Uint8 && typ.Len() == 16 {
			if !chance(t, 30, "zero") {
				v.S = fill(16, rapid.Byte().Draw(t, "uuid"))
			}
		}
	case reflect.Pointer:
		if small || (!key && chance(t, 35, "nil")) {
			if wireOf(typ) == 0 || !key {
				v.Nil = true
				return v
			}
		}
		if wireOf(typ) == 0 && (typ.Elem() == typ || typ.Elem().Kind() == reflect.Pointer) {
			v.Nil = true
			return v
		}
		v.L = []*GV{g.value(t, typ.Elem(), depth, key)}
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			ft := typ.Field(i).Type
			if small && (ft.Kind() == reflect.Slice || ft.Kind() == reflect.Map || ft.Kind() == reflect.Pointer) {
				v.L = append(v.L, &GV{Nil: true})
				continue
			}
			v.L = append(v.L, g.value(t, ft, depth-1, key))
		}
	case reflect.Map:
		switch {
		case small || chance(t, 25, "nil"):
			v.Nil = rapid.Bool().Draw(t, "isnil")
		default:
			n := g.size(t)
			for i := 0; i < n; i++ {
				v.L = append(v.L, g.value(t, typ.Key(), depth-1, true), g.value(t, typ.Elem(), depth-1, false))
			}
		}
	case reflect.Slice:
		if typ.Elem().Kind() == reflect.Uint8 {
			if v.Nil = chance(t, 20, "nil"); !v.Nil {
				v.S = drawBytes(t, g.big)
				if g.junk && chance(t, 30, "spare") {
					v.J = []*GV{{S: fill(between(t, "spare", 1, 20), 0xe0)}}
				}
			}
			return v
		}
		switch {
		case small || chance(t, 25, "nil"):
			v.Nil = rapid.Bool().Draw(t, "isnil")
		default:
			n := g.size(t)
			for i := 0; i < min(n, 5); i++ {
				v.L = append(v.L, g.value(t, typ.Elem(), depth-1, false))
			}
			for i := 5; i < n; i++ {
				v.L = append(v.L, v.L[i%5])
			}
		}
		if g.junk && !v.Nil && !small && chance(t, 40, "spare") {
			for i, n := 0, between(t, "spare", 1, 4); i < n; i++ {
				v.J = append(v.J, g.value(t, typ.Elem(), depth-1, false))
			}
		}
	}
	return v
}

func (g *gvgen) size(t *rapid.T) int {
	k := between(t, "sizekind", 0, 29)
	switch {
	case k < 5:
		return 0
	case k < 26 || !g.big || g.budget < 20:
		return between(t, "size", 1, 4)
	case k < 29:
		return between(t, "size", 13, 18)
	}
	return between(t, "size", 125, 200)
}

func drawGV(t *rapid.T, typ reflect.Type, g gvgen) *GV {
	g.budget = between(t, "budget", 1, 60)
	return g.draw(t, typ, between(t, "depth", 1, 5))
}

// settable gives access to unexported fields of addressable structs.
func settable(rv reflect.Value) reflect.Value {
	if rv.CanSet() {
		return rv
	}
	return reflect.NewAt(rv.Type(), unsafe.Pointer(rv.UnsafeAddr())).Elem()
}

// buildGV stores the described value in the addressable rv.
func buildGV(rv reflect.Value, v *GV) {
	rv = settable(rv)
	t := rv.Type()
	switch t.Kind() {
	case reflect.Bool:
		rv.SetBool(v.I != 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		rv.SetInt(v.I)
	case reflect.Uint8:
		rv.SetUint(uint64(uint8(v.I)))
	case reflect.Uint16:
		rv.SetUint(uint64(uint16(v.I)))
	case reflect.Uint32:
		rv.SetUint(uint64(uint32(v.I)))
	case reflect.Uint64:
		rv.SetUint(uint64(v.I))
	case reflect.Int:
		rv.SetInt(v.I)
	case reflect.Uint, reflect.Uintptr:
		rv.SetUint(uint64(v.I))
	case reflect.Complex64, reflect.Complex128:
		rv.SetComplex(complex(float64(v.I), 1))
	case reflect.Chan:
		if v.I > 2 {
			rv.Set(reflect.MakeChan(t, 1))
		}
	case reflect.Func:
		if v.I > 2 {
			rv.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil }))
		}
	case reflect.Interface:
		for i, x := range []any{nil, int32(3), "text", errInjected, pZInt(v.I), (*pZPtr)(nil), &pZPtr{A: 1}, []int16{1}} {
			if x != nil && int64(i) >= v.I && reflect.TypeOf(x).Implements(t) {
				rv.Set(reflect.ValueOf(x))
				break
			}
		}
	case reflect.Float32:
		rv.SetFloat(float64(math.Float32frombits(uint32(v.D))))
	case reflect.Float64:
		rv.SetFloat(math.Float64frombits(v.D))
	case reflect.String:
		rv.SetString(string(v.S))
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			for i := 0; i < min(len(v.S), t.Len()); i++ {
				rv.Index(i).SetUint(uint64(v.S[i]))
			}
		}
	case reflect.Pointer:
		if !v.Nil && len(v.L) > 0 {
			p := reflect.New(t.Elem())
			buildGV(p.Elem(), v.L[0])
			if p.Type() != t {
				p = p.Convert(t)
			}
			rv.Set(p)
		}
	case reflect.Struct:
		for i := range v.L {
			if i < t.NumField() {
				buildGV(rv.Field(i), v.L[i])
			}
		}
	case reflect.Map:
		if v.Nil {
			return
		}
		rv.Set(reflect.MakeMap(t))
		for i := 0; i+1 < len(v.L); i += 2 {
			k, e := reflect.New(t.Key()).Elem(), reflect.New(t.Elem()).Elem()
			buildGV(k, v.L[i])
			buildGV(e, v.L[i+1])
			rv.SetMapIndex(k, e)
		}
	case reflect.Slice:
		if v.Nil {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			b := append([]byte{}, v.S...)
			if len(v.J) > 0 {
				b = append(b, v.J[0].S...)
			}
			s := reflect.MakeSlice(t, len(b), len(b))
			for i, c := range b {
				s.Index(i).SetUint(uint64(c))
			}
			rv.Set(s.Slice(0, len(v.S)))
			return
		}
		n := len(v.L)
		s := reflect.MakeSlice(t, n+len(v.J), n+len(v.J))
		for i, e := range v.L {
			buildGV(s.Index(i), e)
		}
		for i, e := range v.J {
			buildGV(s.Index(n+i), e)
		}
		rv.Set(s.Slice(0, n))
	}
}

func newGV(t reflect.Type, v *GV) reflect.Value {
	p := reflect.New(t)
	if v != nil {
		buildGV(p.Elem(), v)
	}
	return p
}

// kindsOf labels a type.
func labelType(x *Ctx, y *Ty) {
	if y == nil {
		return
	}
	switch y.K {
	case "pool", "bad":
		x.Label("declared type %s", y.N)
	default:
		x.Label("type kind %s", y.K)
	}
	labelType(x, y.E)
	labelType(x, y.M)
	for _, f := range y.F {
		labelType(x, f.T)
	}
}
