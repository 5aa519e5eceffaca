package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// ---- C15: field tags ----

type tagField struct {
	Raw    string `json:"raw"` // the whole tag
	Hidden bool   `json:"hidden,omitempty"`
	Anon   bool   `json:"anon,omitempty"` // embeds PEmbS
	K      string `json:"k"`
}

type tagCase struct {
	Fields []tagField `json:"fields"`
	Vals   []*GV      `json:"vals"`
	Within string     `json:"within"`           // "", ptr, slice, map, struct
	Static string     `json:"static,omitempty"` // a declared type
}

// Types that reflect.StructOf cannot make: embedded fields of unexported types.
type (
	tagHid struct {
		A int32 `thrift:"1"`
	}
	tagHidZ struct {
		A int32 `thrift:"1"`
	}
	tagInt   int32
	tagIface interface{ M() }
	TagPub   struct {
		A int32 `thrift:"4"`
	}
	TagInt   int16
	TagIface interface{ M() }
	TagBytes []byte

	tagS1 struct {
		tagHid
		B int32 `thrift:"2"`
	}
	tagS2 struct {
		tagHid `thrift:"1"`
		B      int32 `thrift:"2"`
	}
	tagS3 struct {
		tagHid `thrift:"-"`
		B      int32 `thrift:"2"`
	}
	tagS4 struct{ tagHid }
	tagS5 struct {
		*tagHid `thrift:"1,required"`
	}
	tagS6 struct {
		*tagHid
		B bool `thrift:"-2,required"`
	}
	tagS7 struct {
		tagInt `thrift:"1"`
		B      int32 `thrift:"2"`
	}
	tagS8 struct {
		tagInt
		TagInt `thrift:"2"`
	}
	tagS9  struct{ TagPub }
	tagS10 struct {
		TagPub `thrift:"1"`
		A      int32 `thrift:"2"`
	}
	tagS11 struct {
		*TagPub `thrift:"1"`
		A       int32 `thrift:"4,required"`
	}
	tagS12 struct {
		TagPub `thrift:"-"`
		A      int32 `thrift:"4,required"`
	}
	tagS13 struct {
		tagIface
		A int32 `thrift:"4"`
	}
	tagS14 struct {
		tagIface `thrift:"1"`
		A        int32 `thrift:"4"`
	}
	tagS15 struct {
		TagIface `thrift:"-"`
		A        int32 `thrift:"4"`
	}
	tagS16 struct {
		_ int32
		A int32 `thrift:"4"`
	}
	tagS17 struct {
		_ int32 `thrift:"1"`
		A int32 `thrift:"4"`
	}
	tagS18 struct {
		_ struct{} `thrift:"-"`
		_ struct{} `json:"x"`
		A int32    `thrift:"4"`
	}
	tagS19 struct {
		TagBytes `thrift:"9,required"`
		TagInt   `thrift:"9"`
	}
	tagS20 struct {
		TagBytes `thrift:"9,required"`
		TagInt   `thrift:"8"`
	}
	tagS21 struct {
		a, b int32
		tagHid
	}
	tagS22 struct {
		a int32 `thrift:"-"`
	}
	tagS23 struct {
		tagHid `thrift:""`
		A      int32 `thrift:"4"`
	}
	tagS24 struct {
		tagHid   `json:"a"`
		*tagHidZ `json:"b"`
		TagPub   `thrift:"4"`
	}
	tagS25 struct {
		TagPub `json:"1"`
		A      int32 `thrift:"4"`
	}
	tagS26 struct {
		*tagHid `thrift:"-,"`
		A       int32 `thrift:"4"`
	}
	tagS27 struct {
		A, B int32 `thrift:"4"`
	}
	tagS28 struct {
		tagHid
		tagHidZ
	}
	tagS29 struct {
		tagInt
		A int32
	}
	tagS30 struct {
		É  int32 `thrift:"1"`
		É2 bool  `thrift:"2,É"`
		é  int32
	}
	tagS31 struct {
		世 int32 `thrift:"1"`
		A int32 `thrift:"2"`
	}
	tagS32 struct {
		*TagBytes `thrift:"3"`
		*TagInt   `thrift:"1,required"`
	}
)

var tagTypes = map[string]reflect.Type{}

func init() {
	for _, t := range []reflect.Type{
		rt[tagS1](), rt[tagS2](), rt[tagS3](), rt[tagS4](), rt[tagS5](), rt[tagS6](), rt[tagS7](), rt[tagS8](),
		rt[tagS9](), rt[tagS10](), rt[tagS11](), rt[tagS12](), rt[tagS13](), rt[tagS14](), rt[tagS15](), rt[tagS16](),
		rt[tagS17](), rt[tagS18](), rt[tagS19](), rt[tagS20](), rt[tagS21](), rt[tagS22](), rt[tagS23](), rt[tagS24](),
		rt[tagS25](), rt[tagS26](), rt[tagS27](), rt[tagS28](), rt[tagS29](), rt[tagS30](), rt[tagS31](), rt[tagS32](),
	} {
		tagTypes[t.Name()] = t
	}
}

var withins = []string{"", "", "", "ptr", "slice", "map", "struct"}

func drawStaticTags(t *rapid.T) *tagCase {
	c := &tagCase{Within: pick(t, "within", withins...), Static: fmt.Sprintf("tagS%d", between(t, "type", 1, len(tagTypes)))}
	typ := tagTypes[c.Static]
	for i := 0; i < typ.NumField(); i++ {
		v := &GV{Nil: true}
		if f := typ.Field(i); f.IsExported() && wireOf(f.Type) != 0 {
			v = drawGV(t, f.Type, gvgen{})
		}
		c.Vals = append(c.Vals, v)
	}
	return c
}

// drawTag draws the content of a thrift tag.
func drawTag(t *rapid.T, used []int) string {
	var sb strings.Builder
	switch k := between(t, "id", 0, 29); {
	case k < 16:
		id := between(t, "id", -3, 12)
		if len(used) > 0 && chance(t, 6, "same") {
			id = used[between(t, "which", 0, len(used)-1)]
		}
		for range 20 {
			dup := false
			for _, u := range used {
				dup = dup || u == id
			}
			if !dup || chance(t, 10, "dup") {
				break
			}
			id++
		}
		fmt.Fprint(&sb, id)
	case k < 22:
		fmt.Fprint(&sb, pick[int64](t, "id", 32767, -32768, 32768, -32769, 65535, 65536, 32766, 100000, 1<<31, 0, 70000, 40000))
	case k < 26:
		sb.WriteString(pick(t, "id", "", "0x1", "1.0", " 1", "1 ", "a", "required", "-", "--1", "1_000", "٣", "007", "-0", "0b1", "9999999999999999999999", "1e1", "+", "1;required", "required,1", "-00012", "\t1"))
	default:
		fmt.Fprint(&sb, int16(drawInt(t, 16)))
	}
	n := 0
	if chance(t, 50, "options") {
		n = between(t, "options", 1, 3)
	}
	for i := 0; i < n; i++ {
		sb.WriteString(pick(t, "sep", ",", ",", ",", ",", ",", ",", ",", ",", ",,", ";", "", ", "))
		switch k := between(t, "option", 0, 9); {
		case k < 3:
			sb.WriteString("required")
		case k < 4:
			sb.WriteString(pick(t, "bad", "Required", "REQUIRED", "requireD", "re_quired", "required_", "_required", "Re_Quired", "REQUIRED__"))
		case k < 6:
			sb.WriteString(pick(t, "unknown", "optional", "foo", "Required2", "requiredx", "_", "é", "set", "x1", "omitempty", "default", "日本", "required1", "a_b", "x½", "n²Ⅷ", "x٣", "A", "a", "É", "ab", "A_B", "_A", "X1"))
		case k < 7:
			sb.WriteString(pick(t, "odd", "", " required", "required ", "'required'", "1required", "½", "٣x", "x\u0301", "x\u200d", "x$", "-", "re-quired", "a b", "a=b", "\xff", "a\xffb", "required=true", "\"required\"", "1"))
		default:
			sb.WriteString(rapid.StringMatching(`[a-z_]{1,4}`).Draw(t, "option"))
		}
	}
	if chance(t, 4, "trailing") {
		sb.WriteString(",")
	}
	return sb.String()
}

func drawTagCase(t *rapid.T) *tagCase {
	c := &tagCase{Within: pick(t, "within", withins...)}
	var used []int
	anon := false
	sane := rapid.Bool().Draw(t, "sane") // only one field with an unusual tag
	odd := between(t, "odd", 0, 5)
	n := between(t, "fields", 0, 5)
	if chance(t, 3, "wide") {
		n = drawWide(t)
		if sane = chance(t, 80, "sane"); sane {
			odd = pick(t, "odd", n-1, n-1, n-2, between(t, "odd", 0, n))
		}
	}
	for i := 0; i < n; i++ {
		f := tagField{K: pick(t, "kind", "bool", "i8", "i16", "i32", "i64", "string", "bytes", "f64", "uuid")}
		tag := ""
		if sane && i != odd {
			tag = fmt.Sprint(i*3 + 1)
			if rapid.Bool().Draw(t, "required") {
				tag += ",required"
			}
		} else {
			tag = drawTag(t, used)
			f.Hidden = chance(t, 15, "hidden")
		}
		head, _, _ := strings.Cut(tag, ",")
		if id, err := strconv.Atoi(head); err == nil {
			used = append(used, id)
		}
		f.Raw = "thrift:" + strconv.Quote(tag)
		switch k := between(t, "raw", 0, 39); {
		case k < 3:
			f.Raw = `json:"a,required" ` + f.Raw
		case k < 5:
			f.Raw += ` xml:"-"`
		case k < 8 && (!sane || i == odd):
			f.Raw = pick(t, "raw", "", "", `json:"1"`, `thrift:1`, `Thrift:"1"`, `thrift:"-"`, `thrift:"-"`, `thrift:"-,"`, `thrift:"-,required"`, `thrift:""`, `thrift: "1"`, `thrift:"4"`+` thrift:"5"`)
		case k < 10 && f.Hidden:
			f.Raw = pick(t, "raw", "", `thrift:"-"`)
		case k < 12:
			if !anon && !f.Hidden {
				f.Anon, f.K = true, "embedded"
				anon = true
			}
		}
		c.Fields = append(c.Fields, f)
		v := &GV{}
		if !f.Anon {
			g := &gvgen{budget: 5}
			v = g.value(t, scalarTypes[f.K], 3, false)
		} else {
			v.L = []*GV{{I: int64(between(t, "embedded", -3, 3))}}
		}
		c.Vals = append(c.Vals, v)
	}
	return c
}

func (c *tagCase) build() reflect.Type {
	if c.Static != "" {
		typ := tagTypes[c.Static]
		c.Fields = nil
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			c.Fields = append(c.Fields, tagField{Raw: string(f.Tag), Hidden: !f.IsExported(), Anon: f.Anonymous})
		}
		return typ
	}
	var fs []reflect.StructField
	for i, f := range c.Fields {
		sf := reflect.StructField{Name: fmt.Sprintf("F%d", i), Tag: reflect.StructTag(f.Raw)}
		if f.Hidden {
			sf.Name, sf.PkgPath = fmt.Sprintf("f%d", i), "verif"
		}
		if f.Anon {
			sf.Name, sf.Type, sf.Anonymous = "PEmbS", rt[PEmbS](), true
		} else {
			sf.Type = scalarTypes[f.K]
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

const (
	tagReject = iota
	tagIgnore
	tagAccept
	tagEither // not specified
)

// refTag interprets a tag by the documented rules.
func refTag(tag string, has, hidden bool) (what int, id int16, required bool, reason string) {
	if tag == "-" {
		return tagIgnore, 0, false, ""
	}
	if hidden {
		if has {
			return tagReject, 0, false, "tag on an unexported field"
		}
		return tagIgnore, 0, false, ""
	}
	head, rest, opts := strings.Cut(tag, ",")
	n, err := strconv.ParseInt(head, 10, 64)
	digits := strings.TrimLeft(strings.TrimPrefix(strings.TrimPrefix(head, "-"), "+"), "0123456789")
	if err != nil || digits != "" || n < -32768 || n > 32767 {
		return tagReject, 0, false, "no valid id"
	}
	what = tagAccept
	if strings.HasPrefix(head, "+") {
		what = tagEither
	}
	if opts {
		seen := map[string]bool{}
		for _, o := range strings.Split(rest, ",") {
			if o == "" {
				return tagReject, 0, false, "empty option"
			}
			for i, r := range o {
				if r == utf8.RuneError {
					return tagReject, 0, false, "malformed option"
				}
				switch {
				case r == '_' || unicode.IsLetter(r):
				case i > 0 && unicode.IsDigit(r):
				case i > 0 && unicode.IsNumber(r):
					what = tagEither
				default:
					return tagReject, 0, false, "malformed option"
				}
			}
			if o != "required" && strings.ToLower(strings.ReplaceAll(o, "_", "")) == "required" {
				return tagReject, 0, false, "miscapitalised option"
			}
			if seen[o] {
				return tagReject, 0, false, "repeated option"
			}
			seen[o] = true
			required = required || o == "required"
		}
	}
	return what, int16(n), required, ""
}

func checkTags(c *tagCase, x *Ctx) error {
	typ := c.build()
	type fi struct {
		index    int
		id       int16
		required bool
	}
	var fields []fi
	reject, either, hasTag := "", false, false
	ids := map[int16]bool{}
	for i, f := range c.Fields {
		tag, has := reflect.StructTag(f.Raw).Lookup("thrift")
		hasTag = hasTag || has
		what, id, req, reason := refTag(tag, has, f.Hidden)
		switch what {
		case tagReject:
			reject = reason
		case tagEither:
			either = true
			fallthrough
		case tagAccept:
			if ids[id] {
				reject = "repeated id"
			}
			ids[id] = true
			fields = append(fields, fi{i, id, req})
		}
	}
	if len(c.Fields) > 0 && !hasTag && len(fields) == 0 {
		reject = "nothing to serialise"
	}
	if len(c.Fields) > 0 {
		x.NonTrivial()
	}
	sort.Slice(fields, func(i, j int) bool { return fields[i].id < fields[j].id })
	pv := newGV(typ, nil)
	for i := range c.Fields {
		buildGV(pv.Elem().Field(i), c.Vals[i])
	}
	outer, wrap := typ, func(v *V) *V { return v }
	var hold reflect.Value
	switch c.Within {
	case "ptr":
		outer = reflect.PointerTo(typ)
		hold = reflect.New(outer)
		hold.Elem().Set(pv)
	case "slice":
		outer = reflect.SliceOf(typ)
		hold = reflect.New(outer)
		hold.Elem().Set(reflect.Append(hold.Elem(), pv.Elem()))
		wrap = func(v *V) *V { return &V{T: tList, E: tStruct, L: []*V{v}} }
	case "map":
		outer = reflect.MapOf(rt[string](), typ)
		hold = reflect.New(outer)
		hold.Elem().Set(reflect.MakeMap(outer))
		hold.Elem().SetMapIndex(reflect.ValueOf("k"), pv.Elem())
		wrap = func(v *V) *V { return &V{T: tMap, K: tString, E: tStruct, L: []*V{{T: tString, S: []byte("k")}, v}} }
	case "struct":
		outer = reflect.StructOf([]reflect.StructField{{Name: "F", Type: typ, Tag: `thrift:"3,required"`}})
		hold = reflect.New(outer)
		hold.Elem().Field(0).Set(pv.Elem())
		wrap = func(v *V) *V { return &V{T: tStruct, F: []F{{3, v}}} }
	default:
		hold = pv
	}

	if reject != "" {
		x.Label("rejected: %s", reject)
	} else {
		x.Label("accepted")
	}
	check := func(action string, err error) error {
		if err == nil {
			return fmt.Errorf("%s accepts a struct with a bad tag (%s): %v", action, reject, typ)
		}
		var se *thrift.SemanticError
		if !errors.As(err, &se) {
			return fmt.Errorf("%s of %v: not a semantic error: %v", action, typ, err)
		}
		if !strings.Contains(err.Error(), typ.String()) {
			return fmt.Errorf("%s of %v: the error does not name the type: %v", action, typ, err)
		}
		if se.Err == nil || se.Err.Error() == "" {
			return fmt.Errorf("%s of %v (%s): the error has no description: %v", action, typ, reject, err)
		}
		return nil
	}
	first := ""
	for round := 0; round < 2; round++ {
		w := newTokWriter()
		err := thrift.Marshal(w, hold.Interface())
		data := &V{T: tStruct}
		for _, f := range fields {
			data.F = append(data.F, F{f.id, refMarshal(settable(pv.Elem().Field(f.index)))})
		}
		if reject != "" {
			if err := check("Marshal", err); err != nil {
				return err
			}
			uerr := thrift.Unmarshal(newTokReader(tokens(wrap(data), nil)), reflect.New(outer).Interface())
			if err := check("Unmarshal", uerr); err != nil {
				return err
			}
			var a, b *thrift.SemanticError
			errors.As(err, &a)
			errors.As(uerr, &b)
			if a.Err.Error() != b.Err.Error() || round > 0 && a.Err.Error() != first {
				return fmt.Errorf("the error for %v differs from use to use: %v, %v, %v", typ, first, a.Err, b.Err)
			}
			first = a.Err.Error()
			continue
		}
		if err != nil {
			if either {
				return nil
			}
			return fmt.Errorf("Marshal rejects %v: %v", typ, err)
		}
		want := &V{T: tStruct}
		for i, f := range fields {
			if f.required || !isZero(settable(pv.Elem().Field(f.index))) {
				want.F = append(want.F, data.F[i])
			}
		}
		got, rest, err := treeOf(w.toks, wrap(want).T)
		if err != nil || len(rest) > 0 {
			return fmt.Errorf("Marshal of %v: calls are not well formed: %v %v", typ, err, rest)
		}
		if g, w := got.String(), wrap(want).String(); g != w {
			return fmt.Errorf("Marshal of %v:\n got %s\nwant %s", typ, clip(g, 1000), clip(w, 1000))
		}
		target := reflect.New(outer)
		tr := newTokReader(tokens(wrap(data), nil))
		if err := thrift.Unmarshal(tr, target.Interface()); err != nil {
			return fmt.Errorf("Unmarshal of all fields of %v: %v %v", typ, err, tr.misuse)
		}
		in := target.Elem()
		switch c.Within {
		case "ptr":
			in = in.Elem()
		case "slice":
			in = in.Index(0)
		case "map":
			cp := reflect.New(typ).Elem()
			cp.Set(in.MapIndex(reflect.ValueOf("k")))
			in = cp
		case "struct":
			in = in.Field(0)
		}
		known := map[int]bool{}
		for _, f := range fields {
			known[f.index] = true
		}
		for i := range c.Fields {
			wantF := reflect.Zero(typ.Field(i).Type)
			if known[i] {
				wantF = settable(pv.Elem().Field(i))
			}
			if g, w := canonGo(settable(in.Field(i)), false, true), canonGo(wantF, known[i], true); g != w {
				return fmt.Errorf("Unmarshal of %v: field %d is %s instead of %s", typ, i, clip(g, 500), clip(w, 500))
			}
		}
	}
	return nil
}

// ---- C16: unsupported types and bad arguments ----

type badCase struct {
	Ty    *Ty    `json:"ty"`
	V     *GV    `json:"v"`
	Data  *V     `json:"data"`
	Proto string `json:"proto"`
	ByVal bool   `json:"byval,omitempty"`
}

func drawBadCase(t *rapid.T) *badCase {
	c := &badCase{Proto: pick(t, "proto", "binary", "compact", "tokens"), ByVal: chance(t, 25, "byval")}
	c.Ty = drawTy(t, tygen{bad: pick(t, "bad", 3, 10, 25)})
	typ := c.Ty.build()
	c.V = drawGV(t, typ, gvgen{})
	if wireOf(typ) == 0 {
		c.Data = vgen{noBig: true, noDeep: true}.drawValue(t, 0)
	} else {
		c.Data = drawData(t, typ, datagen{unknown: true, mismatch: between(t, "mismatch", 0, 1) * 3})
	}
	return c
}

// mustFail reports whether marshalling has to write something that cannot be
// represented.
func mustFail(rv reflect.Value) bool {
	t := rv.Type()
	if wireOf(t) == 0 {
		return true
	}
	switch t.Kind() {
	case reflect.Pointer:
		if rv.IsNil() {
			return mustFail(reflect.New(t.Elem()).Elem())
		}
		return mustFail(rv.Elem())
	case reflect.Slice:
		if isBytes(t) {
			return false
		}
		if wireOf(t.Elem()) == 0 {
			return true // a header would have to name its type
		}
		for i := 0; i < rv.Len(); i++ {
			if mustFail(rv.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if wireOf(t.Key()) == 0 || wireOf(t.Elem()) == 0 {
			return true
		}
		for it := rv.MapRange(); it.Next(); {
			if mustFail(it.Key()) || mustFail(it.Value()) {
				return true
			}
		}
	case reflect.Struct:
		for _, f := range fieldsOf(t) {
			fv := rv.Field(f.index)
			if wireOf(f.typ) == 0 {
				return true // dropping it would lose it silently
			}
			if (f.required || !safeIsZero(fv)) && mustFail(fv) {
				return true
			}
		}
	}
	return false
}

// safeIsZero is isZero for fields that may be interfaces.
func safeIsZero(rv reflect.Value) bool {
	if rv.Kind() == reflect.Interface {
		if rv.IsNil() {
			return true
		}
		e := rv.Elem()
		if e.Kind() == reflect.Pointer && e.IsNil() {
			return true
		}
		if z, ok := rv.Interface().(interface{ IsZero() bool }); ok && rv.Type().NumMethod() > 0 {
			return z.IsZero()
		}
		return false
	}
	return isZero(rv)
}

func typesWithin(t reflect.Type) map[reflect.Type]bool {
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array:
			walk(t.Elem())
		case reflect.Map:
			walk(t.Key())
			walk(t.Elem())
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		}
	}
	walk(t)
	return seen
}

// descriptive checks that an error is a semantic one that names a type of typ.
func descriptive(err error, typ reflect.Type, action string) error {
	var p *panicError
	if errors.As(err, &p) {
		return err
	}
	var se *thrift.SemanticError
	if !errors.As(err, &se) {
		return fmt.Errorf("%s of %v: not a semantic error: %v", action, typ, err)
	}
	if se.GoType == nil {
		return fmt.Errorf("%s of %v: the error has no type: %v", action, typ, err)
	}
	if !typesWithin(typ)[se.GoType] {
		return fmt.Errorf("%s of %v: the error is about type %v", action, typ, se.GoType)
	}
	if !strings.Contains(err.Error(), se.GoType.String()) {
		return fmt.Errorf("%s of %v: the error does not name type %v: %v", action, typ, se.GoType, err)
	}
	if !strings.Contains(err.Error(), action) {
		return fmt.Errorf("%s of %v: the error does not say so: %v", action, typ, err)
	}
	return nil
}

func checkBad(c *badCase, x *Ctx) error {
	typ := c.Ty.build()
	labelType(x, c.Ty)
	kind := supported(typ)
	if kind > 0 {
		x.NonTrivial()
	}
	p := newGV(typ, c.V)
	in := p.Interface()
	if c.ByVal && typ.Kind() != reflect.Pointer {
		in = p.Elem().Interface()
	}
	must := mustFail(p.Elem())
	if typ.Kind() == reflect.Interface && c.ByVal {
		// Only what is inside is passed on.
		must = false
		if e := p.Elem().Elem(); !e.IsValid() {
			must = true
		} else if e.Kind() == reflect.Pointer && e.IsNil() {
			must = true
		}
		kind = 1
	}
	var buf bytes.Buffer
	var w thriftwire.Writer
	tw := newTokWriter()
	if c.Proto == "tokens" {
		w = tw
	} else {
		w = protoByName(c.Proto).NewWriter(&buf)
	}
	err := thrift.Marshal(w, in)
	switch {
	case err == nil && must:
		return fmt.Errorf("Marshal reports success for a value of type %v that has no representation: %s", typ, clip(canonGo(p.Elem(), false, true), 1000))
	case err != nil && kind == 0:
		return fmt.Errorf("Marshal of a value of the supported type %v failed: %v", typ, err)
	case err != nil && kind == 1 && typ.Kind() == reflect.Interface:
	case err != nil:
		x.Label("marshal error")
		if err := descriptive(err, typ, "marshal"); err != nil {
			return err
		}
	default:
		x.Label("marshal success")
	}
	if err == nil && c.Proto == "tokens" && wireOf(typ) != 0 {
		if _, rest, err := treeOf(tw.toks, wireOf(typ)); err != nil || len(rest) > 0 {
			return fmt.Errorf("Marshal of %v succeeds with ill-formed calls: %v %v", typ, err, rest)
		}
	}

	// Unmarshalling. Whatever the target is, data it cannot hold is an error.
	q := reflect.New(typ)
	a := &applier{}
	werr := a.apply(reflect.New(typ).Elem(), c.Data)
	var r thriftwire.Reader
	if c.Proto == "tokens" {
		r = newTokReader(tokens(c.Data, nil))
	} else {
		r = protoByName(c.Proto).NewReader(bytes.NewReader(encodeAs(c.Proto, nil, c.Data, compactOpts{})))
	}
	err = thrift.Unmarshal(r, q.Interface())
	switch {
	case werr != nil && err == nil:
		return fmt.Errorf("Unmarshal reports success for data that type %v cannot hold (%v): %s", typ, werr, clip(c.Data.String(), 1000))
	case err != nil:
		x.Label("unmarshal error")
		if werr == nil && supported(typ) == 0 && !a.ambiguous {
			return fmt.Errorf("Unmarshal into the supported type %v failed: %v (data %s)", typ, err, clip(c.Data.String(), 1000))
		}
		if err := descriptive(err, typ, "unmarshal"); err != nil {
			return err
		}
	}
	return nil
}

// Arguments.

type argCase struct {
	Ty   *Ty    `json:"ty"`
	Kind string `json:"kind"`
}

var argKinds = []string{"marshal nil", "marshal nil pointer", "marshal value", "unmarshal nil", "unmarshal nil pointer", "unmarshal value", "unmarshal zero value", "marshal any"}

func enumArgs(yield func(*argCase) bool) {
	var tys []*Ty
	for _, n := range scalarNames {
		tys = append(tys, &Ty{K: n})
	}
	for _, n := range poolNames {
		tys = append(tys, &Ty{K: "pool", N: n})
	}
	for _, n := range badNames {
		tys = append(tys, &Ty{K: "bad", N: n})
	}
	for _, y := range tys[:len(tys):len(tys)] {
		tys = append(tys, &Ty{K: "ptr", E: y}, &Ty{K: "slice", E: y}, &Ty{K: "map", M: &Ty{K: "string"}, E: y}, &Ty{K: "array", E: y},
			&Ty{K: "struct", F: []TF{{Tag: "1", T: y}}}, &Ty{K: "struct", F: []TF{{Tag: "1,required", T: y}}}, &Ty{K: "ptr", E: &Ty{K: "ptr", E: y}})
		if y.build().Comparable() && y.N != "any" && y.N != "error" && y.N != "iszeroer" {
			tys = append(tys, &Ty{K: "map", M: y, E: &Ty{K: "bool"}})
		}
	}
	for _, y := range tys {
		for _, k := range argKinds {
			if !yield(&argCase{y, k}) {
				return
			}
		}
	}
}

func checkArgs(c *argCase, x *Ctx) error {
	typ := c.Ty.build()
	x.NonTrivial()
	x.Label(c.Kind)
	w := newTokWriter()
	r := newTokReader(nil)
	var err error
	switch c.Kind {
	case "marshal nil":
		err = thrift.Marshal(w, nil)
	case "marshal any":
		err = thrift.Marshal(w, reflect.Zero(rt[error]()).Interface())
	case "marshal nil pointer":
		err = thrift.Marshal(w, reflect.Zero(reflect.PointerTo(typ)).Interface())
	case "marshal value":
		v := reflect.Zero(typ)
		err = thrift.Marshal(w, v.Interface())
		if typ.Kind() == reflect.Pointer || typ.Kind() == reflect.Interface {
			break // a nil pointer again
		}
		if must := mustFail(v); must != (err != nil) && (must || supported(typ) == 0) {
			return fmt.Errorf("marshalling the zero value of %v: %v", typ, err)
		}
		if err != nil {
			return descriptive(err, typ, "marshal")
		}
		if wireOf(typ) != 0 {
			if _, rest, err := treeOf(w.toks, wireOf(typ)); err != nil || len(rest) > 0 {
				return fmt.Errorf("marshalling the zero value of %v: %v %v", typ, err, rest)
			}
		}
		return nil
	case "unmarshal nil":
		err = thrift.Unmarshal(r, nil)
	case "unmarshal nil pointer":
		err = thrift.Unmarshal(r, reflect.Zero(reflect.PointerTo(typ)).Interface())
	case "unmarshal value":
		if typ.Kind() == reflect.Pointer {
			return nil
		}
		v := reflect.New(typ).Elem()
		switch typ.Kind() {
		case reflect.Map:
			v.Set(reflect.MakeMap(typ))
		case reflect.Slice:
			v.Set(reflect.MakeSlice(typ, 2, 4))
		}
		err = thrift.Unmarshal(r, v.Interface())
	case "unmarshal zero value":
		err = thrift.Unmarshal(r, reflect.Zero(typ).Interface())
	}
	if err == nil {
		return fmt.Errorf("%s with %v: no error", c.Kind, typ)
	}
	if len(w.toks) > 0 || r.calls > 0 || r.failed {
		return fmt.Errorf("%s with %v: calls were made", c.Kind, typ)
	}
	var se *thrift.SemanticError
	if !errors.As(err, &se) {
		return fmt.Errorf("%s with %v: not a semantic error: %v", c.Kind, typ, err)
	}
	if strings.Contains(c.Kind, " nil pointer") || strings.HasSuffix(c.Kind, " value") && typ.Kind() != reflect.Interface && typ.Kind() != reflect.Pointer {
		if !strings.Contains(err.Error(), typ.String()) {
			return fmt.Errorf("%s with %v: the error does not name the type: %v", c.Kind, typ, err)
		}
	}
	return nil
}

// Cyclic and extremely deep values.

type cycleCase struct {
	Shape string `json:"shape"`
	Len   int    `json:"len"` // of the cycle
	Pre   int    `json:"pre"` // levels before it
	Open  bool   `json:"open,omitempty"`
	Wide  bool   `json:"wide,omitempty"`
	Proto string `json:"proto"`
}

var cycleShapes = []string{"list", "map", "next", "kids", "recmap", "set", "mutual", "ptr", "mixed", "key", "mapval", "ptrlist", "ptrset", "ptrptr"}

func enumCycles(yield func(*cycleCase) bool) {
	for _, s := range cycleShapes {
		for _, proto := range []string{"binary", "compact", "tokens"} {
			for _, n := range []int{1, 2, 7} {
				for _, pre := range []int{0, 3} {
					for _, wide := range []bool{false, true} {
						if !yield(&cycleCase{Shape: s, Len: n, Pre: pre, Proto: proto, Wide: wide}) {
							return
						}
					}
				}
			}
			for _, n := range []int{1, 50, 400, 20000, 1000000} {
				if proto == "tokens" && n > 20000 {
					continue
				}
				if !yield(&cycleCase{Shape: s, Len: n, Open: true, Proto: proto}) {
					return
				}
			}
		}
	}
}

// build makes a chain of Pre+Len nodes, the last leading back to the node Pre.
func (c *cycleCase) build() any {
	n := c.Pre + c.Len
	back := func(i int) int {
		if i+1 < n {
			return i + 1
		}
		if c.Open {
			return -1
		}
		return c.Pre
	}
	switch c.Shape {
	case "list":
		ns := make([]pRL, n)
		for i := range ns {
			ns[i] = make(pRL, 1)
			if c.Wide {
				ns[i] = make(pRL, 3)
			}
		}
		for i := range ns {
			if b := back(i); b >= 0 {
				ns[i][0] = ns[b]
			}
		}
		return &ns[0]
	case "map":
		ns := make([]pRM, n)
		for i := range ns {
			ns[i] = pRM{}
		}
		for i := range ns {
			if b := back(i); b >= 0 {
				ns[i]["k"] = ns[b]
			}
			if c.Wide {
				ns[i]["l"], ns[i]["m"] = nil, pRM{}
			}
		}
		return ns[0]
	case "key":
		ns := make([]pKR, n)
		for i := range ns {
			ns[i].V = int16(i)
			if b := back(i); b >= 0 {
				ns[i].M = map[*pKR]bool{&ns[b]: true}
				if c.Wide {
					ns[i].M[nil] = true
				}
			}
		}
		return &ns[0]
	case "mapval", "ptrlist", "ptrset", "ptrptr":
		ns := make([]pVR, n)
		for i := range ns {
			ns[i].M = map[int8]pVR{}
		}
		for i := range ns {
			b := back(i)
			if b < 0 {
				continue
			}
			switch c.Shape {
			case "mapval":
				ns[i].M[3] = pVR{M: ns[b].M}
				if c.Wide {
					ns[i].M[4] = pVR{}
				}
			case "ptrlist":
				ns[i].L = []*pVR{&ns[b]}
				if c.Wide {
					ns[i].L = []*pVR{nil, &ns[b], nil}
				}
			case "ptrset":
				ns[i].S = thrift.Set[*pVR]{&ns[b]}
			case "ptrptr":
				p := &ns[b]
				ns[i].PP = &p
			}
		}
		return &ns[0]
	case "mutual":
		as, bs := make([]pMutA, n), make([]pMutB, n)
		for i := range as {
			as[i].B = &bs[i]
			bs[i].A = make([]pMutA, 1)
		}
		for i := range as {
			if b := back(i); b >= 0 {
				bs[i].A[0].B = &bs[b]
			}
		}
		return as[0]
	case "ptr":
		var p bPtr
		p = &p
		return p
	case "set":
		ns := make([]pRSE, n)
		for i := range ns {
			ns[i].S = make(pRSSet, 1)
			ns[i].V = 1
		}
		for i := range ns {
			if b := back(i); b >= 0 {
				ns[i].S[0] = ns[b]
			}
		}
		return &ns[0]
	}
	ns := make([]*pRec, n)
	for i := range ns {
		ns[i] = &pRec{V: int32(i + 1)}
	}
	for i := range ns {
		b := back(i)
		if b < 0 {
			continue
		}
		k := c.Shape
		if k == "mixed" {
			k = []string{"next", "recmap", "kids", "set2"}[i%4]
		}
		switch k {
		case "next":
			ns[i].Next = ns[b]
		case "recmap":
			ns[i].M = map[string]*pRec{"k": ns[b]}
			if c.Wide {
				ns[i].M["l"] = nil
			}
		case "kids":
			ns[i].Kids = make([]pRec, 1)
		case "set2":
			ns[i].S = make(thrift.Set[pRec], 1)
		}
	}
	// Elements of slices are copies, which share what they refer to.
	for i := n - 1; i >= 0; i-- {
		b := back(i)
		if b < 0 {
			continue
		}
		if ns[i].Kids != nil {
			ns[i].Kids[0] = *ns[b]
		}
		if ns[i].S != nil {
			ns[i].S[0] = *ns[b]
		}
	}
	return ns[0]
}

func checkCycle(c *cycleCase, x *Ctx) error {
	x.NonTrivial()
	x.Label(c.Shape)
	in := c.build()
	var err error
	if c.Proto == "tokens" {
		w := newTokWriter()
		err = thrift.Marshal(w, in)
		if err == nil && c.Open {
			if _, rest, err := treeOf(w.toks, wireOf(reflect.TypeOf(in))); err != nil || len(rest) > 0 {
				return fmt.Errorf("%+v: ill-formed calls: %v", *c, err)
			}
		}
	} else {
		w := protoByName(c.Proto).NewWriter(io.Discard)
		if err = thrift.Marshal(w, in); err == nil {
			err = w.Flush()
		}
	}
	if err == nil && (!c.Open || c.Shape == "ptr") {
		// The copies in slices may have broken the cycle: kids and set
		// chains end where a slice was copied before it was filled.
		if c.Shape == "kids" || c.Shape == "set" || c.Shape == "mixed" {
			x.Label("not a cycle")
			return nil
		}
		return fmt.Errorf("marshalling a cyclic value (%+v) reports success", *c)
	}
	if err != nil && c.Open && c.Len <= 400 && c.Shape != "ptr" {
		return fmt.Errorf("marshalling a value %d levels deep (%s) failed: %v", c.Len, c.Shape, err)
	}
	if err != nil {
		x.Label("error")
		return descriptive(err, reflect.TypeOf(in), "marshal")
	}
	x.Label("success")
	return nil
}

// ---- C17: independence ----

type indepCase struct {
	Ty    []*Ty  `json:"ty"` // of the values decoded one after the other
	Prior []*GV  `json:"prior"`
	Data  []*V   `json:"data"`
	From  string `json:"from"`
	Sizes []int  `json:"sizes"`
	Buf   int    `json:"buf"`    // size of a bufio.Reader of the caller
	Raw   []int  `json:"raw"`    // how the extra strings and names after each value are read
	Reset bool   `json:"resets"` // Reset the reader half way
}

func drawIndepCase(t *rapid.T) *indepCase {
	c := &indepCase{From: pick(t, "from", "binary", "nonstrict", "compact", "tokens"), Sizes: drawSizes(t), Buf: pick(t, "buf", 0, 0, 16, 100, 4096, 65536), Reset: chance(t, 20, "reset")}
	for i, n := 0, between(t, "values", 1, 4); i < n; i++ {
		var y *Ty
		if i > 0 && chance(t, 40, "same") {
			y = c.Ty[0]
		} else if chance(t, 40, "strings") {
			y = pick(t, "ty", &Ty{K: "slice", E: &Ty{K: "bytes"}}, &Ty{K: "map", M: &Ty{K: "string"}, E: &Ty{K: "bytes"}}, &Ty{K: "bytes"}, &Ty{K: "slice", E: &Ty{K: "string"}},
				&Ty{K: "slice", E: &Ty{K: "ptr", E: &Ty{K: "i32"}}}, &Ty{K: "map", M: &Ty{K: "i8"}, E: &Ty{K: "ptr", E: &Ty{K: "bytes"}}}, &Ty{K: "map", M: &Ty{K: "i8"}, E: &Ty{K: "slice", E: &Ty{K: "bytes"}}},
				&Ty{K: "map", M: &Ty{K: "bool"}, E: &Ty{K: "pool", N: "pRec"}}, &Ty{K: "slice", E: &Ty{K: "pool", N: "pAllReq"}}, &Ty{K: "slice", E: &Ty{K: "map", M: &Ty{K: "i8"}, E: &Ty{K: "slice", E: &Ty{K: "i16"}}}},
				&Ty{K: "pool", N: "Set[[]byte]"}, &Ty{K: "map", M: &Ty{K: "string"}, E: &Ty{K: "struct", F: []TF{{Tag: "1", T: &Ty{K: "bytes"}}, {Tag: "2", T: &Ty{K: "ptr", E: &Ty{K: "i64"}}}, {Tag: "3", T: &Ty{K: "slice", E: &Ty{K: "i64"}}}}}})
		} else {
			y = drawTy(t, tygen{})
		}
		c.Ty = append(c.Ty, y)
		typ := y.build()
		var prior *GV
		if chance(t, 30, "prior") {
			prior = drawGV(t, typ, gvgen{junk: true})
		}
		c.Prior = append(c.Prior, prior)
		c.Data = append(c.Data, drawData(t, typ, datagen{unknown: true, big: chance(t, 40, "big")}))
		c.Raw = append(c.Raw, between(t, "raw", 0, 5))
	}
	return c
}

type region struct {
	lo, hi uintptr
	what   string
	ro     bool // a string
}

// regions lists the memory a value refers to.
func regions(rv reflect.Value, path string, out []region) []region {
	add := func(p unsafe.Pointer, size uintptr, what string, ro bool) {
		if p != nil && size > 0 {
			out = append(out, region{uintptr(p), uintptr(p) + size, what, ro})
		}
	}
	t := rv.Type()
	switch t.Kind() {
	case reflect.String:
		s := rv.String()
		add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), path, true)
	case reflect.Pointer:
		if !rv.IsNil() {
			add(rv.UnsafePointer(), t.Elem().Size(), path, false)
			out = regions(rv.Elem(), path+"*", out)
		}
	case reflect.Slice:
		if !rv.IsNil() {
			add(rv.UnsafePointer(), uintptr(rv.Cap())*t.Elem().Size(), path, false)
			if t.Elem().Kind() > reflect.Complex128 {
				for i := 0; i < rv.Len(); i++ {
					out = regions(rv.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
				}
			}
		}
	case reflect.Map:
		if !rv.IsNil() {
			add(rv.UnsafePointer(), 8, path, false)
			for it := rv.MapRange(); it.Next(); {
				k := fmt.Sprintf("%s[%s]", path, clip(canonGo(it.Key(), false, true), 30))
				out = regions(it.Key(), "key "+k, out)
				out = regions(it.Value(), k, out)
			}
		}
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			out = regions(rv.Field(i), fmt.Sprintf("%s.%s", path, t.Field(i).Name), out)
		}
	}
	return out
}

func disjoint(rs []region) error {
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	// the region reaching furthest so far, of all and of the writable ones
	var any, rw region
	for _, r := range rs {
		o := rw
		if !r.ro {
			o = any
		}
		if r.lo < o.hi {
			return fmt.Errorf("%s and %s share memory", o.what, r.what)
		}
		if r.hi > any.hi {
			any = r
		}
		if !r.ro && r.hi > rw.hi {
			rw = r
		}
	}
	return nil
}

func checkIndep(c *indepCase, x *Ctx) error {
	x.Label("from %s", c.From)
	// The stream: values, each followed by some strings.
	extra := func(i int) *V {
		return &V{T: tString, S: fill(20+i*3000*(c.Raw[i]%2), byte(i))}
	}
	var data []byte
	var toks []Tok
	half := -1
	for i, v := range c.Data {
		if i == len(c.Data)/2 && i > 0 {
			half = len(data)
		}
		if c.From == "tokens" {
			toks = tokens(extra(i), tokens(v, toks))
		} else {
			data = refEncode(c.From, refEncode(c.From, data, v), extra(i))
		}
	}
	source := append([]byte{}, data...)
	var r thriftwire.Reader
	var in io.Reader
	if c.From == "tokens" {
		tr := newTokReader(toks)
		tr.grow = true
		r = tr
	} else {
		first := source
		if c.Reset && half > 0 {
			first = source[:half]
		}
		in = &scriptReader{b: first, sizes: c.Sizes, end: io.EOF}
		switch {
		case c.Buf == 100:
			in = bytes.NewReader(first)
		case c.Buf > 0:
			in = newBufio(in, c.Buf)
		}
		r = protoByName(c.From).NewReader(in)
	}
	var vals []reflect.Value
	var snaps []string
	var rs []region
	if len(source) > 0 {
		rs = append(rs, region{uintptr(unsafe.Pointer(&source[0])), uintptr(unsafe.Pointer(&source[0])) + uintptr(len(source)), "the source", false})
	}
	snap := func(v reflect.Value, what string) error {
		vals = append(vals, v)
		snaps = append(snaps, canonGo(v, false, true))
		rs = regions(v, what, rs)
		return nil
	}
	for i := range c.Data {
		if i == len(c.Data)/2 && half > 0 && c.Reset && c.From != "tokens" {
			r.Reset(&scriptReader{b: source[half:], sizes: c.Sizes, end: io.EOF})
		}
		p := newGV(c.Ty[i].build(), c.Prior[i])
		if err := thrift.Unmarshal(r, p.Interface()); err != nil {
			return fmt.Errorf("unmarshalling value %d, %s, into %v: %v", i, clip(c.Data[i].String(), 500), p.Type(), err)
		}
		snap(p, fmt.Sprintf("value %d", i))
		e := extra(i)
		var got reflect.Value
		var err error
		switch c.Raw[i] / 2 {
		case 0:
			var b []byte
			b, err = r.ReadBytes(nil)
			got = reflect.ValueOf(&b)
		case 1:
			var s string
			s, err = r.ReadString()
			got = reflect.ValueOf(&s)
		default:
			b := make([]byte, 3, 3+len(e.S)*(c.Raw[i]%2))
			b, err = r.ReadBytes(b)
			if err == nil {
				b = b[3:]
			}
			got = reflect.ValueOf(&b)
		}
		if err != nil {
			return fmt.Errorf("reading the string after value %d: %v", i, err)
		}
		snap(got, fmt.Sprintf("string after value %d", i))
	}
	if len(vals) > 2 || c.Data[0].nodes() > 2 {
		x.NonTrivial()
	}
	if err := disjoint(rs); err != nil {
		return fmt.Errorf("%v (types %v, from %s)", err, typeNames(c.Ty), c.From)
	}
	// Overwrite and reuse everything else.
	for i := range source {
		source[i] ^= 0xff
	}
	for i := range toks {
		toks[i].S = ""
	}
	if in != nil {
		r.Reset(bytes.NewReader(fill(200000, 9)))
		for i := 0; i < 5; i++ {
			r.ReadByte()
		}
		r.ReadBytes(make([]byte, 0, 10))
		r.ReadString()
	}
	for i, v := range vals {
		if s := canonGo(v, false, true); s != snaps[i] {
			return fmt.Errorf("what was decoded (%s, number %d) changed while something else was read:\nnow    %s\nbefore %s", v.Type(), i, clip(s, 500), clip(snaps[i], 500))
		}
	}
	// Changing one value does not change the others.
	for i, v := range vals {
		scribble(v.Elem(), 0)
		for j := i + 1; j < len(vals); j++ {
			if s := canonGo(vals[j], false, true); s != snaps[j] {
				return fmt.Errorf("changing decoded value %d changes value %d", i, j)
			}
		}
	}
	return nil
}

func typeNames(ys []*Ty) (s []string) {
	for _, y := range ys {
		s = append(s, y.build().String())
	}
	return
}

// scribble overwrites everything a value refers to, spare capacity included.
func scribble(rv reflect.Value, depth int) {
	if depth > 400 {
		return
	}
	switch rv.Kind() {
	case reflect.Pointer:
		if !rv.IsNil() {
			scribble(rv.Elem(), depth+1)
		}
	case reflect.Slice:
		if rv.IsNil() {
			return
		}
		s := rv.Slice3(0, rv.Cap(), rv.Cap())
		for i := 0; i < s.Len(); i++ {
			if i < rv.Len() {
				scribble(s.Index(i), depth+1)
			}
			s.Index(i).SetZero()
			if s.Index(i).Kind() == reflect.Uint8 {
				s.Index(i).SetUint(0xd7)
			}
		}
	case reflect.Map:
		// Keys that are not equal to themselves can only be reached by
		// iterating, and only be removed by clearing the map.
		for it := rv.MapRange(); it.Next(); {
			e := reflect.New(rv.Type().Elem()).Elem()
			e.Set(it.Value())
			scribble(e, depth+1)
		}
		rv.Clear()
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			if rv.Field(i).CanSet() {
				scribble(rv.Field(i), depth+1)
			}
		}
	}
}

// exactGo renders a value with everything that can be observed of it:
// addresses, nil-ness, spare capacity.
func exactGo(sb *strings.Builder, rv reflect.Value) {
	switch rv.Kind() {
	case reflect.Pointer:
		fmt.Fprintf(sb, "&%x", rv.Pointer())
		if !rv.IsNil() {
			exactGo(sb, rv.Elem())
		}
	case reflect.Slice:
		fmt.Fprintf(sb, "s%x/%d/%d", rv.Pointer(), rv.Len(), rv.Cap())
		s := rv.Slice3(0, rv.Cap(), rv.Cap())
		if s.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x", s.Bytes())
			return
		}
		for i := 0; i < s.Len(); i++ {
			sb.WriteString(",")
			exactGo(sb, s.Index(i))
		}
	case reflect.Map:
		fmt.Fprintf(sb, "m%x/%d", rv.Pointer(), rv.Len())
		var es []string
		for it := rv.MapRange(); it.Next(); {
			var kb strings.Builder
			exactGo(&kb, it.Key())
			kb.WriteString(":")
			exactGo(&kb, it.Value())
			es = append(es, kb.String())
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, ";"))
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < rv.NumField(); i++ {
			exactGo(sb, settableOrSame(rv.Field(i)))
			sb.WriteString(";")
		}
		sb.WriteString("}")
	default:
		canonGoTo(sb, rv, false, false)
	}
}

func settableOrSame(rv reflect.Value) reflect.Value {
	if rv.CanAddr() {
		return settable(rv)
	}
	return rv
}

func checkLeavesInput(c *goCase, x *Ctx) error {
	typ := c.Ty.build()
	p := newGV(typ, c.V)
	if refMarshal(p.Elem()).nodes() >= 3 {
		x.NonTrivial()
	}
	var before strings.Builder
	exactGo(&before, p)
	in := c.in(p)
	for _, proto := range []string{"tokens", "binary", "compact"} {
		var w thriftwire.Writer = newTokWriter()
		if proto != "tokens" {
			w = protoByName(proto).NewWriter(io.Discard)
		}
		if err := c.marshalTo(w, in); err != nil {
			return fmt.Errorf("marshalling %v with %s failed: %v", typ, proto, err)
		}
		var after strings.Builder
		exactGo(&after, p)
		if before.String() != after.String() {
			return fmt.Errorf("marshalling a %v with %s changes it (addresses, lengths and spare capacity included):\nbefore %s\nafter  %s", typ, proto, clip(before.String(), 1500), clip(after.String(), 1500))
		}
	}
	return nil
}

// ---- C26: errors ----

var thriftNames = map[byte]string{tBool: "bool", tByte: "byte", tDouble: "double", tI16: "i16", tI32: "i32", tI64: "i64", tString: "string", tStruct: "struct", tMap: "map", tSet: "set", tList: "list", tUUID: "uuid"}

func sameType(got, want reflect.Type) bool {
	for got != nil && got.Kind() == reflect.Pointer && got != want {
		got = got.Elem()
	}
	return got == want
}

// checkSemantic checks that err identifies the Go and Thrift types.
func checkSemantic(err error, what, action string, goType reflect.Type, wires ...byte) error {
	var se *thrift.SemanticError
	if !errors.As(err, &se) {
		return fmt.Errorf("%s: not a semantic error: %T %v", what, err, err)
	}
	if !sameType(se.GoType, goType) {
		return fmt.Errorf("%s: the error is about Go type %v instead of %v: %v", what, se.GoType, goType, err)
	}
	text := err.Error()
	if !strings.Contains(text, se.GoType.String()) {
		return fmt.Errorf("%s: the text does not name Go type %v: %v", what, se.GoType, err)
	}
	if !strings.Contains(text, action) {
		return fmt.Errorf("%s: the text does not say %q: %v", what, action, err)
	}
	if len(wires) == 0 {
		return nil
	}
	if !bytes.Contains(wires, []byte{byte(se.ThriftType)}) {
		return fmt.Errorf("%s: the error is about Thrift type %v instead of %v: %v", what, se.ThriftType, thriftwire.Type(wires[0]), err)
	}
	if n := thriftNames[byte(se.ThriftType)]; n != "" && !strings.Contains(strings.ToLower(strings.Replace(text, se.GoType.String(), "", 1)), n) {
		return fmt.Errorf("%s: the text does not name Thrift type %v: %v", what, se.ThriftType, err)
	}
	return nil
}

func drawMismatchCase(t *rapid.T) *applyCase {
	c := &applyCase{From: pick(t, "from", "binary", "compact", "tokens")}
	g := tygen{}
	if chance(t, 20, "unsupported") {
		g.bad = 8
	}
	c.Ty = drawTy(t, g)
	typ := c.Ty.build()
	if wireOf(typ) == 0 {
		c.Data = []*V{vgen{noBig: true, noDeep: true}.drawValue(t, 0)}
	} else {
		c.Data = []*V{drawData(t, typ, datagen{unknown: true, mismatch: between(t, "mismatch", 5, 30)})}
	}
	return c
}

func checkMismatch(c *applyCase, x *Ctx) error {
	typ := c.Ty.build()
	v := c.Data[0]
	a := &applier{}
	werr := a.apply(reflect.New(typ).Elem(), v)
	var m *mismatchError
	if werr == nil || !errors.As(werr, &m) || a.ambiguous {
		return nil
	}
	static := supported(typ) == 0
	var r thriftwire.Reader
	if c.From == "tokens" {
		r = newTokReader(tokens(v, nil))
	} else {
		r = protoByName(c.From).NewReader(bytes.NewReader(encodeAs(c.From, nil, v, c.Opts)))
	}
	x.NonTrivial()
	err := thrift.Unmarshal(r, reflect.New(typ).Interface())
	what := fmt.Sprintf("unmarshalling %s into %v, where %v", clip(v.String(), 800), typ, m)
	if err == nil {
		return fmt.Errorf("%s: no error", what)
	}
	if !static { // an unsupported type may be found before the mismatch
		x.Label("unsupported type")
		return descriptive(err, typ, "unmarshal")
	}
	x.Label("type %d", m.wire)
	return checkSemantic(err, what, "unmarshal", m.goType, m.wire)
}

// owner says which Go type a call is made for.
type owner struct {
	op    string
	goT   reflect.Type
	wires []byte
}

// ownersW lists the calls that marshal rv with their types.
func ownersW(rv reflect.Value, out []owner) []owner {
	t := rv.Type()
	if t.Kind() == reflect.Pointer {
		if rv.IsNil() {
			rv = reflect.New(t.Elem())
		}
		return ownersW(rv.Elem(), out)
	}
	wire := wireOf(t)
	o := func(op string) owner { return owner{op, t, []byte{wire}} }
	switch wire {
	case tStruct:
		out = append(out, o("StructBegin"))
		fs := fieldsOf(t)
		sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
		for _, f := range fs {
			fv := rv.Field(f.index)
			if !f.required && isZero(fv) {
				continue
			}
			out = append(out, o("FieldBegin"))
			out = ownersW(fv, out)
			out = append(out, o("FieldEnd"))
		}
		return append(out, o("StructEnd"))
	case tMap:
		out = append(out, o("MapBegin"))
		for it := rv.MapRange(); it.Next(); {
			out = ownersW(it.Key(), out)
			out = ownersW(it.Value(), out)
		}
		return append(out, o("MapEnd"))
	case tList, tSet:
		n := "List"
		if wire == tSet {
			n = "Set"
		}
		out = append(out, o(n+"Begin"))
		for i := 0; i < rv.Len(); i++ {
			out = ownersW(rv.Index(i), out)
		}
		return append(out, o(n+"End"))
	}
	return append(out, o(opOfType[wire]))
}

func checkWriteOwner(c *failCase, x *Ctx) error {
	typ := c.Go.Ty.build()
	p := newGV(typ, c.Go.V)
	if refMarshal(p.Elem()).hasWideMap() {
		return nil
	}
	os := ownersW(p.Elem(), nil)
	if len(os) > 2 {
		x.NonTrivial()
	}
	for _, k := range positions(len(os), c.Extra) {
		w := newTokWriter()
		w.failAt, w.fail = k, c.err()
		err := thrift.Marshal(w, c.Go.in(p))
		what := fmt.Sprintf("marshalling %v, call %d (%s) fails", typ, k, os[k].op)
		if w.failOp != os[k].op {
			return fmt.Errorf("marshalling %v: call %d is %q instead of %s", typ, k, w.failOp, os[k].op)
		}
		if err == nil {
			return fmt.Errorf("%s: no error", what)
		}
		if err := checkSemantic(err, what, "marshal", os[k].goT, os[k].wires...); err != nil {
			return err
		}
		if !errors.Is(err, w.fail) {
			return fmt.Errorf("%s: the cause is not found in %v", what, err)
		}
		if !strings.Contains(err.Error(), w.fail.Error()) {
			return fmt.Errorf("%s: the text does not name the cause %v: %v", what, w.fail, err)
		}
	}
	return nil
}

// ownersR lists the calls that unmarshal v into a type.
func ownersR(t reflect.Type, v *V, out []owner) []owner {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	o := func(op string) owner { return owner{op, t, []byte{v.T}} }
	switch v.T {
	case tStruct:
		byID := map[int16]reflect.Type{}
		for _, f := range fieldsOf(t) {
			byID[f.id] = f.typ
		}
		out = append(out, o("StructBegin"))
		for _, f := range v.F {
			out = append(out, o("FieldBegin"))
			if ft := byID[f.ID]; ft != nil {
				out = ownersR(ft, f.V, out)
			} else {
				// Any type on the way may be named.
				wires := []byte{tStruct, 0}
				f.V.walk(func(x *V) { wires = append(wires, x.T) })
				for _, k := range tokens(f.V, nil) {
					out = append(out, owner{k.Op, t, wires})
				}
			}
			out = append(out, o("FieldEnd"))
		}
		return append(out, o("FieldBegin"), o("StructEnd"))
	case tMap:
		out = append(out, o("MapBegin"))
		for i, e := range v.L {
			et := t.Key()
			if i%2 == 1 {
				et = t.Elem()
			}
			out = ownersR(et, e, out)
		}
		return append(out, o("MapEnd"))
	case tList, tSet:
		n := "List"
		if v.T == tSet {
			n = "Set"
		}
		out = append(out, o(n+"Begin"))
		for _, e := range v.L {
			out = ownersR(t.Elem(), e, out)
		}
		return append(out, o(n+"End"))
	}
	return append(out, o(opOfType[v.T]))
}

func drawReadOwnerCase(t *rapid.T) *failCase {
	c := drawReadCallsCase(t)
	for c.Cut.Mode != "unmarshal" {
		c = drawReadCallsCase(t)
	}
	return c
}

func checkReadOwner(c *failCase, x *Ctx) error {
	typ := c.Cut.Ty.build()
	toks := tokens(c.Cut.V, nil)
	os := ownersR(typ, c.Cut.V, nil)
	if len(os) != len(toks) {
		fault("owners")
	}
	if len(os) > 2 {
		x.NonTrivial()
	}
	ps := positions(len(os), c.Extra)
	if len(ps) > 100 {
		ps = ps[:100]
	}
	for _, k := range ps {
		r := newTokReader(toks)
		r.failAt, r.fail, r.junk = k, c.err(), c.Junk
		err := thrift.Unmarshal(r, newGV(typ, c.Prior).Interface())
		what := fmt.Sprintf("unmarshalling %s into %v, call %d (%s) fails", clip(c.Cut.V.String(), 500), typ, k, os[k].op)
		if err == nil {
			return fmt.Errorf("%s: no error", what)
		}
		if err := checkSemantic(err, what, "unmarshal", os[k].goT, os[k].wires...); err != nil {
			return err
		}
		if !errors.Is(err, r.fail) {
			return fmt.Errorf("%s: the cause is not found in %v", what, err)
		}
		if !strings.Contains(err.Error(), r.fail.Error()) {
			return fmt.Errorf("%s: the text does not name the cause %v: %v", what, r.fail, err)
		}
	}
	return nil
}

type codeCase struct {
	Code int  `json:"code"`
	Msg  bool `json:"msg"`
}

func enumCodes(yield func(*codeCase) bool) {
	for i := 0; i < 256; i++ {
		if !yield(&codeCase{i, false}) || !yield(&codeCase{i, true}) {
			return
		}
	}
}

func checkCode(c *codeCase, x *Ctx) error {
	x.NonTrivial()
	names := map[byte]string{0: "stop", 1: "call", 2: "reply", 3: "exception", 4: "oneway"}
	var s, e string
	valid := c.Code >= 1 && c.Code <= 4
	if c.Msg {
		t := thriftwire.MessageType(c.Code)
		s, e = t.String(), thriftwire.InvalidMessageTypeError(t).Error()
	} else {
		names = thriftNames
		t := thriftwire.Type(c.Code)
		s, e = t.String(), thriftwire.InvalidTypeError(t).Error()
		_, valid = thriftNames[byte(c.Code)]
		if c.Code == 0 {
			valid = true
			names = map[byte]string{0: "stop"}
		}
	}
	if fmt.Sprint(s) == "" || !strings.Contains(e, s) {
		return fmt.Errorf("code %d prints as %q, its error as %q", c.Code, s, e)
	}
	if valid {
		if strings.ToLower(s) != names[byte(c.Code)] {
			return fmt.Errorf("code %d prints as %q instead of %q", c.Code, s, names[byte(c.Code)])
		}
	} else if digits := strings.TrimFunc(s, func(r rune) bool { return !unicode.IsDigit(r) }); digits != strconv.Itoa(c.Code) {
		return fmt.Errorf("invalid code %d prints as %q", c.Code, s)
	}
	if c.Msg || valid && c.Code != 0 {
		return nil
	}
	// Invalid types are rejected when skipped.
	var ite thriftwire.InvalidTypeError
	bad := byte(c.Code)
	if err := thriftwire.Skip(newTokReader([]Tok{{Op: "Byte"}}), thriftwire.Type(bad)); !errors.As(err, &ite) || byte(ite) != bad {
		return fmt.Errorf("skipping a value of type %d: %v", bad, err)
	}
	lists := []Tok{{Op: "ListBegin", E: bad, N: 1}, {Op: "ListEnd"}}
	if err := thriftwire.Skip(newTokReader(lists), thriftwire.List); !errors.As(err, &ite) || byte(ite) != bad {
		return fmt.Errorf("skipping a list of type %d: %v", bad, err)
	}
	if bad == 0 {
		return nil
	}
	toks := []Tok{{Op: "StructBegin"}, {Op: "FieldBegin", T: bad, ID: 77}, {Op: "Byte"}}
	err := thrift.Unmarshal(newTokReader(toks), new(pBase))
	if err == nil {
		return fmt.Errorf("unmarshalling an unknown field of type %d succeeds", bad)
	}
	if !errors.As(err, &ite) || byte(ite) != bad {
		return fmt.Errorf("unmarshalling an unknown field of type %d: %v", bad, err)
	}
	if err := checkSemantic(err, fmt.Sprintf("unknown field of type %d", bad), "unmarshal", rt[pBase]()); err != nil {
		return err
	}
	toks[1].ID = 1
	err = thrift.Unmarshal(newTokReader(toks), new(pBase))
	if err == nil {
		return fmt.Errorf("unmarshalling a field of type %d succeeds", bad)
	}
	return checkSemantic(err, fmt.Sprintf("field of type %d", bad), "unmarshal", rt[int64](), bad)
}

func init() {
	register(&property{
		id:   "C15",
		rule: "structs of up to 5 fields with generated tags (valid, out of range, malformed, repeated, miscapitalised, on hidden and embedded fields), marshalled and unmarshalled twice, directly and within other types; non-trivial: at least one field",
		subs: []*subDef{
			sub("tags", 200000, 3000000, drawTagCase, checkTags),
			sub("declared", 5000, 50000, drawStaticTags, checkTags),
		},
		assumptions: []string{"ids with a plus sign and options with numbers that are no digits may be accepted or rejected"},
	})
	register(&property{
		id:   "C16",
		rule: "random types with unsupported parts and random values and data; all bad arguments for all types of a list; cyclic and up to a million levels deep values; non-trivial: the type has an unsupported part",
		subs: []*subDef{
			sub("types", 50000, 900000, drawBadCase, checkBad),
			enumSub("arguments", enumArgs, checkArgs),
			enumSub("cycles", enumCycles, checkCycle),
		},
		assumptions: []string{"unsupported types nested within containers or fields that hold no data may be accepted or rejected; lists and maps whose own elements have no Thrift type are rejected", "values deeper than 400 levels may be rejected"},
	})
	register(&property{
		id:   "C17",
		rule: "sequences of values decoded from one reader, memory regions compared, then source, buffers and the values themselves overwritten; values with spare capacity marshalled and compared bit by bit; non-trivial: more than one value or more than two nodes",
		subs: []*subDef{
			sub("decode", 30000, 500000, drawIndepCase, checkIndep),
			sub("encode", 25000, 400000, drawGoCase, checkLeavesInput),
		},
	})
	register(&property{
		id:   "C26",
		rule: "mismatching data for random types; every call of random values failing once; all 256 type and message type codes; non-trivial: a mismatch; more than two calls",
		subs: []*subDef{
			sub("mismatch", 40000, 600000, drawMismatchCase, checkMismatch),
			sub("write", 5000, 80000, drawWriteCallsCase, checkWriteOwner),
			sub("read", 5000, 80000, drawReadOwnerCase, checkReadOwner),
			enumSub("codes", enumCodes, checkCode),
		},
		assumptions: []string{"for failures within unknown fields any Thrift type on the way may be named"},
	})
}
