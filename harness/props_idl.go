package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	gotoken "go/token"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"pgregory.net/rapid"
)

// Src is source text; in JSON a string if it is one.
type Src []byte

func (s Src) MarshalJSON() ([]byte, error) {
	if utf8.Valid(s) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"hex": hex.EncodeToString(s)})
}

func (s *Src) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		var x string
		err := json.Unmarshal(b, &x)
		*s = Src(x)
		return err
	}
	var x struct{ Hex string }
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	v, err := hex.DecodeString(x.Hex)
	*s = v
	return err
}

// ---- generator of token sequences ----

// gtok is a token, or a slot for an optional list separator.
type gtok struct {
	text string
	slot bool
}

type idlgen struct {
	t      *rapid.T
	toks   []gtok
	budget int
}

func (g *idlgen) emit(ss ...string) {
	for _, s := range ss {
		g.toks = append(g.toks, gtok{text: s})
	}
	g.budget -= len(ss)
}

func (g *idlgen) slot() { g.toks = append(g.toks, gtok{slot: true}) }

func (g *idlgen) n(label string, max int) int {
	if g.budget <= 0 {
		return 0
	}
	switch between(g.t, label, 0, 9) {
	case 0, 1:
		return 0
	case 2, 3, 4:
		return 1
	case 9:
		return between(g.t, label, 2, max)
	}
	return between(g.t, label, 1, 3)
}

var idlNames = []string{
	"a", "b", "i32", "string", "bool", "x", "_", "__", "A1", "foo.Bar", "a.b.c", "structs", "Struct", "STRUCT", "struct_",
	"_struct", "maps", "lis", "list1", "setter", "voidx", "e10", "x1F", "E", "one.way", "struct.a", "a.struct", "in", "if",
	"constant", "unions", "exceptions", "serviceName", "i", "nan", "inf", "TRUE", "true", "binary", "slist", "namespaces",
	"include_", "required1", "optional_", "extend", "throw", "cpp_type", "_1", "a_1.b_2", "é", "naïve", "変数", "aé1", "éa.b9",
	"x\u0661", "ⅷ_"[len("ⅷ"):], "ünion",
}

func (g *idlgen) name() {
	if chance(g.t, 35, "random name") {
		first := "abcxyzABCXYZ_"
		rest := first + "0189_"
		b := []byte{first[between(g.t, "c", 0, len(first)-1)]}
		for i, n := 0, between(g.t, "len", 0, 8); i < n; i++ {
			if chance(g.t, 8, "dot") {
				b = append(b, '.')
			}
			b = append(b, rest[between(g.t, "c", 0, len(rest)-1)])
		}
		if isIDLKeyword(string(b)) {
			b = append(b, '_')
		}
		g.emit(string(b))
		return
	}
	g.emit(pick(g.t, "name", idlNames...))
}

func (g *idlgen) fieldName() {
	if chance(g.t, 15, "keyword as name") {
		g.emit(pick(g.t, "keyword", idlKeywords...))
		return
	}
	g.name()
}

func (g *idlgen) intLit() {
	if chance(g.t, 50, "small int") {
		g.emit(strconv.Itoa(between(g.t, "int", -20, 300)))
		return
	}
	g.emit(pick(g.t, "int", "0", "00", "007", "+1", "-1", "-0", "0x0", "0x1F", "0X1f", "-0XE0", "0Xabc", "0xdeadBEEF", "-0xff", "+0x7", "32767", "-32768",
		"9223372036854775807", "-9223372036854775808", "99999999999999999999999", "+42", "0x10e5", "08", "09", "+00", "-9", "0xFFFFFFFFFFFFFFFFF", "10"))
}

func (g *idlgen) floatLit() {
	g.emit(pick(g.t, "float", "0.0", "1.5", "-1.5e10", "1e5", "1E+5", "00.5", "1e-7", "+3.14", "3.14159265358979323846", "-0.0",
		"0e0", "12345.678E-90", "1.0e+300", "007.25"))
}

var strPieces = []string{
	"a", "hello", " ", "\t", `\n`, `\r`, `\t`, `\\`, "//", "/*", "*/", "#", "é", "変", "😀", ";", "{", "}", "struct", "1.5", "\u00a0",
	"\x01", "\x7f", "\ufffd", `\\\\`, "../x.thrift", "\u2028",
}

func (g *idlgen) strLit() {
	q := pick(g.t, "quote", `"`, `'`)
	s := q
	for i, n := 0, between(g.t, "pieces", 0, 4); i < n; i++ {
		switch between(g.t, "piece", 0, 7) {
		case 0:
			s += `\` + q
		case 1:
			s += map[string]string{`"`: `'`, `'`: `"`}[q]
		default:
			s += pick(g.t, "piece", strPieces...)
		}
	}
	g.emit(s + q)
}

func (g *idlgen) annotations(pct int) {
	if g.budget < -50 || !chance(g.t, pct, "annotations") {
		return
	}
	g.emit("(")
	for i, n := 0, g.n("annotations", 4); i < n; i++ {
		g.name()
		if chance(g.t, 60, "annotation value") {
			g.emit("=")
			g.strLit()
		}
		g.slot()
	}
	g.emit(")")
}

func (g *idlgen) typ(d int) {
	k := between(g.t, "type", 0, 9)
	if d > 6 || g.budget <= 0 {
		k = 0
	}
	switch k {
	case 7:
		g.emit("map", "<")
		g.typ(d + 1)
		g.emit(",")
		g.typ(d + 1)
		g.emit(">")
	case 8:
		g.emit("set", "<")
		g.typ(d + 1)
		g.emit(">")
	case 9:
		g.emit("list", "<")
		g.typ(d + 1)
		g.emit(">")
	default:
		g.name()
	}
	g.annotations(7)
}

func (g *idlgen) value(d int) {
	k := between(g.t, "value", 0, 9)
	if d > 6 || g.budget <= 0 {
		k = 0
	}
	switch k {
	case 3, 4:
		g.intLit()
	case 5:
		g.floatLit()
	case 6, 7:
		g.strLit()
	case 8:
		g.emit("[")
		for i, n := 0, g.n("elements", 6); i < n; i++ {
			g.value(d + 1)
			g.slot()
		}
		g.emit("]")
	case 9:
		g.emit("{")
		for i, n := 0, g.n("pairs", 6); i < n; i++ {
			g.value(d + 1)
			g.emit(":")
			g.value(d + 1)
			g.slot()
		}
		g.emit("}")
	default:
		g.name()
	}
}

func (g *idlgen) field() {
	if chance(g.t, 70, "id") {
		g.intLit()
		g.emit(":")
	}
	switch between(g.t, "requiredness", 0, 4) {
	case 0:
		g.emit("required")
	case 1:
		g.emit("optional")
	}
	g.typ(0)
	if chance(g.t, 8, "reference") {
		g.emit("&")
	}
	g.fieldName()
	if chance(g.t, 25, "default") {
		g.emit("=")
		g.value(1)
	}
	g.annotations(10)
	g.slot()
}

func (g *idlgen) fields(open, close string) {
	g.emit(open)
	for i, n := 0, g.n("fields", 8); i < n; i++ {
		g.field()
	}
	g.emit(close)
}

func (g *idlgen) header() {
	if chance(g.t, 50, "include") {
		g.emit("include")
		g.strLit()
		return
	}
	g.emit("namespace")
	if chance(g.t, 30, "all scopes") {
		g.emit("*")
	} else {
		g.name()
	}
	g.name()
	g.annotations(10)
}

func (g *idlgen) def() {
	switch between(g.t, "definition", 0, 9) {
	case 0, 1:
		g.emit("const")
		g.typ(0)
		g.name()
		g.emit("=")
		g.value(0)
		g.slot()
	case 2:
		g.emit("typedef")
		g.typ(0)
		g.name()
		g.annotations(20)
		g.slot()
	case 3, 4:
		g.emit("enum")
		g.name()
		g.emit("{")
		for i, n := 0, g.n("enum values", 8); i < n; i++ {
			g.name()
			if chance(g.t, 50, "enum number") {
				g.emit("=")
				g.intLit()
			}
			g.annotations(10)
			g.slot()
		}
		g.emit("}")
		g.annotations(10)
	case 5, 6, 7:
		g.emit(pick(g.t, "kind", "struct", "union", "exception"))
		g.name()
		g.fields("{", "}")
		g.annotations(10)
	default:
		g.emit("service")
		g.name()
		if chance(g.t, 30, "extends") {
			g.emit("extends")
			g.name()
		}
		g.emit("{")
		for i, n := 0, g.n("methods", 5); i < n; i++ {
			if chance(g.t, 20, "oneway") {
				g.emit("oneway")
			}
			if chance(g.t, 40, "void") {
				g.emit("void")
			} else {
				g.typ(0)
			}
			g.name()
			g.fields("(", ")")
			if chance(g.t, 30, "throws") {
				g.emit("throws")
				g.fields("(", ")")
			}
			g.annotations(10)
			g.slot()
		}
		g.emit("}")
		g.annotations(10)
	}
}

// drawIDL draws the tokens of a valid document.
func drawIDL(t *rapid.T, maxDefs int) *idlgen {
	g := &idlgen{t: t, budget: pick(t, "budget", 20, 60, 60, 150)}
	for i, n := 0, between(t, "headers", 0, 3); i < n && chance(t, 70, "header"); i++ {
		g.header()
	}
	b := g.budget
	for i, n := 0, between(t, "definitions", 0, maxDefs); i < n; i++ {
		g.budget = b
		g.def()
	}
	return g
}

// resolve fills the separator slots.
func resolve(t *rapid.T, toks []gtok) (out []string) {
	style := between(t, "separators", 0, 3)
	for _, k := range toks {
		if !k.slot {
			out = append(out, k.text)
			continue
		}
		switch style {
		case 0:
			out = append(out, ",")
		case 1:
			out = append(out, ";")
		case 2:
		case 3:
			if s := pick(t, "separator", "", ",", ";"); s != "" {
				out = append(out, s)
			}
		}
	}
	return
}

func wordRune(r rune) bool {
	return r == '_' || r == '.' || unicode.IsLetter(r) || unicode.IsDigit(r) || r >= 0x80
}

// fuses reports whether a and b may be taken for something else without
// anything between them.
func fuses(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	x, _ := utf8.DecodeLastRuneInString(a)
	y, _ := utf8.DecodeRuneInString(b)
	switch {
	case wordRune(x) && wordRune(y):
		return true
	case x == '+' || x == '-':
		return wordRune(y)
	case x == '=':
		return y == '='
	case x == '/':
		return y == '/' || y == '*'
	}
	return false
}

var gapComments = []string{
	"/**/", "/***/", "/* c */", "/****/", "/* ** / */", "/* // # \" ' */", "/*\n\n*/", "/* struct X {} */", "/*/*/", "/* é */", "/* \\ */",
	"/* a *//* b */", "/*\r\n * x\r\n **/", "/*'*/", "/*\"*/", "/* **/",
	"// c\n", "//\n", "///\n", "// /* \n", "# c\n", "#\n", "## \" '\n", "// é \r\n", "//* x\n", "# */\n", "# struct Y {}\r\n", "// \\\n", "#'\n", "//\"\n",
}

var gapSpaces = []string{" ", "\n", "\t", "\r\n", "  ", "\n\n", "\r", " \t\r\n "}

// drawGap draws what stands between two tokens.
func drawGap(t *rapid.T, style int, need, last bool) string {
	switch style {
	case 0:
		if need {
			return " "
		}
		return ""
	case 1:
		return pick(t, "gap", " ", " ", " ", "\n")
	}
	s := ""
	for i := 0; i < 4; i++ {
		switch between(t, "gap", 0, 7) {
		case 0, 1, 2:
			if !need || s != "" {
				return s
			}
			s += " "
		case 3, 4, 5:
			s += pick(t, "space", gapSpaces...)
		case 6:
			s += pick(t, "comment", gapComments...)
			if style == 3 {
				s += " "
			}
		case 7:
			c := pick(t, "comment", "//", "#", "/*")
			for i, n := 0, between(t, "words", 0, 3); i < n; i++ {
				c += pick(t, "word", "x", " ", "*", "/", "#", "\"", "é", "struct", "*/"[:1], "\t", "\r", "\v", "\\", "\u2028", "\x7f", "\x01", "'")
			}
			if chance(t, 2, "long comment") {
				c += strings.Repeat(pick(t, "word", "x", " ", "é", "*", "# "), pick(t, "n", 100, 300, 1100, 5000, 17000, 70000)+between(t, "more", 0, 9))
			}
			if strings.HasPrefix(c, "/*") {
				c = "/*" + strings.ReplaceAll(c[2:], "*/", "* /")
				s += c + " */"
			} else if last && chance(t, 30, "open end") {
				return s + c
			} else {
				s += c + "\n"
			}
		}
	}
	if need && s == "" {
		s = " "
	}
	return s
}

// drawGaps draws the gaps around tokens.
func drawGaps(t *rapid.T, toks []string) (gaps []string) {
	style := pick(t, "layout", 0, 1, 2, 2)
	for i := 0; i <= len(toks); i++ {
		need := i > 0 && i < len(toks) && fuses(toks[i-1], toks[i])
		st := style
		if i > 0 && (strings.HasSuffix(toks[i-1], "/") || strings.HasSuffix(toks[i-1], "*")) && st > 1 {
			// A comment directly after these may make another token.
			st = 1
		}
		gaps = append(gaps, drawGap(t, st, need, i == len(toks)))
	}
	return
}

// render joins tokens and gaps; offs are the offsets of the tokens and the end.
func render(bom bool, toks, gaps []string) (src []byte, offs []int) {
	if bom {
		src = append(src, "\ufeff"...)
	}
	for i, k := range toks {
		src = append(src, gaps[i]...)
		offs = append(offs, len(src))
		src = append(src, k...)
	}
	src = append(src, gaps[len(toks)]...)
	return src, append(offs, len(src))
}

func drawRendered(t *rapid.T, toks []string) []byte {
	src, _ := render(chance(t, 10, "bom"), toks, drawGaps(t, toks))
	return src
}

// ---- running the parser ----

type parsed struct {
	file *thriftfile.File
	base int
	errs []lineCol // the reported positions, in order
	all  bool      // errs has all of them
	msg  string
}

type lineCol struct{ line, col int }

const idlName = "f.thrift"

var errPos = regexp.MustCompile(`^(\d+):(\d+): (?s:.)`)

// parseIDL runs the parser.
func parseIDL(fset *gotoken.FileSet, name string, src []byte) (*parsed, error) {
	p := &parsed{base: fset.Base()}
	in := bytes.Clone(src)
	f, err := thriftfile.Parse(fset, name, in)
	if !bytes.Equal(in, src) {
		return nil, fmt.Errorf("the parser changed its input")
	}
	if f == nil {
		return nil, fmt.Errorf("no tree returned (error: %v)", err)
	}
	p.file = f
	if err == nil {
		return p, nil
	}
	p.msg = err.Error()
	pos := func(e error) (lineCol, error) {
		s := e.Error()
		if name != "" {
			if !strings.HasPrefix(s, name+":") {
				return lineCol{}, fmt.Errorf("error does not begin with the file name: %.200q", s)
			}
			s = s[len(name)+1:]
		}
		m := errPos.FindStringSubmatch(s)
		if m == nil {
			return lineCol{}, fmt.Errorf("error without position: %.200q", e.Error())
		}
		l, _ := strconv.Atoi(m[1])
		c, _ := strconv.Atoi(m[2])
		return lineCol{l, c}, nil
	}
	first, e := pos(err)
	if e != nil {
		return nil, e
	}
	p.errs = []lineCol{first}
	// The errors behind the first one, if the error is a list.
	var list []error
	if u, ok := err.(interface{ Unwrap() []error }); ok {
		list = u.Unwrap()
	} else if v := reflect.ValueOf(err); v.Kind() == reflect.Slice {
		for i := 0; i < v.Len(); i++ {
			x, ok := v.Index(i).Interface().(error)
			if !ok {
				list = nil
				break
			}
			list = append(list, x)
		}
	}
	if list != nil {
		p.errs = nil
		for _, x := range list {
			lc, e := pos(x)
			if e != nil {
				return nil, e
			}
			p.errs = append(p.errs, lc)
		}
		if len(p.errs) == 0 || p.errs[0] != first {
			return nil, fmt.Errorf("error %.200q is not about the first of the errors", p.msg)
		}
		p.all = true
	}
	return p, nil
}

// offsets turns the positions of errors into offsets.
func (p *parsed) offsets(src []byte) (offs []int, err error) {
	lines := []int{0}
	for i, c := range src {
		if c == '\n' {
			lines = append(lines, i+1)
		}
	}
	for _, e := range p.errs {
		if e.line < 1 || e.line > len(lines) || e.col < 1 {
			return nil, fmt.Errorf("error position %d:%d is outside of the file with %d lines", e.line, e.col, len(lines))
		}
		end := len(src)
		if e.line < len(lines) {
			end = lines[e.line] - 1
			if e.line == len(lines)-1 && lines[e.line] == len(src) {
				// The end of a file that ends with a newline.
				end = len(src)
			}
		}
		off := lines[e.line-1] + e.col - 1
		if off > end {
			return nil, fmt.Errorf("error position %d:%d is behind the end of the line", e.line, e.col)
		}
		offs = append(offs, off)
	}
	return
}

func (p *parsed) sorted() error {
	for i := 1; i < len(p.errs); i++ {
		a, b := p.errs[i-1], p.errs[i]
		if b.line < a.line || b.line == a.line && b.col < a.col {
			return fmt.Errorf("errors are not ordered by position: %d:%d before %d:%d", a.line, a.col, b.line, b.col)
		}
	}
	return nil
}

// badDefs calls f with the offsets of the placeholders.
func (p *parsed) tree(bad func(from, to int) string) *idlTree {
	c := &idlConv{bad: func(b *thriftfile.BadDef) string { return bad(int(b.From)-p.base, int(b.To)-p.base) }}
	return c.file(p.file)
}

func offsetTree(from, to int) string { return fmt.Sprintf("(bad %d %d)", from, to) }

func diffTree(got, want *idlTree) error {
	cmp := func(what string, g, w []string) error {
		for i := 0; i < max(len(g), len(w)); i++ {
			switch {
			case i >= len(g):
				return fmt.Errorf("%s %d is missing: want %.600s", what, i, w[i])
			case i >= len(w):
				return fmt.Errorf("%s %d is not in the document: got %.600s", what, i, g[i])
			case g[i] != w[i]:
				return fmt.Errorf("%s %d:\n got %.1500s\nwant %.1500s", what, i, g[i], w[i])
			}
		}
		return nil
	}
	if err := cmp("header", got.Headers, want.Headers); err != nil {
		return err
	}
	return cmp("definition", got.Defs, want.Defs)
}

// checkIDL compares the parser with the reference.
func checkIDL(src []byte, x *Ctx) (verdict, error) {
	v, lo, hi, tok, want, toks := refParse(src, nil)
	p, err := parseIDL(gotoken.NewFileSet(), idlName, src)
	if err != nil {
		return v, err
	}
	if err := p.sorted(); err != nil {
		return v, err
	}
	switch v {
	case unspecified:
		return v, nil
	case accept:
		if p.msg != "" {
			return v, fmt.Errorf("valid document rejected: %s", p.msg)
		}
		return v, diffTree(p.tree(offsetTree), want)
	}
	if p.msg == "" {
		return v, fmt.Errorf("invalid document accepted: %s is not possible at offset %d", toks[tok].kind, lo)
	}
	offs, err := p.offsets(src)
	if err != nil {
		return v, err
	}
	if offs[0] < lo || offs[0] > hi {
		where := fmt.Sprintf("%d", lo)
		if hi > lo {
			where = fmt.Sprintf("%d to %d", lo, hi)
		}
		return v, fmt.Errorf("first error at offset %d (%d:%d), want offset %s (%s): %s", offs[0], p.errs[0].line, p.errs[0].col, where, toks[tok].kind, p.msg)
	}
	if x != nil && toks[tok].kind == "eof" {
		x.Label("error at the end")
	}
	return v, nil
}

// ---- C18 ----

type idlCase struct {
	Src Src `json:"src"`
}

func labelIDL(toks []string, x *Ctx) {
	for _, k := range toks {
		if isIDLKeyword(k) {
			x.Label("%s", k)
		}
	}
	switch n := len(toks); {
	case n == 0:
		x.Label("size 0")
	case n < 20:
		x.Label("size 1-19")
	case n < 100:
		x.Label("size 20-99")
	default:
		x.Label("size 100+")
	}
}

func checkValidIDL(c *idlCase, x *Ctx) error {
	v, _, _, tok, tree, toks := refParse(c.Src, nil)
	if v != accept {
		fault("reference rejects %q at token %d", c.Src, tok)
	}
	var ks []string
	for _, k := range toks {
		ks = append(ks, k.kind)
		switch k.kind {
		case "&", "(", "[", "{", "float", "=":
			x.Label("with %s", k.kind)
		}
	}
	labelIDL(ks[:len(ks)-1], x)
	if len(tree.Defs) > 0 {
		x.NonTrivial()
	}
	_, err := checkIDL(c.Src, x)
	return err
}

func drawValidIDL(t *rapid.T) *idlCase {
	g := drawIDL(t, 6)
	return &idlCase{Src: drawRendered(t, resolve(t, g.toks))}
}

// manyCase is a document with many of the same. %d in the unit is replaced
// by its number.
type manyCase struct {
	Pre  string `json:"pre"`
	Unit string `json:"unit"`
	Post string `json:"post"`
	N    int    `json:"n"`
}

func checkManyIDL(c *manyCase, x *Ctx) error {
	var b []byte
	b = append(b, c.Pre...)
	for i := 0; i < c.N; i++ {
		b = append(b, strings.ReplaceAll(c.Unit, "%d", strconv.Itoa(i))...)
	}
	return checkValidIDL(&idlCase{Src: Src(append(b, c.Post...))}, x)
}

// enumManyIDL goes through everything that can be repeated, often enough to
// notice what is not undone after each.
func enumManyIDL(yield func(*manyCase) bool) {
	anns := " (a%d = \"x\")"
	for _, c := range []manyCase{
		{"", "typedef list<i32> T%d\n", "", 0},
		{"", "const map<i32, set<x>> C%d = {%d: [1, 2]}\n", "", 0},
		{"", "struct S%d { 1: i32 a = %d }\n", "", 0},
		{"", "service V%d { oneway void f(1: i32 a) throws (1: E e) }\n", "", 0},
		{"", "enum E%d { A = %d, B }\n", "", 0},
		{"", "include \"f%d.thrift\"\n", "", 0},
		{"", "namespace n%d x%d\n", "", 0},
		{"", "# comment %d\n", "struct S {}", 0},
		{"", "// comment %d\n", "", 0},
		{"", "/* comment %d */ ", "enum E {}", 0},
		{"", "\n", "enum E {}", 0},
		{"struct S {", "%d: i32 a%d,\n", "}", 0},
		{"struct S {", "%d: required list<i32> a%d;\n", "}", 0},
		{"struct S {", "%d: map<i32, list<x>> a%d\n", "}", 0},
		{"struct S {", "optional set<i32> a%d = [%d]\n", "}", 0},
		{"union S {", "%d: i32 a%d = {}\n", "}", 0},
		{"exception S {", "%d: X& a%d (cpp.ref = \"\")\n", "}", 0},
		{"service S {", "list<i32> m%d(),\n", "}", 0},
		{"service S {", "void m%d(1: set<i32> a = [], 2: i32 b) throws (1: E e)\n", "}", 0},
		{"service S { void m(", "%d: list<i32> a%d, ", ")}", 0},
		{"service S { void m() throws (", "%d: E a%d ", ")}", 0},
		{"enum E {", "A%d = %d,", "}", 0},
		{"enum E {", "A%d" + anns + "\n", "}", 0},
		{"const list<i32> C = [", "%d, ", "]", 0},
		{"const list<i32> C = [", "a%d ", "]", 0},
		{"const list<i32> C = [", "[%d] ", "]", 0},
		{"const list<i32> C = [", "{%d: [], 1: {}};", "]", 0},
		{"const map<i32, i32> C = {", "%d: %d, ", "}", 0},
		{"const map<i32, i32> C = {", "[%d]: {1: 2}\n", "}", 0},
		{"const string C = \"", "%d ", "\"", 0},
		{"const i32 C", "%d", " = 1", 0},
		{"const X.Y", ".a%d", " C = 1", 0},
		{"struct S {} (", "a%d = \"%d\",", ")", 0},
		{"struct S { 1: i32 f (", "a%d ", ")}", 0},
		{"/*", "* / %d", "*/", 0},
		{"// ", "word %d ", "\nenum E {}", 0},
		{"enum A {} # ", "é%d", "\nenum E {}", 0},
		{"enum A {} /* ", "%d\n", " */ enum E {}", 0},
		{"const i32 C = 1", "%d", "\nenum E {}", 0},
		{"const i32 C = 0", "0", "\nenum E {}", 0},
		{"const i32 C = [-7", "7%d", ", 2]", 0},
		{"const i32 C = +0xa", "%d", "\nenum E {}", 0},
		{"const double C = 1.5", "%d", "\nenum E {}", 0},
		{"const double C = 1", "%d", ".25e-7\nenum E {}", 0},
		{"const double C = 1e+0", "%d", "\nenum E {}", 0},
		{"struct S { 1", "%d", ": i32 a = 7 }", 0},
		{"enum E { A = 1", "%d", ", B }", 0},
		{"struct S {", " ", "}", 0},
		{"struct S {", "\t\r\n", "1: i32 a }", 0},
		{"const string C = '", "\\n\\\\", "'", 0},
		{"const string C = '", "日\"", "' enum E {}", 0},
	} {
		for _, n := range []int{0, 1, 300, 12000, 70000} {
			if n == 0 && (strings.HasPrefix(c.Pre, "struct S {} (") || strings.HasSuffix(c.Pre, "f (") || c.Pre == "const X.Y") {
				continue
			}
			c := c
			c.N = n
			if !yield(&c) {
				return
			}
		}
	}
}

// drawBigIDL draws documents with something long or deep.
func drawBigIDL(t *rapid.T) *idlCase {
	g := &idlgen{t: t, budget: 10}
	for i, n := 0, between(t, "before", 0, 2); i < n; i++ {
		g.def()
	}
	n := pick(t, "n", 50, 200, 600, 1500)
	name := func(i int) string { return "n" + strconv.Itoa(i) }
	switch between(t, "big", 0, 11) {
	case 0:
		g.emit("enum", "E", "{")
		for i := 0; i < n; i++ {
			g.emit(name(i))
			if i%3 == 0 {
				g.emit("=", strconv.Itoa(i))
			}
			g.slot()
		}
		g.emit("}")
	case 1:
		g.emit("struct", "S", "{")
		for i := 0; i < n; i++ {
			g.emit(strconv.Itoa(i), ":", "i32", name(i))
			g.slot()
		}
		g.emit("}")
	case 2:
		g.emit("const", "list", "<", "i32", ">", "L", "=", "[")
		for i := 0; i < n; i++ {
			g.emit(strconv.Itoa(i))
			g.slot()
		}
		g.emit("]")
	case 3:
		g.emit("const", "T", "L", "=", "{")
		for i := 0; i < n; i++ {
			g.emit(strconv.Itoa(i), ":", name(i))
			g.slot()
		}
		g.emit("}")
	case 4:
		g.emit("typedef")
		for i := 0; i < n; i++ {
			g.emit(pick(t, "container", "list", "set"), "<")
		}
		g.emit("x")
		for i := 0; i < n; i++ {
			g.emit(">")
		}
		g.emit("T")
	case 5:
		g.emit("const", "T", "L", "=")
		for i := 0; i < n; i++ {
			g.emit("[")
		}
		for i := 0; i < n; i++ {
			g.emit("]")
		}
	case 6:
		g.emit("struct", "S", "{", "T", "f", "=")
		for i := 0; i < n; i++ {
			g.emit("{", name(i), ":")
		}
		g.emit("1")
		for i := 0; i < n; i++ {
			g.emit("}")
		}
		g.emit("}")
	case 7:
		g.emit("typedef")
		for i := 0; i < n; i++ {
			g.emit("map", "<")
		}
		g.emit("k")
		for i := 0; i < n; i++ {
			g.emit(",", "v", ">")
		}
		g.emit("T")
	case 8:
		g.emit("struct", "S", "{", "}", "(")
		for i := 0; i < n; i++ {
			g.emit(name(i), "=", strconv.Quote(name(i)))
			g.slot()
		}
		g.emit(")")
	case 9:
		for i := 0; i < n; i++ {
			g.emit("struct", name(i), "{", "}")
		}
	case 10:
		g.emit("service", "S", "{")
		for i := 0; i < n; i++ {
			g.emit("void", name(i), "(", ")")
			g.slot()
		}
		g.emit("}")
	case 11:
		g.emit("const", "string", strings.Repeat("x", n*3), "=", `"`+strings.Repeat("é", n*5)+`"`)
		g.slot()
	}
	for i, n := 0, between(t, "after", 0, 2); i < n; i++ {
		g.def()
	}
	toks := resolve(t, g.toks)
	gaps := make([]string, len(toks)+1)
	if chance(t, 50, "spread") {
		long := pick(t, "gap", " ", "\n", "/* x */", "// x\n")
		for i := range gaps {
			gaps[i] = long
		}
	} else {
		for i := range gaps {
			if i > 0 && i < len(toks) && fuses(toks[i-1], toks[i]) {
				gaps[i] = " "
			}
		}
		at := between(t, "at", 0, len(toks))
		gaps[at] += pick(t, "long gap", "/*"+strings.Repeat(" *x", n)+"*/", "//"+strings.Repeat("é", n)+"\n", strings.Repeat("\n", n), strings.Repeat("#\n", n), strings.Repeat("/**/", n))
	}
	src, _ := render(false, toks, gaps)
	return &idlCase{Src: src}
}

// ---- C19 ----

var wrongToks = append([]string{
	"(", "[", "{", ",", ")", "]", "}", ";", ":", "<", ">", "*", "&", "=", "==", "+", "-", "/", "%", "|", "^", "!", ".",
	"1", "-1", "1.5", `"s"`, `'t'`, "x", "a.b",
}, idlKeywords...)

func mutateToks(t *rapid.T, toks []string) []string {
	toks = append([]string{}, toks...)
	for i, n := 0, pick(t, "mutations", 1, 1, 1, 2, 3); i < n; i++ {
		at := between(t, "at", 0, len(toks))
		if at == len(toks) || chance(t, 25, "insert") {
			toks = append(toks[:at:at], append([]string{pick(t, "token", wrongToks...)}, toks[at:]...)...)
			continue
		}
		switch between(t, "mutation", 0, 6) {
		case 0, 1:
			toks = append(toks[:at:at], toks[at+1:]...)
		case 2, 3:
			toks[at] = pick(t, "token", wrongToks...)
		case 4:
			toks = append(toks[:at+1:at+1], toks[at:]...)
		case 5:
			if at+1 < len(toks) {
				toks[at], toks[at+1] = toks[at+1], toks[at]
			}
		case 6:
			toks = toks[:at]
		}
	}
	return toks
}

func checkInvalidIDL(c *idlCase, x *Ctx) error {
	v, err := checkIDL(c.Src, x)
	switch v {
	case accept:
		x.Label("valid")
	case reject:
		x.Label("invalid")
		x.NonTrivial()
	case unspecified:
		x.Label("not specified")
	}
	return err
}

func drawTokenErrors(t *rapid.T) *idlCase {
	toks := mutateToks(t, resolve(t, drawIDL(t, 4).toks))
	return &idlCase{Src: drawRendered(t, toks)}
}

// drawLexErrors puts lexical faults into a valid document.
func drawLexErrors(t *rapid.T) *idlCase {
	toks := resolve(t, drawIDL(t, 4).toks)
	if chance(t, 15, "token errors too") {
		toks = mutateToks(t, toks)
	}
	gaps := drawGaps(t, toks)
	bad := pick(t, "character", "\x00", "\xff", "\xc3", "\x80", "\xed\xa0\x80", "\ufeff", "\xf0\x9f\x98", "\xc0\x80", "\xf4\x90\x80\x80")
	illegal := pick(t, "illegal", "$", "@", "?", "~", "`", "\\", "\x01", "\x7f", "\f", "\v", "€", "😀", "\u00a0", "\u0661", "½", "+", "-", "/ ", "%", "!", "|", ".", "\ufffd", "\u0301")
	n := 1
	if chance(t, 20, "twice") {
		n = 2
	}
	for i := 0; i < n; i++ {
		at := between(t, "at", 0, len(toks))
		switch between(t, "fault", 0, 11) {
		case 10, 11: // almost a number
			k := pick(t, "digits", "0", "1", "7", "00", "12", "0x1", "1.5", "1e5", "-1", "+7") + pick(t, "then", "x", "x5", "X5", "xAB", "xg", "abc", "b1", "e", "e+", "E-5", "e5e5", ".", "..", ".5.5", "x", "_", "_1", "é", "u", "xx1", ".e1", "e.1", "-1", "+1", "0x1")
			var is []int
			for i, k := range toks {
				if c := k[len(k)-1]; k[0] != '"' && k[0] != '\'' && '0' <= c && c <= '9' {
					is = append(is, i)
				}
			}
			if len(is) > 0 && chance(t, 70, "replace") {
				toks[pick(t, "number", is...)] = k
			} else {
				gaps[at] += " " + k + " "
			}
		case 0, 1: // between tokens
			gaps[at] += pick(t, "what", bad, illegal)
		case 2: // in a comment
			gaps[at] += pick(t, "comment", "/* a", "// a", "# a", "/* é") + bad + pick(t, "end", " */ \n", " */\n // \n")
		case 3: // in a string
			s := pick(t, "quote", `"`, `'`)
			k := s + pick(t, "before", "", "ab", `\\`, "é") + bad + s
			if i := strAt(t, toks); i >= 0 {
				toks[i] = k
			} else {
				gaps[at] += " " + k + " "
			}
		case 4: // bad escape, newline
			s := pick(t, "quote", `"`, `'`)
			k := s + pick(t, "before", "", "ab", `\n\\`, "é") + pick(t, "bad", `\x41`, `\0`, `\u0041`, `\a`, `\ `, "\n", "\\\n", `\é`, `\N`, "\\\x00", `\q`, "\r\n") + pick(t, "after", "", "cd") + s
			if i := strAt(t, toks); i >= 0 {
				toks[i] = k
			} else {
				gaps[at] += " " + k + " "
			}
		case 5: // unterminated string
			s := pick(t, "quote", `"`, `'`)
			if i := strAt(t, toks); i >= 0 {
				at = i
			}
			toks, gaps = toks[:at:at], gaps[:at+1:at+1]
			gaps[at] += " " + s + pick(t, "rest", "", "a", `\`, `\n`, "é", `\`+s, ` struct X {}`)
		case 6: // unterminated comment
			toks, gaps = toks[:at:at], gaps[:at+1:at+1]
			gaps[at] += pick(t, "comment", "/*", "/* a", "/* a *", "/*/", "/* struct X {}\n", "/**")
		case 7: // in a token
			if at < len(toks) {
				k := toks[at]
				j := between(t, "in", 0, len(k))
				toks[at] = k[:j] + pick(t, "what", bad, illegal) + k[j:]
			}
		case 8: // an identifier with a wrong start
			if at < len(toks) {
				toks[at] = pick(t, "digit", "\u0661", "\u0967", "\uff11") + toks[at]
			}
		case 9: // the end of the file
			gaps[len(toks)] += pick(t, "what", bad, illegal) + pick(t, "end", "", "\n")
		}
	}
	src, _ := render(chance(t, 10, "bom"), toks, gaps)
	return &idlCase{Src: src}
}

// strAt picks a string token.
func strAt(t *rapid.T, toks []string) int {
	var is []int
	for i, k := range toks {
		if k[0] == '"' || k[0] == '\'' {
			is = append(is, i)
		}
	}
	if len(is) == 0 {
		return -1
	}
	return pick(t, "string", is...)
}

func mutateBytes(t *rapid.T, b []byte) []byte {
	b = append([]byte{}, b...)
	for i, n := 0, between(t, "mutations", 1, 3); i < n; i++ {
		at := between(t, "at", 0, len(b))
		switch between(t, "mutation", 0, 5) {
		case 0:
			b = b[:at]
		case 1, 2:
			s := pick(t, "insert", "\"", "'", "/*", "*/", "//", "#", "=", "\\", "\n", "\r", "\x00", "\xff", "{", "}", "(", ")", "<", ">", "1", "a", "0x", ".", "-", "+", "e", " ", "\ufeff", "é", "[", "]", ":", ",", ";", "&", "*")
			b = append(b[:at:at], append([]byte(s), b[at:]...)...)
		case 3:
			if at < len(b) {
				b[at] = rapid.Byte().Draw(t, "byte")
			}
		case 4, 5:
			to := min(len(b), at+between(t, "n", 1, 4))
			b = append(b[:at:at], b[to:]...)
		}
	}
	return b
}

func drawByteErrors(t *rapid.T) *idlCase {
	var b []byte
	if chance(t, 40, "corpus") {
		b = drawRendered(t, drawCorpus(t))
	} else {
		b = drawRendered(t, resolve(t, drawIDL(t, 4).toks))
	}
	return &idlCase{Src: mutateBytes(t, b)}
}

// ---- the documents of the repository ----

var corpus = sync.OnceValue(func() (docs []*corpusDoc) {
	const dir = "/repo/tools/thriftfile/testdata"
	var files []string
	filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
		if err == nil && filepath.Ext(path) == ".thrift" {
			files = append(files, path)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		d := &corpusDoc{name: f, src: src}
		v, _, _, _, _, toks := refParse(src, func(tok int, kind string) {
			if kind == "def" {
				d.defs = append(d.defs, tok)
			}
		})
		if v != accept {
			continue
		}
		for _, k := range toks[:len(toks)-1] {
			d.toks = append(d.toks, k.text)
		}
		d.defs = append(d.defs, len(d.toks))
		docs = append(docs, d)
	}
	return
})

type corpusDoc struct {
	name string
	src  []byte
	toks []string
	defs []int // where the definitions start, and the end
}

// drawCorpus draws the tokens of a few neighbouring definitions of a document.
func drawCorpus(t *rapid.T) []string {
	docs := corpus()
	if len(docs) == 0 {
		return resolve(t, drawIDL(t, 4).toks)
	}
	d := docs[between(t, "document", 0, len(docs)-1)]
	if len(d.defs) < 2 || len(d.toks) < 150 && chance(t, 50, "whole") {
		if len(d.toks) < 400 {
			return d.toks
		}
	}
	if len(d.defs) < 2 {
		return nil
	}
	i := between(t, "definition", 0, len(d.defs)-2)
	n := between(t, "definitions", 1, 3)
	out := []string{}
	if chance(t, 30, "headers") {
		out = append(out, d.toks[:d.defs[0]]...)
	}
	for ; i < len(d.defs)-1 && n > 0; i, n = i+1, n-1 {
		if len(out) > 0 && len(out)+d.defs[i+1]-d.defs[i] > 500 {
			break
		}
		out = append(out, d.toks[d.defs[i]:d.defs[i+1]]...)
	}
	return out
}

func drawCorpusIDL(t *rapid.T) *idlCase {
	return &idlCase{Src: drawRendered(t, drawCorpus(t))}
}

// ---- C20 ----

type idlSeg struct {
	Src  Src  `json:"src"`
	Bad  bool `json:"bad,omitempty"`
	Head bool `json:"head,omitempty"`
}

type brokenCase struct {
	Segs []idlSeg `json:"segs"`
}

// firstTok is the offset of the first token of a segment.
func firstTok(src []byte) int { return refTokens(src)[0].off }

func checkBroken(c *brokenCase, x *Ctx) error {
	var src []byte
	want := &idlTree{}
	type bad struct{ def, from, err int } // err -1: at the next token
	var bads []bad
	open := func(to int) {
		if n := len(bads); n > 0 && want.Defs[bads[n-1].def] == "" {
			want.Defs[bads[n-1].def] = offsetTree(bads[n-1].from, to)
			if bads[n-1].err < 0 {
				bads[n-1].err = to
			}
		}
	}
	good := 0
	for i, s := range c.Segs {
		if i > 0 {
			src = append(src, '\n')
		}
		if s.Bad {
			at := len(src) + firstTok(s.Src)
			open(at)
			pre := ""
			if i > 0 {
				pre = "struct X{}()" // headers are not possible any more
			}
			v, lo, _, tok, _, toks := refParse([]byte(pre+string(s.Src)), nil)
			lo -= len(pre)
			if v == accept {
				fault("%q is valid", s.Src)
			}
			b := bad{len(want.Defs), at, len(src) + lo}
			if v == unspecified {
				fault("%q is not specified", s.Src)
			}
			if toks[tok].kind == "eof" {
				b.err = -1
			}
			bads = append(bads, b)
			want.Defs = append(want.Defs, "")
		} else {
			v, _, _, _, tree, toks := refParse(s.Src, nil)
			if v != accept || s.Head && len(tree.Defs) > 0 || !s.Head && (len(tree.Headers) > 0 || len(tree.Defs) != 1) {
				fault("%q is not one definition", s.Src)
			}
			if len(toks) > 1 {
				open(len(src) + toks[0].off)
			}
			want.Headers = append(want.Headers, tree.Headers...)
			want.Defs = append(want.Defs, tree.Defs...)
			good += len(tree.Defs)
		}
		src = append(src, s.Src...)
	}
	open(len(src))
	x.Label("broken %d", min(len(bads), 4))
	x.Label("good %d", min(good, 4))
	if len(bads) > 0 && good > 0 {
		x.NonTrivial()
	}
	p, err := parseIDL(gotoken.NewFileSet(), idlName, src)
	if err != nil {
		return err
	}
	if err := p.sorted(); err != nil {
		return err
	}
	if err := diffTree(p.tree(offsetTree), want); err != nil {
		return fmt.Errorf("%w\nin %.1000q", err, src)
	}
	if len(bads) == 0 {
		if p.msg != "" {
			return fmt.Errorf("valid document rejected: %s", p.msg)
		}
		return nil
	}
	if p.msg == "" {
		return fmt.Errorf("no error for the broken definition in %.1000q", src)
	}
	offs, err := p.offsets(src)
	if err != nil {
		return err
	}
	if offs[0] != bads[0].err {
		return fmt.Errorf("first error at offset %d, want %d, in %.1000q: %s", offs[0], bads[0].err, src, p.msg)
	}
	// Every broken definition is reported.
	if p.all {
		for i, b := range bads {
			to := len(src) + 1
			if i+1 < len(bads) {
				to = bads[i+1].from
			}
			found := false
			for _, o := range offs {
				found = found || o >= b.from && (o < to || o == b.err)
			}
			if !found {
				return fmt.Errorf("no error about the text at offset %d in %.1000q: %s", b.from, src, p.msg)
			}
		}
	}
	return nil
}

// wrongCase is a document with one wrong literal.
type wrongCase struct {
	Segs  []idlSeg `json:"segs"`
	Wrong int      `json:"wrong"` // the segment with it
}

func checkWrong(c *wrongCase, x *Ctx) error {
	var src []byte
	want := &idlTree{}
	lo := 0
	skip := [2]int{-1, -1}
	for i, s := range c.Segs {
		if i > 0 {
			src = append(src, '\n')
		}
		v, l, _, _, tree, _ := refParse(s.Src, nil)
		if i == c.Wrong {
			if v != reject {
				fault("%q is not invalid", s.Src)
			}
			lo = len(src) + l
			tree = &idlTree{}
			if s.Head {
				skip[0] = len(want.Headers)
				tree.Headers = []string{"wrong"}
			} else {
				skip[1] = len(want.Defs)
				tree.Defs = []string{"wrong"}
			}
		} else if v != accept {
			fault("%q is not valid", s.Src)
		}
		want.Headers = append(want.Headers, tree.Headers...)
		want.Defs = append(want.Defs, tree.Defs...)
		src = append(src, s.Src...)
	}
	x.Label("segments %d", len(c.Segs))
	if len(c.Segs) > 1 {
		x.NonTrivial()
	}
	p, err := parseIDL(gotoken.NewFileSet(), idlName, src)
	if err != nil {
		return err
	}
	if p.msg == "" {
		return fmt.Errorf("no error for the wrong token in %.1000q", src)
	}
	offs, err := p.offsets(src)
	if err != nil {
		return err
	}
	if offs[0] != lo {
		return fmt.Errorf("first error at offset %d, want %d, in %.1000q: %s", offs[0], lo, src, p.msg)
	}
	got := p.tree(offsetTree)
	if i := skip[0]; i >= 0 && i < len(got.Headers) {
		got.Headers[i] = "wrong"
	}
	if i := skip[1]; i >= 0 && i < len(got.Defs) {
		got.Defs[i] = "wrong"
	}
	if err := diffTree(got, want); err != nil {
		return fmt.Errorf("%w\nin %.1000q", err, src)
	}
	return nil
}

func drawWrong(t *rapid.T) *wrongCase {
	c := &wrongCase{}
	heads := between(t, "headers", 0, 2)
	n := heads + between(t, "definitions", 1, 5)
	c.Wrong = between(t, "wrong", 0, n-1)
	for i := 0; i < n; i++ {
		g := &idlgen{t: t, budget: 30}
		if i < heads {
			g.header()
		} else {
			g.def()
		}
		toks := resolve(t, g.toks)
		if i == c.Wrong {
			var at []int
			src, _ := render(false, toks, spaces(len(toks)+1))
			refParse(src, func(tok int, kind string) {
				if kind == "name" {
					at = append(at, tok)
				}
			})
			k := pick(t, "at", at...)
			wrong := []string{"1", "-5", "1.5", `"s"`, `'struct X {}'`}
			if len(toks[k]) > 0 && strings.ContainsAny(toks[k][:1], "+-0123456789") {
				wrong = []string{"x", "1.5", `"s"`}
			} else if strings.ContainsAny(toks[k][:1], "\"'") {
				wrong = []string{"1", "-5", "1.5", "x"}
			}
			toks[k] = pick(t, "token", wrong...)
		}
		c.Segs = append(c.Segs, idlSeg{Src: drawRenderedNoBOM(t, toks), Head: i < heads})
	}
	return c
}

var soupToks = []string{
	"(", "[", "{", ",", ")", "]", "}", ";", ":", "<", ">", "*", "&", "=", "==", "+", "-", "/", "%", "|", "^", "!", ".",
	"1", "-1", "1.5", `"s"`, `'t'`, "x", "a.b", "structs", "Struct", `"struct X {}"`, "required", "optional", "extends", "oneway",
	"void", "throws", "map", "set", "list", "include", "namespace", "cpp_include", "senum", "i32",
}

var soupFaults = []string{"$", "@", "\"abc\n", "'\\q\n", "\x00", "\xff", "\\", "\u00a0"}

// soup draws tokens that do not start a definition.
func soup(t *rapid.T, n int) (toks []string) {
	for i := 0; i < n; i++ {
		if chance(t, 6, "fault") {
			toks = append(toks, pick(t, "fault", soupFaults...))
		} else {
			toks = append(toks, pick(t, "token", soupToks...))
		}
	}
	return
}

// notTypeOrValue cannot stand where a type or value has to be.
var notTypeOrValue = []string{":", "=", "*", "&", "<", ">", "+", "-", "/", "extends", "throws", "include", "namespace"}

func drawBroken(t *rapid.T) *brokenCase {
	c := &brokenCase{}
	heads := false
	if chance(t, 30, "headers") {
		g := &idlgen{t: t, budget: 20}
		for i, n := 0, between(t, "headers", 1, 2); i < n; i++ {
			g.header()
		}
		c.Segs = append(c.Segs, idlSeg{Src: drawRenderedNoBOM(t, resolve(t, g.toks)), Head: true})
		heads = true
	}
	prevSoup := false
	for i, n := 0, between(t, "segments", 1, 6); i < n; i++ {
		k := between(t, "segment", 0, 9)
		if k < 3 && prevSoup {
			k = 3
		}
		switch {
		case k < 3: // text that is not a definition
			first := []string{}
			for _, s := range soupToks {
				switch s {
				case ",", ";", "(":
					if i == 0 {
						if !heads || s != "(" {
							first = append(first, s)
						}
					}
				case "include", "namespace":
					if i > 0 {
						first = append(first, s)
					}
				default:
					first = append(first, s)
				}
			}
			toks := append([]string{pick(t, "first", first...)}, soup(t, between(t, "tokens", 0, 8))...)
			c.Segs = append(c.Segs, idlSeg{Src: renderSoup(t, toks), Bad: true})
			prevSoup = true
		case k < 6: // a definition that breaks off
			g := &idlgen{t: t, budget: 30}
			g.def()
			toks := resolve(t, g.toks)
			src, _ := render(false, toks, spaces(len(toks)+1))
			var at []int
			if v, _, _, _, _, _ := refParse(src, func(tok int, kind string) {
				if kind == "type" || kind == "value" {
					at = append(at, tok)
				}
			}); v != accept {
				fault("generated definition is not valid: %q", src)
			}
			if len(at) == 0 { // such as an enum
				toks, at = []string{"const", "x", "y", "=", "1"}, []int{1, 4}
			}
			toks = toks[:pick(t, "break", at...):len(toks)]
			if chance(t, 80, "wrong token") {
				n := len(toks)
				toks = append(toks, pick(t, "wrong", notTypeOrValue...))
				src, _ := render(false, toks, spaces(len(toks)+1))
				if _, _, _, tok, _, _ := refParse(src, nil); tok != n {
					toks[n] = ":" // it continues what is before
				}
				toks = append(toks, soup(t, between(t, "tokens", 0, 6))...)
			} else if i == n-1 {
				toks = append(toks, ":") // the end of the file ends lists
			}
			c.Segs = append(c.Segs, idlSeg{Src: renderSoup(t, toks), Bad: true})
			prevSoup = true
		default:
			g := &idlgen{t: t, budget: 30}
			g.def()
			c.Segs = append(c.Segs, idlSeg{Src: drawRenderedNoBOM(t, resolve(t, g.toks))})
			prevSoup = false
		}
	}
	return c
}

func spaces(n int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = " "
	}
	return s
}

func drawRenderedNoBOM(t *rapid.T, toks []string) []byte {
	gaps := drawGaps(t, toks)
	src, _ := render(false, toks, gaps)
	return src
}

// renderSoup is for tokens that may make others when they touch.
func renderSoup(t *rapid.T, toks []string) []byte {
	gaps := spaces(len(toks) + 1)
	if chance(t, 40, "comments") {
		gaps[0] = drawGap(t, 2, false, false)
		at := between(t, "at", 1, len(toks))
		gaps[at] = " " + drawGap(t, 2, false, at == len(toks))
	}
	src, _ := render(false, toks, gaps)
	return src
}

// ---- C21 ----

type bytesCase struct {
	Parts []srcPart `json:"parts"`
}

type srcPart struct {
	Src Src `json:"src"`
	N   int `json:"n"`
}

func (c *bytesCase) src() (b []byte) {
	for _, p := range c.Parts {
		b = append(b, bytes.Repeat(p.Src, p.N)...)
	}
	return
}

func checkAnyIDL(c *bytesCase, x *Ctx) error {
	src := c.src()
	var (
		fset *gotoken.FileSet
		base int
		f    *thriftfile.File
		perr error
	)
	// Measured again when it is too much: the figure is the whole process's.
	limit := uint64(256<<10 + 4096*len(src))
	for i := 0; ; i++ {
		before, start := allocated(), cpuTime()
		fset = gotoken.NewFileSet()
		base = fset.Base()
		f, perr = thriftfile.Parse(fset, idlName, src)
		used, cpu := allocated()-before, cpuTime()-start
		if f == nil {
			return fmt.Errorf("no tree returned (error %v)", perr)
		}
		if used <= limit && cpu <= cpuFor(len(src)) {
			break
		}
		if i == 2 {
			return fmt.Errorf("%d bytes allocated and %v of CPU time used for a file of %d bytes", used, cpu, len(src))
		}
	}
	p, err := parseIDL(gotoken.NewFileSet(), idlName, src)
	if err != nil {
		return err
	}
	if _, err := p.offsets(src); err != nil {
		return err
	}
	if (p.msg == "") != (perr == nil) {
		return fmt.Errorf("accepted only sometimes: %v, %v", perr, p.msg)
	}
	if p.msg == "" {
		x.Label("accepted")
	} else {
		x.Label("rejected")
		x.NonTrivial()
	}
	for _, d := range f.Defs {
		b, ok := d.(*thriftfile.BadDef)
		if !ok {
			continue
		}
		from, to := int(b.From)-base, int(b.To)-base
		if from < 0 || from > to || to > len(src) {
			return fmt.Errorf("placeholder from %d to %d in a file of %d bytes", from, to, len(src))
		}
		x.Label("placeholder")
	}
	switch n := len(src); {
	case n > 100000:
		x.Label("large")
	case n > 1000:
		x.Label("> 1000 bytes")
	}
	return nil
}

func drawAnyIDL(t *rapid.T) *bytesCase {
	c := &bytesCase{}
	add := func(b []byte, n int) { c.Parts = append(c.Parts, srcPart{b, n}) }
	switch between(t, "kind", 0, 5) {
	case 0:
		add(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"), 1)
	case 1:
		n := between(t, "tokens", 1, 60)
		var toks []string
		for i := 0; i < n; i++ {
			toks = append(toks, pick(t, "token", append(append([]string{}, wrongToks...), soupFaults...)...))
		}
		add([]byte(strings.Join(toks, pick(t, "join", " ", "", "\n"))), 1)
	case 2:
		add(mutateBytes(t, drawRendered(t, resolve(t, drawIDL(t, 4).toks))), 1)
	case 3:
		add(mutateBytes(t, drawRendered(t, drawCorpus(t))), 1)
	case 4:
		add(drawLexErrors(t).Src, 1)
	case 5:
		// prefix unit^n suffix
		toks := mutateToks(t, resolve(t, drawIDL(t, 1).toks))
		at := between(t, "at", 0, len(toks))
		add([]byte(strings.Join(toks[:at], " ")+" "), 1)
		add([]byte(pick(t, "unit", idlUnits...)), between(t, "n", 1, 300))
		add([]byte(" "+strings.Join(toks[at:], " ")), 1)
	}
	return c
}

var idlUnits = []string{
	"list<", "set<", "map<", "map<i32,", "[", "{", "{1:", "[[", "{{", "(", "struct S {", "struct S { 1: ", "const T x = [", "enum E {", "x ",
	"1 ", "=", "==", ",", ";", ":", "*", "<", ">", "}", ")", "]", "\"", "'", "\"a\"", "\\", "/*", "*/", "/", "//", "#", "\n", "\r", "\x00", "\xff", "$",
	"struct ", "const ", "union X {} ", "include ", "namespace * a ", "include \"x\" ", "service S { void f(", "throws (", "1:", "required ", "a = ", "a (b", ".",
	"-", "+", "\"\\", "'\\q", "\xc3", "\ufeff", "é", "\u0661", "typedef list<i32> x ", "const list<", "struct X { i32 a = [", "& ", "0x", "1e", "1.", "[1,", "{a:b,",
	"[{1:", "list<map<set<", "map<list<x>,", "struct x{} (a=\"b\",", "enum X {a,", "struct S{i32 a,", "\"abc\n",
}

func enumNestIDL(yield func(*bytesCase) bool) {
	prefixes := []string{"", "const T x = ", "typedef ", "struct S { 1: ", "struct S { 1: i32 x = ", "service S { ", "enum E { ", "const x y = {"}
	n := 100000
	for _, u := range idlUnits {
		// A step for every byte, or for every error.
		if !yield(&bytesCase{Parts: []srcPart{{Src(u), 400000 / max(len(u), 2)}}}) {
			return
		}
		for _, pre := range prefixes {
			if !yield(&bytesCase{Parts: []srcPart{{Src(pre), 1}, {Src(u), n / max(len(u), 3)}}}) {
				return
			}
		}
	}
	// A single very long token.
	for _, pre := range []string{"/*", "//", "#", "\"", "'", "a", "1", "1.", "1e", "0x", "", "const i32 x = [", "struct S {", "enum E {"} {
		for _, u := range []string{"*", "/", "/*", "a", "1", ".", "\\\\", "\\n", "\u00e9", " ", "\t", "\r", "\n", "\r\n", "_", "a,", "\"\"", "''", "a\n", "#\n"} {
			for _, end := range []string{"", "*/ x", "\" x"} {
				if end != "" && pre != "/*" && pre != "\"" {
					continue
				}
				if !yield(&bytesCase{Parts: []srcPart{{Src(pre), 1}, {Src(u), 500000 / len(u)}, {Src(end), 1}}}) {
					return
				}
			}
		}
	}
	// Far deeper than any stack.
	for _, u := range []string{"list<", "map<", "map<x,", "[", "{", "{1:", "set<"} {
		for _, pre := range prefixes {
			if pre == "enum E { " {
				continue // an error for every token
			}
			n := 6000000 / len(u)
			if len(u) > 2 {
				n = 5000000 // a level of a type takes more than 200 bytes of stack
			}
			if !yield(&bytesCase{Parts: []srcPart{{Src(pre), 1}, {Src(u), n}}}) {
				return
			}
		}
	}
}

// ---- C28 ----

type layoutCase struct {
	A    []string `json:"a"` // tokens
	GA   []string `json:"ga"`
	B    []string `json:"b,omitempty"` // if other than a
	GB   []string `json:"gb"`
	BomA bool     `json:"bom_a,omitempty"`
	BomB bool     `json:"bom_b,omitempty"`
}

func checkLayout(c *layoutCase, x *Ctx) error {
	tb := c.B
	if tb == nil {
		tb = c.A
	}
	run := func(bom bool, toks, gaps []string) (*parsed, *idlTree, []byte, error) {
		src, offs := render(bom, toks, gaps)
		p, err := parseIDL(gotoken.NewFileSet(), idlName, src)
		if err != nil {
			return nil, nil, src, err
		}
		tokAt := func(off int) string {
			i := sort.SearchInts(offs, off)
			if i < len(offs) && offs[i] == off {
				return fmt.Sprintf("token %d", i)
			}
			return fmt.Sprintf("offset %d, not at a token", off)
		}
		return p, p.tree(func(from, to int) string { return sx("bad", tokAt(from), tokAt(to)) }), src, nil
	}
	pa, a, sa, err := run(c.BomA, c.A, c.GA)
	if err != nil {
		return err
	}
	pb, b, sb, err := run(c.BomB, tb, c.GB)
	if err != nil {
		return err
	}
	if !bytes.Equal(sa, sb) && len(c.A) > 3 {
		x.NonTrivial()
	}
	if c.B != nil {
		x.Label("other separators")
	}
	if c.BomA != c.BomB {
		x.Label("byte order mark")
	}
	if pa.msg == "" {
		x.Label("accepted")
	} else {
		x.Label("rejected")
	}
	if (pa.msg == "") != (pb.msg == "") {
		return fmt.Errorf("accepted with one layout only:\n%.800q: %s\n%.800q: %s", sa, pa.msg, sb, pb.msg)
	}
	if err := diffTree(b, a); err != nil {
		return fmt.Errorf("different trees (want: first layout, got: second): %w\n%.800q\n%.800q", err, sa, sb)
	}
	return nil
}

func drawLayout(t *rapid.T) *layoutCase {
	c := &layoutCase{}
	switch between(t, "tokens", 0, 5) {
	case 0, 1:
		c.A = drawCorpus(t)
	case 2, 3:
		g := drawIDL(t, 4)
		c.A = resolve(t, g.toks)
		c.B = resolve(t, g.toks)
	case 4:
		c.A = mutateToks(t, drawCorpus(t))
	case 5:
		c.A = mutateToks(t, resolve(t, drawIDL(t, 4).toks))
	}
	b := c.B
	if b == nil {
		b = c.A
	}
	c.GA = drawGaps(t, c.A)
	c.GB = drawGaps(t, b)
	c.BomA, c.BomB = chance(t, 10, "bom"), chance(t, 30, "bom")
	return c
}

type againCase struct {
	Src   Src      `json:"src"`
	Other Src      `json:"other"`
	Names []string `json:"names"`
	Sizes []int    `json:"sizes"` // other files added to the set before each
}

func checkAgain(c *againCase, x *Ctx) error {
	p0, err := parseIDL(gotoken.NewFileSet(), idlName, c.Src)
	if err != nil {
		return err
	}
	want := p0.tree(offsetTree)
	x.NonTrivial()
	if p0.msg != "" {
		x.Label("rejected")
	} else {
		x.Label("accepted")
	}
	fset := gotoken.NewFileSet()
	var done []*parsed
	for i, name := range c.Names {
		if n := c.Sizes[i]; n >= 0 {
			fset.AddFile("other", -1, n)
		} else if _, err := parseIDL(fset, name, c.Other); err != nil {
			return err
		}
		p, err := parseIDL(fset, name, c.Src)
		if err != nil {
			return fmt.Errorf("as %q: %w", name, err)
		}
		done = append(done, p)
		if err := diffTree(p.tree(offsetTree), want); err != nil {
			return fmt.Errorf("as %q: %w", name, err)
		}
		if fmt.Sprint(p.errs) != fmt.Sprint(p0.errs) {
			return fmt.Errorf("as %q: errors at %v, not %v", name, p.errs, p0.errs)
		}
	}
	for i, p := range done {
		if err := diffTree(p.tree(offsetTree), want); err != nil {
			return fmt.Errorf("tree %d changed later: %w", i, err)
		}
	}
	return nil
}

func drawAgain(t *rapid.T) *againCase {
	doc := func() []byte {
		toks := resolve(t, drawIDL(t, 3).toks)
		if chance(t, 40, "broken") {
			toks = mutateToks(t, toks)
		}
		return drawRendered(t, toks)
	}
	c := &againCase{Src: doc(), Other: doc()}
	if chance(t, 20, "lexical") {
		c.Src = drawLexErrors(t).Src
	}
	for i, n := 0, between(t, "times", 1, 4); i < n; i++ {
		c.Names = append(c.Names, pick(t, "name", "f.thrift", "", "a/b/c.thrift", "f.thrift", "é.thrift"))
		c.Sizes = append(c.Sizes, pick(t, "size", -1, -1, 0, 1, 100, 100000))
	}
	return c
}

func init() {
	register(&property{
		id:   "C18",
		rule: "the document has at least one definition",
		assumptions: []string{
			"valid means the grammar of thrift.apache.org/docs/idl without its deprecated parts (cpp_include, cpp_type, senum, slist, xsd_*), with annotations and field references; literals without digits after the point and escapes of the other quote are not asserted",
		},
		subs: []*subDef{
			sub("documents", 150000, 3000000, drawValidIDL, checkValidIDL),
			sub("large", 2000, 40000, drawBigIDL, checkValidIDL),
			enumSub("many", enumManyIDL, checkManyIDL),
			sub("corpus", 20000, 300000, drawCorpusIDL, checkValidIDL),
		},
	})
	register(&property{
		id:   "C19",
		rule: "the reference recogniser rejects the document",
		assumptions: []string{
			"a broken string or comment may be reported at its start or at the offending character",
		},
		subs: []*subDef{
			sub("tokens", 200000, 4000000, drawTokenErrors, checkInvalidIDL),
			sub("lexical", 200000, 4000000, drawLexErrors, checkInvalidIDL),
			sub("bytes", 150000, 3000000, drawByteErrors, checkInvalidIDL),
		},
	})
	register(&property{
		id:   "C20",
		rule: "broken and good definitions in one file, or an illegal character and definitions",
		assumptions: []string{
			"broken means: text that starts with something else than a definition, or a definition that breaks off where a type or value must follow",
		},
		subs: []*subDef{
			sub("broken", 250000, 5000000, drawBroken, checkBroken),
			sub("wrong", 100000, 2000000, drawWrong, checkWrong),
			sub("illegal", 100000, 2000000, drawIllegal, checkIllegal),
		},
	})
	register(&property{
		id:          "C21",
		rule:        "the document is rejected",
		assumptions: []string{"memory is bounded by 4096 bytes per byte of the file (an error may be reported for every byte)"},
		subs: []*subDef{
			enumSub("nesting", enumNestIDL, checkAnyIDL),
			sub("bytes", 100000, 2000000, drawAnyIDL, checkAnyIDL),
		},
	})
	register(&property{
		id:   "C28",
		rule: "the two layouts differ and there are more than 3 tokens",
		subs: []*subDef{
			sub("layout", 150000, 3000000, drawLayout, checkLayout),
			sub("again", 50000, 800000, drawAgain, checkAgain),
		},
	})
}
