package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
)

// A reference tokenizer and parser of the Thrift IDL, written from the grammar
// of https://thrift.apache.org/docs/idl without the deprecated parts. Trees are
// S-expressions.

type verdict int

const (
	accept verdict = iota
	reject
	unspecified
)

// rtok is a token. Bad tokens have kind "lexerr" or "unspec".
type rtok struct {
	kind     string // id, int, float, str, eof, lexerr, unspec, or the text of a keyword or punctuation
	text     string
	off      int
	errLo    int // lexerr: where the error may be reported
	errHi    int
	newlines bool
	glued    bool // a number directly in front of a letter
}

var idlKeywords = []string{
	"include", "namespace", "const", "typedef", "enum", "struct", "union", "exception", "service",
	"required", "optional", "extends", "oneway", "void", "throws", "map", "set", "list",
}

var idlDefKeywords = []string{"const", "typedef", "enum", "struct", "union", "exception", "service"}

func isIDLKeyword(s string) bool {
	for _, k := range idlKeywords {
		if s == k {
			return true
		}
	}
	return false
}

func isIDLDef(s string) bool {
	for _, k := range idlDefKeywords {
		if s == k {
			return true
		}
	}
	return false
}

func asciiLetter(c rune) bool { return c == '_' || 'a' <= c|0x20 && c|0x20 <= 'z' && c < 0x80 }
func asciiDigit(c rune) bool  { return '0' <= c && c <= '9' }

// refTokens splits src. The last token is eof, lexerr or unspec.
func refTokens(src []byte) (toks []rtok) {
	i := 0
	if strings.HasPrefix(string(src[:min(3, len(src))]), "\ufeff") {
		i = 3
	}
	// peek returns the next character, -1 at the end, -2 if it is not allowed
	// anywhere.
	peek := func(at int) (rune, int) {
		if at >= len(src) {
			return -1, 0
		}
		r, w := utf8.DecodeRune(src[at:])
		if r == 0 || r == utf8.RuneError && w == 1 || r == 0xfeff {
			return -2, 1
		}
		return r, w
	}
	bad := func(start, lo, hi int) []rtok {
		return append(toks, rtok{kind: "lexerr", off: start, errLo: lo, errHi: hi})
	}
	unspec := func(start int) []rtok {
		return append(toks, rtok{kind: "unspec", off: start})
	}
	for {
		c, w := peek(i)
		start := i
		switch {
		case c == -1:
			return append(toks, rtok{kind: "eof", off: len(src)})
		case c == -2:
			return bad(i, i, i)
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			i++
		case c == '#' || c == '/' && i+1 < len(src) && src[i+1] == '/':
			for {
				c, w := peek(i)
				if c == -2 {
					return bad(i, i, i)
				}
				if c == -1 || c == '\n' {
					break
				}
				i += w
			}
		case c == '/' && i+1 < len(src) && src[i+1] == '*':
			i += 2
			for {
				c, w := peek(i)
				if c == -2 {
					return bad(i, i, i)
				}
				if c == -1 {
					return bad(start, start, len(src))
				}
				i += w
				if c == '*' && i < len(src) && src[i] == '/' {
					i++
					break
				}
			}
		case c == '"' || c == '\'':
			i++
			un := false
		str:
			for {
				d, w := peek(i)
				switch {
				case d == -2, d == '\n':
					return bad(start, start, i)
				case d == -1:
					return bad(start, start, len(src))
				case d == c:
					i++
					break str
				case d == '\r':
					un = true
				case d == '\\':
					e, w := peek(i + 1)
					switch e {
					case c, '\\', 'n', 'r', 't':
						i++
					case '"', '\'':
						// The quote that does not need to be escaped.
						return unspec(start)
					case -1:
						return bad(start, start, len(src))
					default:
						_ = w
						return bad(start, start, i+1)
					}
				}
				i += w
			}
			if un {
				return unspec(start)
			}
			toks = append(toks, rtok{kind: "str", text: string(src[start:i]), off: start})
		case asciiLetter(c) || c >= 0x80 && unicode.IsLetter(c):
			for {
				c, w := peek(i)
				if c < 0 || !(asciiLetter(c) || c == '.' || asciiDigit(c) || c >= 0x80 && (unicode.IsLetter(c) || unicode.IsDigit(c))) {
					break
				}
				i += w
			}
			s := string(src[start:i])
			if strings.HasSuffix(s, ".") || strings.Contains(s, "..") {
				return unspec(start)
			}
			k := "id"
			if isIDLKeyword(s) {
				k = s
			}
			toks = append(toks, rtok{kind: k, text: s, off: start})
		case asciiDigit(c) || (c == '+' || c == '-') && i+1 < len(src) && asciiDigit(rune(src[i+1])):
			if !asciiDigit(c) {
				i++
			}
			digits := func(hex bool) (n int) {
				for i < len(src) && (asciiDigit(rune(src[i])) || hex && strings.IndexByte("abcdefABCDEF", src[i]) >= 0) {
					i, n = i+1, n+1
				}
				return
			}
			at := func(cs string) bool { return i < len(src) && strings.IndexByte(cs, src[i]) >= 0 }
			k := "int"
			if i+1 < len(src) && src[i] == '0' && (src[i+1] == 'x' || src[i+1] == 'X') {
				i += 2
				if digits(true) == 0 {
					return unspec(start)
				}
			} else {
				digits(false)
				if at(".") {
					k = "float"
					i++
					if digits(false) == 0 {
						return unspec(start)
					}
				}
				if at("eE") {
					k = "float"
					i++
					if at("+-") {
						i++
					}
					if digits(false) == 0 {
						return unspec(start)
					}
				}
			}
			c, _ := peek(i)
			if c == '.' || c >= 0x80 {
				return unspec(start)
			}
			toks = append(toks, rtok{kind: k, text: string(src[start:i]), off: start, glued: asciiLetter(c) || asciiDigit(c)})
		case strings.ContainsRune("([{,)]};:<>*&=", c):
			i++
			if c == '=' && i < len(src) && src[i] == '=' {
				return bad(start, start, start) // "==" instead of "="
			}
			toks = append(toks, rtok{kind: string(c), text: string(c), off: start})
		default:
			// Not part of any document: an operator, an illegal character, a
			// digit that is not ASCII.
			_ = w
			return bad(start, start, start)
		}
	}
}

// idlTree is a parsed document.
type idlTree struct {
	Headers []string
	Defs    []string
}

func (t *idlTree) String() string {
	return strings.Join(t.Headers, "\n") + "\n--\n" + strings.Join(t.Defs, "\n")
}

type rparser struct {
	toks []rtok
	n    int
	mark func(tok int, kind string) // called where a type or value starts
}

type rfail struct {
	v      verdict
	lo, hi int
	tok    int
}

func (p *rparser) fail() {
	t := p.toks[p.n]
	switch t.kind {
	case "unspec":
		panic(rfail{unspecified, 0, 0, p.n})
	case "lexerr":
		panic(rfail{reject, t.errLo, t.errHi, p.n})
	}
	panic(rfail{reject, t.off, t.off, p.n})
}

func (p *rparser) is(k string) bool { return p.toks[p.n].kind == k }

func (p *rparser) got(k string) bool {
	if p.is(k) {
		p.n++
		return true
	}
	return false
}

func (p *rparser) want(k string) string {
	if !p.is(k) {
		p.fail()
	}
	p.n++
	return p.toks[p.n-1].text
}

// sep is an optional list separator.
func (p *rparser) sep() {
	if p.got(",") || p.got(";") {
		if p.is(",") || p.is(";") {
			panic(rfail{unspecified, 0, 0, p.n})
		}
	}
}

// refParse decides whether src is a valid document. If it is not, the first
// error has to be reported between offsets lo and hi; tok is the number of the
// offending token.
func refParse(src []byte, mark func(int, string)) (v verdict, lo, hi, tok int, tree *idlTree, toks []rtok) {
	p := &rparser{toks: refTokens(src), mark: mark}
	toks = p.toks
	if p.mark == nil {
		p.mark = func(int, string) {}
	}
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(rfail)
			if !ok {
				panic(r)
			}
			v, lo, hi, tok, tree = f.v, f.lo, f.hi, f.tok, nil
		}
		// A number and a letter that follows it directly are two tokens or an
		// error.
		for i, k := range toks {
			if !k.glued || v != accept && i > tok {
				continue
			}
			if v == accept {
				v, tok, tree = unspecified, i, nil
			} else if i < tok {
				lo = min(lo, k.off)
			}
			break
		}
	}()
	tree = p.file()
	return
}

// name is a token that has to be there.
func (p *rparser) name(k string) string {
	p.mark(p.n, "name")
	return p.want(k)
}

func (p *rparser) file() *idlTree {
	var x idlTree
	for {
		switch {
		case p.got("include"):
			x.Headers = append(x.Headers, sx("include", q(p.name("str"))))
			continue
		case p.got("namespace"):
			scope := "*"
			if !p.got("*") {
				scope = q(p.name("id"))
			}
			x.Headers = append(x.Headers, sx("namespace", scope, q(p.name("id")), p.annotations()))
			continue
		}
		break
	}
	for !p.is("eof") {
		x.Defs = append(x.Defs, p.def())
	}
	return &x
}

func sx(xs ...string) string { return "(" + strings.Join(xs, " ") + ")" }
func q(s string) string      { return fmt.Sprintf("%q", s) }

func (p *rparser) def() string {
	p.mark(p.n, "def")
	switch k := p.toks[p.n].kind; k {
	case "const":
		p.n++
		t := p.typ()
		name := p.name("id")
		p.want("=")
		v := p.value()
		p.sep()
		return sx("const", t, q(name), v)
	case "typedef":
		p.n++
		t := p.typ()
		name := p.name("id")
		a := p.annotations()
		p.sep()
		return sx("typedef", t, q(name), a)
	case "enum":
		p.n++
		name := p.name("id")
		p.want("{")
		var vs []string
		for !p.got("}") {
			n := p.name("id")
			v := "-"
			if p.got("=") {
				v = q(p.name("int"))
			}
			vs = append(vs, sx("value", q(n), v, p.annotations()))
			p.sep()
		}
		return sx("enum", q(name), sx(vs...), p.annotations())
	case "struct", "union", "exception":
		p.n++
		name := p.name("id")
		f := p.fields("{", "}")
		return sx(k, q(name), f, p.annotations())
	case "service":
		p.n++
		name, ext := p.name("id"), "-"
		if p.got("extends") {
			ext = q(p.name("id"))
		}
		p.want("{")
		var ms []string
		for !p.got("}") {
			ms = append(ms, p.method())
			p.sep()
		}
		return sx("service", q(name), ext, sx(ms...), p.annotations())
	}
	p.fail()
	return ""
}

func (p *rparser) method() string {
	mode, ret := "-", "void"
	if p.got("oneway") {
		mode = "oneway"
	}
	if !p.got("void") {
		ret = p.typ()
	}
	name := p.name("id")
	args := p.fields("(", ")")
	throws := "-"
	if p.got("throws") {
		throws = p.fields("(", ")")
	}
	return sx("method", mode, ret, q(name), args, throws, p.annotations())
}

func (p *rparser) fields(open, close string) string {
	p.want(open)
	var fs []string
	for !p.got(close) {
		id, req, ref, def := "-", "-", "-", "-"
		if p.is("int") {
			id = q(p.want("int"))
			p.want(":")
		}
		if p.got("required") {
			req = "required"
		} else if p.got("optional") {
			req = "optional"
		}
		t := p.typ()
		if p.got("&") {
			ref = "&"
		}
		var name string
		p.mark(p.n, "name")
		if k := p.toks[p.n]; k.kind == "id" || isIDLKeyword(k.kind) {
			name = k.text
			p.n++
		} else {
			p.fail()
		}
		if p.got("=") {
			def = p.value()
		}
		fs = append(fs, sx("field", id, req, t, ref, q(name), def, p.annotations()))
		p.sep()
	}
	return sx(fs...)
}

func (p *rparser) typ() string {
	p.mark(p.n, "type")
	switch {
	case p.got("map"):
		p.want("<")
		k := p.typ()
		p.want(",")
		v := p.typ()
		p.want(">")
		return sx("map", k, v, p.annotations())
	case p.is("set"), p.is("list"):
		k := p.toks[p.n].kind
		p.n++
		p.want("<")
		e := p.typ()
		p.want(">")
		return sx(k, e, p.annotations())
	}
	n := p.want("id")
	return sx("ref", q(n), p.annotations())
}

func (p *rparser) value() string {
	p.mark(p.n, "value")
	t := p.toks[p.n]
	switch t.kind {
	case "id", "int", "float", "str":
		p.n++
		return sx(t.kind, q(t.text))
	case "[":
		p.n++
		var vs []string
		for !p.got("]") {
			vs = append(vs, p.value())
			p.sep()
		}
		return "[" + strings.Join(vs, " ") + "]"
	case "{":
		p.n++
		var vs []string
		for !p.got("}") {
			k := p.value()
			p.want(":")
			vs = append(vs, k+":"+p.value())
			p.sep()
		}
		return "{" + strings.Join(vs, " ") + "}"
	}
	p.fail()
	return ""
}

func (p *rparser) annotations() string {
	if !p.got("(") {
		return "-"
	}
	as := []string{"ann"}
	for !p.got(")") {
		n, v := p.name("id"), "-"
		if p.got("=") {
			v = q(p.name("str"))
		}
		as = append(as, sx(q(n), v))
		p.sep()
	}
	return sx(as...)
}

// ---- trees of the parser under test ----

// idlConv turns a tree of the parser into S-expressions; bad renders
// placeholders.
type idlConv struct {
	bad func(*thriftfile.BadDef) string
}

func (c *idlConv) file(f *thriftfile.File) *idlTree {
	var x idlTree
	for _, h := range f.Headers {
		switch h := h.(type) {
		case *thriftfile.Include:
			x.Headers = append(x.Headers, sx("include", cstr(h.Path)))
		case *thriftfile.Namespace:
			scope := "*"
			if h.Scope != nil {
				scope = cname(h.Scope)
			}
			x.Headers = append(x.Headers, sx("namespace", scope, cname(h.Name), c.ann(h.Annotations)))
		default:
			x.Headers = append(x.Headers, fmt.Sprintf("%T", h))
		}
	}
	for _, d := range f.Defs {
		x.Defs = append(x.Defs, c.def(d))
	}
	return &x
}

func cname(i *thriftfile.Ident) string {
	if i == nil {
		return "nil"
	}
	return q(i.Name)
}

func cstr(s *thriftfile.String) string {
	if s == nil {
		return "nil"
	}
	return q(s.Value)
}

func (c *idlConv) def(d thriftfile.Def) string {
	switch d := d.(type) {
	case *thriftfile.BadDef:
		return c.bad(d)
	case *thriftfile.Const:
		return sx("const", c.typ(d.Type), cname(d.Name), c.value(d.Value))
	case *thriftfile.Typedef:
		return sx("typedef", c.typ(d.Type), cname(d.Name), c.ann(d.Annotations))
	case *thriftfile.Enum:
		vs := "nil"
		if d.Values != nil {
			var xs []string
			for _, v := range d.Values.List {
				n := "-"
				if v.Value != nil {
					n = q(v.Value.Value)
				}
				xs = append(xs, sx("value", cname(v.Name), n, c.ann(v.Annotations)))
			}
			vs = sx(xs...)
		}
		return sx("enum", cname(d.Name), vs, c.ann(d.Annotations))
	case *thriftfile.Struct:
		k := "struct"
		if d.Union {
			k = "union"
		}
		if d.Exception {
			if k == "union" {
				k = "union+exception"
			} else {
				k = "exception"
			}
		}
		return sx(k, cname(d.Name), c.fields(d.Fields), c.ann(d.Annotations))
	case *thriftfile.Service:
		ext, ms := "-", "nil"
		if d.Extends != nil {
			ext = cname(d.Extends)
		}
		if d.Methods != nil {
			var xs []string
			for _, m := range d.Methods.List {
				xs = append(xs, c.method(m))
			}
			ms = sx(xs...)
		}
		return sx("service", cname(d.Name), ext, ms, c.ann(d.Annotations))
	}
	return fmt.Sprintf("%T", d)
}

func (c *idlConv) method(m *thriftfile.Method) string {
	mode, ret, throws := "-", "", "-"
	if m.OneWay {
		mode = "oneway"
	}
	switch {
	case m.Void && m.Return == nil:
		ret = "void"
	case m.Void:
		ret = "void+" + c.typ(m.Return)
	default:
		ret = c.typ(m.Return)
	}
	if m.Throws != nil {
		throws = c.fields(m.Throws)
	}
	return sx("method", mode, ret, cname(m.Name), c.fields(m.Arguments), throws, c.ann(m.Annotations))
}

func (c *idlConv) fields(l *thriftfile.FieldList) string {
	if l == nil {
		return "nil"
	}
	var xs []string
	for _, f := range l.List {
		id, req, ref, def := "-", "-", "-", "-"
		if f.ID != nil {
			id = q(f.ID.Value)
		}
		switch {
		case f.Required && f.Optional:
			req = "both"
		case f.Required:
			req = "required"
		case f.Optional:
			req = "optional"
		}
		if f.Reference {
			ref = "&"
		}
		if f.Default != nil {
			def = c.value(f.Default)
		}
		xs = append(xs, sx("field", id, req, c.typ(f.Type), ref, cname(f.Name), def, c.ann(f.Annotations)))
	}
	return sx(xs...)
}

func (c *idlConv) typ(t thriftfile.Type) string {
	switch t := t.(type) {
	case *thriftfile.Map:
		return sx("map", c.typ(t.Key), c.typ(t.Value), c.ann(t.Annotations))
	case *thriftfile.Set:
		return sx("set", c.typ(t.Element), c.ann(t.Annotations))
	case *thriftfile.List:
		return sx("list", c.typ(t.Element), c.ann(t.Annotations))
	case *thriftfile.TypeRef:
		return sx("ref", cname(t.Name), c.ann(t.Annotations))
	}
	return fmt.Sprintf("%T", t)
}

func (c *idlConv) value(v thriftfile.Value) string {
	switch v := v.(type) {
	case *thriftfile.Ident:
		return sx("id", cname(v))
	case *thriftfile.Int:
		return sx("int", q(v.Value))
	case *thriftfile.Float:
		return sx("float", q(v.Value))
	case *thriftfile.String:
		return sx("str", cstr(v))
	case *thriftfile.ValueList:
		var xs []string
		for _, e := range v.List {
			xs = append(xs, c.value(e))
		}
		return "[" + strings.Join(xs, " ") + "]"
	case *thriftfile.KeyValuePairList:
		var xs []string
		for _, e := range v.List {
			xs = append(xs, c.value(e.Key)+":"+c.value(e.Value))
		}
		return "{" + strings.Join(xs, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func (c *idlConv) ann(a *thriftfile.AnnotationList) string {
	if a == nil {
		return "-"
	}
	xs := []string{"ann"}
	for _, x := range a.List {
		v := "-"
		if x.Value != nil {
			v = cstr(x.Value)
		}
		xs = append(xs, sx(cname(x.Name), v))
	}
	return sx(xs...)
}
