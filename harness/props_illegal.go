package main

// C20: illegal characters in comments and literals.

import (
	"fmt"
	gotoken "go/token"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"pgregory.net/rapid"
)

// illegalCase is a document that is valid but for characters in comments or in a literal.
type illegalCase struct {
	Toks []string `json:"toks"`
	Gaps []Bytes  `json:"gaps"`
	Bad  int      `json:"bad"` // the gap with the first one
	At   int      `json:"at"`  // its offset in there

	Lit  int   `json:"lit,omitempty"`  // or the string literal with one
	Char Bytes `json:"char,omitempty"` // it
}

func drawIllegal(t *rapid.T) *illegalCase {
	g := drawIDL(t, 4)
	c := &illegalCase{Toks: resolve(t, g.toks), Bad: -1}
	n := len(c.Toks)
	for _, s := range drawGaps(t, c.Toks) {
		c.Gaps = append(c.Gaps, Bytes(s))
	}
	if chance(t, 40, "literal") {
		var at []int
		for i, k := range c.Toks {
			if k != "" && (k[0] == '"' || k[0] == '\'') {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			c.Lit = pick(t, "which", at...)
			c.At = between(t, "at", 1, len(c.Toks[c.Lit])-1)
			c.Char = []byte(pick(t, "char", "\x00", "\xff", "\xfe", "\ufeff"))
			if lit := c.Toks[c.Lit]; lit[c.At-1] != '\\' && utf8.RuneStart(lit[c.At]) {
				return c
			}
			c.Char = nil
		}
	}
	first, last := between(t, "first", 0, n), 0
	last = first
	if chance(t, 30, "more") {
		last = min(n, first+between(t, "gaps", 1, 5))
	}
	for i := first; i <= last; i++ {
		text := func(l string) string {
			s := ""
			for range between(t, l, 0, 3) {
				s += pick(t, "text", " struct Q {} ", "a", "\"", "'", "*", "/", "/*", "//", "#", "é", "\\", "const i32 x = 1", "}", "{", "\t", " ")
			}
			return s
		}
		open, end := "/*", "*/"
		if chance(t, 40, "line") {
			open, end = pick(t, "open", "//", "#"), "\n"
		}
		pre := text("before")
		gap := " " + open + pre
		if open == "/*" && len(pre) > 0 && (pre[0] == '/' || containsEnd(pre)) {
			gap = " " + open + " x "
		}
		at := len(gap)
		for range between(t, "illegal", 1, 2) {
			gap += pick(t, "char", "\x00", "\xff", "\xc3", "\ufeff", "\x80", "\xed\xa0\x80", "\x00\x00") + pick(t, "next", " ", "x", "\\")
			post := text("after")
			if open == "/*" && containsEnd("x"+post+"*") {
				post = " y "
			}
			gap += post
		}
		if open == "/*" && gap[len(gap)-1] == '/' {
			gap += " "
		}
		gap += end
		if i == first {
			c.Bad, c.At = i, len(c.Gaps[i])+at
		}
		if len(c.Gaps[i]) > 0 { // perhaps a comment that ends with the line
			gap = "\n" + gap
			if i == first {
				c.At++
			}
		}
		c.Gaps[i] = append(c.Gaps[i], gap...)
	}
	return c
}

func containsEnd(s string) bool {
	for i := 1; i < len(s); i++ {
		if s[i-1] == '*' && s[i] == '/' {
			return true
		}
	}
	return false
}

func checkIllegal(c *illegalCase, x *Ctx) error {
	plain, _ := render(false, c.Toks, spaces(len(c.Toks)+1))
	v, _, _, _, want, _ := refParse(plain, nil)
	if v != accept {
		fault("%q is not valid", plain)
	}
	var src []byte
	at := 0
	for i, g := range c.Gaps {
		if i == c.Bad {
			at = len(src) + c.At
		}
		src = append(src, g...)
		switch {
		case i == len(c.Toks):
		case c.Char != nil && i == c.Lit:
			at = len(src) + c.At
			k := c.Toks[i]
			src = append(append(append(src, k[:c.At]...), c.Char...), k[c.At:]...)
			x.Label("in a literal")
		default:
			src = append(src, c.Toks[i]...)
		}
	}
	x.Label("definitions %d", min(len(want.Defs), 4))
	if len(want.Defs) > 0 {
		x.NonTrivial()
	}
	p, err := parseIDL(gotoken.NewFileSet(), idlName, src)
	if err != nil {
		return err
	}
	if err := p.sorted(); err != nil {
		return err
	}
	if p.msg == "" {
		return fmt.Errorf("no error for the illegal character at offset %d of %.1000q", at, src)
	}
	if c.Char != nil {
		eachNode(reflect.ValueOf(p.file), func(v reflect.Value) {
			if s, ok := v.Interface().(*thriftfile.String); ok {
				s.Value = strings.Replace(s.Value, string(c.Char), "", 1)
			}
		})
	}
	if err := diffTree(p.tree(offsetTree), want); err != nil {
		return fmt.Errorf("%w\nin %.1000q, with an illegal character: %s", err, src, p.msg)
	}
	offs, err := p.offsets(src)
	if err != nil {
		return err
	}
	if offs[0] != at {
		return fmt.Errorf("first error at offset %d, want %d, in %.1000q: %s", offs[0], at, src, p.msg)
	}
	return nil
}
