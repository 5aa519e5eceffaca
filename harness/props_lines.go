package main

// C34: the file set knows the parsed files.

import (
	"bytes"
	"fmt"
	gotoken "go/token"

	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"pgregory.net/rapid"
)

type setFile struct {
	Name string `json:"name"`
	Src  Src    `json:"src"`
	Lone bool   `json:"lone,omitempty"` // added without being parsed
}

type setCase struct {
	Files []setFile `json:"files"`
}

func (f *setFile) lines() []int {
	lines := []int{0}
	for i, c := range f.Src {
		if c == '\n' && i+1 < len(f.Src) {
			lines = append(lines, i+1)
		}
	}
	return lines
}

func drawSet(t *rapid.T) *setCase {
	c := &setCase{}
	for i, n := 0, between(t, "files", 1, 4); i < n; i++ {
		f := setFile{Name: pick(t, "name", "f.thrift", "", "a/b/c.thrift", "é.thrift", "x:1:2", "./b//../f.thrift", "f.thrift")}
		switch between(t, "kind", 0, 7) {
		case 0:
			f.Src = drawRendered(t, resolve(t, drawIDL(t, 4).toks))
		case 1:
			f.Src = drawRendered(t, mutateToks(t, resolve(t, drawIDL(t, 4).toks)))
		case 2:
			f.Src = mutateBytes(t, drawRendered(t, resolve(t, drawIDL(t, 4).toks)))
		case 3:
			f.Src = drawRendered(t, drawCorpus(t))
		case 4:
			f.Src = drawLexErrors(t).Src
		case 5:
			for _, s := range drawBroken(t).Segs {
				f.Src = append(append(f.Src, s.Src...), '\n')
			}
		case 6:
			n := between(t, "tokens", 1, 60)
			for i := 0; i < n; i++ {
				f.Src = append(f.Src, pick(t, "token", append(append([]string{"\n", "\r\n", "/*\n*/", "#\n", "//line x:7\n", "\n\n\n"}, wrongToks...), soupFaults...)...)...)
				f.Src = append(f.Src, pick(t, "join", " ", "", "\n")...)
			}
		case 7:
			f.Lone = true
			f.Src = bytes.Repeat([]byte("lone\n"), between(t, "size", 0, 100))
		}
		c.Files = append(c.Files, f)
	}
	return c
}

func checkSet(c *setCase, x *Ctx) error {
	fset := gotoken.NewFileSet()
	var bases []int
	base := fset.Base()
	// all compares the set with the files so far.
	all := func(when string) error {
		i := 0
		var err error
		fset.Iterate(func(g *gotoken.File) bool {
			if i >= len(bases) {
				err = fmt.Errorf("%s: the set has a file more, %q", when, g.Name())
				return false
			}
			f := &c.Files[i]
			lines := f.lines()
			switch {
			case g.Name() != f.Name || g.Base() != bases[i] || g.Size() != len(f.Src):
				err = fmt.Errorf("%s: file %d is %q at %d with %d bytes, not %q at %d with %d bytes", when, i, g.Name(), g.Base(), g.Size(), f.Name, bases[i], len(f.Src))
			case len(f.Src) > 0 && fmt.Sprint(g.Lines()) != fmt.Sprint(lines):
				err = fmt.Errorf("%s: file %d (%q) has lines at %v, not at %v", when, i, f.Name, clip(fmt.Sprint(g.Lines()), 500), clip(fmt.Sprint(lines), 500))
			}
			i++
			return err == nil
		})
		if err == nil && i < len(bases) {
			err = fmt.Errorf("%s: the set has %d of %d files", when, i, len(bases))
		}
		return err
	}
	var trees []*thriftfile.File
	for i := range c.Files {
		f := &c.Files[i]
		bases = append(bases, base)
		base += len(f.Src) + 1
		if f.Lone {
			g := fset.AddFile(f.Name, -1, len(f.Src))
			g.SetLinesForContent(f.Src)
			trees = append(trees, nil)
			continue
		}
		in := bytes.Clone(f.Src)
		tree, err := thriftfile.Parse(fset, f.Name, in)
		if tree == nil {
			return fmt.Errorf("no tree returned: %v", err)
		}
		trees = append(trees, tree)
		if err != nil {
			x.Label("rejected")
		} else {
			x.Label("accepted")
		}
		if err := all(fmt.Sprintf("after parsing file %d", i)); err != nil {
			return err
		}
		if len(f.lines()) > 2 && len(c.Files) > 1 {
			x.NonTrivial()
		}
	}
	if err := all("at the end"); err != nil {
		return err
	}
	for i, tree := range trees {
		if tree == nil {
			continue
		}
		f := &c.Files[i]
		lines := f.lines()
		for _, d := range tree.Defs {
			b, ok := d.(*thriftfile.BadDef)
			if !ok {
				continue
			}
			x.Label("placeholder")
			for _, pos := range []gotoken.Pos{b.From, b.To} {
				off := int(pos) - bases[i]
				want := gotoken.Position{Filename: f.Name, Offset: off, Line: 1, Column: off + 1}
				for k, l := range lines {
					if l <= off {
						want.Line, want.Column = k+1, off-l+1
					}
				}
				if got := fset.Position(pos); got != want {
					return fmt.Errorf("file %d: a placeholder is at offset %d, %v, and not at %v", i, got.Offset, got, want)
				}
			}
		}
	}
	return nil
}

func init() {
	register(&property{
		id:          "C34",
		rule:        "one to four files, valid, broken or any text, parsed into one file set beside files of other origin; non-trivial: several files, one with more than two lines",
		assumptions: []string{"a line starts behind every newline that is not the last byte (go/token's rule)"},
		subs:        []*subDef{sub("set", 60000, 1000000, drawSet, checkSet)},
	})
}
