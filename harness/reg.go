package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// Ctx collects what a check says about one case.
type Ctx struct {
	labels     map[string]bool
	nontrivial bool
}

// Label classifies the case; the distribution is written to the evidence file.
func (c *Ctx) Label(format string, args ...any) {
	if c.labels == nil {
		c.labels = map[string]bool{}
	}
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	c.labels[format] = true
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// subDef is one generated check of a property.
type subDef struct {
	name     string
	quick    int // number of cases in each tier
	thorough int
	draw     func(*rapid.T) any
	decode   func([]byte) (any, error)
	check    func(any, *Ctx) error
	enum     func(func(any) bool) // instead of draw: enumerates all cases
	repeat   int                  // how often replay repeats the case (0: once)
	perProc  int                  // at most this many cases in one process (0: any number)
}

func sub[C any](name string, quick, thorough int, gen func(*rapid.T) *C, check func(*C, *Ctx) error) *subDef {
	return &subDef{
		name: name, quick: quick, thorough: thorough,
		draw:   func(t *rapid.T) any { return gen(t) },
		decode: decodeCase[C],
		check:  func(c any, x *Ctx) error { return check(c.(*C), x) },
	}
}

// enumSub is a check over an enumerated list of cases.
func enumSub[C any](name string, enum func(yield func(*C) bool), check func(*C, *Ctx) error) *subDef {
	return &subDef{
		name:   name,
		enum:   func(y func(any) bool) { enum(func(c *C) bool { return y(c) }) },
		decode: decodeCase[C],
		check:  func(c any, x *Ctx) error { return check(c.(*C), x) },
	}
}

func (s *subDef) repeats(n int) *subDef { s.repeat = n; return s }

func (s *subDef) perProcess(n int) *subDef { s.perProc = n; return s }

func decodeCase[C any](b []byte) (any, error) {
	c := new(C)
	return c, json.Unmarshal(b, c)
}

type property struct {
	id          string
	level       string
	rule        string
	race        bool
	assumptions []string
	subs        []*subDef
	// confirm reports whether a known finding still shows.
	confirm func(key string) bool
}

var properties = map[string]*property{}

func register(p *property) {
	if p.level == "" {
		p.level = "exploration"
	}
	if properties[p.id] != nil {
		panic("duplicate property " + p.id)
	}
	properties[p.id] = p
}

func propertyIDs() (ids []string) {
	for id := range properties {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return
}

func (p *property) sub(name string) *subDef {
	for _, s := range p.subs {
		if s.name == name {
			return s
		}
	}
	return nil
}

// replayFile is the format of replay and regression files.
type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// panicError is a panic of the code under test.
type panicError struct{ msg string }

func (e *panicError) Error() string { return e.msg }

// harnessFault is panicked by the harness for mistakes of its own; it is an
// error exit, never a violation.
type harnessFault struct{ msg string }

// runCheck runs the check on one case; panics become errors.
func runCheck(s *subDef, c any, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessFault); ok {
				panic(h)
			}
			st := string(debug.Stack())
			// Keep the frames below the panic.
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = &panicError{fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	return s.check(c, x)
}

// catch runs f (code under test) and turns a panic into an error.
func catch(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessFault); ok {
				panic(h)
			}
			err = &panicError{fmt.Sprintf("panic: %v", r)}
		}
	}()
	return f()
}

func fault(format string, args ...any) {
	panic(harnessFault{fmt.Sprintf(format, args...)})
}

// knownFinding is a line of known_findings.txt about a defect that has been
// left as it is:
//
//	known: property=<id> key=<key> <what fails>
type knownFinding struct{ id, key, what string }

var knownFindings = sync.OnceValue(func() (l []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil && !errors.Is(err, fs.ErrNotExist) {
		fault("%v", err)
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " key=")
		key, what, _ := strings.Cut(rest, " ")
		l = append(l, knownFinding{id, key, what})
	}
	return l
})

// isKnown reports whether the failure that key identifies is listed.
func isKnown(id, key string) bool {
	for _, k := range knownFindings() {
		if k.id == id && k.key == key {
			return true
		}
	}
	return false
}
