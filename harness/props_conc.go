package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/thrift"
	"pgregory.net/rapid"
)

// ---- C14 ----

// Types that refer to themselves, in many instances.

type gRec[N any] struct {
	V    int32               `thrift:"1"`
	Next *gRec[N]            `thrift:"2"`
	Kids []gRec[N]           `thrift:"3"`
	M    map[string]*gRec[N] `thrift:"4"`
	S    thrift.Set[gRec[N]] `thrift:"-5"`
}

type gMutA[N any] struct {
	B *gMutB[N] `thrift:"1"`
	X string    `thrift:"2,required"`
}

type gMutB[N any] struct {
	A []gMutA[N]      `thrift:"1"`
	L gRL[N]          `thrift:"2"`
	R map[int8]gRM[N] `thrift:"3"`
}

type (
	gRL[N any] []gRL[N]
	gRM[N any] map[string]gRM[N]
)

// A recursive type with a broken part.
type gBadA[N any] struct {
	B *gBadB[N] `thrift:"1"`
}

type gBadB[N any] struct {
	A *gBadA[N] `thrift:"1"`
	X int32     `thrift:"1"`
}

// Different types of the same name.

func twin1[N any]() []reflect.Type {
	type local struct {
		A int32 `thrift:"1"`
	}
	return []reflect.Type{rt[local](), rt[struct {
		F local `thrift:"1"`
	}](), rt[[]local](), rt[map[string]local]()}
}

func twin2[N any]() []reflect.Type {
	type local struct {
		A int32  `thrift:"2"`
		B string `thrift:"1,required"`
	}
	return []reflect.Type{rt[local](), rt[struct {
		F local `thrift:"1"`
	}](), rt[[]local](), rt[*local]()}
}

func twin3[N any]() []reflect.Type {
	type local int64
	return []reflect.Type{rt[local](), rt[struct {
		F local `thrift:"1"`
	}](), rt[[]local](), rt[map[local]local]()}
}

func twin4[N any]() []reflect.Type {
	type local string
	return []reflect.Type{rt[local](), rt[struct {
		F local `thrift:"1"`
	}](), rt[[]local](), rt[map[local]local]()}
}

func twin5[N any]() []reflect.Type {
	type local []bool
	return []reflect.Type{rt[local](), rt[struct {
		F local `thrift:"1"`
	}](), rt[[]local](), rt[map[string]local]()}
}

type family struct {
	good []reflect.Type
	bad  reflect.Type
}

func newFamily[N any]() family {
	twins := slices.Concat(twin1[N](), twin2[N](), twin3[N](), twin4[N](), twin5[N]())
	return family{
		good: append([]reflect.Type{rt[gRec[N]](), rt[gMutA[N]](), rt[gMutB[N]](), rt[gRL[N]](), rt[gRM[N]](), rt[[]gMutA[N]](), rt[map[string]gMutB[N]](), rt[*gMutA[N]]()}, twins...),
		bad:  rt[gBadA[N]](),
	}
}

type concType struct {
	Ty  *Ty  `json:"ty,omitempty"`
	Fam int  `json:"fam,omitempty"` // 1 + type of a family
	Bad bool `json:"bad,omitempty"` // the struct type has tag errors
}

type concJob struct {
	Type  int    `json:"type"`
	Op    string `json:"op"` // marshal, calls, unmarshal, skip
	Proto string `json:"proto"`
	V     *GV    `json:"v,omitempty"`
	Data  *V     `json:"data,omitempty"`
	At    int    `json:"at,omitempty"` // where a fault comes
}

type concCase struct {
	Types []concType `json:"types"`
	Jobs  []concJob  `json:"jobs"`
	Plan  [][]int    `json:"plan"` // the jobs of every goroutine
	Procs int        `json:"procs"`
}

// Bad struct types, wrapped to be new.
var badStructs = []*Ty{
	{K: "struct", F: []TF{{Tag: "1", T: &Ty{K: "i32"}}, {Tag: "1", T: &Ty{K: "string"}}}},
	{K: "struct", F: []TF{{Tag: "x", T: &Ty{K: "i32"}}}},
	{K: "struct", F: []TF{{Tag: "1,Required", T: &Ty{K: "i32"}}}},
	{K: "struct", F: []TF{{None: true, T: &Ty{K: "i32"}}}},
	{K: "struct", F: []TF{{Tag: "1", T: &Ty{K: "i32"}}, {Tag: "70000", T: &Ty{K: "string"}}}},
}

func (c *concType) draw(t *rapid.T) reflect.Type {
	switch k := between(t, "type", 0, 9); {
	case k < 3:
		c.Fam = between(t, "family type", 1, len(families[0].good))
	case k == 3:
		c.Fam, c.Bad = 1, true
	case k == 4:
		c.Bad = true
		c.Ty = badStructs[between(t, "bad", 0, len(badStructs)-1)]
		for i, n := 0, between(t, "wrapped", 0, 2); i < n; i++ {
			c.Ty = &Ty{K: "struct", F: []TF{{Tag: "1,required", T: c.Ty}, {Tag: "2", T: &Ty{K: "i32"}}}}
		}
	default:
		c.Ty = tygen{}.structTy(t, between(t, "depth", 1, 4))
		for i, n := 0, between(t, "wrapped", 0, 2); i < n; i++ {
			switch between(t, "wrap", 0, 2) {
			case 0:
				c.Ty = &Ty{K: "slice", E: c.Ty}
			case 1:
				c.Ty = &Ty{K: "ptr", E: c.Ty}
			case 2:
				c.Ty = &Ty{K: "map", M: &Ty{K: "string"}, E: c.Ty}
			}
		}
	}
	return c.build(families[0], "")
}

func (c *concType) build(f family, salt string) reflect.Type {
	switch {
	case c.Fam > 0 && c.Bad:
		return f.bad
	case c.Fam > 0:
		return f.good[c.Fam-1]
	}
	return c.Ty.salted(salt)
}

func drawConcCase(t *rapid.T) *concCase {
	c := &concCase{Procs: pick(t, "procs", 8, 8, 8, 4, 2)}
	var types []reflect.Type
	for i, n := 0, between(t, "types", 1, 4); i < n; i++ {
		c.Types = append(c.Types, concType{})
		types = append(types, c.Types[i].draw(t))
	}
	for i, n := 0, between(t, "jobs", 1, 8); i < n; i++ {
		j := concJob{Type: between(t, "of type", 0, len(types)-1), Proto: pick(t, "proto", protoNames...)}
		typ := types[j.Type]
		j.Op = pick(t, "op", "marshal", "calls", "unmarshal", "unmarshal", "skip")
		if c.Types[j.Type].Bad {
			if j.Op == "unmarshal" || j.Op == "skip" {
				j.Op = "unmarshal"
				j.Data = &V{T: tStruct, F: []F{{1, &V{T: tStruct, F: []F{{1, &V{T: tStruct, F: []F{{1, &V{T: tStruct}}}}}}}}}}
			} else if c.Types[j.Type].Fam > 0 {
				// One that reaches the broken part.
				j.V = &GV{L: []*GV{{L: []*GV{{L: []*GV{{Nil: true}, {I: 5}}}}}}}
			}
		} else if j.Op == "unmarshal" || j.Op == "skip" {
			g := datagen{unknown: true, stop: true}
			if chance(t, 30, "mismatches") {
				g.mismatch = 10
			}
			j.Data = drawData(t, typ, g)
		} else {
			j.V = drawGV(t, typ, gvgen{})
		}
		c.Jobs = append(c.Jobs, j)
	}
	same := chance(t, 40, "same")
	var order []int
	for i := range c.Jobs {
		order = append(order, i)
	}
	for i, n := 0, between(t, "goroutines", 2, 16); i < n; i++ {
		p := order
		if !same {
			p = nil
			for k, m := 0, between(t, "steps", 1, 4); k < m; k++ {
				p = append(p, between(t, "job", 0, len(c.Jobs)-1))
			}
		}
		c.Plan = append(c.Plan, p)
	}
	return c
}

var concSerial atomic.Int64

// prepared is a job with what it has to give.
type prepared struct {
	keep func(error) // is given the errors
	typ  reflect.Type
	in   reflect.Value
	data []byte
	run  func() error
}

func (c *concCase) prepare(i int, typ reflect.Type) *prepared {
	j := c.Jobs[i]
	p := &prepared{typ: typ}
	bad := c.Types[j.Type].Bad
	wantErr := func(err error, action string) error {
		if p.keep != nil {
			p.keep(err)
		}
		if err == nil {
			return fmt.Errorf("%s of a value of type %v succeeds", action, typ)
		}
		return descriptive(err, typ, action)
	}
	marshalErr := func(err error) error {
		if !bad {
			if err != nil {
				return fmt.Errorf("marshalling a %v with %s failed: %v", typ, j.Proto, err)
			}
			return nil
		}
		return wantErr(err, "marshal")
	}
	switch j.Op {
	case "marshal", "calls":
		p.in = newGV(typ, j.V)
		want := ""
		var wire byte
		if !bad {
			v := refMarshal(p.in.Elem())
			want, wire = v.canon(), v.T
		}
		p.run = func() error {
			var got *V
			if j.Op == "calls" {
				w := newTokWriter()
				if err := thrift.Marshal(w, p.in.Interface()); err != nil || bad {
					return marshalErr(err)
				}
				if w.misuse != nil {
					return w.misuse
				}
				v, rest, err := treeOf(w.toks, wire)
				if err != nil || len(rest) > 0 {
					return fmt.Errorf("ill-formed calls: %v %v", err, rest)
				}
				got = v
			} else {
				var buf bytes.Buffer
				w := protoByName(j.Proto).NewWriter(&buf)
				if err := thrift.Marshal(w, p.in.Interface()); err != nil || bad {
					return marshalErr(err)
				}
				if err := w.Flush(); err != nil {
					return err
				}
				v, rest, err := refDecode(j.Proto, buf.Bytes(), wire)
				if err != nil || len(rest) > 0 {
					return fmt.Errorf("bytes %x: %v, %d left", clipBytes(buf.Bytes()), err, len(rest))
				}
				got = v
			}
			if g := got.canon(); g != want {
				return fmt.Errorf("marshalling a %v with %s gives\n     %s\nwant %s", typ, j.Proto, clip(g, 1500), clip(want, 1500))
			}
			return nil
		}
	case "skip":
		p.data = append(refEncode(j.Proto, nil, j.Data), 0x5a)
		p.run = func() error {
			r := protoByName(j.Proto).NewReader(bytes.NewReader(p.data))
			if err := thriftwire.Skip(r, thriftwire.Type(j.Data.T)); err != nil {
				return fmt.Errorf("skipping failed: %v", err)
			}
			if b, err := r.ReadByte(); err != nil || b != 0x5a {
				return fmt.Errorf("after skipping: read %#x, %v", b, err)
			}
			return nil
		}
	case "unmarshal":
		p.data = refEncode(j.Proto, nil, j.Data)
		want := ""
		var werr error
		a := &applier{}
		if !bad {
			q := reflect.New(typ)
			werr = a.apply(q.Elem(), j.Data)
			want = canonGo(q.Elem(), false, true)
		}
		p.run = func() error {
			q := reflect.New(typ)
			err := thrift.Unmarshal(protoByName(j.Proto).NewReader(bytes.NewReader(p.data)), q.Interface())
			switch {
			case bad:
				return wantErr(err, "unmarshal")
			case werr != nil:
				return wantErr(err, "unmarshal")
			case err != nil && a.ambiguous:
				return nil
			case err != nil:
				return fmt.Errorf("unmarshalling into a %v from %s failed: %v", typ, j.Proto, err)
			}
			if g := canonGo(q.Elem(), false, true); g != want {
				return fmt.Errorf("unmarshalling into a %v from %s gives\n     %s\nwant %s", typ, j.Proto, clip(g, 1500), clip(want, 1500))
			}
			return nil
		}
	}
	return p
}

func clipBytes(b []byte) []byte { return b[:min(len(b), 200)] }

func checkConc(c *concCase, x *Ctx) error {
	n := concSerial.Add(1)
	fam := families[int(n)%len(families)]
	var types []reflect.Type
	for i := range c.Types {
		types = append(types, c.Types[i].build(fam, strconv.FormatInt(n, 10)))
		switch {
		case c.Types[i].Bad:
			x.Label("broken type")
		case c.Types[i].Fam > 0:
			x.Label("recursive type")
		default:
			x.Label("new type")
		}
	}
	var jobs []*prepared
	for i := range c.Jobs {
		jobs = append(jobs, c.prepare(i, types[c.Jobs[i].Type]))
		x.Label("%s", c.Jobs[i].Op)
	}
	if len(c.Plan) > 1 {
		x.NonTrivial()
	}
	if old := runtime.GOMAXPROCS(0); old != c.Procs {
		runtime.GOMAXPROCS(c.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	errs := make([]error, len(c.Plan))
	var ready, done sync.WaitGroup
	var start atomic.Bool
	ready.Add(len(c.Plan))
	for i, plan := range c.Plan {
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			for !start.Load() {
				runtime.Gosched()
			}
			for _, k := range plan {
				if err := catch(jobs[k].run); err != nil {
					errs[i] = fmt.Errorf("job %d (%s): %w", k, c.Jobs[k].Op, err)
					return
				}
			}
		}()
	}
	ready.Wait()
	start.Store(true)
	done.Wait()
	if err := errors.Join(errs...); err != nil {
		return fmt.Errorf("with %d goroutines: %w", len(c.Plan), err)
	}
	// Alone, now that all types have been used.
	for k, j := range jobs {
		if err := j.run(); err != nil {
			return fmt.Errorf("afterwards: job %d (%s): %w", k, c.Jobs[k].Op, err)
		}
	}
	return nil
}

func init() {
	register(&property{
		id:   "C14",
		rule: "2 to 16 goroutines that start together marshal, unmarshal and skip values of types that are new to the process, under the race detector, with results known beforehand; non-trivial: at least two goroutines",
		race: true,
		assumptions: []string{
			"schedules are whatever the Go scheduler makes of the start barrier; the race detector reports unsynchronised accesses that happen, in whatever order",
		},
		subs: []*subDef{sub("concurrent", 12000, 150000, drawConcCase, checkConc).repeats(50).perProcess(300)},
	})
}
