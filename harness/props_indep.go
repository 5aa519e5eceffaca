package main

// C31: what is in use at the same time does not meet. C32: sizes that do not
// fit.

import (
	"bytes"
	"errors"
	"fmt"
	gotoken "go/token"
	"math"
	"math/bits"
	"runtime"
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/itstarsun/go-thrift/encoding/thriftcompact"
	"github.com/itstarsun/go-thrift/encoding/thriftwire"
	"github.com/itstarsun/go-thrift/internal/thriftmemo"
	"github.com/itstarsun/go-thrift/thrift"
	"github.com/itstarsun/go-thrift/tools/thriftfile"
	"pgregory.net/rapid"
)

// ---- C31 ----

// An actor uses one reader or one writer, for one stream after the other.
type actor struct {
	Kind    string `json:"kind"` // read, write, memo
	Proto   string `json:"proto,omitempty"`
	Rounds  []*Msg `json:"rounds"`
	Bytes   bool   `json:"bytes"`           // strings as byte slices
	Chunk   int    `json:"chunk"`           // of the stream read
	Flushes []int  `json:"flushes"`         // flush in front of these calls
	Fresh   bool   `json:"fresh,omitempty"` // new reader or writer for every round, no reset
}

type mixCase struct {
	Actors []*actor `json:"actors"`
	Turns  []int    `json:"turns"` // lengths of the turns, cyclic
	Par    bool     `json:"par"`   // each in a goroutine of its own
	Procs  int      `json:"procs"`
}

func drawMix(t *rapid.T) *mixCase {
	c := &mixCase{Procs: pick(t, "procs", 8, 8, 4, 2), Par: chance(t, 30, "parallel")}
	g := vgen{noDeep: true, dupIDs: true}
	for i, n := 0, between(t, "actors", 2, 6); i < n; i++ {
		a := &actor{
			Kind: pick(t, "kind", "read", "read", "write", "write", "memo"), Proto: pick(t, "proto", protoNames...),
			Bytes: rapid.Bool().Draw(t, "bytes"), Chunk: pick(t, "chunk", 0, 0, 1, 7, 4096), Fresh: rapid.Bool().Draw(t, "fresh"),
		}
		g.noBig = !chance(t, 10, "big")
		for j, m := 0, between(t, "rounds", 1, 3); j < m; j++ {
			a.Rounds = append(a.Rounds, g.drawMsg(t, true))
		}
		for j, m := 0, between(t, "flushes", 0, 2); j < m; j++ {
			a.Flushes = append(a.Flushes, between(t, "flush", 0, 20))
		}
		c.Actors = append(c.Actors, a)
	}
	for i, n := 0, between(t, "turns", 1, 12); i < n; i++ {
		c.Turns = append(c.Turns, pick(t, "turn", 1, 1, 1, 2, 3, 10))
	}
	return c
}

type running struct {
	*actor
	round int
	toks  []Tok // of the round
	pos   int

	out     bytes.Buffer
	w       thriftwire.Writer
	r       thriftwire.Reader
	memo    *thriftmemo.Memo
	got     []Tok
	written []Tok // kept by the memo
}

func (a *actor) start() *running { return &running{actor: a, round: -1} }

// step makes one call; it reports whether there are more.
func (a *running) step() (bool, error) {
	if a.pos == len(a.toks) {
		if err := a.finish(); err != nil {
			return false, err
		}
		if a.round++; a.round == len(a.Rounds) {
			return false, nil
		}
		m := a.Rounds[a.round]
		a.pos, a.got = 0, nil
		p := protoByName(a.Proto)
		switch a.Kind {
		case "write":
			a.toks = msgTokens(m, nil, true)
			a.out = bytes.Buffer{}
			if a.w == nil || a.Fresh {
				a.w = p.NewWriter(&a.out)
			} else {
				a.w.Reset(&a.out)
			}
		case "read":
			a.toks = msgTokens(m, nil, false)
			in := chunked(refEncodeMsg(a.Proto, nil, m), a.Chunk)
			if a.r == nil || a.Fresh {
				a.r = p.NewReader(in)
			} else {
				a.r.Reset(in)
			}
		case "memo":
			// All is written first and then read.
			a.written = msgTokens(m, nil, true)
			a.toks = append(a.written[:len(a.written):len(a.written)], msgTokens(m, nil, false)...)
			if a.memo == nil || a.Fresh {
				a.memo = new(thriftmemo.Memo)
			} else {
				a.memo.Reset()
			}
		}
		return true, nil
	}
	k := a.toks[a.pos]
	if a.Kind == "write" {
		for _, f := range a.Flushes {
			if f == a.pos {
				if err := a.w.Flush(); err != nil {
					return false, fmt.Errorf("Flush: %v", err)
				}
			}
		}
	}
	a.pos++
	switch a.Kind {
	case "write":
		if err := playTok(a.w, k, a.Bytes); err != nil {
			return false, fmt.Errorf("writing %s: %v", k, err)
		}
		return true, nil
	case "memo":
		if a.pos <= len(a.written) {
			if err := playTok(a.memo.Writer(), k, a.Bytes); err != nil {
				return false, fmt.Errorf("recording %s: %v", k, err)
			}
			return true, nil
		}
	}
	r := a.r
	if a.Kind == "memo" {
		r = a.memo.Reader()
	}
	got, err := fetchTok(r, k.Op, a.Bytes)
	if err != nil {
		return false, fmt.Errorf("reading %s: %v", k, err)
	}
	a.got = append(a.got, got)
	return true, nil
}

// plainTok is what two protocols agree on.
func plainTok(k Tok) string {
	switch k.Op {
	case "StructBegin", "FieldBegin":
		k.Name = ""
	}
	if k.N == 0 {
		switch k.Op {
		case "MapBegin", "SetBegin", "ListBegin":
			k.K, k.E = 0, 0
		}
	}
	return k.String()
}

// finish checks the round that has come to its end.
func (a *running) finish() error {
	if a.round < 0 {
		return nil
	}
	m := a.Rounds[a.round]
	if a.Kind == "write" {
		if err := a.w.Flush(); err != nil {
			return fmt.Errorf("Flush: %v", err)
		}
		if a.Proto == "compact" && wraps(m.Body) {
			return nil
		}
		if want := refEncodeMsg(a.Proto, nil, m); !bytes.Equal(a.out.Bytes(), want) {
			return fmt.Errorf("wrong bytes written by %s: %s", a.Proto, firstDiff(a.out.Bytes(), want))
		}
		return nil
	}
	want := msgTokens(m, nil, false)
	for i, k := range a.got {
		if g, w := plainTok(k), plainTok(want[i]); g != w {
			return fmt.Errorf("call %d: %s read\n got %s\nwant %s", i, a.Kind+" "+a.Proto, clip(g, 500), clip(w, 500))
		}
	}
	if a.Kind == "read" {
		return atEOF(a.r)
	}
	return nil
}

func checkMix(c *mixCase, x *Ctx) error {
	var rs []*running
	for _, a := range c.Actors {
		rs = append(rs, a.start())
		x.Label("%s", a.Kind)
	}
	x.NonTrivial()
	if c.Par {
		x.Label("parallel")
		return together(len(rs), c.Procs, func(i int) error {
			for {
				more, err := rs[i].step()
				if err != nil {
					return fmt.Errorf("actor %d (%s %s), round %d: %w", i, rs[i].Kind, rs[i].Proto, rs[i].round, err)
				}
				if !more {
					return nil
				}
			}
		})
	}
	x.Label("in turn")
	live := make([]bool, len(rs))
	for i := range live {
		live[i] = true
	}
	for n, turn := len(rs), 0; n > 0; {
		for i, r := range rs {
			if !live[i] {
				continue
			}
			k := c.Turns[turn%len(c.Turns)]
			turn++
			for ; k > 0; k-- {
				more, err := r.step()
				if err != nil {
					return fmt.Errorf("actor %d (%s %s), round %d: %w", i, r.Kind, r.Proto, r.round, err)
				}
				if !more {
					live[i] = false
					n--
					break
				}
			}
		}
	}
	return nil
}

// together runs f in n goroutines that start at the same time.
func together(n, procs int, f func(int) error) error {
	if old := runtime.GOMAXPROCS(0); old != procs {
		runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
	}
	errs := make([]error, n)
	var ready, done sync.WaitGroup
	var start atomic.Bool
	ready.Add(n)
	for i := range n {
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			for !start.Load() {
				runtime.Gosched()
			}
			errs[i] = catch(func() error { return f(i) })
		}()
	}
	ready.Wait()
	start.Store(true)
	done.Wait()
	return errors.Join(errs...)
}

// ---- several parses at the same time ----

type parsesCase struct {
	Docs   []Src   `json:"docs"`
	Plan   [][]int `json:"plan"`
	Shared bool    `json:"shared"` // one file set for all
	Procs  int     `json:"procs"`
}

func drawParses(t *rapid.T) *parsesCase {
	c := &parsesCase{Procs: pick(t, "procs", 8, 8, 4, 2), Shared: rapid.Bool().Draw(t, "shared")}
	for i, n := 0, between(t, "docs", 1, 5); i < n; i++ {
		toks := resolve(t, drawIDL(t, 3).toks)
		if chance(t, 40, "broken") {
			toks = mutateToks(t, toks)
		}
		src := drawRendered(t, toks)
		if chance(t, 10, "lexical") {
			src = drawLexErrors(t).Src
		}
		c.Docs = append(c.Docs, src)
	}
	for i, n := 0, between(t, "goroutines", 2, 10); i < n; i++ {
		var p []int
		for k, m := 0, between(t, "steps", 1, 4); k < m; k++ {
			p = append(p, between(t, "doc", 0, len(c.Docs)-1))
		}
		c.Plan = append(c.Plan, p)
	}
	return c
}

// parseIn parses with positions that do not depend on what else is in the set.
func parseIn(fset *gotoken.FileSet, src []byte) (*parsed, *idlTree, error) {
	p, err := parseIDL(fset, idlName, src)
	if err != nil {
		return nil, nil, err
	}
	conv := &idlConv{bad: func(b *thriftfile.BadDef) string {
		f := fset.File(b.From)
		if f == nil || f != fset.File(b.To) {
			return fmt.Sprintf("(bad %v %v: not in one file)", b.From, b.To)
		}
		return offsetTree(f.Offset(b.From), f.Offset(b.To))
	}}
	return p, conv.file(p.file), nil
}

func checkParses(c *parsesCase, x *Ctx) error {
	type result struct {
		p    *parsed
		tree *idlTree
	}
	results := make([][]result, len(c.Plan))
	shared := gotoken.NewFileSet()
	err := together(len(c.Plan), c.Procs, func(i int) error {
		for _, k := range c.Plan[i] {
			fset := shared
			if !c.Shared {
				fset = gotoken.NewFileSet()
			}
			p, tree, err := parseIn(fset, c.Docs[k])
			if err != nil {
				return err
			}
			results[i] = append(results[i], result{p, tree})
		}
		return nil
	})
	if err != nil {
		return err
	}
	if c.Shared {
		x.Label("one file set")
	}
	x.NonTrivial()
	// Alone.
	var want []result
	for _, src := range c.Docs {
		p, tree, err := parseIn(gotoken.NewFileSet(), src)
		if err != nil {
			return err
		}
		want = append(want, result{p, tree})
		if p.msg != "" {
			x.Label("rejected")
		}
	}
	for i, plan := range c.Plan {
		for n, k := range plan {
			g, w := results[i][n], want[k]
			if err := diffTree(g.tree, w.tree); err != nil {
				return fmt.Errorf("goroutine %d, document %d, another tree than alone: %w", i, k, err)
			}
			if g.p.msg != w.p.msg || fmt.Sprint(g.p.errs) != fmt.Sprint(w.p.errs) {
				return fmt.Errorf("goroutine %d, document %d: error %.300q at %v, alone: %.300q at %v", i, k, g.p.msg, g.p.errs, w.p.msg, w.p.errs)
			}
		}
	}
	return nil
}

// ---- C32 ----

type sizeCase struct {
	Proto string `json:"proto"`
	What  string `json:"what"`          // map, set, list, string, bytes, name, type; Go values: gostring, gobytes, golist, goset; append-map, append-set, append-list
	Size  int64  `json:"size"`          // or the message type
	Pre   *V     `json:"pre,omitempty"` // written before
	In    int    `json:"in"`            // structs around it
	Join  bool   `json:"join,omitempty"`
}

// huge is memory that is never touched.
var huge = sync.OnceValue(func() []byte { return make([]byte, hugeLen) })

// hugeLen is just above what fits, where an int can hold that.
const hugeLen = 1<<(31*(bits.UintSize/64)) + 1<<10

// headSink keeps the first bytes and refuses to be filled.
type headSink struct {
	b []byte
	n int
}

var errFull = errors.New("sink is full")

func (s *headSink) Write(p []byte) (int, error) {
	s.n += len(p)
	if room := 1<<16 - len(s.b); room < len(p) {
		s.b = append(s.b, p[:room]...)
		return room, errFull
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

func drawSizeCase(t *rapid.T) *sizeCase {
	c := &sizeCase{Proto: pick(t, "proto", protoNames...), In: between(t, "in", 0, 3), Join: chance(t, 20, "join")}
	c.What = pick(t, "what", "map", "set", "list", "map", "set", "list", "append-map", "append-set", "append-list", "string", "bytes", "name", "type", "gostring", "gobytes", "golist", "goset")
	switch c.What {
	case "type":
		c.Size = int64(between(t, "message type", 0, 255))
	case "map", "set", "list", "append-map", "append-set", "append-list":
		if c.What[0] == 'a' {
			c.Proto, c.Join = "compact", false
		}
		switch between(t, "class", 0, 5) {
		case 5:
			c.Size = -int64(1 << between(t, "power", 0, 40))
		case 0:
			c.Size = math.MaxInt32 + int64(between(t, "above", -2, 2))
		case 1:
			c.Size = int64(between(t, "small", 0, 40))
		case 2:
			c.Size = 1<<between(t, "power", 4, 62) + int64(between(t, "off", -1, 1))
		case 3: // something that looks small in 32 bits
			c.Size = int64(between(t, "high", 1, 1<<20))<<32 + int64(between(t, "low", 0, 40))
		case 4:
			c.Size = int64(between(t, "high", 0, 1<<20))<<31 + int64(between(t, "low", -20, 20))
			c.Size = max(c.Size, 0)
		}
	default:
		c.Size = pick[int64](t, "size", 0, 1, 127, 128, 4096, 1<<31, 1<<31+1, 1<<31+500)
	}
	if int64(int(c.Size)) != c.Size || bits.UintSize == 32 && c.Size >= hugeLen && c.tok().Op == "" {
		c.Size &= 1<<10 - 1
	}
	if chance(t, 50, "pre") {
		c.Pre = vgen{noDeep: true, noBig: true}.drawValue(t, 0)
	}
	return c
}

// fits reports whether the encoding can hold the size.
func (c *sizeCase) fits() bool {
	if c.What == "type" {
		return c.Proto != "compact" || c.Size <= 7
	}
	return c.Size <= math.MaxInt32
}

func checkSize(c *sizeCase, x *Ctx) error {
	x.Label("%s", c.What)
	switch {
	case c.Size < 0:
		x.Label("negative")
		x.NonTrivial()
	case c.fits():
		x.Label("fits")
	default:
		x.Label("too large")
		x.NonTrivial()
	}
	if c.What[:3] == "app" {
		return c.checkAppend()
	}
	var out headSink
	p := protoByName(c.Proto)
	if c.Join {
		p = thriftwire.JoinProtocol(protoByName("binary"), p)
	}
	w := p.NewWriter(&out)
	enc := &tokEncoder{proto: c.Proto}
	var toks []Tok
	if c.Pre != nil {
		toks = wtokens(c.Pre, nil)
	}
	for range c.In {
		toks = append(toks, Tok{Op: "StructBegin"}, Tok{Op: "FieldBegin", T: tStruct, ID: 3})
	}
	for _, k := range toks {
		enc.put(k)
		if err := playTok(w, k, false); err != nil {
			return fmt.Errorf("writing %s: %v", k, err)
		}
	}
	before := len(enc.buf)
	c.reference(enc)
	err := c.write(w)
	if ferr := w.Flush(); err == nil {
		err = ferr
	}
	if c.Pre != nil && wraps(c.Pre) {
		return nil
	}
	got := out.b[min(before, len(out.b)):]
	switch {
	case c.Size < 0 && err == nil:
		// As good as empty.
		k := c.tok()
		k.N = 0
		enc.put(k)
		if c.Proto == "compact" && k.Op != "MapBegin" && len(got) == 1 && got[0]>>4 == 0 {
			return nil // with or without element type
		}
		if !bytes.Equal(out.b, enc.buf) {
			return fmt.Errorf("a %s of size %d is written: % x", c.What, c.Size, clipb(got, 30))
		}
	case !c.fits() || c.Size < 0:
		if err == nil || errors.Is(err, errFull) {
			return fmt.Errorf("a %s of size %d is written: % x", c.What, c.Size, clipb(got, 30))
		}
	case err != nil:
		return fmt.Errorf("a %s of size %d is refused: %v", c.What, c.Size, err)
	case !bytes.Equal(out.b, enc.buf):
		return fmt.Errorf("a %s of size %d: %s", c.What, c.Size, firstDiff(out.b, enc.buf))
	}
	return nil
}

// tok is the call for a container.
func (c *sizeCase) tok() Tok {
	switch c.What {
	case "map":
		return Tok{Op: "MapBegin", K: tString, E: tI32, N: int(c.Size)}
	case "set":
		return Tok{Op: "SetBegin", E: tStruct, N: int(c.Size)}
	case "list":
		return Tok{Op: "ListBegin", E: tBool, N: int(c.Size)}
	case "type":
		return Tok{Op: "MessageBegin", T: byte(c.Size), Name: "m", ID: 7}
	}
	return Tok{}
}

// reference encodes what is to be written.
func (c *sizeCase) reference(enc *tokEncoder) {
	if !c.fits() || c.Size < 0 {
		return
	}
	n := int(c.Size)
	switch c.What {
	case "map", "set", "list", "type":
		enc.put(c.tok())
	case "name":
		enc.put(Tok{Op: "MessageBegin", Name: string(c.data()), T: 1, ID: 5})
	case "golist", "goset":
		op := map[string]string{"golist": "ListBegin", "goset": "SetBegin"}[c.What]
		enc.put(Tok{Op: op, E: tBool, N: n})
		enc.buf = append(enc.buf, make([]byte, n)...)
	default:
		enc.put(Tok{Op: "String", S: string(c.data())})
	}
}

func (c *sizeCase) data() []byte {
	if n := int(c.Size); n > 4096 || c.What == "golist" || c.What == "goset" {
		return huge()[:n]
	}
	return fill(int(c.Size), 7)
}

func (c *sizeCase) write(w thriftwire.Writer) error {
	if k := c.tok(); k.Op != "" {
		return playTok(w, k, false)
	}
	h := c.data()
	s := unsafe.String(unsafe.SliceData(h), len(h))
	l := unsafe.Slice((*bool)(unsafe.Pointer(unsafe.SliceData(h))), len(h))
	switch c.What {
	case "string":
		return w.WriteString(s)
	case "bytes":
		return w.WriteBytes(h)
	case "name":
		return w.WriteMessageBegin(thriftwire.MessageHeader{Name: s, Type: 1, ID: 5})
	case "gostring":
		return thrift.Marshal(w, s)
	case "gobytes":
		return thrift.Marshal(w, &h)
	case "golist":
		return thrift.Marshal(w, &l)
	case "goset":
		return thrift.Marshal(w, thrift.Set[bool](l))
	}
	fault("write: %s", c.What)
	return nil
}

func (c *sizeCase) checkAppend() error {
	pre := []byte("abc")
	k := &sizeCase{Proto: c.Proto, What: c.What[7:], Size: c.Size}
	tok := k.tok()
	var got []byte
	var err error
	switch k.What {
	case "map":
		got, err = thriftcompact.AppendMapHeader(pre, thriftwire.MapHeader{Key: thriftwire.Type(tok.K), Value: thriftwire.Type(tok.E), Size: tok.N})
	case "set":
		got, err = thriftcompact.AppendSetHeader(pre, thriftwire.SetHeader{Element: thriftwire.Type(tok.E), Size: tok.N})
	case "list":
		got, err = thriftcompact.AppendListHeader(pre, thriftwire.ListHeader{Element: thriftwire.Type(tok.E), Size: tok.N})
	}
	if !bytes.HasPrefix(got, pre) {
		return fmt.Errorf("%s of size %d: the buffer's content is changed: %q", c.What, c.Size, clipb(got, 30))
	}
	got = got[len(pre):]
	if err != nil {
		if c.Size >= 0 && c.fits() {
			return fmt.Errorf("%s of size %d is refused: %v", c.What, c.Size, err)
		}
		if len(got) > 0 {
			return fmt.Errorf("%s of size %d is refused, but appended: % x", c.What, c.Size, got)
		}
		return nil
	}
	enc := &tokEncoder{proto: "compact"}
	if !c.fits() {
		return fmt.Errorf("%s of size %d gives % x", c.What, c.Size, got)
	}
	tok.N = max(tok.N, 0)
	enc.put(tok)
	if c.Size < 0 && tok.Op != "MapBegin" && len(got) == 1 && got[0]>>4 == 0 {
		return nil
	}
	if !bytes.Equal(got, enc.buf) {
		return fmt.Errorf("%s of size %d gives % x, want % x", c.What, c.Size, got, enc.buf)
	}
	return nil
}

func init() {
	register(&property{
		id:   "C31",
		race: true,
		rule: "at least two readers, writers, recorders or parses in use at the same time",
		subs: []*subDef{
			sub("mix", 6000, 200000, drawMix, checkMix).repeats(20),
			sub("parses", 2500, 60000, drawParses, checkParses).repeats(20).perProcess(500),
		},
		assumptions: []string{"schedules of goroutines are sampled under the race detector; turns within a goroutine are generated"},
	})
	register(&property{
		id:   "C32",
		rule: "the size (or message type) does not fit or is negative",
		subs: []*subDef{
			sub("sizes", 400000, 6000000, drawSizeCase, checkSize),
		},
		assumptions: []string{"what comes in front of the size (types, the beginning of an envelope) may have been written when it is refused; a negative container size may be taken for empty"},
	})
}
