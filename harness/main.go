package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of worker and replay processes.
const (
	exitViolation = 1
	exitFault     = 3
	exitHang      = 97
	exitMemory    = 98
	exitDeadlock  = 99
	exitRace      = 66
)

const (
	cpuLimit = 60 * time.Second // CPU time one case may use
	rssLimit = 3 << 30          // resident memory of a worker
)

func main() {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "harness fault: %v\n%s", r, debug.Stack())
			os.Exit(exitFault)
		}
	}()
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "run":
		if len(os.Args) != 4 {
			usage()
		}
		os.Exit(runProperty(os.Args[2], os.Args[3]))
	case "worker":
		os.Exit(workerMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	case "list":
		for _, id := range propertyIDs() {
			p := properties[id]
			fmt.Printf("%s race=%v\n", id, p.race)
		}
	case "schema":
		schemaMain()
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness run ID quick|thorough | replay FILE | list")
	os.Exit(exitFault)
}

// ---- Worker ----

type sample struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

type workerResult struct {
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Fail        json.RawMessage   `json:"fail,omitempty"`
	Error       string            `json:"error,omitempty"`
	Fault       string            `json:"fault,omitempty"`
}

// tb implements rapid.TB.
type tb struct {
	failed bool
	log    bytes.Buffer
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); runtime.Goexit() }
func (t *tb) Skip(a ...any)             { t.Log(a...); runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// journal keeps the case being executed in a file, so that a crash of the
// process leaves it behind.
type journal struct {
	f *os.File
}

func (j *journal) write(b []byte) {
	if j.f == nil {
		return
	}
	buf := make([]byte, 8, 8+len(b))
	binary.LittleEndian.PutUint64(buf, uint64(len(b)))
	buf = append(buf, b...)
	if _, err := j.f.WriteAt(buf, 0); err != nil {
		fault("journal: %v", err)
	}
}

func readJournal(path string) ([]byte, bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil, false
	}
	n := binary.LittleEndian.Uint64(b)
	if n == 0 || n > uint64(len(b)-8) {
		return nil, false
	}
	return b[8 : 8+n], true
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func residentBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// watchdog ends the process when one case uses unreasonable CPU time or
// memory. It measures CPU time, so that a busy machine does not matter.
type watchdog struct {
	start atomic.Int64 // CPU time at the start of the current case
}

func (w *watchdog) begin() { w.start.Store(int64(cpuTime())) }

func (w *watchdog) run() {
	w.begin()
	go func() {
		var lastCPU time.Duration
		blocked := 0
		for i := 0; ; i++ {
			time.Sleep(100 * time.Millisecond)
			if i%20 == 0 {
				// Two idle seconds: are all goroutines waiting for each other?
				cpu := cpuTime()
				if cpu-lastCPU < 50*time.Millisecond && allBlocked() {
					blocked++
				} else {
					blocked = 0
				}
				lastCPU = cpu
				if blocked >= 5 {
					fmt.Fprintf(os.Stderr, "deadlock: all goroutines are blocked\n%s\n", stackBuf[:min(64<<10, runtime.Stack(stackBuf, true))])
					os.Exit(exitDeadlock)
				}
			}
			if time.Duration(int64(cpuTime())-w.start.Load()) > cpuLimit {
				fmt.Fprintf(os.Stderr, "case does not end: it used more than %v of CPU time\n", cpuLimit)
				os.Exit(exitHang)
			}
			if residentBytes() > rssLimit {
				fmt.Fprintf(os.Stderr, "case uses more than %d MB of memory\n", rssLimit>>20)
				os.Exit(exitMemory)
			}
		}
	}()
}

// stackBuf is allocated once: a check may be measuring what the process
// allocates while the watchdog looks.
var stackBuf = make([]byte, 1<<20)

// allBlocked reports whether every goroutine but the caller waits for
// another one. It looks at states and not at time.
func allBlocked() bool {
	buf := stackBuf[:runtime.Stack(stackBuf, true)]
	n := 0
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the watchdog
		}
		h, _, _ := strings.Cut(g, "\n")
		l, r := strings.IndexByte(h, '['), strings.LastIndexByte(h, ']')
		if l < 0 || r < l {
			return false
		}
		state, _, _ := strings.Cut(h[l+1:r], ",")
		switch {
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"):
			n++
		default:
			return false
		}
	}
	return n > 0
}

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		fault("flag %s: %v", name, err)
	}
}

func initTesting() {
	testing.Init()
	os.Args = os.Args[:1]
	flag.Parse()
	setFlag("rapid.nofailfile", "true")
}

func encodeCase(c any) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		fault("case is not serialisable: %v (%#v)", err, c)
	}
	return b
}

// workerMain: ID SUB SHARD COUNT SEED JOURNAL OUT
func workerMain(args []string) int {
	if len(args) != 7 {
		usage()
	}
	p := properties[args[0]]
	if p == nil {
		fault("no property %s", args[0])
	}
	s := p.sub(args[1])
	if s == nil {
		fault("no sub %s", args[1])
	}
	shard, _ := strconv.Atoi(args[2])
	count, _ := strconv.Atoi(args[3])
	seed := args[4]
	jf, err := os.Create(args[5])
	if err != nil {
		fault("%v", err)
	}
	out := args[6]
	initTesting()

	res := &workerResult{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	j := &journal{jf}
	wd := &watchdog{}
	wd.run()

	until, _ := strconv.ParseInt(os.Getenv("VERIF_UNTIL"), 10, 64)
	late := func() bool {
		if until > 0 && time.Now().Unix() > until {
			res.Labels["not all explored: out of time"] = 1
			return true
		}
		return false
	}
	run := func(c any, counting bool) error {
		b := encodeCase(c)
		j.write(b)
		wd.begin()
		x := &Ctx{}
		err := runCheck(s, c, x)
		if counting {
			res.Evaluations++
			for l := range x.labels {
				res.Labels[l]++
			}
			if x.nontrivial {
				h := fnv.New64a()
				io.WriteString(h, s.name)
				h.Write(b)
				k := h.Sum64()
				if !seen[k] {
					seen[k] = true
					n := len(seen)
					if len(b) <= 1500 && len(res.Samples) < 3 && (n == 1 || n == 20 || n == 100) {
						res.Samples = append(res.Samples, encodeCase(sample{s.name, b}))
					}
				}
			}
		}
		return err
	}

	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Fault = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		if s.enum != nil {
			i := -1
			s.enum(func(c any) bool {
				if i++; i%count != shard {
					return true
				}
				if late() {
					return false
				}
				if err := run(c, true); err != nil {
					res.Fail, res.Error = encodeCase(c), err.Error()
					return false
				}
				return true
			})
			return
		}
		setFlag("rapid.checks", strconv.Itoa(count))
		setFlag("rapid.seed", seed)
		setFlag("rapid.shrinktime", "20s")
		t := &tb{}
		failing := false
		var lastFault *harnessFault
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(t, func(t *rapid.T) {
				wd.begin()
				if !failing && late() {
					return
				}
				c := s.draw(t)
				var err error
				func() {
					defer func() {
						if r := recover(); r != nil {
							if h, ok := r.(harnessFault); ok {
								lastFault = &h
								return
							}
							panic(r)
						}
					}()
					err = run(c, !failing)
				}()
				if lastFault != nil {
					t.Fatalf("harness fault")
				}
				if err != nil {
					failing = true
					res.Fail, res.Error = encodeCase(c), err.Error()
					t.Fatalf("violation")
				}
			})
		}()
		<-done
		if lastFault != nil {
			res.Fault = lastFault.msg
		} else if t.failed && res.Fail == nil {
			res.Fault = "generator failed: " + t.log.String()
		}
	}()
	for k := range seen {
		res.Hashes = append(res.Hashes, k)
	}
	if err := os.WriteFile(out, encodeCase(res), 0o666); err != nil {
		fault("%v", err)
	}
	return 0
}

// ---- Replay ----

func replayMain(args []string) int {
	if len(args) < 1 {
		usage()
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fault("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fault("%s: %v", args[0], err)
	}
	initTesting()
	p := properties[rf.Property]
	if p == nil {
		fault("no property %s", rf.Property)
	}
	s := p.sub(rf.Sub)
	if s == nil {
		fault("no sub %s", rf.Sub)
	}
	wd := &watchdog{}
	wd.run()
	for i := 0; i < max(s.repeat, 1); i++ {
		c, err := s.decode(rf.Case)
		if err != nil {
			fault("%s: %v", args[0], err)
		}
		wd.begin()
		if err := runCheck(s, c, &Ctx{}); err != nil {
			fmt.Printf("replay of %s: property %s, check %s:\n%v\n", args[0], rf.Property, rf.Sub, err)
			return exitViolation
		}
	}
	return 0
}

// ---- Driver ----

type violation struct {
	sub  string
	c    json.RawMessage
	err  string
	file string
}

type driver struct {
	p       *property
	tier    string
	seed    int64
	work    string
	mu      sync.Mutex
	viol    []violation
	faults  []string
	evals   int
	hashes  map[uint64]bool
	labels  map[string]int
	samples []json.RawMessage
	perSub  map[string]int
	regress int
	stop    atomic.Bool
	begin   time.Time
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func seedFor(seed int64, id, sub string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, id, sub, shard)
	v := h.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func runProperty(id, tier string) int {
	p := properties[id]
	if p == nil {
		fault("no property %s", id)
	}
	if tier != "quick" && tier != "thorough" {
		fault("unknown tier %s", tier)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			h := fnv.New64a()
			io.WriteString(h, s)
			v = int64(h.Sum64() >> 1)
		}
		seed = v
	}
	work, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fault("%v", err)
	}
	defer os.RemoveAll(work)
	d := &driver{p: p, tier: tier, seed: seed, work: work, hashes: map[uint64]bool{}, labels: map[string]int{}, perSub: map[string]int{}, begin: time.Now()}

	if tier == "quick" {
		// Slow code under test must not keep the check from answering.
		os.Setenv("VERIF_UNTIL", strconv.FormatInt(d.begin.Add(9*time.Minute).Unix(), 10))
	}
	d.runRegressions()
	if len(d.viol) == 0 && len(d.faults) == 0 {
		d.runTasks()
	}
	d.writeEvidence()
	if len(d.viol) > 0 {
		for _, v := range d.viol {
			fmt.Printf("property %s, check %s, case %s\n%s\n", id, v.sub, clip(string(v.c), 2000), clip(v.err, 6000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, v.file)
		}
		return 1
	}
	if len(d.faults) > 0 {
		for _, f := range d.faults {
			fmt.Fprintln(os.Stderr, "ERROR:", clip(f, 4000))
		}
		return 2
	}
	for _, k := range knownFindings() {
		if k.id == id && p.confirm != nil && p.confirm(k.key) {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k.what, k.key)
		}
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, seed, d.evals, len(d.hashes), time.Since(d.begin).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes more)", len(s)-n)
	}
	return s
}

type task struct {
	sub   *subDef
	shard int
	count int
}

func (d *driver) runTasks() {
	var tasks []task
	procs := runtime.NumCPU()
	if d.p.race {
		procs = max(procs/2, 1)
	}
	only := os.Getenv("VERIF_SUB")
	for _, s := range d.p.subs {
		if only != "" && s.name != only {
			continue
		}
		n := s.quick
		if d.tier == "thorough" {
			n = s.thorough
		}
		if s.enum != nil {
			for i := 0; i < 8; i++ { // every eighth case
				tasks = append(tasks, task{s, i, 8})
			}
			continue
		}
		if f := os.Getenv("VERIF_SCALE"); f != "" {
			x, _ := strconv.ParseFloat(f, 64)
			n = max(int(float64(n)*x), 1)
		}
		shards := 8
		if d.tier == "thorough" {
			shards = 16
		}
		if s.perProc > 0 {
			shards = max(shards, (n+s.perProc-1)/s.perProc)
		}
		shards = min(shards, n)
		for i := 0; i < shards; i++ {
			c := n / shards
			if i < n%shards {
				c++
			}
			tasks = append(tasks, task{s, i, c})
		}
	}
	ch := make(chan task)
	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				if !d.stop.Load() {
					d.runTask(t)
				}
			}
		}()
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()
}

func (d *driver) addFault(f string) {
	d.mu.Lock()
	d.faults = append(d.faults, f)
	d.mu.Unlock()
	d.stop.Store(true)
}

func (d *driver) addViolation(sub string, c json.RawMessage, msg string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.stop.Store(true)
	for _, v := range d.viol {
		if v.sub == sub {
			return
		}
	}
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o777)
	file := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", d.p.id, sub, hashOf(c)))
	b, _ := json.MarshalIndent(replayFile{d.p.id, sub, clip(msg, 4000), c}, "", " ")
	if err := os.WriteFile(file, append(b, '\n'), 0o666); err != nil {
		d.faults = append(d.faults, err.Error())
	}
	d.viol = append(d.viol, violation{sub, c, msg, file})
}

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func childEnv(race bool) []string {
	env := append(os.Environ(), "GOTRACEBACK=single")
	if race {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=8")
	} else {
		env = append(env, "GOMAXPROCS=3")
	}
	return env
}

// outcome of a child process.
type outcome struct {
	code   int
	signal string
	stderr string
	stdout string
}

func (d *driver) child(args ...string) outcome {
	exe, err := os.Executable()
	if err != nil {
		fault("%v", err)
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = childEnv(d.p.race)
	var stdout, stderr tailBuffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	o := outcome{stderr: stderr.String(), stdout: stdout.String()}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			o.code = exitFault
			o.stderr += err.Error()
			return o
		}
		o.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.signal = ws.Signal().String()
			o.code = -1
		}
	}
	return o
}

// tailBuffer keeps the first and last part of what is written to it.
type tailBuffer struct {
	head, tail []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	n := len(p)
	if k := min(16<<10-len(b.head), len(p)); k > 0 {
		b.head = append(b.head, p[:k]...)
		p = p[k:]
	}
	b.tail = append(b.tail, p...)
	if len(b.tail) > 32<<10 {
		b.tail = append([]byte(nil), b.tail[len(b.tail)-16<<10:]...)
	}
	return n, nil
}
func (b *tailBuffer) String() string { return string(b.head) + string(b.tail) }

// crashed reports whether the outcome shows that the case itself brought the
// process down, and a description.
func (o outcome) crashed() (string, bool) {
	switch {
	case o.signal != "":
		return "", false
	case o.code == exitHang, o.code == exitMemory, o.code == exitDeadlock:
		return o.stderr, true
	case o.code == exitRace && strings.Contains(o.stderr, "DATA RACE"):
		return o.stderr, true
	case o.code == 2 && (strings.Contains(o.stderr, "stack overflow") || strings.Contains(o.stderr, "stack exceeds") ||
		strings.Contains(o.stderr, "fatal error: concurrent map") || strings.Contains(o.stderr, "all goroutines are asleep") ||
		strings.Contains(o.stderr, "[signal SIG") ||
		strings.Contains(o.stderr, "fatal error: sync:")):
		return o.stderr, true
	}
	return "", false
}

func (d *driver) runTask(t task) {
	name := fmt.Sprintf("%s-%d", t.sub.name, t.shard)
	jpath := filepath.Join(d.work, name+".case")
	opath := filepath.Join(d.work, name+".out")
	seed := seedFor(d.seed, d.p.id, t.sub.name, t.shard)
	o := d.child("worker", d.p.id, t.sub.name, strconv.Itoa(t.shard), strconv.Itoa(t.count), strconv.FormatUint(seed, 10), jpath, opath)
	if o.code != 0 {
		msg, ok := o.crashed()
		c, have := readJournal(jpath)
		if !ok || !have {
			d.addFault(fmt.Sprintf("worker %s: exit %d %s\n%s", name, o.code, o.signal, o.stderr))
			return
		}
		c = d.minimiseCrash(t.sub, c, o.code)
		d.addViolation(t.sub.name, c, "the process was brought down:\n"+msg)
		return
	}
	b, err := os.ReadFile(opath)
	var res workerResult
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil {
		d.addFault(fmt.Sprintf("worker %s: %v", name, err))
		return
	}
	if res.Fault != "" {
		d.addFault(fmt.Sprintf("worker %s: %s", name, res.Fault))
		return
	}
	d.mu.Lock()
	d.evals += res.Evaluations
	d.perSub[t.sub.name] += res.Evaluations
	for _, h := range res.Hashes {
		d.hashes[h] = true
	}
	for l, n := range res.Labels {
		d.labels[t.sub.name+": "+l] += n
	}
	if len(d.samples) < 60 {
		d.samples = append(d.samples, res.Samples...)
	}
	d.mu.Unlock()
	if res.Fail != nil {
		d.addViolation(t.sub.name, res.Fail, res.Error)
	}
}

// replayCase runs one case in a process of its own.
func (d *driver) replayCase(sub string, c json.RawMessage) outcome {
	f, err := os.CreateTemp(d.work, "replay-*.json")
	if err != nil {
		fault("%v", err)
	}
	defer os.Remove(f.Name())
	b, _ := json.Marshal(replayFile{d.p.id, sub, "", c})
	f.Write(b)
	f.Close()
	return d.child("replay", f.Name())
}

// minimiseCrash shrinks a case that brings the process down by deleting and
// simplifying parts of its JSON form.
func (d *driver) minimiseCrash(s *subDef, c json.RawMessage, code int) json.RawMessage {
	deadline := time.Now().Add(40 * time.Second)
	if code == exitHang || code == exitDeadlock {
		return c // each attempt would take a minute
	}
	bad := func(c json.RawMessage) bool {
		if time.Now().After(deadline) {
			return false
		}
		_, ok := d.replayCase(s.name, c).crashed()
		return ok
	}
	var v any
	dec := json.NewDecoder(bytes.NewReader(c))
	dec.UseNumber()
	if dec.Decode(&v) != nil || !bad(c) {
		return c
	}
	cur := v
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		for _, cand := range reductions(cur) {
			b, err := json.Marshal(cand)
			if err != nil {
				continue
			}
			if bad(b) {
				cur, c, progress = cand, b, true
				break
			}
			if time.Now().After(deadline) {
				break
			}
		}
	}
	return c
}

// reductions lists smaller variants of a JSON value: arrays with a part
// removed (halves first), numbers halved.
func reductions(v any) (out []any) {
	switch v := v.(type) {
	case []any:
		for n := len(v); n >= 1; n /= 2 {
			for i := 0; i+n <= len(v); i += n {
				w := append(append([]any{}, v[:i]...), v[i+n:]...)
				out = append(out, w)
			}
		}
		for i := range v {
			for _, r := range reductions(v[i]) {
				w := append([]any{}, v...)
				w[i] = r
				out = append(out, w)
			}
		}
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, r := range reductions(v[k]) {
				w := map[string]any{}
				for k, x := range v {
					w[k] = x
				}
				w[k] = r
				out = append(out, w)
			}
		}
	case json.Number:
		if i, err := v.Int64(); err == nil && i > 1 {
			out = append(out, json.Number(strconv.FormatInt(i/2, 10)))
		}
	case string:
		if len(v) >= 64 {
			n := len(v) / 4 * 2
			out = append(out, v[:n], v[n:])
		}
	}
	return
}

func (d *driver) runRegressions() {
	files, _ := filepath.Glob(filepath.Join(verifDir(), "regress", d.p.id, "*.json"))
	sort.Strings(files)
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, f := range files {
		b, err := os.ReadFile(f)
		var rf replayFile
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil || rf.Property != d.p.id {
			d.addFault(fmt.Sprintf("%s: %v", f, err))
			continue
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			o := d.child("replay", f)
			if o.code == 0 {
				d.mu.Lock()
				d.regress++
				d.mu.Unlock()
				return
			}
			if msg, ok := o.crashed(); ok {
				d.addViolation(rf.Sub, rf.Case, "regression case "+f+" brought the process down:\n"+msg)
			} else if o.code == exitViolation {
				d.addViolation(rf.Sub, rf.Case, o.stdout)
			} else {
				d.addFault(fmt.Sprintf("replay %s: exit %d %s\n%s", f, o.code, o.signal, o.stderr))
			}
		}()
	}
	wg.Wait()
}

func (d *driver) writeEvidence() {
	var labels []string
	for l := range d.labels {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	lm := map[string]int{}
	for _, l := range labels {
		lm[l] = d.labels[l]
	}
	// Spread the samples over the subs.
	bySub := map[string][]json.RawMessage{}
	for _, s := range d.samples {
		var x sample
		if json.Unmarshal(s, &x) == nil {
			bySub[x.Sub] = append(bySub[x.Sub], s)
		}
	}
	samples := []json.RawMessage{}
	for _, s := range d.p.subs {
		samples = append(samples, bySub[s.name][:min(2, len(bySub[s.name]))]...)
	}
	if len(samples) == 0 {
		for _, v := range d.viol {
			samples = append(samples, v.c)
		}
	}
	cov := map[string]any{
		"evaluations":         d.evals,
		"distinct_nontrivial": len(d.hashes),
		"rule":                d.p.rule,
		"samples":             samples,
		"labels":              lm,
		"cases_per_check":     d.perSub,
		"regression_cases":    d.regress,
	}
	ev := map[string]any{
		"property":    d.p.id,
		"tier":        d.tier,
		"seed":        d.seed,
		"level":       d.p.level,
		"coverage":    cov,
		"assumptions": d.p.assumptions,
		"wall_s":      time.Since(d.begin).Seconds(),
		"violations":  len(d.viol),
	}
	if d.p.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fault("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, d.p.id+".json"), append(b, '\n'), 0o666); err != nil {
		fault("%v", err)
	}
}

func schemaMain() {
	for _, id := range propertyIDs() {
		p := properties[id]
		for _, s := range p.subs {
			fmt.Printf("%s/%s quick=%d thorough=%d\n", id, s.name, s.quick, s.thorough)
		}
	}
}
