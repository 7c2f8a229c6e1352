// Package mon is the monitoring runtime shared by all harnesses: it runs
// deterministic cases against the real code, counts what the monitors observe,
// turns panics, hangs and memory blow-ups into violations, and writes a report.
package mon

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Sig    string   `json:"sig"`
	Detail string   `json:"detail"`
	Stream string   `json:"stream"`
	Index  int      `json:"index"`
	Count  int      `json:"count"`
	Trace  []string `json:"trace,omitempty"`
}

type Report struct {
	Prop       string            `json:"prop"`
	Complete   bool              `json:"complete"`
	Cases      int64             `json:"cases"`
	Distinct   int64             `json:"distinct"`
	States     int64             `json:"states"`
	Events     map[string]int64  `json:"events"`
	Streams    map[string]int64  `json:"streams"`
	Maxima     map[string]int64  `json:"maxima"`
	Samples    []string          `json:"samples"`
	Violations []*Violation      `json:"violations"`
	Rule       string            `json:"rule"`
	Notes      map[string]string `json:"notes"`
}

// Ctx is the run of one property.
type Ctx struct {
	Prop     string
	Seed     int64
	Thorough bool
	Variant  string
	Scale    float64
	Scratch  string
	Bin      string
	shard    int
	shards   int
	only     string // replay: stream
	onlyIdx  int
	tracing  bool

	mu       sync.Mutex
	rep      Report
	distinct map[uint64]struct{}
	states   map[uint64]struct{}
	sampled  map[string]int
	outPath  string
	journal  []byte

	// watchdog
	beat     int64 // changes whenever progress is made
	inCase   int32
	cur      atomic.Value // *Case
	MaxCPU   float64
	MaxHeap  uint64
	workerID string

	started, firstFail time.Time
	Budget             time.Duration // wall clock time, none if zero
}

// Case is one execution that the monitors watch.
type Case struct {
	X      *Ctx
	Stream string
	Index  int
	R      *rand.Rand
	trace  []string
	failed bool
	desc   string
	events map[string]int64

	held      []held
	heldBytes int
}

type abort struct{}

func Mix(vals ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, v := range vals {
		h ^= v
		h *= 0xff51afd7ed558ccd
		h ^= h >> 32
		h *= 0xc4ceb9fe1a85ec53
		h ^= h >> 29
	}
	return h
}

func HashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func HashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// N scales a number of cases to the tier and the variant.
func (x *Ctx) N(quick, thorough int) int {
	n := quick
	if x.Thorough {
		n = thorough
	}
	n = int(float64(n) * x.Scale)
	if n < 1 {
		n = 1
	}
	return n
}

func (x *Ctx) Rule(s string) { x.rep.Rule = s }

func (x *Ctx) Note(k, format string, args ...interface{}) {
	x.mu.Lock()
	x.rep.Notes[k] = fmt.Sprintf(format, args...)
	x.mu.Unlock()
}

// Max records the largest value seen under a name.
func (x *Ctx) Max(name string, v int64) {
	x.mu.Lock()
	if v > x.rep.Maxima[name] {
		x.rep.Maxima[name] = v
	}
	x.mu.Unlock()
}

// Stream runs n cases, each with its own deterministic random source.
func (x *Ctx) Stream(name string, n int, f func(c *Case)) {
	for i := 0; i < n; i++ {
		if x.only != "" {
			if x.only != name || x.onlyIdx != i {
				continue
			}
		} else if i%x.shards != x.shard {
			continue
		}
		x.run(name, i, f)
	}
}

func (x *Ctx) run(name string, i int, f func(c *Case)) {
	seed := int64(Mix(uint64(x.Seed), HashStr(x.Prop), HashStr(name), uint64(i)))
	c := &Case{X: x, Stream: name, Index: i, R: rand.New(rand.NewSource(seed)), events: map[string]int64{}}
	x.setJournal(fmt.Sprintf("%s %d", name, i))
	x.cur.Store(c)
	atomic.AddInt64(&x.beat, 1)
	atomic.StoreInt32(&x.inCase, 1)
	c.exec(f)
	atomic.StoreInt32(&x.inCase, 0)
	x.mu.Lock()
	x.rep.Cases++
	x.rep.Streams[name]++
	for k, v := range c.events {
		x.rep.Events[k] += v
	}
	x.mu.Unlock()
	if c.failed && !x.tracing {
		// run the case again with tracing on, to keep the witness
		x.tracing = true
		c2 := &Case{X: x, Stream: name, Index: i, R: rand.New(rand.NewSource(seed)), events: map[string]int64{}}
		x.cur.Store(c2)
		atomic.AddInt64(&x.beat, 1)
		atomic.StoreInt32(&x.inCase, 1)
		c2.exec(f)
		atomic.StoreInt32(&x.inCase, 0)
		x.tracing = false
		x.mu.Lock()
		for _, v := range x.rep.Violations {
			if v.Stream == name && v.Index == i && v.Trace == nil {
				v.Trace = tail(c2.trace, 400)
			}
		}
		x.mu.Unlock()
	}
	if c.failed && x.firstFail.IsZero() {
		x.firstFail = time.Now()
	}
	// a run with a violation has its answer and need not go on for long, nor one
	// whose time is over
	if c.failed && len(x.rep.Violations) >= 12 || !x.firstFail.IsZero() && time.Since(x.firstFail) > 40*time.Second ||
		x.Budget > 0 && time.Since(x.started) > x.Budget {
		x.finish(false)
	}
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (c *Case) exec(f func(c *Case)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			c.failed = true
			c.X.addViolation(c, PanicSig(r), fmt.Sprintf("panic: %v\n%s", r, TrimStack(debug.Stack())))
		}
	}()
	f(c)
	for _, h := range c.held {
		c.Ev("held")
		c.Check(string(h.raw) == string(h.was), "given-out-changed", "%s: %d bytes that were given out before have changed from %.200x to %.200x", h.what, len(h.was), h.was, h.raw)
	}
}

// Hold gives a copy of bytes that must not change for the rest of the case.
func (c *Case) Hold(what string, raw []byte) []byte {
	was := append([]byte{}, raw...)
	if c.heldBytes < 1<<20 {
		c.heldBytes += len(raw)
		c.held = append(c.held, held{what, raw, was})
	}
	return append([]byte{}, was...)
}

type held struct {
	what     string
	raw, was []byte
}

// PanicSig names a panic by its message without numbers.
func PanicSig(r interface{}) string {
	s := fmt.Sprintf("%v", r)
	if len(s) > 80 {
		s = s[:80]
	}
	var b strings.Builder
	b.WriteString("panic:")
	for _, ch := range s {
		switch {
		case ch >= '0' && ch <= '9':
		case ch == ' ' || ch == '\n' || ch == '\t':
			b.WriteByte('_')
		case ch > 32 && ch < 127:
			b.WriteRune(ch)
		}
	}
	return b.String()
}

func TrimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	if len(s) > 4000 {
		s = s[:4000]
	}
	return s
}

// Ev counts an observed event.
func (c *Case) Ev(kind string) { c.events[kind]++ }

func (c *Case) EvN(kind string, n int) { c.events[kind] += int64(n) }

// Evf counts an event, and writes it to the trace when tracing.
func (c *Case) Evf(kind string, format string, args ...interface{}) {
	c.events[kind]++
	if c.X.tracing {
		c.trace = append(c.trace, kind+" "+fmt.Sprintf(format, args...))
	}
}

// Beat tells the watchdog that a long case makes progress.
func (c *Case) Beat() { atomic.AddInt64(&c.X.beat, 1) }

// State counts a distinct observed state.
func (c *Case) State(h uint64) {
	x := c.X
	x.mu.Lock()
	if len(x.states) < 400000 {
		x.states[h] = struct{}{}
	}
	x.mu.Unlock()
}

// Nontrivial counts the case as distinct and non-trivial, by the hash given.
func (c *Case) Nontrivial(h uint64) {
	x := c.X
	x.mu.Lock()
	if len(x.distinct) < 400000 {
		x.distinct[h] = struct{}{}
	}
	x.mu.Unlock()
}

// Parallel runs f in n goroutines that start together, each with a case of its
// own. The goroutines share nothing of the monitor's, so that the monitor adds
// no synchronisation that could hide a race.
func (c *Case) Parallel(n int, f func(i int, s *Case)) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	subs := make([]*Case, n)
	for i := range subs {
		s := &Case{X: c.X, Stream: c.Stream, Index: c.Index, R: rand.New(rand.NewSource(c.R.Int63())), events: map[string]int64{}}
		subs[i] = s
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			s.exec(func(s *Case) { f(i, s) })
		}(i)
	}
	close(start)
	wg.Wait()
	for _, s := range subs {
		for k, v := range s.events {
			c.events[k] += v
		}
		if s.failed {
			c.failed = true
		}
	}
	if c.failed {
		panic(abort{})
	}
}

// Desc describes the case, for samples and the journal.
func (c *Case) Desc(format string, args ...interface{}) {
	x := c.X
	if x.sampled[c.Stream] < 2 || x.tracing {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.desc = s
		if !x.tracing {
			x.sampled[c.Stream]++
			x.mu.Lock()
			if len(x.rep.Samples) < 24 {
				x.rep.Samples = append(x.rep.Samples, fmt.Sprintf("%s[%d]: %s", c.Stream, c.Index, s))
			}
			x.mu.Unlock()
		} else {
			c.trace = append(c.trace, "case "+s)
		}
	}
}

// Failf records a violation and ends the case.
func (c *Case) Failf(sig, format string, args ...interface{}) {
	c.Report(sig, format, args...)
	panic(abort{})
}

// Report records a violation and carries on.
func (c *Case) Report(sig, format string, args ...interface{}) {
	c.failed = true
	c.X.addViolation(c, sig, fmt.Sprintf(format, args...))
}

// Check fails the case unless ok.
func (c *Case) Check(ok bool, sig, format string, args ...interface{}) {
	if !ok {
		c.Failf(sig, format, args...)
	}
}

// Try runs f, and reports whether it panicked and with what.
func (c *Case) Try(f func()) (panicked bool, val interface{}, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}
			panicked, val, stack = true, r, TrimStack(debug.Stack())
		}
	}()
	f()
	return
}

// NoPanic runs f and reports a panic as a violation of the given signature.
func (c *Case) NoPanic(sig string, what func() string, f func()) {
	p, v, st := c.Try(f)
	if p {
		c.Failf(sig+":"+PanicSig(v), "%s: panic: %v\n%s", what(), v, st)
	}
}

func (x *Ctx) addViolation(c *Case, sig, detail string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(detail) > 6000 {
		detail = detail[:6000] + "..."
	}
	for _, v := range x.rep.Violations {
		if v.Sig == sig {
			if !x.tracing {
				v.Count++
			}
			return
		}
	}
	if x.tracing && x.only == "" {
		return
	}
	x.rep.Violations = append(x.rep.Violations, &Violation{Sig: sig, Detail: detail, Stream: c.Stream, Index: c.Index, Count: 1})
}

func (x *Ctx) setJournal(s string) {
	if x.journal == nil {
		return
	}
	n := copy(x.journal, s)
	x.journal[n] = '\n'
	x.journal[n+1] = 0
}

func (x *Ctx) finish(complete bool) {
	x.mu.Lock()
	x.rep.Complete = complete
	x.rep.Distinct = int64(len(x.distinct))
	x.rep.States = int64(len(x.states))
	sort.Slice(x.rep.Violations, func(i, j int) bool { return x.rep.Violations[i].Sig < x.rep.Violations[j].Sig })
	b, err := json.Marshal(&x.rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, "mon: report:", err)
		os.Exit(70)
	}
	writeSet(x.outPath+".distinct", x.distinct)
	writeSet(x.outPath+".states", x.states)
	if err := os.WriteFile(x.outPath, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "mon: report:", err)
		os.Exit(70)
	}
	if x.only != "" {
		for _, v := range x.rep.Violations {
			fmt.Printf("%s\n%s\n", v.Sig, v.Detail)
			for _, t := range v.Trace {
				fmt.Println("   ", t)
			}
		}
	}
	os.Exit(0)
}

func writeSet(path string, set map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(set))
	for h := range set {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	os.WriteFile(path, b, 0644)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

// watchdog turns an operation that never ends, or never stops allocating, into a
// violation: by CPU time spent without progress (not by wall clock), by heap
// size, and, for an operation that spends no CPU time, by the blocked state of
// its goroutine.
func (x *Ctx) watchdog() {
	lastBeat := int64(-1)
	cpu0 := cpuSeconds()
	idle, ticks := 0, 0
	lastCPU := cpu0
	blockedBefore := ""
	for {
		time.Sleep(100 * time.Millisecond)
		ticks++
		b := atomic.LoadInt64(&x.beat)
		cpu := cpuSeconds()
		if b != lastBeat || atomic.LoadInt32(&x.inCase) == 0 {
			lastBeat, cpu0, idle, blockedBefore = b, cpu, 0, ""
		}
		c, _ := x.cur.Load().(*Case)
		if c == nil {
			continue
		}
		if cpu-cpu0 > x.MaxCPU {
			x.fatal(c, "hang", fmt.Sprintf("operation used %.0f CPU seconds without ending\n%s", cpu-cpu0, allStacks()))
		}
		if ticks%5 == 0 {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > x.MaxHeap {
				x.fatal(c, "memory", fmt.Sprintf("heap grew to %d MB\n%s", ms.HeapAlloc>>20, allStacks()))
			}
		}
		if cpu-lastCPU < 0.01 && atomic.LoadInt32(&x.inCase) == 1 {
			idle++
		} else {
			idle = 0
		}
		lastCPU = cpu
		if idle >= 100 { // some 10 s without any CPU use inside one operation
			idle = 0
			st := blockedState()
			if st != "" && st == blockedBefore {
				x.fatal(c, "deadlock", "operation is blocked forever on "+st+"\n"+allStacks())
			}
			blockedBefore = st
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<16)
	return string(buf[:runtime.Stack(buf, true)])
}

// blockedState returns the state of the goroutines that run the code under test,
// if every one of them is blocked on a lock or channel.
func blockedState() string {
	res := []string{}
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, "mon.(*Ctx).watchdog") || !strings.Contains(g, "/verif/harness/") {
			continue
		}
		i, j := strings.Index(g, "["), strings.Index(g, "]")
		if i < 0 || j < i {
			return ""
		}
		st := g[i+1 : j]
		if k := strings.Index(st, ","); k >= 0 {
			st = st[:k]
		}
		if strings.Contains(st, "sync.") || strings.Contains(st, "semacquire") || strings.Contains(st, "chan ") || strings.Contains(st, "select (no cases)") {
			res = append(res, st)
		} else {
			return ""
		}
	}
	sort.Strings(res)
	return strings.Join(res, "; ")
}

func (x *Ctx) fatal(c *Case, sig, detail string) {
	x.addViolation(c, sig, detail)
	x.finish(false)
}

// Main runs the property named on the command line.
func Main(props map[string]func(*Ctx)) {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "report")
	variant := flag.String("variant", "plain", "build variant")
	scale := flag.Float64("scale", 1, "scale of the number of cases")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "shards")
	scratch := flag.String("scratch", "", "scratch directory")
	bin := flag.String("bin", "", "extra binary")
	only := flag.String("only", "", "replay: stream")
	onlyIdx := flag.Int("index", 0, "replay: index")
	budget := flag.Float64("budget", 0, "seconds after which to stop")
	flag.Parse()
	f := props[*prop]
	if f == nil || *out == "" {
		fmt.Fprintln(os.Stderr, "mon: no such property", *prop)
		os.Exit(70)
	}
	debug.SetMaxStack(128 << 20)
	x := &Ctx{Prop: *prop, Seed: *seed, Thorough: *tier == "thorough", Variant: *variant, Scale: *scale,
		Scratch: *scratch, Bin: *bin, shard: *shard, shards: *shards, only: *only, onlyIdx: *onlyIdx,
		tracing: *only != "", outPath: *out, distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{},
		sampled: map[string]int{}, MaxCPU: 60, MaxHeap: 3 << 30, started: time.Now(), Budget: time.Duration(*budget * 1e9)}
	x.rep = Report{Prop: *prop, Events: map[string]int64{}, Streams: map[string]int64{}, Maxima: map[string]int64{}, Notes: map[string]string{}}
	jf, err := os.OpenFile(*out+".journal", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
	if err == nil {
		jf.Truncate(4096)
		if m, err := syscall.Mmap(int(jf.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			x.journal = m
		}
	}
	go x.watchdog()
	f(x)
	x.finish(true)
}
