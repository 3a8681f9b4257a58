package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// env is what a run depends on.
type env struct {
	prop     string
	tier     string
	seed     uint64
	repo     string
	scratch  string // an existing directory of this run only
	verif    string
	dict     *dictionary
	thorough bool
	workers  int
	scale    int64 // percent of the number of random cases
}

// N is the number of random cases, by tier.
func (e *env) N(quick, thorough int64) int64 {
	n := quick
	if e.thorough {
		n = thorough
	}
	n = n * e.scale / 100
	if n < 1 {
		n = 1
	}
	return n
}

// stream is a finite list of cases.
type stream struct {
	name    string
	n       int64
	chunk   int64 // cases taken at a time by a worker (0: a default)
	workers int   // most workers to use (0: all)
	run     func(w *worker, i int64)
}

type property struct {
	id      string
	rule    string
	streams func(e *env) []stream
	// finish may look at the totals; it returns a reason to distrust the run.
	finish      func(e *env, t *totals) string
	workers     func(w *worker) // per worker initialization
	assumptions []string
	slow        bool // cases may take minutes
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

type violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Stream   string `json:"stream"`
	Index    int64  `json:"index"`
	What     string `json:"what"`
	Key      string `json:"key"` // identifies the failing input or history
}

// worker runs cases one after another.
type worker struct {
	e      *env
	id     int
	r      *rng
	g      *gen
	stream *stream
	index  int64
	evals  int64
	hist   map[string]int64
	rn     *runner
	viol   []violation
	sample []string
	arena  *arena
	buf    []byte
	data   map[string]interface{}
	quiet  bool
}

func (w *worker) count(k string)             { w.hist[k]++ }
func (w *worker) countN(k string, n int64)   { w.hist[k] += n }
func (w *worker) nontrivial(parts ...string) { w.rn.mark(hashParts(parts)) }

func hashParts(parts []string) uint64 {
	h := uint64(1469598103934665603)
	for _, s := range parts {
		h = mix(h*31 + hashStr(s))
	}
	return h
}

// samplef keeps a few of the cases in full, for the evidence file.
func (w *worker) samplef(format string, a ...interface{}) {
	if len(w.sample) < 400 && w.evals&(w.evals-1) == 0 {
		w.sample = append(w.sample, w.stream.name+": "+fmt.Sprintf(format, a...))
	}
}

// violate reports that the property does not hold. key identifies the input.
func (w *worker) violate(key string, format string, a ...interface{}) {
	if w.rn.known(key) {
		w.rn.knownHit(key)
		return
	}
	v := violation{w.e.prop, w.e.tier, w.e.seed, w.stream.name, w.index, fmt.Sprintf(format, a...), key}
	if len(w.viol) < 20 {
		w.viol = append(w.viol, v)
	}
	atomic.StoreInt32(&w.rn.stop, 1)
}

const bitmapBits = 1 << 28

type runner struct {
	e       *env
	p       *property
	bitmap  []uint64
	stop    int32
	crumbs  []int64 // per worker: stream, index, start time
	knownM  map[string]string
	mu      sync.Mutex
	hitKeys map[string]bool
}

type totals struct {
	evals    int64
	distinct int64
	hist     map[string]int64
	samples  []string
	viol     []violation
	streams  []string
}

func (r *runner) mark(h uint64) {
	h &= bitmapBits - 1
	p := &r.bitmap[h>>6]
	bit := uint64(1) << (h & 63)
	for {
		o := atomic.LoadUint64(p)
		if o&bit != 0 || atomic.CompareAndSwapUint64(p, o, o|bit) {
			return
		}
	}
}

func (r *runner) known(key string) bool { _, ok := r.knownM[key]; return ok }
func (r *runner) knownHit(key string) {
	r.mu.Lock()
	r.hitKeys[key] = true
	r.mu.Unlock()
}

const crumbWords = 4

func newRunner(e *env, p *property, crumbFile string) *runner {
	r := &runner{e: e, p: p, hitKeys: map[string]bool{}, knownM: loadKnown(e.verif, p.id)}
	mem, err := syscall.Mmap(-1, 0, bitmapBits/8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		fatal("mmap: %v", err)
	}
	r.bitmap = unsafe.Slice((*uint64)(unsafe.Pointer(&mem[0])), bitmapBits/64)
	size := crumbWords * 8 * (e.workers + 1)
	if crumbFile == "" {
		r.crumbs = make([]int64, size/8)
	} else {
		f, err := os.OpenFile(crumbFile, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
		if err != nil {
			fatal("%v", err)
		}
		f.Truncate(int64(size))
		mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fatal("mmap: %v", err)
		}
		f.Close()
		r.crumbs = unsafe.Slice((*int64)(unsafe.Pointer(&mem[0])), size/8)
	}
	return r
}

func (r *runner) newWorker(id int) *worker {
	w := &worker{e: r.e, id: id, r: &rng{}, hist: map[string]int64{}, rn: r, data: map[string]interface{}{}}
	w.g = &gen{r: w.r, d: r.e.dict}
	return w
}

// runCase runs one case, turning a panic of the code under test into a
// violation.
func (w *worker) runCase(s *stream, i int64) {
	w.stream, w.index = s, i
	w.r.s = mix(w.e.seed*0x9e3779b97f4a7c15+1) ^ hashStr(s.name) ^ mix(uint64(i)+77)
	w.evals++
	done := false
	defer func() {
		x := recover()
		if x == nil && !done {
			w.violate(fmt.Sprintf("goexit:%s:%d", s.name, i), "the call ended its goroutine instead of returning")
		}
		if x != nil {
			if f, ok := x.(harnessFailure); ok {
				fatal("%s", string(f))
			}
			w.violate(fmt.Sprintf("panic:%s:%d", s.name, i), "panic: %v\n%s", x, trimStack(debug.Stack()))
		}
	}()
	s.run(w, i)
	done = true
}

type harnessFailure string

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

const (
	exitHang    = 43
	exitMemory  = 44
	exitBlocked = 45
	exitBroken  = 2
)

func (r *runner) watchdog(limit time.Duration, memLimit uint64, done chan struct{}) {
	t := time.NewTicker(250 * time.Millisecond)
	defer t.Stop()
	for k := 0; ; k++ {
		select {
		case <-done:
			return
		case <-t.C:
		}
		now := time.Now().UnixNano()
		for i := 0; i <= r.e.workers; i++ {
			st := atomic.LoadInt64(&r.crumbs[i*crumbWords+2])
			if st != 0 && now-st > int64(limit) {
				fmt.Fprintf(os.Stderr, "watchdog: worker %d is on one case for more than %v\n", i, limit)
				if b := blockedForever(); b != "" {
					fmt.Fprintf(os.Stderr, "watchdog: goroutines wait for each other:\n%s\n", b)
					os.Exit(exitBlocked)
				}
				os.Exit(exitHang)
			}
		}
		if k%2 == 0 {
			if rss() > memLimit {
				fmt.Fprintf(os.Stderr, "watchdog: more than %d MB in use\n", memLimit>>20)
				os.Exit(exitMemory)
			}
		}
	}
}

// blockedForever looks for goroutines that wait inside the code under test,
// in the same place for a minute. It returns their stacks.
func blockedForever() string {
	a := waiting()
	if len(a) == 0 {
		return ""
	}
	time.Sleep(60 * time.Second)
	b := waiting()
	out := ""
	for id, st := range a {
		if b[id] == st && len(out) < 6000 {
			out += "goroutine " + id + st + "\n\n"
		}
	}
	return out
}

var (
	goroutineRE = regexp.MustCompile(`(?s)^goroutine (\d+) (\[(?:sync\.|semacquire|chan |select)[^\]]*\]):(.*)`)
	minutesRE   = regexp.MustCompile(`, \d+ minutes`)
)

// waiting returns the stacks of the goroutines that wait for something inside
// the code under test, by number.
func waiting() map[string]string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := goroutineRE.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		// the innermost frames, up to the first of the code under test,
		// must be those of the standard library
		for _, l := range strings.Split(m[3], "\n") {
			if strings.HasPrefix(l, "github.com/leodido/go-urn") {
				out[m[1]] = minutesRE.ReplaceAllString(m[2], "") + m[3]
			}
			if l != "" && l[0] != '\t' && !strings.HasPrefix(l, "sync.") && !strings.HasPrefix(l, "internal/") && !strings.HasPrefix(l, "runtime.") {
				break
			}
		}
	}
	return out
}

func rss() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, c uint64
	fmt.Sscan(string(b), &a, &c)
	return c * 4096
}

// all runs every stream of the property.
func (r *runner) all() *totals {
	streams := r.p.streams(r.e)
	t := &totals{hist: map[string]int64{}}
	var ws []*worker
	for i := 0; i < r.e.workers; i++ {
		w := r.newWorker(i)
		if r.p.workers != nil {
			r.p.workers(w)
		}
		ws = append(ws, w)
	}
	for si := range streams {
		s := &streams[si]
		if atomic.LoadInt32(&r.stop) != 0 {
			break
		}
		chunk := s.chunk
		if chunk == 0 {
			chunk = s.n / int64(r.e.workers*16)
			if chunk > 1024 {
				chunk = 1024
			}
			if chunk < 1 {
				chunk = 1
			}
		}
		var next int64
		var wg sync.WaitGroup
		nw := r.e.workers
		if s.workers > 0 && s.workers < nw {
			nw = s.workers
		}
		var ev int64
		t0 := time.Now()
		for _, w := range ws[:nw] {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				debug.SetPanicOnFault(true)
				c := r.crumbs[w.id*crumbWords:]
				e0 := w.evals
				for atomic.LoadInt32(&r.stop) == 0 {
					a := atomic.AddInt64(&next, chunk) - chunk
					if a >= s.n {
						break
					}
					b := a + chunk
					if b > s.n {
						b = s.n
					}
					atomic.StoreInt64(&c[0], int64(si))
					for i := a; i < b && (i&15 != 0 || atomic.LoadInt32(&r.stop) == 0); i++ {
						atomic.StoreInt64(&c[1], i)
						if i&63 == 0 || i == a || chunk < 16 {
							atomic.StoreInt64(&c[2], time.Now().UnixNano())
						}
						w.runCase(s, i)
					}
					atomic.StoreInt64(&c[2], 0)
				}
				atomic.AddInt64(&ev, w.evals-e0)
			}(w)
		}
		wg.Wait()
		t.streams = append(t.streams, fmt.Sprintf("%s: %d cases, %.1fs", s.name, ev, time.Since(t0).Seconds()))
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintln(os.Stderr, t.streams[len(t.streams)-1])
		}
	}
	for _, w := range ws {
		t.evals += w.evals
		for k, v := range w.hist {
			t.hist[k] += v
		}
		t.samples = append(t.samples, w.sample...)
		t.viol = append(t.viol, w.viol...)
	}
	for _, b := range r.bitmap {
		t.distinct += int64(bits.OnesCount64(b))
	}
	sort.Slice(t.viol, func(i, j int) bool {
		a, b := t.viol[i], t.viol[j]
		if a.Stream != b.Stream {
			return a.Stream < b.Stream
		}
		return a.Index < b.Index
	})
	return t
}

func pickSamples(s []string, n int) []string {
	sort.Slice(s, func(i, j int) bool { return hashStr(s[i]) < hashStr(s[j]) })
	var out []string
	per := map[string]int{}
	for _, x := range s {
		k := strings.SplitN(x, ":", 2)[0]
		if len(x) > 400 {
			x = x[:300] + "...(cut)"
		}
		if per[k] < 3 && len(out) < n {
			per[k]++
			out = append(out, x)
		}
	}
	return out
}

func (r *runner) evidence(t *totals, wall float64) {
	ev := map[string]interface{}{
		"property": r.p.id,
		"tier":     r.e.tier,
		"seed":     r.e.seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         t.evals,
			"distinct_nontrivial": t.distinct,
			"rule":                r.p.rule + " (Distinct ones are counted by a 28-bit hash: a lower bound.)",
			"samples":             pickSamples(t.samples, 24),
			"observed":            t.hist,
			"streams":             t.streams,
			"workers":             r.e.workers,
			"gomaxprocs":          runtime.GOMAXPROCS(0),
		},
		"assumptions": r.p.assumptions,
		"wall_s":      wall,
		"violations":  len(t.viol),
	}
	if r.p.assumptions == nil {
		delete(ev, "assumptions")
	}
	writeJSON(filepath.Join(r.e.verif, "evidence", r.p.id+".json"), ev)
}

func writeJSON(path string, v interface{}) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "monitor: "+format+"\n", a...)
	os.Exit(exitBroken)
}

// loadKnown reads the findings listed for a property: lines
// "known: property=<id> key=<key> <what fails>".
func loadKnown(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		f := strings.SplitN(rest, " ", 2)
		if len(f) == 2 {
			out[f[0]] = f[1]
		}
	}
	return out
}
