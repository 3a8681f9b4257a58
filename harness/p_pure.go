package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C23: calls depend on their arguments only, and do no input or output.
//
// The same items (each a handful of calls) are gone through by many processes
// which differ in all that the calls must not depend on: environment,
// arguments, working directory, processors, time, order, repetition and what
// went before. Each item gives a digest of all that the calls returned, and
// digests are compared. Other processes go through items of their own with a
// system call filter on: a call that opens, connects, starts or asks the
// system for anything but memory and threads is stopped at that instruction.

// pureItems makes the inputs of the items: k of a set.
type pureItems struct {
	w    *worker
	fams map[mode][]family
	salt uint64
	// gap, where set, makes calls on other values, in between
	gap func()
}

func newPureItems(w *worker, salt uint64) *pureItems {
	p := &pureItems{w: w, fams: map[mode][]family{}, salt: salt}
	for _, m := range allModes {
		for _, f := range inputs(w.e, m, 1<<40) {
			if f.name != "huge" && !strings.HasSuffix(f.name, "70001") && !strings.HasSuffix(f.name, "140001") && !strings.HasSuffix(f.name, "1048583") {
				p.fams[m] = append(p.fams[m], f)
			}
		}
	}
	return p
}

// pick gives the k-th input and its mode.
func (p *pureItems) pick(k int) (mode, string) {
	r := p.w.r
	r.s = mix(p.salt) ^ mix(uint64(k)+991)
	m := allModes[r.n(3)]
	fs := p.fams[m]
	f := fs[r.n(len(fs))]
	if strings.HasPrefix(f.name, "sweep") && r.chance(3, 4) || r.chance(1, 3) {
		f = fs[len(fs)-1] // random
	}
	s := f.at(p.w, int64(r.u64()%uint64(f.n)))
	if len(s) > 3000 {
		s = s[:3000]
	}
	return m, s
}

// between gives a function that makes a call or two, most times none, on
// values of its own: what they return is nobody's business.
func (p *pureItems) between() func() {
	w, x := p.w, rng{s: mix(p.salt ^ 0x77)}
	pool := make([]*urn.URN, 24)
	k := 0
	for i := range pool {
		for pool[i] == nil {
			m, in := p.pick(k)
			k++
			if u, err := urn.NewMachine(opt(m)).Parse([]byte(in)); err == nil && u != nil {
				pool[i] = u
			}
		}
	}
	mc := map[mode]urn.Machine{}
	for _, m := range allModes {
		mc[m] = urn.NewMachine(opt(m))
	}
	return func() {
		for n := x.n(9) - 5; n > 0; n-- {
			a := x.n(len(pool))
			u, v := pool[a], pool[x.n(len(pool))]
			if x.chance(1, 2) {
				_ = view(x.n(views), u, v)
				continue
			}
			m, in := p.pick(k)
			k++
			switch x.n(8) {
			case 0:
				_, _ = urn.Parse([]byte(in))
			case 1:
				urn.NewMachine(opt(m))
			case 2:
				if got, err := mc[m].Parse([]byte(in)); err == nil && got != nil {
					pool[a] = got
				}
			case 3:
				_ = mc[m].Error()
			case 4:
				_ = newReceiver(m).unmarshal(jsonOf(in))
			case 5:
				_ = newReceiver(m).unmarshal([]byte(w.jsonDoc(in, 2)))
			case 6:
				_ = scimschema.TypeFromString(in).String()
			case 7:
				l := &urn.URN{ID: w.anyBytes(false), SS: w.anyBytes(false)}
				_ = view(x.n(views), l, v)
			}
		}
	}
}

// text runs the calls of the k-th item and tells all that they returned.
func (p *pureItems) text(k int) string {
	m, in := p.pick(k)
	r := p.w.r
	gap := func() {
		if p.gap != nil {
			p.gap()
		}
	}
	var sb strings.Builder
	put := func(xs ...interface{}) {
		for _, x := range xs {
			switch x.(type) {
			case *json.SyntaxError, *json.UnmarshalTypeError: // its text is not the library's
				fmt.Fprintf(&sb, "%T|", x)
			default:
				fmt.Fprintf(&sb, "%v|", x)
			}
		}
		sb.WriteByte('\n')
		gap()
	}
	put(m, q(in))
	mc := urn.NewMachine(opt(m))
	gap()
	u, err := mc.Parse([]byte(in))
	gap()
	put(verdict(u, err), mc.Error())
	u2, ok := urn.Parse([]byte(in))
	gap()
	put(ok)
	if ok {
		gap()
		put(verdict(u2, nil))
	}
	other := p.w.sibling(in)
	u3, err3 := mc.Parse([]byte(other))
	gap()
	put(q(other), verdict(u3, err3))
	for _, x := range []*urn.URN{u, u3} {
		if x == nil {
			continue
		}
		for n := 4; n > 0; n-- {
			if v := r.n(views); v != 3 && v != 4 && v != 8 && v != 9 && v != 10 { // those give escaped text
				put(v, view(v, x, []*urn.URN{u, u3, x}[r.n(3)]))
			}
		}
		b, err := json.Marshal(x)
		gap()
		put(unquoted(b), err)
		b, err = json.Marshal(urn.URN8141{URN: x})
		gap()
		put(unquoted(b), err)
		for _, y := range []*urn.URN{u, u2, u3} {
			put(x.Equal(y))
		}
		if s := x.SCIM(); s != nil {
			b, err = json.Marshal(s)
			gap()
			put(unquoted(b), err, s.Type.String(), s.Name, s.Other, s.String())
		}
	}
	doc := jsonOf(in)
	if r.chance(1, 4) {
		doc = []byte(p.w.jsonDoc(in, r.n(3)))
		if r.chance(1, 3) {
			doc = doc[:r.n(len(doc)+1)]
		}
	}
	for _, m := range allModes {
		rc := newReceiver(m)
		err := rc.unmarshal(doc)
		gap()
		put(err)
		if err == nil {
			gap()
			put(rc.text())
		}
	}
	if r.chance(1, 4) {
		l := urn.URN{ID: p.w.anyBytes(false), SS: p.w.anyBytes(false)}
		b, err := json.Marshal(l)
		gap()
		put(l.String(), l.Normalize().String(), unquoted(b), err, l.Equal(u), l.RFC(), l.IsSCIM())
		s := urn.SCIM{Type: scimschema.Type(r.n(5)), Name: p.w.anyBytes(false), Other: p.w.anyBytes(false)}
		b, err = json.Marshal(s)
		gap()
		put(s.String(), unquoted(b), err)
	}
	t := scimschema.TypeFromString(in)
	if r.chance(1, 2) {
		t = scimschema.TypeFromString(r.pick([]string{"schemas", "api", "param", "Api", ""}))
	}
	gap()
	put(int(t), t.String(), scimschema.Type(r.n(6)-1).String())
	return sb.String()
}

// unquoted is the string that a document stands for: how it is escaped is not
// the library's doing, and differs between versions of Go.
func unquoted(doc []byte) string {
	var s string
	if json.Unmarshal(doc, &s) != nil {
		return "not a string: " + string(doc)
	}
	return "document of " + q(s)
}

// ---- the process that goes through the items

// pureSpec tells a process what to do.
type pureSpec struct {
	Seed    uint64
	Salt    uint64
	Repo    string
	Tier    string
	N       int
	Order   string // forward, backward, shuffled, strided, twice
	Warm    int    // items of another set to go through first
	Workers int    // goroutines, each through its share
	Noise   bool   // other calls on other values in between the calls
	Sealed  bool
	Clock   bool // let days and years pass in between
	Explain int  // the item to tell in full (-1: none)
	Out     string
	Chdir   string
}

type pureReply struct {
	Sealed   bool
	Unstable int // an item that differed within the process (-1: none)
	Texts    []string
	Note     string
}

func pureMain(specFile string) {
	b, err := os.ReadFile(specFile)
	if err != nil {
		fatal("%v", err)
	}
	var sp pureSpec
	if err := json.Unmarshal(b, &sp); err != nil {
		fatal("%v", err)
	}
	e := &env{prop: "C23", tier: sp.Tier, seed: sp.Seed, repo: sp.Repo, workers: 1, scale: 100, thorough: sp.Tier == "thorough"}
	e.dict = loadDict(e.repo)
	p := &property{id: "C23"}
	out, err := os.OpenFile(sp.Out, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		fatal("%v", err)
	}
	rn := &runner{e: e, p: p, hitKeys: map[string]bool{}, crumbs: make([]int64, crumbWords*2)}
	if sp.Chdir != "" {
		if err := os.Chdir(sp.Chdir); err != nil {
			fatal("%v", err)
		}
	}
	if sp.Workers < 1 {
		sp.Workers = 1
	}
	sets := make([]*pureItems, sp.Workers)
	warm := make([]*pureItems, sp.Workers)
	for i := range sets {
		sets[i] = newPureItems(rn.newWorker(0), sp.Salt)
		warm[i] = newPureItems(rn.newWorker(0), sp.Salt^0x5bd1e995)
		if sp.Noise {
			other := newPureItems(rn.newWorker(0), sp.Salt^sp.Seed^uint64(i+1)<<32^0x27d4eb2f)
			sets[i].gap = other.between()
		}
	}
	reply := pureReply{Unstable: -1}
	if sp.Sealed {
		runtime.GC()
		if err := seal(); err != nil {
			reply.Note = err.Error()
		} else {
			reply.Sealed = true
		}
	}
	digests := make([]uint64, sp.N)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < sp.Workers; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			order := make([]int, 0, sp.N/sp.Workers+1)
			for k := g; k < sp.N; k += sp.Workers {
				order = append(order, k)
			}
			r := &rng{s: sp.Seed + uint64(g)*77 + 5}
			switch sp.Order {
			case "backward":
				for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
					order[i], order[j] = order[j], order[i]
				}
			case "shuffled":
				for i := len(order) - 1; i > 0; i-- {
					j := r.n(i + 1)
					order[i], order[j] = order[j], order[i]
				}
			case "strided":
				var o []int
				for s := 0; s < 13; s++ {
					for i := s; i < len(order); i += 13 {
						o = append(o, order[i])
					}
				}
				order = o
			}
			for k := 0; k < sp.Warm/sp.Workers; k++ {
				warm[g].text(k*sp.Workers + g)
			}
			for n, k := range order {
				if sp.Clock && n%16 == 0 {
					time.Sleep(pause(r))
				}
				t := sets[g].text(k)
				h := hashStr(t)
				if sp.Order == "twice" {
					for j := 0; j < 2; j++ {
						if t2 := sets[g].text(k); hashStr(t2) != h {
							mu.Lock()
							if reply.Unstable < 0 {
								reply.Unstable = k
								reply.Texts = append(reply.Texts, t, t2)
							}
							mu.Unlock()
						}
					}
				}
				if k == sp.Explain {
					mu.Lock()
					reply.Texts = append(reply.Texts, t)
					mu.Unlock()
				}
				digests[k] = h
			}
		}(g)
	}
	wg.Wait()
	head, _ := json.Marshal(reply)
	buf := make([]byte, 8+len(head)+8*sp.N)
	binary.LittleEndian.PutUint64(buf, uint64(len(head)))
	copy(buf[8:], head)
	for k, d := range digests {
		binary.LittleEndian.PutUint64(buf[8+len(head)+8*k:], d)
	}
	for len(buf) > 0 { // by hand: the sealed process may write to this file only
		n, err := syscall.Write(int(out.Fd()), buf)
		if err != nil {
			fatal("%v", err)
		}
		buf = buf[n:]
	}
	syscall.Exit(0)
}

// pause is how long to wait: from a second to some years.
func pause(r *rng) time.Duration {
	switch r.n(6) {
	case 0:
		return time.Duration(r.n(1000)) * time.Millisecond
	case 1:
		return time.Duration(r.n(60)) * time.Second
	case 2:
		return time.Duration(r.n(24*60)) * time.Minute
	case 3:
		return time.Duration(r.n(40)) * 24 * time.Hour
	case 4:
		return time.Duration(r.n(20)) * 30 * 24 * time.Hour / 10
	}
	return 0
}

// ---- the seal

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

type sockFprog struct {
	n uint16
	f *sockFilter
}

// allowedCalls are the system calls of a running Go program that does nothing
// but compute (linux/amd64), and writing, which the parent watches.
var allowedCalls = []uint32{
	1,                 // write
	9, 10, 11, 25, 28, // mmap, mprotect, munmap, mremap, madvise
	13, 14, 15, 131, // rt_sigaction, rt_sigprocmask, rt_sigreturn, sigaltstack
	24, 35, 230, 219, // sched_yield, nanosleep, clock_nanosleep, restart_syscall
	38, 222, 223, 224, 225, 226, // timers of the profiler and of preemption
	39, 186, 200, 234, // getpid, gettid, tkill, tgkill
	56, 435, 60, 231, 158, 218, 273, 334, // clone, clone3, exit, exit_group, arch_prctl, set_tid_address, set_robust_list, rseq
	202, 204, // futex, sched_getaffinity
	228, 96, 201, // clock_gettime, gettimeofday, time
	232, 233, 281, 291, 290, // epoll, eventfd2
	157, 318, 27, 98, // prctl, getrandom, mincore, getrusage
}

// seal makes any other system call end the process with a trace.
func seal() error {
	if runtime.GOARCH != "amd64" || runtime.GOOS != "linux" {
		return fmt.Errorf("no system call filter for %s/%s", runtime.GOOS, runtime.GOARCH)
	}
	prog := []sockFilter{
		{0x20, 0, 0, 4},          // architecture
		{0x15, 1, 0, 0xc000003e}, // x86-64
		{0x06, 0, 0, 0x7fff0000},
		{0x20, 0, 0, 0}, // number
	}
	for i, c := range allowedCalls {
		prog = append(prog, sockFilter{0x15, uint8(len(allowedCalls) - i + 3), 0, c})
	}
	prog = append(prog,
		sockFilter{0x15, 0, 2, 0}, // read, of eight bytes: how the runtime empties its event descriptor
		sockFilter{0x20, 0, 0, 32},
		sockFilter{0x15, 1, 0, 8},
		sockFilter{0x06, 0, 0, 0x00030000},
		sockFilter{0x06, 0, 0, 0x7fff0000})
	fp := sockFprog{uint16(len(prog)), &prog[0]}
	runtime.LockOSThread()
	if _, _, e := syscall.RawSyscall6(157, 38, 1, 0, 0, 0, 0); e != 0 {
		return fmt.Errorf("no_new_privs: %v", e)
	}
	if _, _, e := syscall.RawSyscall(317, 1, 1, uintptr(unsafe.Pointer(&fp))); e != 0 {
		return fmt.Errorf("seccomp: %v", e)
	}
	runtime.KeepAlive(prog)
	runtime.UnlockOSThread()
	return nil
}

// sealBroken looks in the trace of a process that the filter ended for a
// system call made by the library: the frames above its first one belong to
// packages that ask the system for something.
func sealBroken(log string) string {
	if !strings.Contains(log, "SIGSYS") {
		return ""
	}
	for _, g := range strings.Split(log, "\n\n") {
		if !strings.Contains(g, "go-urn") || !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.HasPrefix(l, "github.com/leodido/go-urn") {
				break
			}
			if ioFrame.MatchString(l) {
				return g
			}
		}
	}
	return ""
}

var ioFrame = regexp.MustCompile(`^(syscall|os|net|internal/syscall|internal/poll|internal/runtime/syscall|golang\.org/x/sys)[./]`)

// ---- the parent

type pureVariant struct {
	name string
	fake bool   // the clock of the process is made up
	bin  string // how it was built
	env  func(e *env) []string
	args []string
	spec pureSpec
	cpu  bool // on one processor
}

func baseEnv() []string {
	return []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=/root", "LC_ALL=C", "GOTRACEBACK=all", "GODEBUG=updatemaxprocs=0"}
}

var envName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.-]*$`)

// envNames are the names that a switch may have: the words of the sources.
func envNames(e *env) []string {
	set := map[string]bool{}
	for _, n := range []string{"DEBUG", "VERBOSE", "STRICT", "CI", "TEST", "LANG", "TZ", "URN", "URN_DEBUG", "URN_STRICT", "GO_URN", "GOURN_DEBUG", "LENIENT", "LOG_LEVEL", "NO_COLOR", "USER", "HOSTNAME", "TERM", "TMPDIR", "PWD"} {
		set[n] = true
	}
	for _, t := range e.dict.tokens {
		if envName.MatchString(t) && len(t) > 1 && len(t) < 60 {
			set[t] = true
			if up := strings.ToUpper(strings.NewReplacer("-", "_", ".", "_").Replace(t)); up != "PATH" {
				set[up] = true
			}
		}
	}
	for _, n := range []string{"GODEBUG", "GOTRACEBACK", "GOGC", "GOMEMLIMIT", "GOMAXPROCS", "PATH", "LD_PRELOAD", "LD_LIBRARY_PATH", "GORACE", "GOCOVERDIR"} {
		delete(set, n)
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// envValues are values that a switch may be compared with, where the library
// has a way to its environment: words and numbers of the files that do.
func envValues(e *env) []string {
	set := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(e.repo, "*.go"))
	more, _ := filepath.Glob(filepath.Join(e.repo, "*/*/*.go"))
	for _, f := range append(files, more...) {
		if strings.HasSuffix(f, "_test.go") || strings.Contains(f[len(e.repo):], "/tools/") {
			continue
		}
		if !importsAny(f, "os", "syscall", "flag", "internal/godebug") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, t := range literal.FindAllString(string(b), -1) {
			if t = strings.Trim(t, "\"`"); len(t) > 0 && len(t) < 40 && strings.IndexByte(t, 0) < 0 && t != "0" && t != "1" {
				set[t] = true
			}
		}
	}
	var out []string
	for t := range set {
		out = append(out, t)
	}
	sort.Strings(out)
	if len(out) > 150 {
		out = out[:150]
	}
	return out
}

var literal = regexp.MustCompile("\"[^\"\\\\%]*\"|`[^`]*`|\\b[0-9]+\\b")

func importsAny(file string, pkgs ...string) bool {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, parser.ImportsOnly)
	if err != nil {
		return false
	}
	for _, i := range f.Imports {
		for _, p := range pkgs {
			if i.Path.Value == strconv.Quote(p) {
				return true
			}
		}
	}
	return false
}

func allSet(value string) func(e *env) []string {
	return func(e *env) []string {
		out := baseEnv()
		for _, n := range envNames(e) {
			out = append(out, n+"="+value)
		}
		return out
	}
}

func plus(xs ...string) func(e *env) []string {
	return func(e *env) []string { return append(baseEnv(), xs...) }
}

func pureVariants(e *env) []pureVariant {
	n := int(e.N(40000, 400000))
	fw := pureSpec{N: n, Order: "forward"}
	with := func(f func(s *pureSpec)) pureSpec {
		s := fw
		f(&s)
		return s
	}
	vs := []pureVariant{
		{name: "again", spec: fw},
		{name: "twice in a row", spec: with(func(s *pureSpec) { s.Order = "twice"; s.N /= 2 })},
		{name: "backward", spec: with(func(s *pureSpec) { s.Order = "backward" })},
		{name: "shuffled", spec: with(func(s *pureSpec) { s.Order = "shuffled" })},
		{name: "strided, in another directory", spec: with(func(s *pureSpec) { s.Order = "strided"; s.Chdir = "/" })},
		{name: "after many others", spec: with(func(s *pureSpec) { s.Warm = 2 * n; s.N /= 2 })},
		{name: "after very many others", spec: with(func(s *pureSpec) { s.Warm = 4 * n; s.N /= 10; s.Order = "shuffled" })},
		{name: "other calls in between", spec: with(func(s *pureSpec) { s.Noise = true; s.N /= 2 })},
		{name: "other calls in between, shuffled", spec: with(func(s *pureSpec) { s.Noise = true; s.N /= 2; s.Order = "shuffled"; s.Seed = 1 })},
		{name: "other calls in between, twice", spec: with(func(s *pureSpec) { s.Noise = true; s.N /= 4; s.Order = "twice"; s.Seed = 2 })},
		{name: "in many goroutines", spec: with(func(s *pureSpec) { s.Workers = 31; s.Order = "shuffled" })},
		{name: "no environment", env: func(*env) []string { return []string{"GOTRACEBACK=all"} }, spec: fw},
		{name: "every switch 1", env: allSet("1"), spec: fw},
		{name: "every switch 0", env: allSet("0"), spec: fw},
		{name: "every switch true", env: allSet("true"), spec: fw},
		{name: "every switch empty", env: allSet(""), spec: fw},
		{name: "every switch a mode", env: allSet("RFC8141"), spec: with(func(s *pureSpec) { s.Order = "shuffled" })},
		{name: "every switch a long number", env: allSet("1000000"), spec: fw},
		{name: "Turkish", env: plus("LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "LC_CTYPE=tr_TR.UTF-8", "TZ=Asia/Istanbul"), spec: fw},
		{name: "far time zone", env: plus("TZ=Pacific/Kiritimati"), spec: with(func(s *pureSpec) { s.Order = "backward" })},
		{name: "one thread", env: plus("GOMAXPROCS=1"), spec: fw},
		{name: "64 threads", env: plus("GOMAXPROCS=64"), spec: with(func(s *pureSpec) { s.Workers = 64 })},
		{name: "collecting all the time", env: plus("GOGC=5"), spec: with(func(s *pureSpec) { s.N /= 4 })},
		{name: "arguments", args: []string{"-v", "--debug", "-test.v", "--strict", "urn:a:b", "-mode=8141"}, spec: fw},
		{name: "one processor", cpu: true, spec: fw},
	}
	self, _ := os.Executable()
	for _, b := range [][2]string{{"-386", "a 32-bit processor"}, {"-old", "an older Go, and no optimization"}} {
		if _, err := os.Stat(self + b[0]); err == nil {
			vs = append(vs, pureVariant{name: b[1], bin: b[0], spec: with(func(s *pureSpec) { s.N /= 2 })})
		}
	}
	for _, x := range envValues(e) {
		vs = append(vs, pureVariant{name: "every switch " + x, env: allSet(x), spec: with(func(s *pureSpec) { s.N /= 4 })})
	}
	for k := 0; k < 6; k++ {
		k := k
		// the made-up clock does not get on with several processors
		vs = append(vs, pureVariant{name: fmt.Sprintf("another time %d", k), fake: true, env: plus("GOMAXPROCS=1"), spec: with(func(s *pureSpec) {
			s.Clock = k > 0
			s.Order = []string{"forward", "shuffled"}[k%2]
			s.Seed = uint64(k)
		})})
	}
	return vs
}

// pureRun runs a process and gives its answer, its digests, and what it wrote.
func pureRun(w *worker, v *pureVariant, sp pureSpec, tag string) (reply pureReply, digests []uint64, wrote, log string, err error) {
	e := w.e
	dir, err := os.MkdirTemp(e.scratch, "pure-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	sp.Seed += e.seed
	sp.Repo, sp.Tier, sp.Out = e.repo, e.tier, filepath.Join(dir, "out")
	if sp.Chdir == "" {
		sp.Chdir = dir
	}
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	if v.fake {
		self += "-fake"
	}
	self += v.bin
	spec := filepath.Join(dir, "spec.json")
	writeJSON(spec, sp)
	argv := append([]string{self, "pure", spec}, v.args...)
	if v.cpu {
		if ts, err := exec.LookPath("taskset"); err == nil {
			argv = append([]string{ts, "-c", "0"}, argv...)
			if exec.Command(argv[0], "-c", "0", "true").Run() != nil {
				argv = argv[3:]
			}
		}
	}
	c := exec.Command(argv[0], argv[1:]...)
	c.Env = baseEnv()
	if v.env != nil {
		c.Env = v.env(e)
	}
	c.Dir = dir
	of, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		fatal("%v", err)
	}
	ef, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		fatal("%v", err)
	}
	c.Stdout, c.Stderr = of, ef
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	limit := 8 * time.Minute
	if v.fake {
		limit = 3 * time.Minute
	}
	timer := time.AfterFunc(limit, func() { c.Process.Kill() })
	runErr := c.Wait()
	timer.Stop()
	of.Close()
	ef.Close()
	so, se := readTail(of.Name(), 1<<20), readTail(ef.Name(), 1<<20)
	if runErr != nil {
		return reply, nil, "", so + se, runErr
	}
	if so != "" || se != "" {
		wrote = fmt.Sprintf("standard output: %s; standard error: %s", q(so), q(se))
	}
	b, err := os.ReadFile(sp.Out)
	if err != nil || len(b) < 8 {
		return reply, nil, wrote, "", fmt.Errorf("no answer: %v", err)
	}
	n := binary.LittleEndian.Uint64(b)
	if err := json.Unmarshal(b[8:8+n], &reply); err != nil {
		return reply, nil, wrote, "", err
	}
	b = b[8+n:]
	for len(b) >= 8 {
		digests = append(digests, binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	if ents, err := os.ReadDir(dir); err == nil {
		for _, x := range ents {
			switch x.Name() {
			case "out", "spec.json", "stdout", "stderr":
			default:
				wrote += fmt.Sprintf(" the file %s in the working directory", q(x.Name()))
			}
		}
	}
	return reply, digests, wrote, "", nil
}

// pureBase has the digests of a plain process, made once.
var pureBase struct {
	once    sync.Once
	digests []uint64
	wrote   string
	log     string
	err     error
}

func basePure(w *worker) []uint64 {
	b := &pureBase
	b.once.Do(func() {
		v := pureVariant{name: "plain"}
		_, b.digests, b.wrote, b.log, b.err = pureRun(w, &v, pureSpec{N: int(w.e.N(40000, 400000)), Order: "forward", Explain: -1}, "base")
	})
	if b.err != nil {
		panic(harnessFailure(fmt.Sprintf("the plain process: %v\n%s", b.err, head(b.log, 4000))))
	}
	return b.digests
}

func checkPure(w *worker, i int64) {
	v := pureVariants(w.e)[i]
	key := "C23:" + v.name
	base := basePure(w)
	sp := v.spec
	sp.Explain = -1
	reply, digests, wrote, log, err := pureRun(w, &v, sp, v.name)
	if err != nil {
		if strings.Contains(log, "github.com/leodido/go-urn.") && (strings.Contains(log, "panic:") || strings.Contains(log, "fatal error:")) {
			w.violate(key, "in a process that differs by \"%s\" the calls end with %v:\n%s", v.name, err, head(log, 4000))
			return
		}
		if (v.fake || v.bin != "") && !strings.Contains(log, "panic:") {
			w.count("not usable: " + v.name)
			return
		}
		panic(harnessFailure(fmt.Sprintf("variant %s: %v\n%s", v.name, err, head(log, 4000))))
	}
	if pureBase.wrote != "" || wrote != "" {
		w.violate(key, "calls wrote to %s%s", pureBase.wrote, wrote)
		return
	}
	if reply.Unstable >= 0 {
		w.violate(key, "the same calls in a row gave\n%s\nthen\n%s", reply.Texts[0], reply.Texts[1])
		return
	}
	for k, d := range digests {
		if d == base[k] {
			continue
		}
		// what it was
		bs := pureSpec{N: len(base), Order: "forward", Explain: k}
		bv := pureVariant{name: "base"}
		r1, d1, _, _, e1 := pureRun(w, &bv, bs, "explain")
		sp.Explain = k
		r2, d2, _, _, e2 := pureRun(w, &v, sp, "explain")
		a, b := "?", "?"
		if e1 == nil && len(r1.Texts) > 0 && d1[k] == base[k] {
			a = r1.Texts[0]
		}
		if e2 == nil && len(r2.Texts) > 0 && d2[k] == d {
			b = r2.Texts[len(r2.Texts)-1]
		}
		w.violate(key, "item %d gives in a plain process\n%s\nand in one that differs by \"%s\"\n%s", k, head(a, 1200), v.name, head(b, 1200))
		return
	}
	w.evals += int64(len(digests))
	w.countN("items compared", int64(len(digests)))
	w.count("processes that differ by: " + v.name)
	for k := range digests {
		w.nontrivial(v.name, strconv.Itoa(k))
	}
	w.samplef("%s: %d items agree", v.name, len(digests))
}

func checkSealed(w *worker, i int64) {
	// a goroutine that the library has started tells so in its trace
	v := pureVariant{name: "sealed", env: plus("GODEBUG=updatemaxprocs=0,tracebackancestors=9")}
	key := fmt.Sprintf("C23:sealed:%d", i)
	sp := pureSpec{N: int(w.e.N(40000, 400000)), Order: "forward", Explain: -1, Sealed: true, Salt: uint64(i) + 1}
	reply, digests, wrote, log, err := pureRun(w, &v, sp, "sealed")
	if err != nil {
		if g := sealBroken(log); g != "" {
			w.violate(key, "a call of the library asks the system for something:\n%s", head(g, 4000))
			return
		}
		if strings.Contains(log, "SIGSYS") { // not the library's: this filter is of no use here
			w.count("filter not usable")
			return
		}
		if strings.Contains(log, "github.com/leodido/go-urn.") && (strings.Contains(log, "panic:") || strings.Contains(log, "fatal error:")) {
			w.violate(key, "with system calls filtered the calls end with %v:\n%s", err, head(log, 4000))
			return
		}
		panic(harnessFailure(fmt.Sprintf("sealed: %v\n%s", err, head(log, 4000))))
	}
	if wrote != "" {
		w.violate(key, "calls wrote to %s", wrote)
		return
	}
	if !reply.Sealed {
		w.count("filter not usable")
		return
	}
	w.evals += int64(len(digests))
	w.countN("items under the system call filter", int64(len(digests)))
	for k := range digests {
		w.nontrivial(v.name, strconv.Itoa(k), strconv.Itoa(int(i)))
	}
	w.samplef("%d items under the system call filter", len(digests))
}

func init() {
	register(&property{
		id:   "C23",
		slow: true,
		rule: "Items of a dozen calls each (parsing an input and a near-duplicate in its mode and by default, every accessor, normalizing, comparing, marshaling, decoding into the three types, literals, type names), gone through by a plain process and by processes that differ in order, repetition, what went before, calls on other values in between, number of goroutines, environment (every word of the sources set as a variable, to several values), arguments, directory, locale, processors and time (a made-up clock in which years pass); all that the calls return is compared item by item, and nothing may be written anywhere. Other processes run under a system call filter which allows memory, threads and clocks only. Non-trivial: counted by (process, item).",
		streams: func(e *env) []stream {
			return []stream{
				{name: "sealed", n: e.N(8, 80), chunk: 1, run: checkSealed},
				{name: "variants", n: int64(len(pureVariants(e))), chunk: 1, run: checkPure},
			}
		},
		finish: func(e *env, t *totals) string {
			if t.hist["items compared"] == 0 {
				return "no process was compared"
			}
			return ""
		},
		assumptions: []string{"The system call filter is used where the kernel allows it; the evidence counts the items it watched. Reading the clock makes no system call: dependence on time is looked for by the processes with a made-up clock."},
	})
}
