//go:build cov

package main

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	urn "github.com/leodido/go-urn"
)

// C17: the cost of calls by input length, in statements executed (counted by
// instrumentation of a build copy), bytes allocated, and CPU time. The first
// two are exact; the last one is only there for work done inside the standard
// library, and has a very generous bound.

const (
	maxStmtsPerByte = 150
	baseStmts       = 20000
	maxAllocPerByte = 240
	baseAlloc       = 256 << 10
	maxNsPerByte    = 2000
	baseNs          = 500e6
)

type call struct {
	name string
	prep func(in string, m mode) func() // nil: does not apply
}

func parsedFor(in string, m mode) *urn.URN {
	u, ok := urn.Parse([]byte(in), opt(m))
	if !ok || u == nil {
		return nil
	}
	return u
}

var calls = []call{
	{"Machine.Parse", func(in string, m mode) func() {
		b := []byte(in)
		return func() {
			mc := urn.NewMachine(opt(m))
			if _, err := mc.Parse(b); err != nil {
				_ = err.Error() + mc.Error().Error()
			}
		}
	}},
	{"Parse", func(in string, m mode) func() { b := []byte(in); return func() { urn.Parse(b, opt(m)) } }},
	{"Parse in other modes", func(in string, m mode) func() {
		b := []byte(in)
		return func() { urn.Parse(b, opt((m+1)%3)); urn.Parse(b, opt((m+2)%3)) }
	}},
	{"String", func(in string, m mode) func() {
		u := parsedFor(in, m)
		if u == nil {
			return nil
		}
		return func() { _ = u.String() }
	}},
	{"Normalize", func(in string, m mode) func() {
		u := parsedFor(in, m)
		if u == nil {
			return nil
		}
		return func() { _ = u.Normalize() }
	}},
	{"Normalize a literal", func(in string, m mode) func() {
		u := parsedFor(in, m)
		if u == nil {
			return nil
		}
		v := &urn.URN{ID: u.ID, SS: u.SS}
		return func() { _ = v.Normalize().Normalize().String() }
	}},
	{"Equal", func(in string, m mode) func() {
		u, v := parsedFor(in, m), parsedFor(strings.Replace(in, "urn:", "URN:", 1), m)
		if u == nil || v == nil {
			return nil
		}
		return func() { u.Equal(v); v.Equal(u) }
	}},
	{"MarshalJSON", func(in string, m mode) func() {
		u := parsedFor(in, m)
		if u == nil {
			return nil
		}
		v := urn.URN8141{URN: u}
		return func() {
			u.MarshalJSON()
			v.MarshalJSON()
			if s := u.SCIM(); s != nil {
				s.MarshalJSON()
			}
		}
	}},
	{"UnmarshalJSON", func(in string, m mode) func() {
		b := jsonOf(in)
		return func() { newReceiver(m).unmarshal(b) }
	}},
	{"machine used again", func(in string, m mode) func() {
		b := []byte(in)
		mc := urn.NewMachine(opt(m))
		mc.Parse(b)
		return func() { mc.Parse(b) }
	}},
}

func init() {
	register(&property{
		id:   "C17",
		rule: fmt.Sprintf("Inputs built around a repeated unit (fixed ones for each part of the grammars, valid or not, and random ones) at several lengths up to 2 MB (quick) or 4 MB (thorough); for each kind of call the statements of the library executed must stay under %d + %d per byte, the bytes allocated under %d + %d per byte, and the CPU time of the thread, the least of three tries, under %.1f s + %d ns per byte. Non-trivial: every (shape, call, length), counted.", baseStmts, maxStmtsPerByte, baseAlloc, maxAllocPerByte, baseNs/1e9, maxNsPerByte),
		streams: func(e *env) []stream {
			sizes := []int{3000, 30000, 500000, 2000000}
			if e.thorough {
				sizes = []int{1000, 4000, 16000, 64000, 256000, 1000000, 4000000}
			}
			rsizes := []int{2000, 60000}
			if e.thorough {
				rsizes = []int{2000, 60000, 600000}
			}
			return []stream{
				{name: "shapes", n: int64(len(shapes) * len(calls)), workers: 1, chunk: 1, run: func(w *worker, i int64) {
					sh := shapes[int(i)/len(calls)]
					w.cost(sh.name, sh.m, sh.f, calls[int(i)%len(calls)], sizes)
				}},
				{name: "random units", n: e.N(500, 8000), workers: 1, chunk: 1, run: func(w *worker, i int64) {
					m, name, f := w.randomShape()
					w.cost(name, m, f, calls[w.r.n(len(calls))], rsizes)
				}},
			}
		},
		finish: func(e *env, t *totals) string {
			if t.hist["statements counted"] == 0 {
				return "no statement was counted"
			}
			return ""
		},
	})
}

// randomShape repeats a random unit somewhere in a valid input.
func (w *worker) randomShape() (mode, string, func(n int) string) {
	r := w.r
	m := allModes[r.n(3)]
	base := w.g.valid(m)
	for len(base) > 120 {
		base = w.g.valid(m)
	}
	p := len(base)
	if r.chance(2, 3) {
		p = r.n(len(base) + 1)
	}
	unit := ""
	for k := 1 + r.n(4); k > 0; k-- {
		switch r.n(3) {
		case 0:
			unit += w.g.body(1+r.n(3), "", 4)
		case 1:
			unit += r.pick([]string{"?", "/", "%AF", "%fZ", "?+", "?=", "?=/", "?+/", ":", "-", "~", "A", "a", "#", "x?x"})
		default:
			unit += string([]byte{r.pickB(alnums + sssOther + "/?~&")})
		}
	}
	a, b := base[:p], base[p:]
	return m, fmt.Sprintf("%q, then many %q, then %q", a, unit, b), func(n int) string {
		return a + strings.Repeat(unit, n/len(unit)+1) + b
	}
}

func threadNs() int64 {
	var ru syscall.Rusage
	const RUSAGE_THREAD = 1
	if syscall.Getrusage(RUSAGE_THREAD, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func (w *worker) cost(shape string, m mode, f func(n int) string, c call, sizes []int) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var stmts, alloc, ns []string
	for _, n := range sizes {
		in := f(n + w.r.n(40))
		fn := c.prep(in, m)
		if fn == nil {
			return
		}
		fn() // whatever is allocated once
		key := fmt.Sprintf("cost:%s:%s:%d", shape, c.name, n)
		best := int64(1) << 62
		for try := 0; try < 3; try++ {
			clearCounters()
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			t0 := threadNs()
			fn()
			t := threadNs() - t0
			runtime.ReadMemStats(&b)
			if try == 0 {
				s := sumCounters()
				al := int64(b.TotalAlloc - a.TotalAlloc)
				stmts = append(stmts, fmt.Sprintf("%d at %d bytes", s, len(in)))
				alloc = append(alloc, fmt.Sprintf("%d at %d bytes", al, len(in)))
				l := int64(len(in))
				if s > baseStmts+maxStmtsPerByte*l {
					w.violate(key, "%s: %s on %s executes too many statements: %s", m, c.name, shape, strings.Join(stmts, ", "))
					return
				}
				if al > baseAlloc+maxAllocPerByte*l {
					w.violate(key, "%s: %s on %s allocates too many bytes: %s", m, c.name, shape, strings.Join(alloc, ", "))
					return
				}
				if l > 1000 {
					w.max("most statements per byte x100", s*100/l)
					w.max("most allocated bytes per byte x100 (inputs over 10000 bytes)", cond(l > 10000, al*100/l))
				}
				w.countN("statements counted", s)
			}
			if t < best {
				best = t
			}
			if float64(best) <= baseNs/10 {
				break
			}
		}
		ns = append(ns, fmt.Sprintf("%v at %d bytes", time.Duration(best), len(in)))
		w.max("most CPU ns per byte (inputs over 10000 bytes)", cond(len(in) > 10000, best/int64(len(in))))
		if float64(best) > baseNs+maxNsPerByte*float64(len(in)) {
			w.violate(key, "%s: %s on %s takes too much CPU time: %s", m, c.name, shape, strings.Join(ns, ", "))
			return
		}
		w.count("measures of " + c.name)
		w.nontrivial(shape, c.name, fmt.Sprint(n))
	}
	w.samplef("%s, %s: statements %s; bytes allocated %s; CPU %s", shape, c.name, strings.Join(stmts, ", "), strings.Join(alloc, ", "), strings.Join(ns, ", "))
}

func cond(b bool, x int64) int64 {
	if b {
		return x
	}
	return 0
}

// max keeps a maximum in the histogram. The worker is alone.
func (w *worker) max(k string, x int64) {
	if w.hist[k] < x {
		w.hist[k] = x
	}
}
