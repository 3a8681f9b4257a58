package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C22: what is still in use after many calls. The process makes calls of one
// kind only, always with new inputs, drops what they return, and looks at the
// live heap, the goroutines and the open files after each round.

const (
	leakRounds   = 6
	leakPerCall  = 0.5  // bytes kept per call that make a leak
	leakDiverse  = 0.03 // for calls of all kinds: few of them may leak
	keptBase     = 2048
	keptPerByte  = 16
	keptResults  = 300
	keptDocument = 32 << 10
)

// newInput makes inputs that differ from each other in every part.
func newInput(m mode, k int64, valid bool) string {
	n := strconv.FormatInt(k, 36)
	s := []string{"urn", "URN", "uRn", "Urn"}[k%4] + ":"
	switch m {
	case m2141:
		s += "n-" + n + ":S" + n + "%4Fx%" + n[len(n)-1:] + "Z"
	case m8141:
		s += "n-" + n + "z:S" + n + "%4F/x"
		if k&1 == 0 {
			s += "?+r" + n
		}
		if k&2 == 0 {
			s += "?=q" + n + "%4F"
		}
		if k&4 == 0 {
			s += "#f" + n
		}
	default:
		s += "ietf:params:scim:" + []string{"schemas", "api", "param"}[k%3] + ":N" + n
		if k&1 == 0 {
			s += ":o" + n + "%4F"
		}
	}
	if valid {
		return s
	}
	switch k % 5 {
	case 0:
		return s + "{"
	case 1:
		return "x" + s
	case 2:
		return strings.Replace(s, ":", "::", 1)
	case 3:
		return s[:len(s)/2] + "\x00" + s[len(s)/2:]
	}
	return s + "%"
}

type leakCall struct {
	name string
	// prep makes what the calls share, and gives the call on the k-th input.
	prep func(m mode) func(m mode, in string, k int64)
}

var kept interface{}

var leakCalls = []leakCall{
	{"Parse", func(m mode) func(mode, string, int64) {
		return func(m mode, in string, k int64) { urn.Parse([]byte(in), opt(m)) }
	}},
	{"Parse and look", func(m mode) func(mode, string, int64) {
		return func(m mode, in string, k int64) {
			if u, ok := urn.Parse([]byte(in), opt(m)); ok && u != nil {
				n := u.Normalize()
				_ = u.String() + n.String()
				u.Equal(n)
				json.Marshal(u)
				if s := u.SCIM(); s != nil {
					json.Marshal(s)
				}
			}
		}
	}},
	{"Machine.Parse", func(m mode) func(mode, string, int64) {
		return func(m mode, in string, k int64) {
			mc := urn.NewMachine(opt(m))
			if _, err := mc.Parse([]byte(in)); err != nil {
				_ = mc.Error().Error()
			}
		}
	}},
	{"one machine", func(m mode) func(mode, string, int64) {
		mc := urn.NewMachine(opt(m))
		kept = mc
		return func(m mode, in string, k int64) {
			if _, err := mc.Parse([]byte(in)); err != nil {
				_ = mc.Error()
			}
		}
	}},
	{"one machine changing modes", func(m mode) func(mode, string, int64) {
		mc := urn.NewMachine(opt(m))
		kept = mc
		return func(m mode, in string, k int64) {
			mc.WithParsingMode(allModes[k%3].sut())
			mc.Parse([]byte(in))
		}
	}},
	{"JSON decoding", func(m mode) func(mode, string, int64) {
		return func(m mode, in string, k int64) { json.Unmarshal(jsonOf(in), newReceiver(m).target()) }
	}},
	{"JSON decoding into one value", func(m mode) func(mode, string, int64) {
		r := newReceiver(m)
		kept = r
		return func(m mode, in string, k int64) { r.unmarshal(jsonOf(in)) }
	}},
	{"literals", func(m mode) func(mode, string, int64) {
		return func(m mode, in string, k int64) {
			u := &urn.URN{ID: in, SS: in}
			n := u.Normalize()
			_ = u.String() + n.String()
			u.Equal(n)
			n.Equal(&urn.URN{ID: in})
			json.Marshal(u)
			s := urn.SCIM{Type: scimschema.Type(k), Name: in, Other: in}
			_ = s.String()
			_ = scimschema.TypeFromString(in).String()
		}
	}},
	{"looking at one URN", func(m mode) func(mode, string, int64) {
		u, _ := urn.Parse([]byte(newInput(m, 12, true)), opt(m))
		v, _ := urn.Parse([]byte(newInput(m, 13, true)), opt(m))
		kept = []*urn.URN{u, v}
		return func(m mode, in string, k int64) {
			if u == nil || v == nil {
				return
			}
			n := u.Normalize()
			_ = u.String() + n.String()
			u.Equal(v)
			v.Equal(n)
			json.Marshal(v)
			if s := u.SCIM(); s != nil {
				json.Marshal(s)
			}
		}
	}},
	{"editing one URN", func(m mode) func(mode, string, int64) {
		u, _ := urn.Parse([]byte(newInput(m, 12, true)), opt(m))
		kept = u
		return func(m mode, in string, k int64) {
			if u == nil {
				return
			}
			u.ID, u.SS = in, in
			if k&1 == 0 {
				u.Normalize()
			}
			_ = u.String()
			u.Equal(u)
			if s := u.SCIM(); s != nil {
				s.Name, s.Other = in, in
				_ = s.String()
			}
		}
	}},
	{"normalizing again and again", func(m mode) func(mode, string, int64) {
		u, _ := urn.Parse([]byte(newInput(m, 12, true)), opt(m))
		return func(m mode, in string, k int64) {
			if u != nil {
				u = u.Normalize()
				kept = u
			}
		}
	}},
}

func liveHeap() int64 {
	runtime.GC()
	runtime.GC()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return int64(s.HeapAlloc)
}

func openFiles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

func init() {
	register(&property{
		id: "C22",
		rule: fmt.Sprintf("Rounds of many calls of one kind (parsing valid or rejected inputs by each entry point, with new or the same machines and receivers; observing, editing, normalizing), on inputs that differ in every part from all before, dropping what they return: after each round the live heap, the goroutines and the open files are counted; when %.1f bytes and more per call stay, round after round, or goroutines or files do, it is a violation. Then URNs that are kept, parsed out of the middle of large buffers and documents: no more than %d bytes + %d per byte of input may stay for each. Non-trivial: each (call, mode, round), and each URN kept, counted.",
			leakPerCall, keptBase, keptPerByte),
		streams: func(e *env) []stream {
			n := e.N(12000, 120000)
			var counter int64 = 1 << 20
			cases := int64(len(leakCalls) * len(allModes) * 2)
			return []stream{
				{name: "accumulate", n: cases, workers: 1, chunk: 1, run: func(w *worker, i int64) {
					w.accumulate(leakCalls[i/6], allModes[i/2%3], i%2 == 0, n, &counter)
				}},
				{name: "diverse", n: 3, workers: 1, chunk: 1, run: func(w *worker, i int64) { w.diverse(i, e.N(20000, 200000), &counter) }},
				{name: "kept", n: int64(len(keptKinds) * 3 * 2), workers: 1, chunk: 1, run: func(w *worker, i int64) {
					w.keep(int(i/6), allModes[i/2%3], i%2 == 0, &counter)
				}},
			}
		},
		finish: func(e *env, t *totals) string {
			if t.hist["rounds"] == 0 {
				return "no round was observed"
			}
			return ""
		},
		assumptions: []string{"The live heap is what the garbage collector reports after two collections."},
	})
}

func (w *worker) accumulate(c leakCall, m mode, valid bool, n int64, counter *int64) {
	call := c.prep(m)
	defer func() { kept = nil }()
	what := fmt.Sprintf("%s, %s mode, valid=%v", c.name, m, valid)
	key := "leak:" + what
	gor, files := runtime.NumGoroutine(), openFiles()
	var heap []int64
	grown := func(from int) int64 { return heap[len(heap)-1] - heap[from] }
	leaking := false
	for round := 0; round < leakRounds || leaking && round < 2*leakRounds; round++ {
		var bytes int64
		for k := int64(0); k < n; k++ {
			*counter++
			in := newInput(m, *counter, valid)
			bytes += int64(len(in))
			call(m, in, *counter)
		}
		heap = append(heap, liveHeap())
		if round >= leakRounds-1 {
			leaking = float64(grown(0)) > leakPerCall*float64(n*int64(round)) && float64(grown(round-2)) > leakPerCall/2*float64(n*2)
		}
		w.count("rounds")
		w.countN("calls", n)
		w.countN("bytes of input", bytes)
		w.nontrivial(what, fmt.Sprint(round))
	}
	if leaking {
		w.violate(key, "%s: the live heap keeps growing: after each of %d rounds of %d calls it is %d bytes", what, len(heap), n, heap)
		return
	}
	w.checkLeftovers(key, what, gor, files)
	w.samplef("%s: live heap after each round of %d calls: %d", what, n, heap)
}

func (w *worker) checkLeftovers(key, what string, gor, files int) {
	for t := 0; ; t++ {
		g, f := runtime.NumGoroutine(), openFiles()
		if g <= gor+1 && f <= files {
			break
		}
		if t > 200 {
			w.violate(key, "%s: %d goroutines and %d files before the calls, %d and %d after them", what, gor, files, g, f)
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
	w.count("looks at goroutines and files")
}

// keptKinds give a URN read from within something larger.
var keptKinds = []struct {
	name string
	f    func(m mode, in string) *urn.URN
}{
	{"Parse of a part of a buffer", func(m mode, in string) *urn.URN {
		b := make([]byte, keptDocument)
		copy(b[1000:], in)
		u, _ := urn.Parse(b[1000:1000+len(in)], opt(m))
		return u
	}},
	{"Machine.Parse of a part of a buffer", func(m mode, in string) *urn.URN {
		b := make([]byte, keptDocument)
		copy(b, in)
		u, _ := urn.NewMachine(opt(m)).Parse(b[:len(in):len(in)])
		return u
	}},
	{"decoding a document with white space", func(m mode, in string) *urn.URN {
		b := []byte(strings.Repeat(" ", keptDocument/2) + string(jsonOf(in)) + strings.Repeat("\n", keptDocument/2))
		r := newReceiver(m)
		if m == m7643 {
			r = &receiver{m: m2141, u: &urn.URN{}}
		}
		if r.unmarshal(b) != nil {
			return nil
		}
		if r.m == m8141 {
			return r.v.URN
		}
		return r.u
	}},
	{"decoding a field of a document", func(m mode, in string) *urn.URN {
		doc := []byte(`{"A":"` + strings.Repeat("x", keptDocument) + `","U":` + string(jsonOf(in)) + `}`)
		var d struct{ U urn.URN }
		var e struct{ U urn.URN8141 }
		if m == m8141 {
			if json.Unmarshal(doc, &e) != nil {
				return nil
			}
			return e.U.URN
		}
		if json.Unmarshal(doc, &d) != nil {
			return nil
		}
		u := d.U
		return &u
	}},
	{"parsing after a large input on the same machine", func(m mode, in string) *urn.URN {
		mc := urn.NewMachine(opt(m))
		mc.Parse([]byte(newInput(m, 0, true) + strings.Repeat("a", keptDocument)))
		u, _ := mc.Parse([]byte(in))
		return u
	}},
}

func (w *worker) keep(kind int, m mode, look bool, counter *int64) {
	k := keptKinds[kind]
	what := fmt.Sprintf("%s, %s mode, observed=%v", k.name, m, look)
	us := make([]*urn.URN, 0, keptResults)
	gor, files := runtime.NumGoroutine(), openFiles()
	*counter++
	k.f(m, newInput(m, *counter, true))
	before := liveHeap()
	var bytes int64
	for len(us) < keptResults {
		*counter++
		in := newInput(m, *counter, true)
		u := k.f(m, in)
		if u == nil {
			w.count("URNs refused") // for other properties
			return
		}
		if look {
			_ = u.String()
			u.Equal(u.Normalize())
			json.Marshal(u)
		}
		bytes += int64(len(in))
		us = append(us, u)
	}
	grown := liveHeap() - before
	if grown > keptBase*int64(len(us))+keptPerByte*bytes {
		w.violate("kept:"+what, "%s: %d URNs of %d bytes in all keep %d bytes alive", what, len(us), bytes, grown)
		return
	}
	w.checkLeftovers("kept:"+what, what, gor, files)
	w.countN("URNs kept", int64(len(us)))
	for j := range us {
		w.nontrivial(what, us[j].String())
	}
	w.samplef("%s: %d URNs of %d bytes in all keep %d bytes alive", what, len(us), bytes, grown)
	runtime.KeepAlive(us)
}
