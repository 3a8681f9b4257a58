package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C10: goroutines sharing inputs and URNs, under the race detector. What each
// call must return comes from the model, so that nothing is called before the
// goroutines start: whatever the first call initializes, it does so in the
// presence of others.

type shared struct {
	m    mode
	in   string
	b    []byte // shared by all
	doc  []byte
	o    outcome
	want snap
	opt  urn.Option
	u    *urn.URN // shared, set once the inputs are parsed
	v    *urn.URN8141
	norm *urn.URN
	wild bool // u was edited before being shared: want holds its forms only
}

func init() {
	register(&property{
		id:   "C10",
		rule: "Rounds of up to 24 goroutines, 8 rounds at a time, in a build with the race detector: each makes random calls (parsing in all modes by all entry points, JSON decoding and encoding, printing, normalizing, comparing, querying) on a few shared inputs, JSON documents, options and URNs of any origin, with yields in between; every result is compared with the model, and so are the shared URNs at the end. Non-trivial: rounds, counted by their inputs and the order in which the goroutines' calls finished.",
		streams: func(e *env) []stream {
			return []stream{
				{name: "cold", n: 16, chunk: 1, run: func(w *worker, i int64) { checkC10(w, i, 24, 6) }},
				{name: "rounds", n: e.N(5200, 300000), chunk: 8, run: func(w *worker, i int64) { checkC10(w, i, 2+w.r.n(14), 10+w.r.n(30)) }},
				{name: "same call", n: e.N(3000, 160000), chunk: 8, run: func(w *worker, i int64) { checkC10(w, i, 3+w.r.n(6), -(4 + w.r.n(8))) }},
				{name: "large", n: e.N(64, 4000), chunk: 1, run: func(w *worker, i int64) { checkC10(w, i, 6, 12) }},
				{name: "yielding", n: e.N(1600, 150000), chunk: 8, run: func(w *worker, i int64) { checkC10(w, i, 2+w.r.n(14), 10+w.r.n(30)) }},
				{name: "yielding often", n: e.N(1000, 100000), chunk: 8, run: func(w *worker, i int64) { checkC10(w, i, 2+w.r.n(6), 4+w.r.n(12)) }},
				{name: "yielding, same call", n: e.N(1600, 160000), chunk: 8, run: func(w *worker, i int64) { checkC10(w, i, 3+w.r.n(6), -(4 + w.r.n(8))) }},
			}
		},
		finish: func(e *env, t *totals) string {
			if t.hist["calls that ran while others did"] == 0 {
				return "no two calls overlapped"
			}
			if !raceEnabled {
				return "not built with the race detector"
			}
			return ""
		},
	})
}

// finished counts the calls that ended, over all goroutines.
func checkC10(w *worker, i int64, gor, ops int) {
	r := w.r
	every := map[string]uint32{"yielding": 97, "yielding often": 7, "yielding, same call": 31}[w.stream.name]
	setYield(every)
	if yieldBuilt && every > 0 {
		w.count("rounds with yields at the library's branches")
	}
	key := fmt.Sprintf("C10:%s:%d", w.stream.name, i)
	var sh []*shared
	n := 1 + r.n(4)
	for len(sh) < n {
		m := allModes[r.n(3)]
		s := &shared{m: m}
		if r.chance(4, 5) {
			s.in = w.g.valid(m)
		} else {
			s.in = w.g.any(m)
		}
		max := 300
		if w.stream.name == "large" {
			max = 1 << 20
			k := shapes[r.n(len(shapes))]
			s.m, s.in = k.m, k.f(2000+r.n(20000))
		}
		if len(s.in) > max {
			s.in = s.in[:max]
		}
		m = s.m
		s.b = []byte(s.in)
		s.doc = []byte(w.jsonDoc(s.in, r.n(3)))
		s.o = refParse(m, s.in)
		if s.o.ok {
			s.want = wantSnap(m, &s.o)
		}
		s.opt = opt(m)
		sh = append(sh, s)
	}
	if r.chance(1, 3) && len(sh[0].in) > 0 { // another one of the same length
		b := []byte(sh[0].in)
		b[len(b)-1-r.n(1+len(b)/3)] = r.pick(edits)[0]
		s := &shared{m: sh[0].m, in: string(b), b: b, opt: sh[0].opt}
		s.doc = []byte(w.jsonDoc(s.in, 0))
		if s.o = refParse(s.m, s.in); s.o.ok {
			s.want = wantSnap(s.m, &s.o)
		}
		sh = append(sh, s)
	}
	if ops < 0 { // all do the same calls on the same thing
		sh = sh[:1]
	}
	var fail atomic.Value
	var running, overlapped, finished int64
	failf := func(format string, a ...interface{}) {
		fail.CompareAndSwap(nil, fmt.Sprintf(format, a...))
	}
	describe := func() string {
		d := ""
		for _, s := range sh {
			d += fmt.Sprintf("\n %s %s", s.m, q(s.in))
		}
		return d
	}
	phase := func(f func(g *rng, id int)) {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < gor; k++ {
			wg.Add(1)
			g := &rng{s: r.u64()}
			go func(k int) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						failf("panic in a goroutine: %v\n%s", x, trimStack([]byte(stack())))
					}
				}()
				<-start
				f(g, k)
			}(k)
		}
		close(start)
		wg.Wait()
	}
	// first: parsing shared inputs
	parsedBy := make([][]*urn.URN, gor)
	script := make([]int, 64)
	for k := range script {
		script[k] = r.n(1 << 20)
	}
	nops := ops
	if nops < 0 {
		nops = -nops
	}
	phase(func(g *rng, id int) {
		mc := urn.NewMachine()
		var own []byte
		for k := 0; k < nops; k++ {
			op := g.n(1 << 20)
			s := sh[g.n(len(sh))]
			if ops < 0 {
				op = script[k%len(script)]
				s = sh[0]
			}
			if atomic.AddInt64(&running, 1) > 1 {
				atomic.AddInt64(&overlapped, 1)
			}
			u := parseOnce(op%7, s, mc, &own, failf)
			atomic.AddInt64(&running, -1)
			atomic.AddInt64(&finished, 1)
			if u != nil && len(parsedBy[id]) < 4 && k&1 == 0 {
				parsedBy[id] = append(parsedBy[id], u)
			} else if u != nil { // it is this goroutine's own
				u.ID, u.SS = "mine", "now"
				if v := u.SCIM(); v != nil {
					v.Type, v.Name, v.Other = scimschema.Param, "mine", "now"
				}
			}
			if g.chance(1, 3) {
				runtime.Gosched()
			}
		}
	})
	if f := fail.Load(); f != nil {
		w.violate(key, "%s\ninputs:%s", f, describe())
		return
	}
	// then: sharing URNs nobody has looked at yet
	for _, s := range sh {
		if !s.o.ok {
			continue
		}
		u, ok := urn.Parse(s.b, s.opt)
		if !ok || u == nil {
			w.violate(key, "%s: %s is rejected after the goroutines are done", s.m, q(s.in))
			return
		}
		switch r.n(6) {
		case 0: // a literal
			u = &urn.URN{ID: s.o.id, SS: s.o.ss}
			s.wild = true
		case 1: // edited
			u.SS = s.o.ss + "%4F"
			s.o.ss += "%4F"
			s.wild = true
		case 2: // a normal form
			u = u.Normalize()
			s.o.id, s.o.ss = s.want.nid, s.want.nss
			s.wild = true
		}
		s.u = u
		s.v = &urn.URN8141{URN: u}
	}
	phase(func(g *rng, id int) {
		for k := 0; k < nops; k++ {
			op := g.n(1 << 20)
			a, b := sh[g.n(len(sh))], sh[g.n(len(sh))]
			if ops < 0 {
				op = script[k%len(script)]
			}
			if a.u == nil || b.u == nil {
				continue
			}
			if atomic.AddInt64(&running, 1) > 1 {
				atomic.AddInt64(&overlapped, 1)
			}
			lookOnce(op%9, a, b, failf)
			atomic.AddInt64(&running, -1)
			atomic.AddInt64(&finished, 1)
			if g.chance(1, 3) {
				runtime.Gosched()
			}
		}
	})
	if f := fail.Load(); f != nil {
		w.violate(key, "%s\ninputs:%s", f, describe())
		return
	}
	// at last: what the goroutines got did not change meanwhile
	for _, us := range parsedBy {
		for _, u := range us {
			known := false
			str := u.String()
			for _, s := range sh {
				if s.o.ok && str == s.want.str {
					known = known || snapOf(u) == s.want
				}
			}
			if !known {
				w.violate(key, "a URN parsed concurrently now reports %+v\ninputs:%s", snapOf(u), describe())
				return
			}
		}
	}
	for _, s := range sh {
		if string(s.b) != s.in {
			w.violate(key, "a shared input changed from %s to %s", q(s.in), q(string(s.b)))
			return
		}
	}
	w.countN("calls", finished)
	w.countN("calls that ran while others did", overlapped)
	w.countN("goroutines", int64(2*gor))
	w.count("rounds of " + bucket(gor) + " goroutines")
	w.nontrivial(fmt.Sprint(gor, ops, overlapped), describe())
	w.samplef("%d goroutines, %d calls each, %d overlapping, on%s", gor, nops, overlapped, strings.ReplaceAll(describe(), "\n", ";"))
}

func stack() string {
	b := make([]byte, 1<<14)
	return string(b[:runtime.Stack(b, false)])
}

// parseOnce parses a shared input by one of the entry points.
func parseOnce(op int, s *shared, mc urn.Machine, own *[]byte, failf func(string, ...interface{})) *urn.URN {
	m := s.m
	in := s.b
	if len(in) < 4096 && (op == 2 || op == 5) { // in memory of the goroutine's own, used again
		*own = append((*own)[:0], in...)
		in = *own
	}
	var u *urn.URN
	var ok bool
	how := ""
	errText := ""
	switch op {
	case 0:
		how = "Parse"
		u, ok = urn.Parse(s.b, s.opt)
	case 1:
		how = "a machine of its own"
		var err error
		u, err = urn.NewMachine(s.opt).Parse(s.b)
		ok = err == nil
		if err != nil {
			errText = err.Error()
		}
	case 2:
		how = "a machine of its own, used again"
		mc.WithParsingMode(m.sut())
		var err error
		u, err = mc.Parse(in)
		ok = err == nil
		if err != nil {
			errText = err.Error()
		}
		if (mc.Error() == nil) != ok {
			failf("the machine of a goroutine reports %v", mc.Error())
		}
	case 3, 4:
		how = "JSON"
		r := newReceiver(m)
		var err error
		if op == 3 {
			err = json.Unmarshal(s.doc, r.target())
		} else {
			err = r.unmarshal(s.doc)
		}
		ok = err == nil
		if ok != s.o.ok {
			failf("%s: decoding %s concurrently gives %v", m, q(string(s.doc)), err)
			return nil
		}
		if !ok {
			return nil
		}
		if m == m7643 {
			if scimText(r.s) != s.want.scim {
				failf("decoding %s concurrently gives %s, not %s", q(string(s.doc)), scimText(r.s), s.want.scim)
			}
			return nil
		}
		u = r.u
		if m == m8141 {
			u = r.v.URN
		}
	case 5:
		how = "Parse, default mode"
		if m != m2141 {
			o := ref2141(s.in)
			u, ok = urn.Parse(in)
			if ok != o.ok {
				failf("parsing %s concurrently without options gives success=%v", q(s.in), ok)
			} else if ok && snapOf(u) != wantSnap(m2141, &o) {
				failf("parsing %s concurrently without options gives%s", q(s.in), snapOf(u).diff(wantSnap(m2141, &o)))
			}
			return nil
		}
		u, ok = urn.Parse(in)
	case 6:
		t := s.o.typ
		if got := scimschema.TypeFromString(t); got != scimTypeNames[t] || t != "" && got.String() != t {
			failf("the type of %q is %d", t, int(got))
		}
		return nil
	}
	if ok != s.o.ok || ok && u == nil {
		failf("%s: parsing %s concurrently (%s) gives success=%v", m, q(s.in), how, ok)
		return nil
	}
	if errText != "" {
		if c, col := errParts(errText); c != s.o.cat || col != s.o.col {
			failf("%s: parsing %s concurrently (%s) gives the error %q", m, q(s.in), how, errText)
		}
	}
	if !ok {
		return nil
	}
	if op < 3 && len(s.in)&1 == 1 {
		runtime.Gosched()
	}
	if g := snapOf(u); g != s.want {
		failf("%s: parsing %s concurrently (%s) gives%s", m, q(s.in), how, g.diff(s.want))
		return nil
	}
	return u
}

// lookOnce makes an observing call on shared URNs.
func lookOnce(op int, a, b *shared, failf func(string, ...interface{})) {
	str := a.want.str
	if a.wild {
		str = a.u.String() // compared below for its parts only
		if !strings.Contains(str, ":"+a.o.id+":"+a.o.ss) {
			failf("the shared URN of %s reads %s", q(a.in), q(str))
			return
		}
	}
	nid, nss := lowerASCII(a.o.id), normSS(a.o.ss)
	switch op {
	case 0:
		if got := a.u.String(); got != str {
			failf("printing concurrently the URN of %s gives %s", q(a.in), q(got))
		}
	case 1:
		n := a.u.Normalize()
		if n.ID != nid || n.SS != nss || n.String() != "urn:"+nid+":"+nss {
			failf("normalizing concurrently the URN of %s gives %s", q(a.in), q(n.String()))
		}
		n.ID, n.SS = "mine", "now"
	case 2, 3:
		want := nid == lowerASCII(b.o.id) && nss == normSS(b.o.ss)
		if a.u.Equal(b.u) != want || b.u.Equal(a.u) != want {
			failf("comparing concurrently the URNs of %s and %s does not give %v", q(a.in), q(b.in), want)
		}
	case 4:
		j, err := json.Marshal(a.u)
		if s, err2 := jsonString(j); err != nil || err2 != nil || s != str {
			failf("marshaling concurrently the URN of %s gives %s, %v", q(a.in), q(string(j)), err)
		}
	case 5:
		j, err := json.Marshal(a.v)
		if s, err2 := jsonString(j); err != nil || err2 != nil || s != str {
			failf("marshaling concurrently the URN of %s gives %s, %v", q(a.in), q(string(j)), err)
		}
	case 6:
		if a.wild {
			return
		}
		if g := snapOf(a.u); g != a.want {
			failf("querying concurrently the URN of %s gives%s", q(a.in), g.diff(a.want))
		}
	case 7:
		if !a.u.Equal(a.u) || a.u.Equal(nil) {
			failf("the URN of %s is not equal to itself, or equal to nil, concurrently", q(a.in))
		}
	case 8:
		if s := a.u.SCIM(); s != nil && !a.wild {
			j, err := json.Marshal(s)
			if t, err2 := jsonString(j); err != nil || err2 != nil || t != a.o.scimStr() || s.String() != t {
				failf("printing concurrently the SCIM view of %s gives %s, %v", q(a.in), q(string(j)), err)
			}
		}
	}
}
