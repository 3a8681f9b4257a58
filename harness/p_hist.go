package main

import (
	"encoding/json"
	"fmt"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C11 and C16: histories of machines, and options.

// verdict is the outcome of a parse as text.
func verdict(u *urn.URN, err error) string {
	if (u == nil) == (err == nil) {
		return fmt.Sprintf("URN %v and error %v", u, err)
	}
	if err != nil {
		return "error: " + err.Error()
	}
	s := snapOf(u)
	return fmt.Sprintf("URN %q", fmt.Sprintf("%+v", s))
}

func freshVerdict(m mode, in string) string {
	mc := urn.NewMachine(opt(m))
	return verdict(mc.Parse([]byte(in)))
}

// modeValue picks a value for the mode and tells which mode it stands for.
func (w *worker) modeValue() (urn.ParsingMode, mode) {
	switch w.r.n(10) {
	case 0, 1:
		return urn.RFC2141Only, m2141
	case 2, 3, 4:
		return urn.RFC7643Only, m7643
	case 5, 6, 7:
		return urn.RFC8141Only, m8141
	case 8:
		return urn.Default, m2141
	}
	wide := int64(1) << 32
	xs := []int{-1, 4, 5, 6, 7, 8, 10, 16, 100, 255, 256, 257, 258, 259, -2, -3, 1<<16 + 2, 1<<31 - 1, int(wide), int(wide + 3), -1 << 31}
	return urn.ParsingMode(xs[w.r.n(len(xs))]), m2141
}

// histInput makes the inputs of histories: mostly of the mode set, often
// failing in the middle of some part.
func (w *worker) histInput(m mode) string {
	r := w.r
	if r.chance(1, 4) {
		m = allModes[r.n(3)]
	}
	var s string
	switch r.n(8) {
	case 0:
		c := exemplars(m)
		s = c[r.n(len(c))]
		s = s[:r.n(len(s)+1)]
	case 1:
		c := coverPrefixes2(m)
		s = c[r.n(len(c))] + string([]byte{byte(r.n(256))}) + r.pick(coverSuffixes(m))
	case 2:
		s = r.pick(crossModes)
	default:
		s = w.g.any(m)
	}
	if len(s) > 600 && !r.chance(1, 40) {
		s = s[:600]
	}
	return s
}

// crossModes are inputs that modes disagree about.
var crossModes = []string{
	"urn:ietf:params:scim:api:a:b", "urn:ietf:params:scim:schemas:core:2.0:User", "URN:ietf:params:scim:param:x", "urn:ietf:params:scim:api:messages:%F",
	"urn:ietf:params:scim:api:a", "urn:ietf:params:scim:", "urn:ietf:params:sci", "urn:ex:a?+b", "urn:ex:a?=b", "urn:ex:a#", "urn:ex:a/b", "urn:a:b", "urn:urn:a",
	"urn:urn-1:a", "urn:urn-0:a", "urn:urn-a:a", "urn:ex-:a", "urn:ex:~&", "urn:ex:a?+b?=c#d", "urn:ex:a?+b?+c", "urn:ex:a?=b?=c", "urn:ex:a?", "", "u", "urn", "urn:", "urn:e", "urn:ex", "urn:ex:", "urn:ex:%", "urn:ex:%A", "urn:ex:%AF", "urn:EX:%aF%Af", "urn:ex:a?+", "urn:ex:a?=", "urn:ex:a?+b?=", "urn:ex:%AF?+%AF?=%AF#%AF", "xyz", "\n\nurn:ex:a",
}

var prefixCache = map[mode][]string{}

func init() {
	for _, m := range allModes {
		prefixCache[m] = coverPrefixes(m)
	}
}

func coverPrefixes2(m mode) []string { return prefixCache[m] }

func init() {
	register(&property{
		id:   "C11",
		rule: "Random histories of one machine: parses of inputs of all modes (failing at any place, or succeeding, repeated or not, in one buffer reused for all or in fresh ones), mode changes and error queries. Each parse is compared with that of a new machine, and all the URNs and errors returned are looked at again at the end and in between, while some of them are edited. Non-trivial: histories with at least two parses, counted by their steps.",
		streams: func(e *env) []stream {
			return []stream{
				{name: "short", n: e.N(420000, 12000000), run: func(w *worker, i int64) { checkC11(w, i, 2+w.r.n(12)) }},
				{name: "long", n: e.N(1500, 60000), run: func(w *worker, i int64) { checkC11(w, i, 100+w.r.n(400)) }},
				{name: "very long", n: e.N(12, 300), chunk: 1, run: func(w *worker, i int64) { checkC11(w, i, 5000+w.r.n(70000)) }},
				{name: "longest", n: e.N(2, 24), chunk: 1, run: func(w *worker, i int64) { checkC11(w, i, 105000) }},
				{name: "pairs", n: int64(len(crossModes) * len(crossModes) * 9 * 2), run: checkC11Pairs},
			}
		},
	})
	register(&property{
		id:   "C16",
		rule: "Random sequences of options (all known values, Default, and unknown ones, shared or new) given to Parse and to NewMachine, and mode changes of existing machines in between of parses, with other machines in other modes alongside. Each parse is compared with that of a new machine with the one option that counts, and with the model. Non-trivial: every (options, input) pair on which at least two modes differ, counted.",
		streams: func(e *env) []stream {
			return []stream{
				{name: "options", n: e.N(1000000, 40000000), run: checkC16},
				{name: "values", n: 20000, run: checkC16Values},
			}
		},
	})
}

type keptURN struct {
	u    *urn.URN
	want string
	in   string
}

type keptErr struct {
	err  error
	want string
}

func checkC11(w *worker, i int64, steps int) {
	r := w.r
	key := fmt.Sprintf("C11:%s:%d", w.stream.name, i)
	var mc urn.Machine
	m := m2141
	if r.chance(1, 2) {
		v, vm := w.modeValue()
		m = vm
		mc = urn.NewMachine(urn.WithParsingMode(v))
	} else {
		mc = urn.NewMachine()
	}
	long := steps > 100
	hist := fmt.Sprintf("new(%s)", m)
	note := func(format string, a ...interface{}) {
		hist += fmt.Sprintf(format, a...)
		if len(hist) > 3000 {
			hist = "..." + hist[len(hist)-2000:]
		}
	}
	pool := make([]string, 1+r.n(6))
	for k := range pool {
		pool[k] = w.histInput(m)
	}
	buf := make([]byte, 0, 1024)
	var urns []keptURN
	var errs []keptErr
	last := "no parse yet"
	lastErr := ""
	failed := false
	check := func(all bool) bool {
		for k := range urns {
			if !all && k < len(urns)-3 {
				continue
			}
			if got := verdict(urns[k].u, nil); got != urns[k].want {
				w.violate(key, "the URN returned for %s became\n%s\nit was\n%s\nhistory: %s", q(urns[k].in), got, urns[k].want, hist)
				return false
			}
		}
		for _, e := range errs {
			if e.err.Error() != e.want {
				w.violate(key, "an error returned as %q became %q\nhistory: %s", e.want, e.err.Error(), hist)
				return false
			}
		}
		return true
	}
	parses := 0
	seen := map[string]string{} // what new machines gave
	for s := 0; s < steps && !failed; s++ {
		switch k := r.n(20); {
		case k < 3:
			v, vm := w.modeValue()
			m = vm
			mc.WithParsingMode(v)
			note(" mode(%d)", int(v))
		case k < 5:
			e := mc.Error()
			got := ""
			if e != nil {
				got = e.Error()
			}
			if got != lastErr {
				w.violate(key, "the machine reports %q, the error of its last parse (%s) was %q\nhistory: %s", got, last, lastErr, hist)
				return
			}
		case k == 5 && len(urns) > 0: // the URNs belong to the caller
			x := &urns[r.n(len(urns))]
			x.u.ID, x.u.SS = "mine", "now%3A"
			if v := x.u.SCIM(); v != nil {
				v.Type, v.Name, v.Other = scimschema.Type(r.n(5)), "mine", r.pick([]string{"", "now"})
			}
			if r.chance(1, 3) { // decoded over
				in := w.histInput(m2141)
				json.Unmarshal(jsonOf(in), x.u)
			}
			x.want = verdict(x.u, nil)
			note(" edit")
		default:
			var in string
			if r.chance(2, 3) {
				in = pool[r.n(len(pool))]
				if r.chance(1, 6) {
					in = w.sibling(in)
				}
			} else {
				in = w.histInput(m)
				pool[r.n(len(pool))] = in
			}
			want := freshVerdict(m, in)
			if was, ok := seen[m.String()+in]; ok && was != want {
				w.violate(key, "in mode %s a new machine gives for %s\n%s\nbut earlier one gave\n%s\nhistory: %s", m, q(in), want, was, hist)
				return
			} else if !ok && len(seen) < 1000 {
				seen[m.String()+in] = want
			}
			var b []byte
			if r.chance(1, 2) { // the same buffer again
				buf = append(buf[:0], in...)
				b = buf
			} else {
				b = []byte(in)
			}
			u, err := mc.Parse(b)
			parses++
			note(" parse(%s)", q(in))
			// what nobody looks at now must be right when somebody does later
			looked := r.chance(2, 3)
			got := want
			if looked || (u == nil) == (err == nil) || (err != nil) != strings.HasPrefix(want, "error: ") {
				got = verdict(u, err)
			} else {
				w.count("outcomes not looked at before later parses")
			}
			if got != want {
				w.violate(key, "in mode %s the machine gives for %s\n%s\nand a new one\n%s\nhistory: %s", m, q(in), got, want, hist)
				return
			}
			last, lastErr = q(in), ""
			if err != nil {
				lastErr = strings.TrimPrefix(want, "error: ")
				if len(errs) < 8 {
					errs = append(errs, keptErr{err, lastErr})
				}
				w.count("parses failing")
			} else {
				if r.chance(1, 2) {
					for k := range b {
						b[k] = '#'
					}
				}
				kept := keptURN{u, got, in}
				if len(urns) < 12 {
					urns = append(urns, kept)
				} else {
					urns[r.n(len(urns))] = kept
				}
				w.count("parses succeeding")
			}
			if !looked {
				if e := mc.Error(); err != nil && e != nil && len(errs) < 8 {
					errs = append(errs, keptErr{e, lastErr})
				}
				continue
			}
			e := mc.Error()
			if (e == nil) != (err == nil) || e != nil && e.Error() != lastErr {
				w.violate(key, "after parsing %s the machine reports %v, not %v\nhistory: %s", q(in), e, err, hist)
				return
			}
			if !long || r.chance(1, 30) {
				if !check(r.chance(1, 8)) {
					return
				}
			}
		}
	}
	if !check(true) {
		return
	}
	if parses >= 2 {
		w.nontrivial(hist)
	}
	w.count("history of " + bucket(parses) + " parses")
	w.samplef("%s", hist)
}

// checkC11Pairs: every ordered pair of inputs that modes disagree about, in
// every pair of modes.
func checkC11Pairs(w *worker, i int64) {
	k := int64(len(crossModes))
	a, b := crossModes[i%k], crossModes[i/k%k]
	mm := i / k / k
	m1, m2 := allModes[mm%3], allModes[mm/3%3]
	again := mm/9 == 1
	key := fmt.Sprintf("C11:pair:%d", i)
	mc := urn.NewMachine(opt(m1))
	u1, e1 := mc.Parse([]byte(a))
	v1 := freshVerdict(m1, a)
	looked := w.r.chance(1, 2) // or later only
	if looked || (u1 == nil) == (e1 == nil) {
		if v := verdict(u1, e1); v != v1 {
			w.violate(key, "parsing %s in mode %s gives\n%s\nand on another machine\n%s", q(a), m1, v, v1)
			return
		}
	}
	if again {
		u, e := mc.Parse([]byte(a))
		if verdict(u, e) != v1 {
			w.violate(key, "parsing %s twice in mode %s gives\n%s\nthen\n%s", q(a), m1, v1, verdict(u, e))
			return
		}
	}
	mc.WithParsingMode(m2.sut())
	if e := mc.Error(); looked && ((e == nil) != (e1 == nil) || e != nil && e.Error() != e1.Error()) {
		w.violate(key, "after parsing %s and a mode change the machine reports %v, not %v", q(a), e, e1)
		return
	}
	u2, e2 := mc.Parse([]byte(b))
	if got, want := verdict(u2, e2), freshVerdict(m2, b); got != want {
		w.violate(key, "after parsing %s in mode %s, parsing %s in mode %s gives\n%s\nand on a new machine\n%s", q(a), m1, q(b), m2, got, want)
		return
	}
	if e := mc.Error(); (e == nil) != (e2 == nil) {
		w.violate(key, "after parsing %s in mode %s, then %s in mode %s, the machine reports %v, not %v", q(a), m1, q(b), m2, e, e2)
		return
	}
	if verdict(u1, e1) != v1 {
		w.violate(key, "the outcome of %s changed when the machine parsed %s", q(a), q(b))
		return
	}
	w.count("pairs")
	w.nontrivial(a, b, m1.String(), m2.String(), fmt.Sprint(again))
}

func (w *worker) crossInput() string {
	if w.r.chance(1, 3) {
		return w.r.pick(crossModes)
	}
	s := w.g.any(allModes[w.r.n(3)])
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func discriminates(in string) bool {
	a, b, c := ref2141(in).ok, ref7643(in).ok, ref8141(in).ok
	return a != b || b != c
}

func checkC16(w *worker, i int64) {
	r := w.r
	key := fmt.Sprintf("C16:%d", i)
	// the options
	shared, _ := w.data["options"].([]urn.Option)
	sharedM, _ := w.data["modes"].([]mode)
	if shared == nil {
		for k := 0; k < 24; k++ {
			v, m := w.modeValue()
			shared = append(shared, urn.WithParsingMode(v))
			sharedM = append(sharedM, m)
		}
		w.data["options"], w.data["modes"] = shared, sharedM
	}
	var opts []urn.Option
	m := m2141
	desc := "options"
	nopts := r.n(4)
	if r.chance(1, 50) {
		nopts = r.n(40)
		if r.chance(1, 20) {
			nopts = 1 << r.n(13) // and the last option at any place
			nopts += r.n(3) - 1
		}
	}
	for k := nopts; k > 0; k-- {
		if r.chance(1, 3) {
			j := r.n(len(shared))
			opts, m = append(opts, shared[j]), sharedM[j]
			desc += fmt.Sprintf(" shared(%s)", m)
		} else {
			v, vm := w.modeValue()
			opts, m = append(opts, urn.WithParsingMode(v)), vm
			desc += fmt.Sprintf(" %d", int(v))
		}
	}
	if len(desc) > 600 {
		desc = fmt.Sprintf("%d options ending in %s", len(opts), desc[len(desc)-300:])
	}
	in := w.crossInput()
	same := func(got string, m mode, in, how string) bool {
		if want := freshVerdict(m, in); got != want {
			w.violate(key, "%s: parsing %s gives\n%s\nin mode %s it must give\n%s", how, q(in), got, m, want)
			return false
		}
		if o := refParse(m, in); o.ok != (got[:3] == "URN") {
			w.violate(key, "%s: parsing %s gives\n%s\nwhich is not what mode %s does", how, q(in), got, m)
			return false
		}
		return true
	}
	// another machine, whose mode nothing must change
	om := allModes[r.n(3)]
	other := urn.NewMachine(opt(om))
	if r.chance(1, 2) {
		other.Parse([]byte(in))
	}
	u, ok := urn.Parse([]byte(in), opts...)
	got := "rejected"
	if ok && u != nil {
		got = verdict(u, nil)
	}
	want := freshVerdict(m, in)
	if want[:3] != "URN" {
		want = "rejected"
	}
	if got != want {
		w.violate(key, "Parse(%s) with %s gives\n%s\nin mode %s it must give\n%s", q(in), desc, got, m, want)
		return
	}
	mc := urn.NewMachine(opts...)
	if !same(verdict(mc.Parse([]byte(in))), m, in, "NewMachine with "+desc) {
		return
	}
	hist := "machine with " + desc
	changes := r.n(5)
	if r.chance(1, 100) {
		changes = r.n(150)
	}
	for k := changes; k > 0; k-- {
		v, vm := w.modeValue()
		switch r.n(5) {
		case 0: // an option applied by hand
			urn.WithParsingMode(v)(mc)
		case 1: // twice
			mc.WithParsingMode(urn.RFC7643Only)
			mc.WithParsingMode(v)
		case 2: // no change: only another machine's
			other.WithParsingMode(v)
			om = vm
			vm = m
		default:
			mc.WithParsingMode(v)
		}
		m = vm
		if hist += fmt.Sprintf(", mode %d", int(v)); len(hist) > 2000 {
			hist = "..." + hist[len(hist)-1000:]
		}
		in2 := in
		if r.chance(1, 2) {
			in2 = w.crossInput()
		}
		if !same(verdict(mc.Parse([]byte(in2))), m, in2, hist) {
			return
		}
		if r.chance(1, 3) {
			if !same(verdict(mc.Parse([]byte(in2))), m, in2, hist+", again") {
				return
			}
		}
		w.count("mode changes")
	}
	if !same(verdict(other.Parse([]byte(in))), om, in, "another machine") {
		return
	}
	// a later call without options
	if r.chance(1, 4) {
		u, ok := urn.Parse([]byte(in))
		if o := ref2141(in); ok != o.ok || ok && snapOf(u) != wantSnap(m2141, &o) {
			w.violate(key, "Parse(%s) without options gives success=%v after %s", q(in), ok, hist)
			return
		}
	}
	if len(opts) > 4 {
		w.count(bucket(len(opts)) + " options")
	} else {
		w.count(fmt.Sprintf("%d options", len(opts)))
	}
	w.count("effective " + m.String())
	if discriminates(in) {
		w.nontrivial(desc, hist, in)
	}
	w.samplef("%s on %s", hist, q(in))
}

// checkC16Values tries many values of the mode.
func checkC16Values(w *worker, i int64) {
	x := int(i) - 10000
	if i%7 == 0 {
		x = int(w.r.u64())
	}
	m := m2141
	switch urn.ParsingMode(x) {
	case urn.RFC7643Only:
		m = m7643
	case urn.RFC8141Only:
		m = m8141
	}
	for k, in := range []string{"urn:ietf:params:scim:api:a", "urn:ex:a?+b#c", "urn:u:a", "urn:ex:%4F~", "urn:ex:a", w.crossInput()} {
		var mc urn.Machine
		if k%2 == 0 {
			mc = urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(x)))
		} else {
			mc = urn.NewMachine(opt(allModes[w.r.n(3)]))
			mc.Parse([]byte(in))
			mc.WithParsingMode(urn.ParsingMode(x))
		}
		got, want := verdict(mc.Parse([]byte(in))), freshVerdict(m, in)
		if got != want {
			w.violate(fmt.Sprintf("C16:value:%d", x), "with mode value %d parsing %s gives\n%s\nin mode %s it must give\n%s", x, q(in), got, m, want)
			return
		}
		u, ok := urn.Parse([]byte(in), urn.WithParsingMode(urn.ParsingMode(x)))
		if ok != (want[:3] == "URN") || ok && verdict(u, nil) != want {
			w.violate(fmt.Sprintf("C16:value:%d", x), "with mode value %d Parse(%s) gives success=%v, in mode %s it must give\n%s", x, q(in), ok, m, want)
			return
		}
	}
	w.count("mode values")
	w.nontrivial(fmt.Sprint(x))
}
