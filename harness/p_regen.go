//go:build regen

package main

import (
	"fmt"
	"runtime"

	urn "github.com/leodido/go-urn"
	regen "regen.local/urn"
)

// C19: the parser of the tree and the one its grammar generates, side by
// side. Built with the regenerated package as regen.local/urn.

func regenVerdict(u *regen.URN, err error) string {
	if (u == nil) == (err == nil) {
		return fmt.Sprintf("URN %v and error %v", u, err)
	}
	if err != nil {
		return "error: " + err.Error()
	}
	return fmt.Sprintf("URN %q", fmt.Sprintf("%+v", regenSnap(u)))
}

func regenSnap(u *regen.URN) snap {
	n := u.Normalize()
	sc := "none"
	if s := u.SCIM(); s != nil {
		sc = fmt.Sprintf("%d|%s|%s|%s", int(s.Type), s.Name, s.Other, s.String())
	}
	return snap{
		str: u.String(), id: u.ID, ss: u.SS,
		r: u.RComponent(), q: u.QComponent(), f: u.FComponent(),
		rfc: urn.Kind(u.RFC()), isSCIM: u.IsSCIM(), scim: sc,
		nstr: n.String(), nid: n.ID, nss: n.SS,
	}
}

func regenMachine(m mode) regen.Machine {
	return regen.NewMachine(regen.WithParsingMode(regen.ParsingMode(m.sut())))
}

func init() {
	register(&property{
		id:   "C19",
		rule: inputRule + "Each goes through the checked-in parser and through the one regenerated from the grammar by the repository's recipe and tools, alone and after other inputs on the same machines, and the URNs, all their parts, the errors, and what is left of the input are compared; also after further inputs in the same buffer, and with the bytes allocated for long inputs. Non-trivial: at least 4 bytes, counted by (mode, input).",
		streams: func(e *env) []stream {
			out := []stream{{name: "cost", n: int64(len(shapes)), workers: 1, chunk: 1, run: checkC19Cost}}
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom/2, tRandom/2), checkC19)...)
			}
			out = append(out, stream{name: "histories", n: e.N(60000, 3000000), run: checkC19History},
				stream{name: "modes", n: 4000, run: checkC19Modes})
			return out
		},
	})
}

func checkC19(w *worker, m mode, in string) {
	b := []byte(in)
	ma, mb := urn.NewMachine(opt(m)), regenMachine(m)
	ua, ea := ma.Parse(b)
	bb := []byte(in)
	ub, eb := mb.Parse(bb)
	if string(b) != string(bb) {
		w.violate(inKey(m, in), "%s: %s is left as %s by the checked-in parser, and as %s by the one generated from the grammar", m, q(in), q(string(b)), q(string(bb)))
		return
	}
	same := false
	switch {
	case ea != nil && eb != nil:
		same = ua == nil && ub == nil && ea.Error() == eb.Error()
	case ua != nil && ub != nil:
		same = ea == nil && eb == nil && snapOf(ua) == regenSnap(ub)
	default:
		same = ua == nil && ub == nil && ea == nil && eb == nil
	}
	if !same {
		w.violate(inKey(m, in), "%s: for %s the checked-in parser gives\n%s\nand the one generated from the grammar\n%s", m, q(in), verdict(ua, ea), regenVerdict(ub, eb))
		return
	}
	if xa, xb := ma.Error(), mb.Error(); (xa == nil) != (xb == nil) || xa != nil && xa.Error() != xb.Error() {
		w.violate(inKey(m, in), "%s: after %s the checked-in machine reports %v, the generated one %v", m, q(in), xa, xb)
		return
	}
	if ua != nil {
		w.count(m.String() + " accepted by both")
	} else {
		w.count(m.String() + " rejected by both")
	}
	w.count("length " + bucket(len(in)))
	if len(in) >= 4 {
		w.nontrivial(m.String(), in)
	}
	w.samplef("%s %s -> accepted=%v", m, q(in), ua != nil)
}

func checkC19History(w *worker, i int64) {
	ma, mb := urn.NewMachine(), regen.NewMachine()
	m := m2141
	hist := ""
	type kept struct {
		a *urn.URN
		b *regen.URN
		v string
	}
	var all []kept
	var bufA, bufB []byte
	reuse := w.r.chance(1, 2)
	if reuse { // one buffer for all inputs of a history
		bufA, bufB = make([]byte, 0, 4096), make([]byte, 0, 4096)
	}
	for k := 2 + w.r.n(12); k > 0; k-- {
		if w.r.chance(1, 4) {
			v, vm := w.modeValue()
			m = vm
			ma.WithParsingMode(v)
			mb.WithParsingMode(regen.ParsingMode(v))
			hist += fmt.Sprintf(" mode(%d)", int(v))
		}
		in := w.histInput(m)
		hist += " " + q(in)
		bufA, bufB = append(bufA[:0], in...), append(bufB[:0], in...)
		ua, ea := ma.Parse(bufA)
		ub, eb := mb.Parse(bufB)
		va, vb := verdict(ua, ea), regenVerdict(ub, eb)
		if va != vb || fmt.Sprint(ma.Error()) != fmt.Sprint(mb.Error()) {
			w.violate(fmt.Sprintf("C19:%d", i), "after%s the checked-in machine gives\n%s\nthe generated one\n%s", hist, va, vb)
			return
		}
		if ua != nil && ub != nil {
			all = append(all, kept{ua, ub, va})
		}
		if !reuse {
			bufA, bufB = nil, nil
		}
	}
	for n, x := range all {
		va, vb := verdict(x.a, nil), regenVerdict(x.b, nil)
		if va != vb {
			w.violate(fmt.Sprintf("C19:%d", i), "after%s the URN accepted as number %d, then\n%s\nis, of the checked-in machine,\n%s\nof the generated one\n%s", hist, n+1, x.v, va, vb)
			return
		}
	}
	w.count("histories")
	w.countN("URNs looked at again after a history", int64(len(all)))
	w.nontrivial("history", hist)
}

// checkC19Cost compares what both allocate, far apart only if one of them does
// something else.
func checkC19Cost(w *worker, i int64) {
	sh := shapes[i]
	in := sh.f(60000)
	measure := func(f func()) int64 {
		var a, b runtime.MemStats
		least := int64(1) << 62
		for k := 0; k < 2; k++ {
			runtime.ReadMemStats(&a)
			f()
			runtime.ReadMemStats(&b)
			if d := int64(b.TotalAlloc - a.TotalAlloc); d < least {
				least = d
			}
		}
		return least
	}
	b := []byte(in)
	xa := measure(func() { urn.NewMachine(opt(sh.m)).Parse(b) })
	xb := measure(func() { regenMachine(sh.m).Parse(b) })
	const base, factor = 4 << 20, 40
	if xa > base+factor*xb || xb > base+factor*xa {
		w.violate("C19:cost:"+sh.name, "%s: on %s of %d bytes the checked-in parser allocates %d bytes, the one generated from the grammar %d", sh.m, sh.name, len(in), xa, xb)
		return
	}
	w.count("shapes whose cost was compared")
	w.nontrivial("cost", sh.name)
}

func checkC19Modes(w *worker, i int64) {
	v, m := w.modeValue()
	if i%2 == 0 {
		v = urn.ParsingMode(int(i/2) - 1000)
	}
	in := w.crossInput()
	_ = m
	va := verdict(urn.NewMachine(urn.WithParsingMode(v)).Parse([]byte(in)))
	vb := regenVerdict(regen.NewMachine(regen.WithParsingMode(regen.ParsingMode(v))).Parse([]byte(in)))
	if va != vb {
		w.violate(fmt.Sprintf("C19:mode:%d", int(v)), "with mode %d, for %s the checked-in parser gives\n%s\nthe generated one\n%s", int(v), q(in), va, vb)
		return
	}
	w.count("mode values")
}
