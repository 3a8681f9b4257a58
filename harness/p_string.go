package main

import (
	"encoding/json"
	"fmt"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C21: the string form is made of the current fields, whatever happened to a
// URN before.

// tracked is a URN with what its fields are by now, known from what was done
// to it and not from looking at it.
type tracked struct {
	u       *urn.URN
	prefix  string
	id, ss  string
	r, q, f string
	past    [][2]string // earlier values of (id, ss)
}

// form is the definition of the string form.
func (t *tracked) form() string {
	if t.id == "" || t.ss == "" {
		return ""
	}
	s := t.prefix + ":" + t.id + ":" + t.ss
	if t.r != "" {
		s += "?+" + t.r
	}
	if t.q != "" {
		s += "?=" + t.q
	}
	if t.f != "" {
		s += "#" + t.f
	}
	return s
}

// trackedSCIM is the same for a SCIM value.
type trackedSCIM struct {
	s           *urn.SCIM
	typ         scimschema.Type
	name, other string
}

func (t *trackedSCIM) form() string {
	s := "urn:ietf:params:scim:"
	for n, v := range scimTypeNames {
		if v == t.typ {
			s += n
		}
	}
	s += ":" + t.name
	if t.other != "" {
		s += ":" + t.other
	}
	return s
}

func init() {
	register(&property{
		id:   "C21",
		rule: "Random histories of a few URNs and SCIM values: made as zero values, literals of any bytes, by parsing, decoding, copying or normalizing; edited (also emptied, to values of the same length, to values they had before, swapped), copied over, decoded over with and without success, printed, compared, normalized, marshaled in between. After every step every value must print what a model, which follows the steps, says. Non-trivial: every history, counted by its steps.",
		streams: func(e *env) []stream {
			return []stream{
				{name: "histories", n: e.N(320000, 8000000), run: func(w *worker, i int64) { checkC21(w, i, 3+w.r.n(30)) }},
				{name: "long", n: e.N(600, 30000), run: func(w *worker, i int64) { checkC21(w, i, 600) }},
				{name: "large", n: e.N(300, 10000), chunk: 1, run: func(w *worker, i int64) { checkC21(w, i, -6) }},
			}
		},
	})
}

// anyBytes makes a field value out of anything.
func (w *worker) anyBytes(large bool) string {
	r := w.r
	if large && r.chance(1, 2) {
		return w.g.body(1<<r.n(19)+r.n(3), "/~&", w.g.style())
	}
	switch r.n(8) {
	case 0:
		return ""
	case 1:
		return w.g.soup()
	case 2:
		return r.pick([]string{"urn", "a:b", ":", "%", "%s", "%41", "%!d(MISSING)", "?+", "?=", "#", "a#", "?+a?=b#c", "\x00", "\xff\xfe", "é", " ", "%%", "a?", "\n", "\"", "<>&", "\u2028"})
	case 3:
		return string([]byte{byte(r.n(256))})
	case 4, 5:
		return w.g.nid(m2141)
	}
	return w.wellFormedSS()
}

func checkC21(w *worker, i int64, steps int) {
	r := w.r
	large := steps < 0
	if large {
		steps = -steps
	}
	key := fmt.Sprintf("C21:%s:%d", w.stream.name, i)
	hist := ""
	note := func(format string, a ...interface{}) {
		hist += fmt.Sprintf(format, a...)
		if len(hist) > 6000 {
			hist = "..." + hist[len(hist)-4000:]
		}
	}
	var us []*tracked
	var ss []*trackedSCIM
	set := func(t *tracked, o *outcome) {
		t.prefix, t.id, t.ss, t.r, t.q, t.f = o.prefix, o.id, o.ss, o.r, o.q, o.f
	}
	put := func(t *tracked, how string) {
		k := len(us)
		if k < 5 {
			us = append(us, t)
		} else {
			k = r.n(k)
			us[k] = t
		}
		note(" u%d=%s", k, how)
	}
	putSCIM := func(t *trackedSCIM, how string) {
		k := len(ss)
		if k < 3 {
			ss = append(ss, t)
		} else {
			k = r.n(k)
			ss[k] = t
		}
		note(" s%d=%s", k, how)
	}
	// the same input may come again, after its first URN was edited
	var inputs []string
	var inputModes []mode
	input := func(m mode) (mode, string) {
		if len(inputs) > 0 && r.chance(1, 3) {
			k := r.n(len(inputs))
			return inputModes[k], inputs[k]
		}
		in := w.g.valid(m)
		if large && r.chance(1, 2) {
			in = "urn:" + w.g.nid(m8141) + ":s" + w.g.body(1<<r.n(19), "", w.g.style())
		}
		inputs, inputModes = append(inputs, in), append(inputModes, m)
		return m, in
	}
	var mc urn.Machine
	types := []scimschema.Type{scimschema.Schemas, scimschema.API, scimschema.Param}
	make1 := func() {
		switch r.n(8) {
		case 0:
			put(&tracked{u: &urn.URN{}, prefix: "urn"}, "zero")
		case 1, 2:
			id, s := w.anyBytes(large), w.anyBytes(large)
			put(&tracked{u: &urn.URN{ID: id, SS: s}, prefix: "urn", id: id, ss: s}, "literal("+q(id)+","+q(s)+")")
		case 3:
			m, in := input(allModes[r.n(3)])
			o := refParse(m, in)
			doc, _ := json.Marshal(in)
			rc := newReceiver(m)
			if !o.ok || rc.unmarshal(doc) != nil {
				return
			}
			switch m {
			case m7643:
				putSCIM(&trackedSCIM{rc.s, scimTypeNames[o.typ], o.name, o.rest}, "decode("+q(in)+")")
			case m8141:
				t := &tracked{u: rc.v.URN}
				set(t, &o)
				put(t, "decode8141("+q(in)+")")
			default:
				t := &tracked{u: rc.u}
				set(t, &o)
				put(t, "decode("+q(in)+")")
			}
		case 4:
			t, n, x := types[r.n(3)], w.anyBytes(large), w.anyBytes(large)
			putSCIM(&trackedSCIM{&urn.SCIM{Type: t, Name: n, Other: x}, t, n, x}, "literal("+q(n)+","+q(x)+")")
		default:
			m, in := input(allModes[r.n(3)])
			o := refParse(m, in)
			u, ok := (*urn.URN)(nil), false
			if r.chance(1, 2) {
				u, ok = parseVia(r.n(4), m, []byte(in))
			} else { // one machine for all
				var err error
				if mc == nil {
					mc = urn.NewMachine()
				}
				mc.WithParsingMode(m.sut())
				u, err = mc.Parse([]byte(in))
				ok = err == nil && u != nil
			}
			if !o.ok || !ok {
				return
			}
			t := &tracked{u: u}
			set(t, &o)
			put(t, "parse("+m.String()+","+q(in)+")")
			if s := u.SCIM(); m == m7643 && s != nil {
				putSCIM(&trackedSCIM{s, scimTypeNames[o.typ], o.name, o.rest}, "view")
			}
		}
	}
	// check looks at everything; it starts anywhere, as the order must not matter
	check := func() bool {
		if len(us) > 0 {
			k := r.n(len(us))
			for j := range us {
				n := (k + j) % len(us)
				t := us[n]
				got := ""
				want := t.form()
				switch r.n(10) {
				case 0, 1:
					got = fmt.Sprint(urn.URN8141{URN: t.u})
				case 2, 3:
					got, want = jsonForm(t.u, want)
				case 4:
					got, want = jsonForm(urn.URN8141{URN: t.u}, want)
				case 5:
					got, want = jsonForm(*t.u, want)
				default:
					got = t.u.String()
				}
				if got != want {
					w.violate(key, "u%d reads %s, it must read %s\nhistory:%s", n, q(got), q(want), hist)
					return false
				}
				if t.u.ID != t.id || t.u.SS != t.ss || t.u.RComponent() != t.r || t.u.QComponent() != t.q || t.u.FComponent() != t.f {
					w.violate(key, "u%d has the parts %s, %s, %s, %s, %s, they must be %s, %s, %s, %s, %s\nhistory:%s", n,
						q(t.u.ID), q(t.u.SS), q(t.u.RComponent()), q(t.u.QComponent()), q(t.u.FComponent()), q(t.id), q(t.ss), q(t.r), q(t.q), q(t.f), hist)
					return false
				}
				w.evals++
			}
		}
		for n, t := range ss {
			got, want := "", t.form()
			if r.chance(1, 4) {
				got, want = jsonForm(t.s, want)
			} else {
				got = t.s.String()
			}
			if got != want || t.s.Type != t.typ || t.s.Name != t.name || t.s.Other != t.other {
				w.violate(key, "s%d reads %s, it must read %s\nhistory:%s", n, q(got), q(want), hist)
				return false
			}
			w.evals++
		}
		return true
	}
	for k := 1 + r.n(3); k > 0; k-- {
		make1()
		if r.chance(1, 2) && !check() {
			return
		}
	}
	careful := r.chance(1, 2)
	for s := 0; s < steps; s++ {
		if len(us) == 0 || r.chance(1, 8) {
			make1()
		} else {
			k := r.n(len(us))
			t := us[k]
			switch op := r.n(16); op {
			case 0, 1, 2, 3, 4: // edit
				t.past = append(t.past, [2]string{t.id, t.ss})
				id, sp := t.id, t.ss
				switch r.n(10) {
				case 0:
					id = w.anyBytes(large)
				case 1:
					sp = w.anyBytes(large)
				case 2:
					id, sp = w.anyBytes(large), w.anyBytes(large)
				case 3:
					id = ""
				case 4:
					sp = ""
				case 5: // same length, another letter case
					id, sp = w.g.recase(id), w.recaseSS(sp, r.chance(1, 2))
				case 6: // same length
					b := []byte(sp)
					if len(b) > 0 {
						b[r.n(len(b))] = r.pickB(alnums)
					}
					sp = string(b)
				case 7: // as it was before
					p := t.past[r.n(len(t.past))]
					id, sp = p[0], p[1]
				case 8:
					id, sp = sp, id
				case 9:
					o := us[r.n(len(us))]
					id, sp = o.id, o.ss
				}
				t.id, t.ss = id, sp
				t.u.ID, t.u.SS = id, sp
				if len(t.past) > 6 {
					t.past = t.past[1:]
				}
				note(" u%d.edit(%s,%s)", k, q(id), q(sp))
			case 5, 6: // a copy of the value, new or over another
				if r.chance(1, 2) {
					v := *t.u
					n := *t
					n.u, n.past = &v, append([][2]string(nil), t.past...)
					put(&n, fmt.Sprintf("copy(u%d)", k))
				} else {
					k2 := r.n(len(us))
					d := us[k2]
					*d.u = *t.u
					d.prefix, d.id, d.ss, d.r, d.q, d.f = t.prefix, t.id, t.ss, t.r, t.q, t.f
					note(" *u%d=*u%d", k2, k)
				}
			case 7, 8: // the normal form, whose contents are for another property
				n := t.u.Normalize()
				put(&tracked{u: n, prefix: "urn", id: n.ID, ss: n.SS}, fmt.Sprintf("normalize(u%d)", k))
			case 9: // decode over it
				in := w.g.any(m2141)
				if r.chance(1, 3) {
					in = t.form()
				}
				o := ref2141(in)
				doc, _ := json.Marshal(in)
				var back string
				json.Unmarshal(doc, &back)
				if back != in { // not UTF-8
					o = ref2141(back)
				}
				err := json.Unmarshal(doc, t.u)
				if (err == nil) != o.ok {
					w.count("decoded or not against the model")
					return
				}
				if o.ok {
					set(t, &o)
				}
				note(" u%d.decode(%s)", k, q(in))
			case 10: // clear it
				*t.u = urn.URN{}
				*t = tracked{u: t.u, prefix: "urn", past: t.past}
				note(" *u%d=zero", k)
			case 11: // the SCIM value
				if len(ss) == 0 {
					continue
				}
				k := r.n(len(ss))
				x := ss[k]
				switch r.n(5) {
				case 0:
					x.name = w.anyBytes(large)
				case 1:
					x.other = w.anyBytes(large)
				case 2:
					x.other = ""
				case 3:
					x.typ = types[r.n(3)]
				case 4: // a copy
					v := *x.s
					putSCIM(&trackedSCIM{&v, x.typ, x.name, x.other}, fmt.Sprintf("copy(s%d)", k))
					continue
				}
				x.s.Name, x.s.Other, x.s.Type = x.name, x.other, x.typ
				// the same value may be there twice
				for _, y := range ss {
					if y.s == x.s {
						y.name, y.other, y.typ = x.name, x.other, x.typ
					}
				}
				note(" s%d.edit(%s,%s,%d)", k, q(x.name), q(x.other), int(x.typ))
			default: // look at it
				v := r.n(views)
				view(v, t.u, us[r.n(len(us))].u)
				note(" u%d.view%d", k, v)
			}
		}
		// not every time: steps may follow each other with nobody looking
		if (careful || r.chance(1, 3)) && !check() {
			return
		}
	}
	if !check() {
		return
	}
	w.count("history of " + bucket(steps) + " steps")
	w.countN("URNs looked at", int64(len(us)))
	w.nontrivial(hist)
	w.samplef("%s", hist)
}

// jsonForm is the text that v is marshaled as, and what want is marshaled as:
// bytes that are not UTF-8 do not survive.
func jsonForm(v interface{}, want string) (string, string) {
	j, err := json.Marshal(v)
	if err != nil {
		return "error: " + err.Error(), want
	}
	var got string
	if err := json.Unmarshal(j, &got); err != nil {
		return "error: " + err.Error(), want
	}
	k, _ := json.Marshal(want)
	json.Unmarshal(k, &want)
	return got, want
}
