package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	urn "github.com/leodido/go-urn"
)

// C07, C08, C20: normalization, equality, and observers that change nothing.

// object is a URN of some origin, with what its fields must mean.
type object struct {
	u      *urn.URN
	id, ss string
	origin string
	mode   mode
	parsed bool   // straight from parsing
	in     string // then: its input
}

func (o *object) describe() string {
	return fmt.Sprintf("URN (%s) with identifier %s and specific string %s", o.origin, q(o.id), q(o.ss))
}

// mustParse parses an input the model accepts; it returns nil when the tree
// under test does not accept it (which is for other properties).
func mustParse(w *worker, m mode, in string) *urn.URN {
	u, ok := parseVia(w.r.n(4), m, []byte(in))
	if !ok {
		w.count("valid input rejected")
		return nil
	}
	return u
}

func (w *worker) wellFormedSS() string {
	s := w.g.body(w.g.length(2000), "/~&", w.g.style())
	if s == "" {
		return "s"
	}
	return s
}

func (w *worker) parsedObject(m mode, in string) *object {
	o := refParse(m, in)
	if !o.ok {
		return nil
	}
	u := mustParse(w, m, in)
	if u == nil {
		return nil
	}
	return &object{u, o.id, o.ss, "parsed as " + m.String(), m, true, in}
}

// object makes a URN of a random origin.
func (w *worker) object() *object {
	r := w.r
	for {
		switch r.n(8) {
		case 0, 1, 2:
			m := allModes[r.n(3)]
			if o := w.parsedObject(m, w.g.valid(m)); o != nil {
				return o
			}
		case 3:
			id, ss := w.g.nid(m2141), w.wellFormedSS()
			if r.chance(1, 30) {
				id = strings.ReplaceAll(w.g.body(1+r.n(400), "-", 4), "%", "")
			}
			return &object{&urn.URN{ID: id, SS: ss}, id, ss, "literal", m2141, false, ""}
		case 4:
			o := w.object()
			return w.edit(o)
		case 5:
			o := w.object()
			if o.id == "" {
				continue
			}
			n := o.u.Normalize()
			return &object{n, lowerASCII(o.id), normSS(o.ss), "normalized, " + o.origin, o.mode, false, ""}
		case 6: // a copy of the value
			o := w.object()
			w.glance(o.u)
			v := *o.u
			if r.chance(1, 2) { // the original goes its own way
				o.u.ID, o.u.SS = w.g.nid(m2141), w.wellFormedSS()
				w.glance(o.u)
			}
			return &object{&v, o.id, o.ss, "copy, " + o.origin, o.mode, o.parsed, o.in}
		case 7:
			in := w.g.valid(m2141)
			o := refParse(m2141, in)
			if !o.ok {
				continue
			}
			doc, _ := json.Marshal(in)
			v := &urn.URN{}
			if r.chance(1, 2) { // over something else
				v = w.object().u
				c := *v
				v = &c
			}
			if json.Unmarshal(doc, v) != nil {
				w.count("valid input rejected")
				continue
			}
			return &object{v, o.id, o.ss, "unmarshaled", m2141, true, in}
		}
	}
}

// glance calls some observers: what they keep must not show later.
func (w *worker) glance(u *urn.URN) {
	for w.r.chance(1, 2) {
		view(w.r.n(views), u, u)
	}
}

// edit sets a field, or both.
func (w *worker) edit(o *object) *object {
	r := w.r
	w.glance(o.u)
	n := *o
	n.parsed = false
	n.origin = "edited, " + o.origin
	k := r.n(6)
	if k == 0 || k == 1 || k == 5 {
		n.id = w.g.nid(m2141)
		if r.chance(1, 3) && o.id != "" {
			n.id = w.g.recase(o.id)
		}
		n.u.ID = n.id
	}
	if k >= 1 && k <= 4 {
		switch r.n(5) {
		case 0:
			n.ss = w.recaseSS(o.ss, true)
		case 1:
			n.ss = o.ss + w.wellFormedSS()
		case 2: // same length
			b := []byte(o.ss)
			for i := range b {
				if b[i] != '%' && (i < 1 || b[i-1] != '%') && (i < 2 || b[i-2] != '%') && r.chance(1, 4) {
					b[i] = r.pickB(alnums)
				}
			}
			n.ss = string(b)
		default:
			n.ss = w.wellFormedSS()
		}
		n.u.SS = n.ss
	}
	return &n
}

// recaseSS flips the case of the characters of percent encodings (hex) or of
// one of the other letters.
func (w *worker) recaseSS(s string, hex bool) string {
	b := []byte(s)
	var cand []int
	for i := 0; i < len(b); i++ {
		if b[i] == '%' {
			for k := 1; k <= 2 && i+k < len(b); k++ {
				if hex && isAlpha(b[i+k]) {
					cand = append(cand, i+k)
				}
			}
			i += 2
		} else if !hex && isAlpha(b[i]) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return s
	}
	if hex {
		for _, i := range cand {
			if w.r.chance(1, 2) {
				b[i] ^= 32
			}
		}
	} else {
		b[cand[w.r.n(len(cand))]] ^= 32
	}
	return string(b)
}

func init() {
	register(&property{
		id:   "C07",
		rule: inputRule + "The accepted ones are normalized, as are URNs made by literals, edits, copies, JSON decoding and earlier normalization; each result is compared with the two-line definition of the normal form, normalized again, parsed again and compared with the original. Non-trivial: URNs with letters to lower, counted by (identifier, specific string).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom/3, tRandom/3), func(w *worker, m mode, in string) {
					if o := w.parsedObject(m, in); o != nil {
						checkC07(w, o)
					} else {
						w.count("rejected")
					}
				})...)
			}
			out = append(out, stream{name: "origins", n: e.N(1200000, 30000000), run: func(w *worker, i int64) {
				checkC07(w, w.object())
			}})
			return out
		},
	})
	register(&property{
		id:   "C08",
		rule: "Families of URNs around one identifier and specific string: same, other letter case in the identifier, the prefix, percent encodings or elsewhere, one byte more, less or different, with and without components, from all the modes, literals, edits, copies and normal forms; all pairs of a family are compared both ways and against a definition over the fields. Non-trivial: every pair, counted by (identifiers, specific strings).",
		streams: func(e *env) []stream {
			lens := sweepLens(e.dict, 1<<16)
			return []stream{
				{name: "families", n: e.N(500000, 12000000), run: func(w *worker, i int64) { checkC08(w, w.g.length(3000)) }},
				{name: "lengths", n: int64(len(lens)), run: func(w *worker, i int64) { checkC08(w, lens[i]) }},
				{name: "bytes", n: 256 * 40, run: checkC08Bytes},
				{name: "colliding", n: int64(len(colliding)) * 5, run: checkC08Colliding},
			}
		},
	})
	register(&property{
		id:   "C20",
		rule: "A few URNs of any origin, then a random sequence of observing calls on them (printing, normalizing, comparing, marshaling, querying), with the results of normalizing edited and the marshaled bytes scribbled over; every URN must still report what it did before, and every call what it did first. Non-trivial: every sequence, counted by its URNs and calls.",
		streams: func(e *env) []stream {
			return []stream{{name: "sequences", n: e.N(500000, 10000000), run: checkC20}}
		},
	})
}

func checkC07(w *worker, o *object) {
	key := "norm:" + inKey(o.mode, o.id+"|"+o.ss+"|"+o.origin)
	c := *o.u // normalizing is the first that happens to the original
	s0 := c.String()
	id0, ss0 := c.ID, c.SS
	r0, q0, f0 := c.RComponent(), c.QComponent(), c.FComponent()
	scim0 := scimText(c.SCIM())
	n := o.u.Normalize()
	if n == nil {
		w.violate(key, "%s: its normal form is nil", o.describe())
		return
	}
	wid, wss := lowerASCII(o.id), normSS(o.ss)
	if n.ID != wid || n.SS != wss {
		w.violate(key, "%s: its normal form has identifier %s and specific string %s", o.describe(), q(n.ID), q(n.SS))
		return
	}
	if n.RComponent() != "" || n.QComponent() != "" || n.FComponent() != "" {
		w.violate(key, "%s: its normal form has components %s", o.describe(), q(n.String()))
		return
	}
	if wid != "" && wss != "" {
		if want := "urn:" + wid + ":" + wss; n.String() != want {
			w.violate(key, "%s: its normal form reads %s", o.describe(), q(n.String()))
			return
		}
	}
	nn := n.Normalize()
	if nn.ID != n.ID || nn.SS != n.SS || nn.String() != n.String() || n.ID != wid || n.SS != wss {
		w.violate(key, "%s: normalizing twice gives %s, once %s", o.describe(), q(nn.String()), q(n.String()))
		return
	}
	if o.u.String() != s0 || o.u.ID != id0 || o.u.SS != ss0 || o.u.RComponent() != r0 || o.u.QComponent() != q0 || o.u.FComponent() != f0 || scimText(o.u.SCIM()) != scim0 {
		w.violate(key, "%s: normalizing changed it from %s to %s", o.describe(), q(s0), q(o.u.String()))
		return
	}
	if o.parsed {
		v, ok := parseVia(w.r.n(4), o.mode, []byte(n.String()))
		if !ok {
			w.violate(key, "%s: its normal form %s does not parse", o.describe(), q(n.String()))
			return
		}
		if !v.Equal(o.u) || !o.u.Equal(v) || !n.Equal(o.u) || !o.u.Equal(n) {
			w.violate(key, "%s: its normal form %s is not equal to it", o.describe(), q(n.String()))
			return
		}
		vn := v.Normalize()
		if vn.String() != n.String() {
			w.violate(key, "%s: its normal form %s, parsed, has another normal form, %s", o.describe(), q(n.String()), q(vn.String()))
			return
		}
		w.count("parsed again")
	}
	w.count(firstWord(o.origin))
	w.count("specific string of length " + bucket(len(o.ss)))
	if wid != o.id || wss != o.ss {
		w.nontrivial(o.id, o.ss)
	}
	w.samplef("%s -> %s", o.describe(), q(n.String()))
}

func firstWord(s string) string {
	for i := range s {
		if s[i] == ',' {
			return s[:i]
		}
	}
	return s
}

// withOrigin makes a URN with this identifier and specific string, of a
// random origin.
func (w *worker) withOrigin(id, ss string) *object {
	r := w.r
	for k := 0; k < 4; k++ {
		switch r.n(6) {
		case 0, 1, 2:
			m := m2141
			tail := ""
			if r.chance(1, 2) {
				m = m8141
				tail = w.shortTail()
			}
			if id == scimNS {
				m, tail = m7643, ""
			}
			in := w.g.prefix() + ":" + id + ":" + ss + tail
			if o := w.parsedObject(m, in); o != nil && o.id == id && o.ss == ss {
				return o
			}
		case 3:
			return &object{&urn.URN{ID: id, SS: ss}, id, ss, "literal", m2141, false, ""}
		case 4:
			o := w.object()
			if r.chance(1, 2) { // from something near to it
				o.u.ID, o.u.SS = w.g.recase(id), w.recaseSS(ss, r.chance(1, 2))
			}
			w.glance(o.u)
			o.u.ID, o.u.SS = id, ss
			return &object{o.u, id, ss, "edited, " + o.origin, o.mode, false, ""}
		case 5:
			if id != lowerASCII(id) || ss != normSS(ss) {
				continue
			}
			o := w.withOrigin(w.g.recase(id), w.recaseSS(ss, true))
			if lowerASCII(o.id) != id || normSS(o.ss) != ss {
				continue
			}
			return &object{o.u.Normalize(), id, ss, "normalized, " + o.origin, o.mode, false, ""}
		}
	}
	return &object{&urn.URN{ID: id, SS: ss}, id, ss, "literal", m2141, false, ""}
}

func (w *worker) shortTail() string {
	s := ""
	if w.r.chance(1, 2) {
		s += "?+" + w.g.body(1+w.r.n(6), "~&", 4)
	}
	if w.r.chance(1, 2) {
		s += "?=" + w.g.body(1+w.r.n(6), "~&", 4)
	}
	if w.r.chance(1, 2) {
		s += "#" + w.g.body(w.r.n(6), "~&/?", 4)
	}
	return s
}

func checkC08(w *worker, n int) {
	r := w.r
	id := w.g.nid(m8141)
	ss := w.g.body(n, []string{"", "/~&"}[r.n(2)], w.g.style())
	if len(ss) > 0 && ss[0] == '/' {
		ss = "s" + ss
	}
	if ss == "" {
		ss = "s"
	}
	if r.chance(1, 12) {
		id, ss = scimNS, r.pick([]string{"api", "schemas", "param"})+":"+w.g.body(1+r.n(5), "", 0)+":"+w.g.body(n+1, "", 4)
	}
	var objs []*object
	k := 3 + r.n(4)
	for len(objs) < k {
		i, s := id, ss
		switch r.n(12) {
		case 0, 1:
			if id != scimNS {
				i = w.g.recase(id)
			}
		case 2, 3:
			s = w.recaseSS(ss, true)
		case 4:
			s = w.recaseSS(ss, false)
		case 5:
			s = ss + w.g.body(1, "", 4)
		case 6:
			if len(ss) > 1 {
				s = ss[:len(ss)-1]
				if x := len(s); x > 0 && s[x-1] == '%' {
					s += "0a"
				} else if x > 1 && s[x-2] == '%' {
					s += "a"
				}
			}
		case 7:
			b := []byte(ss)
			p := r.n(len(b))
			if isAlnum(b[p]) {
				k := r.n(len(b))
				if isAlnum(b[k]) && r.chance(1, 2) {
					b[p], b[k] = b[k], b[p]
				} else {
					b[p] = r.pickB(alnums)
				}
			}
			s = string(b)
		case 8:
			i = w.g.nid(m8141)
			if r.chance(1, 2) && len(id) > 2 && id != scimNS {
				b := []byte(id)
				b[len(b)-1] = r.pickB(alnums)
				i = string(b)
			}
		case 9: // both a letter case in an encoding and elsewhere
			i, s = id, w.recaseSS(w.recaseSS(ss, true), false)
		case 10: // the same text, cut elsewhere
			if id == scimNS {
				i, s = "ietf", "params:scim:"+ss
			} else if isAlnum(ss[0]) && len(ss) > 1 && r.chance(1, 2) {
				i, s = id+ss[:1], ss[1:]
			} else if len(id) > 1 {
				k := 1 + r.n(len(id)-1)
				i, s = id[:k], id[k:]+ss
				if r.chance(1, 2) {
					s = id[k:] + ":" + ss
				}
			}
		}
		if len(objs) > 0 && r.chance(1, 6) { // a copy of another, edited
			o := objs[r.n(len(objs))]
			w.glance(o.u)
			v := *o.u
			v.ID, v.SS = i, s
			objs = append(objs, &object{&v, i, s, "copy, edited, " + o.origin, o.mode, false, ""})
			continue
		}
		objs = append(objs, w.withOrigin(i, s))
	}
	comparePairs(w, objs)
}

// checkC08Bytes compares URNs that differ in a single byte at several places,
// over all values of this byte (as literals: some are no valid URNs).
func checkC08Bytes(w *worker, i int64) {
	b := byte(i % 256)
	if !isPlainPchar(b) && b != '/' {
		return
	}
	p := int(i / 256)
	base := []byte("aB%4fC%aZ:d-e.F%E0g%0ah+X@y;z0123456789_!x")
	s := append([]byte(nil), base...)
	p %= len(s)
	if s[p] == '%' {
		return
	}
	hex := p >= 1 && s[p-1] == '%' || p >= 2 && s[p-2] == '%'
	if hex && !isAlnum(b) {
		return
	}
	s[p] = b
	comparePairs(w, []*object{w.withOrigin("eX-1", string(base)), w.withOrigin("Ex-1", string(s)), w.withOrigin("ex-1", string(s))})
}

// checkC08Colliding compares URNs that common hashes do not tell apart.
func checkC08Colliding(w *worker, i int64) {
	c := colliding[i/5]
	var objs []*object
	for k := 0; k < 4; k++ {
		x := c[1+k%2]
		switch i % 5 {
		case 0:
			objs = append(objs, w.withOrigin("ex", x))
		case 1:
			objs = append(objs, w.withOrigin(x, "s"))
		case 2:
			objs = append(objs, w.withOrigin("ex", x+"z%4f"), w.withOrigin("ex", "%4F"+x))
		case 3:
			objs = append(objs, w.withOrigin(scimNS, "api:"+x), w.withOrigin(scimNS, "api:n:"+x))
		case 4:
			objs = append(objs, w.withOrigin("ex"+x, "s"), w.withOrigin(x, c[2-k%2]))
		}
	}
	comparePairs(w, objs)
}

func comparePairs(w *worker, objs []*object) {
	before := make([]snap, len(objs))
	looked := w.r.chance(1, 2) // or comparing is the first that happens to them
	for i, o := range objs {
		if looked {
			before[i] = snapOf(o.u)
		}
	}
	for i, a := range objs {
		for j, b := range objs {
			want := lowerASCII(a.id) == lowerASCII(b.id) && normSS(a.ss) == normSS(b.ss)
			key := "equal:" + inKey(a.mode, a.id+"|"+a.ss+"|"+a.origin+"|"+b.id+"|"+b.ss+"|"+b.origin)
			if got := a.u.Equal(b.u); got != want {
				w.violate(key, "Equal is %v for the %s and the %s", got, a.describe(), b.describe())
				return
			}
			w.evals++
			if i < j {
				w.count(fmt.Sprintf("equal=%v", want))
				w.nontrivial(a.id, a.ss, b.id, b.ss)
				an, bn := a.u.Normalize(), b.u.Normalize()
				if (an.ID == bn.ID && an.SS == bn.SS) != want || an.Equal(bn) != want {
					w.violate(key, "equality of the normal forms is not %v for the %s and the %s", want, a.describe(), b.describe())
					return
				}
			}
		}
		if a.u.Equal(nil) {
			w.violate("equal:nil:"+inKey(a.mode, a.id+"|"+a.ss), "the %s is equal to nil", a.describe())
			return
		}
	}
	for i, o := range objs {
		if !looked {
			break
		}
		if s := snapOf(o.u); s != before[i] {
			w.violate("equal:change:"+inKey(o.mode, o.id+"|"+o.ss), "comparing changed the %s:%s", o.describe(), s.diff(before[i]))
			return
		}
	}
	w.count(firstWord(objs[0].origin))
	w.samplef("%s / %s", objs[0].describe(), objs[1].describe())
}

// view is what an observer returns, as text.
func view(k int, a, b *urn.URN) string {
	switch k {
	case 0:
		return a.String()
	case 1:
		n := a.Normalize()
		return n.String() + "|" + n.ID + "|" + n.SS
	case 2:
		return fmt.Sprint(a.Equal(b))
	case 3:
		j, err := json.Marshal(a)
		return fmt.Sprintf("%s %v", j, err)
	case 4:
		j, err := urn.URN8141{URN: a}.MarshalJSON()
		return fmt.Sprintf("%s %v", j, err)
	case 5:
		return fmt.Sprint(a.RFC(), a.IsSCIM()) + scimText(a.SCIM())
	case 6:
		return a.RComponent() + "|" + a.QComponent() + "|" + a.FComponent()
	case 7:
		return fmt.Sprintf("%v %s", a, a)
	case 8:
		j, err := a.MarshalJSON()
		return fmt.Sprintf("%s %v", j, err)
	case 9:
		if s := a.SCIM(); s != nil {
			j, err := s.MarshalJSON()
			return fmt.Sprintf("%s %v", j, err)
		}
		return "no SCIM"
	case 10:
		j, err := json.Marshal(map[string]interface{}{"a": a, "b": *b})
		return fmt.Sprintf("%s %v", j, err)
	case 11:
		return a.RComponent()
	case 12:
		return a.QComponent()
	case 13:
		return a.FComponent()
	case 14:
		return fmt.Sprint(a.RFC())
	case 15:
		return fmt.Sprint(a.IsSCIM())
	case 16:
		if s := a.SCIM(); s != nil {
			return fmt.Sprint(s.Type) + "|" + s.Name + "|" + s.Other
		}
		return "no SCIM"
	case 17:
		if s := a.SCIM(); s != nil {
			return s.String()
		}
		return "no SCIM"
	case 18:
		return a.FComponent() + "|" + a.QComponent() + "|" + a.RComponent()
	}
	return a.ID + "|" + a.SS
}

const views = 20

// observed makes a few URNs.
func (w *worker) observed() []*object {
	r := w.r
	k := 1 + r.n(4)
	var objs []*object
	for j := 0; j < k; j++ {
		if j > 0 && r.chance(1, 2) {
			o := objs[0]
			objs = append(objs, w.withOrigin(o.id, w.recaseSS(o.ss, true)))
		} else {
			objs = append(objs, w.object())
		}
	}
	// one URN may be there twice, or a copy of it
	if r.chance(1, 4) {
		objs = append(objs, objs[0])
	}
	if r.chance(1, 3) {
		o := *objs[0]
		v := *o.u
		o.u, o.origin = &v, "copy, "+o.origin
		if r.chance(1, 2) {
			o.id, o.ss = w.g.recase(o.id), w.recaseSS(o.ss, r.chance(1, 2))
			v.ID, v.SS = o.id, o.ss
		}
		objs = append(objs, &o)
	}
	return objs
}

func checkC20(w *worker, i int64) {
	r := w.r
	start := *r
	objs := w.observed()
	key := fmt.Sprintf("C20:%d", i)
	// before holds what they report before the calls, unless nobody is to look
	// at them before; twins, made in the same way, are what to compare with then.
	before := make([]snap, len(objs))
	looked := r.chance(1, 2)
	fields := make([][2]string, len(objs))
	desc := ""
	for j, o := range objs {
		if looked {
			before[j] = snapOf(o.u)
		}
		fields[j] = [2]string{o.id, o.ss}
		desc += "\n " + o.describe()
		if o.u.ID != o.id || o.u.SS != o.ss {
			w.violate(key, "the %s reports %s and %s", o.describe(), q(o.u.ID), q(o.u.SS))
			return
		}
	}
	first := map[[3]int]string{}
	var order [][3]int
	hist := ""
	type held struct {
		n      *urn.URN
		id, ss string
		str    string
	}
	var norms []held
	n := 4 + r.n(40)
	if r.chance(1, 50) {
		n = 600
	}
	for s := 0; s < n; s++ {
		a, b, op := r.n(len(objs)), r.n(len(objs)), r.n(views+3)
		hist += fmt.Sprintf(" %d(%d,%d)", op, a, b)
		switch {
		case op < views:
			v := view(op, objs[a].u, objs[b].u)
			if f, ok := first[[3]int{op, a, b}]; !ok {
				first[[3]int{op, a, b}] = v
				order = append(order, [3]int{op, a, b})
			} else if f != v {
				w.violate(key, "a call of observer %d gave %s, and later %s, on%s\ncalls:%s", op, q(f), q(v), desc, hist)
				return
			}
		case op == views: // edit the result of normalizing
			x := objs[a].u.Normalize()
			w.glance(x)
			if r.chance(1, 2) {
				x.ID, x.SS = "changed", "by%20us"
			} else {
				norms = append(norms, held{x, x.ID, x.SS, x.String()})
			}
		case op == views+1: // scribble over marshaled bytes
			j, _ := objs[a].u.MarshalJSON()
			for t := range j {
				j[t] = '!'
			}
			j, _ = json.Marshal(objs[a].u)
			for t := range j[:cap(j)] {
				j[:cap(j)][t] = '!'
			}
		case op == views+2: // edit the original, and put it back: its earlier normal forms stay
			o := objs[a].u
			i0, s0 := o.ID, o.SS
			o.ID, o.SS = "other", "value%2A"
			for _, h := range norms {
				if h.n.ID != h.id || h.n.SS != h.ss || h.n.String() != h.str {
					w.violate(key, "a normal form changed to %s when the URN it comes from was edited, on%s\ncalls:%s", q(h.n.String()), desc, hist)
					return
				}
			}
			o.ID, o.SS = i0, s0
		}
	}
	now := *r
	twins := func() []*object {
		*r = start
		t := w.observed()
		*r = now
		for j, o := range objs {
			if j >= len(t) || t[j].id != fields[j][0] || t[j].ss != fields[j][1] || t[j].origin != o.origin {
				w.count("no twins")
				return nil
			}
		}
		return t
	}
	for k := 0; k < 2 && len(order) > 0; k++ {
		t := twins()
		if t == nil {
			break
		}
		c := order[r.n(len(order))]
		now = *r
		if v := view(c[0], t[c[1]].u, t[c[2]].u); v != first[c] {
			w.violate(key, "observer %d gives %s on a URN nobody looked at before, and gave %s after other calls, on%s\ncalls:%s", c[0], q(v), q(first[c]), desc, hist)
			return
		}
		w.count("compared with twins")
	}
	if !looked {
		t := twins()
		for j := range objs {
			if t == nil {
				before[j] = snapOf(objs[j].u)
			} else {
				before[j] = snapOf(t[j].u)
			}
		}
	}
	for j, o := range objs {
		if s := snapOf(o.u); s != before[j] || o.u.ID != fields[j][0] || o.u.SS != fields[j][1] {
			w.violate(key, "observing changed a URN:%s\nURNs:%s\ncalls:%s", s.diff(before[j]), desc, hist)
			return
		}
	}
	for _, h := range norms {
		if h.n.ID != h.id || h.n.SS != h.ss || h.n.String() != h.str {
			w.violate(key, "a normal form changed from %s to %s, on%s\ncalls:%s", q(h.str), q(h.n.String()), desc, hist)
			return
		}
	}
	w.countN("observer calls", int64(n))
	w.count(firstWord(objs[0].origin))
	w.nontrivial(desc, hist)
	w.samplef("%d URNs, e.g. %s; calls:%s", len(objs), objs[0].describe(), hist)
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
