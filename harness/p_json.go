package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C12, C13, C14: JSON forms and the SCIM view.

// receiver is a value of the JSON type for a mode.
type receiver struct {
	m mode
	u *urn.URN
	v *urn.URN8141
	s *urn.SCIM
}

func newReceiver(m mode) *receiver {
	switch m {
	case m7643:
		return &receiver{m: m, s: &urn.SCIM{}}
	case m8141:
		return &receiver{m: m, v: &urn.URN8141{}}
	}
	return &receiver{m: m, u: &urn.URN{}}
}

func (r *receiver) target() interface{} {
	switch r.m {
	case m7643:
		return r.s
	case m8141:
		return r.v
	}
	return r.u
}

func (r *receiver) unmarshal(b []byte) error {
	switch r.m {
	case m7643:
		return r.s.UnmarshalJSON(b)
	case m8141:
		return r.v.UnmarshalJSON(b)
	}
	return r.u.UnmarshalJSON(b)
}

// text is all that can be observed of the value.
func (r *receiver) text() string {
	switch r.m {
	case m7643:
		return scimText(r.s)
	case m8141:
		if r.v.URN == nil {
			return "nil"
		}
		return fmt.Sprintf("%+v", snapOf(r.v.URN))
	}
	return fmt.Sprintf("%+v", snapOf(r.u))
}

// wantText is text() after decoding an input.
func wantText(m mode, o *outcome) string {
	s := wantSnap(m, o)
	if m == m7643 {
		return s.scim
	}
	return fmt.Sprintf("%+v", s)
}

const hexDigits = "0123456789abcdef0123456789ABCDEF"

// jsonDoc writes a JSON string that stands for s, escaping nothing but what
// has to be (0), some characters (1), or all of them (2).
func (w *worker) jsonDoc(s string, style int) string {
	r := w.r
	var sb strings.Builder
	if r.chance(1, 10) {
		sb.WriteString(r.pick([]string{" ", "\n", "\t\r\n ", "  "}))
	}
	sb.WriteByte('"')
	u := func(c rune) {
		o := 16 * r.n(2)
		fmt.Fprintf(&sb, "\\u%c%c%c%c", hexDigits[o+int(c>>12&15)], hexDigits[o+int(c>>8&15)], hexDigits[16*r.n(2)+int(c>>4&15)], hexDigits[16*r.n(2)+int(c&15)])
	}
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		raw := s[i : i+n]
		i += n
		esc := style == 2 || style == 1 && r.chance(1, 4)
		short := map[rune]string{'"': `\"`, '\\': `\\`, '/': `\/`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[c]
		switch {
		case c == utf8.RuneError && n == 1:
			sb.WriteString(raw) // decoded as U+FFFD
		case short != "" && (c != '/' || esc) && r.chance(1, 2):
			sb.WriteString(short)
		case c < 0x20 || c == '"' || c == '\\' || esc && c < 0x10000:
			u(c)
		case esc:
			c -= 0x10000
			u(0xd800 + c>>10)
			u(0xdc00 + c&0x3ff)
		default:
			sb.WriteString(raw)
		}
	}
	sb.WriteByte('"')
	if r.chance(1, 10) {
		sb.WriteString(r.pick([]string{" ", "\n", "\t\r\n "}))
	}
	return sb.String()
}

func init() {
	register(&property{
		id:   "C12",
		rule: inputRule + "Each accepted one is marshaled as a value, through a pointer, directly, by an encoder without HTML escaping, indented, and nested in structs, slices, maps and interfaces; the JSON is decoded as a string and compared with the string form, then into the type for the mode and compared part by part with the model. Literals (any UTF-8) and zero values are marshaled as well. Non-trivial: counted by (mode, input).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				m := m
				for _, f := range inputs(e, m, e.N(220000, 12000000)) {
					f := f
					n := f.n
					step := int64(1)
					if f.name == "cover" || strings.HasPrefix(f.name, "bounded") { // a sample of these
						step = n/20000 + 1
						if e.thorough {
							step = 1
						}
						n = (n + step - 1) / step
					}
					out = append(out, stream{name: m.String() + "/" + f.name, n: n, run: func(w *worker, i int64) {
						k := i * step
						if step > 1 {
							k += int64(w.r.n(int(step)))
							if k >= f.n {
								k = f.n - 1
							}
						}
						checkC12(w, m, f.at(w, k))
					}})
				}
				out = append(out, stream{name: m.String() + "/valid", n: e.N(250000, 10000000), run: func(w *worker, i int64) {
					checkC12(w, m, w.g.valid(m))
				}})
			}
			out = append(out, stream{name: "literals", n: e.N(60000, 3000000), run: checkC12Literal})
			return out
		},
	})
	register(&property{
		id:   "C13",
		rule: "JSON documents: strings that stand for inputs of all kinds (see C01), with random escapes, and other values, cut, damaged or padded documents; decoded through json.Unmarshal, directly, by a decoder, or as a member of a struct, into receivers holding nothing, a parsed, a literal, an edited URN or the result of an earlier decoding. Success is compared with the model's verdict on the decoded string, the receiver with what parsing gives, or with what it was when there is an error. Non-trivial: counted by (mode, document).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				m := m
				c := newCover(m)
				step := c.size()/60000 + 1
				if e.thorough {
					step = c.size()/3000000 + 1
				}
				out = append(out,
					stream{name: m.String() + "/cover", n: c.size() / step, run: func(w *worker, i int64) {
						checkC13(w, m, c.at(i*step+int64(w.r.n(int(step)))))
					}},
					stream{name: m.String() + "/random", n: e.N(450000, 15000000), run: func(w *worker, i int64) {
						in := w.g.any(m)
						if w.r.chance(1, 10) {
							in = w.g.any(allModes[w.r.n(3)])
						}
						checkC13(w, m, in)
					}},
					stream{name: m.String() + "/documents", n: e.N(220000, 8000000), run: func(w *worker, i int64) { checkC13Bad(w, m) }})
			}
			return out
		},
	})
	register(&property{
		id:   "C14",
		rule: inputRule + "For each accepted SCIM URN the view's type, name, rest, string form and JSON are compared with the model's cuts; URNs of other modes must have none. The type names are tried with many strings near to them, the type values with many integers. Non-trivial: accepted SCIM inputs and type names, counted.",
		streams: func(e *env) []stream {
			out := inputStreams(e, m7643, e.N(qRandom, tRandom), checkC14)
			for _, m := range []mode{m2141, m8141} {
				m := m
				out = append(out, stream{name: m.String() + "/none", n: e.N(200000, 8000000), run: func(w *worker, i int64) {
					in := w.g.valid(m)
					if w.r.chance(1, 2) {
						in = w.g.valid(m7643)
					}
					u, ok := parseVia(int(i), m, []byte(in))
					if ok && (u.SCIM() != nil || u.IsSCIM() || u.RFC() == urn.RFC7643) {
						w.violate(inKey(m, in), "%s: %s has the SCIM view %s", m, q(in), scimText(u.SCIM()))
						return
					}
					w.count("no view in " + m.String())
				}})
			}
			out = append(out, stream{name: "type names", n: e.N(400000, 8000000), run: checkTypeName},
				stream{name: "type values", n: 200000, run: checkTypeValue},
				stream{name: "values", n: e.N(100000, 4000000), run: checkScimValue})
			return out
		},
	})
}

type nest struct {
	A int
	U urn.URN
	P *urn.URN
	L []urn.URN
	M map[string]*urn.URN
	N struct{ X [2]urn.URN }
}

type nest8141 struct {
	A int
	U urn.URN8141
	P *urn.URN8141
	L []urn.URN8141
	M map[string]*urn.URN8141
	N struct{ X [2]urn.URN8141 }
}

type nestSCIM struct {
	A int
	U urn.SCIM
	P *urn.SCIM
	L []urn.SCIM
	M map[string]*urn.SCIM
	N struct{ X [2]urn.SCIM }
}

func checkC12(w *worker, m mode, in string) {
	o := refParse(m, in)
	if !o.ok {
		w.count(m.String() + " rejected")
		return
	}
	u := mustParse(w, m, in)
	if u == nil {
		return
	}
	key := inKey(m, in)
	c := *u // marshaling is the first that happens to u
	str := c.String()
	want := wantText(m, &o)
	// all the values to marshal, and what they must stand for
	vals := []interface{}{*u, u}
	form := str
	switch m {
	case m8141:
		vals = append(vals, urn.URN8141{URN: u}, &urn.URN8141{URN: u})
	case m7643:
		if u.SCIM() == nil {
			w.violate(key, "no SCIM details for %s", q(in))
			return
		}
		vals = []interface{}{*u.SCIM(), u.SCIM()}
		x := *u.SCIM()
		form = x.String()
		if k := w.r.n(2); k == 0 {
			if j, err := json.Marshal(u); err != nil {
				w.violate(key, "%s: marshaling %s as a URN: %v", m, q(in), err)
			} else if s, err := jsonString(j); err != nil || s != str {
				w.violate(key, "%s: %s is marshaled as %s", m, q(str), q(string(j)))
			}
		}
	}
	v := vals[w.r.n(len(vals))]
	var doc []byte
	var err error
	how := w.r.n(5)
	switch how {
	case 0:
		doc, err = json.Marshal(v)
	case 1:
		var b bytes.Buffer
		enc := json.NewEncoder(&b)
		enc.SetEscapeHTML(false)
		err = enc.Encode(v)
		doc = b.Bytes()
	case 2:
		doc, err = json.MarshalIndent(v, " ", "  ")
	case 3:
		doc, err = v.(json.Marshaler).MarshalJSON()
	case 4:
		checkC12Nested(w, m, u, form, want, key)
		return
	}
	if err != nil {
		w.violate(key, "%s: marshaling %s (%T): %v", m, q(in), v, err)
		return
	}
	s, err := jsonString(doc)
	if err != nil || s != form {
		w.violate(key, "%s: %s (%T) is marshaled as %s", m, q(form), v, q(string(doc)))
		return
	}
	r := newReceiver(m)
	if w.r.chance(1, 2) {
		err = json.Unmarshal(doc, r.target())
	} else {
		err = r.unmarshal(doc)
	}
	if err != nil {
		w.violate(key, "%s: %s is marshaled as %s, which does not unmarshal: %v", m, q(in), q(string(doc)), err)
		return
	}
	if r.text() != want {
		w.violate(key, "%s: %s is marshaled as %s, which unmarshals into\n%s\nnot\n%s", m, q(in), q(string(doc)), r.text(), want)
		return
	}
	w.count(fmt.Sprintf("%s %T round trips, way %d", m, v, how))
	w.nontrivial(m.String(), in)
	w.samplef("%s %T %s", m, v, q(string(doc)))
}

func checkC12Nested(w *worker, m mode, u *urn.URN, form, want, key string) {
	var val, back interface{}
	switch m {
	case m2141:
		n := nest{A: 1, U: *u, P: u, L: []urn.URN{*u, *u}, M: map[string]*urn.URN{"k": u}}
		n.N.X = [2]urn.URN{*u, *u}
		val, back = n, &nest{}
	case m8141:
		x := urn.URN8141{URN: u}
		n := nest8141{A: 1, U: x, P: &x, L: []urn.URN8141{x, x}, M: map[string]*urn.URN8141{"k": &x}}
		n.N.X = [2]urn.URN8141{x, x}
		val, back = n, &nest8141{}
	case m7643:
		x := *u.SCIM()
		n := nestSCIM{A: 1, U: x, P: &x, L: []urn.SCIM{x, x}, M: map[string]*urn.SCIM{"k": &x}}
		n.N.X = [2]urn.SCIM{x, x}
		val, back = n, &nestSCIM{}
	}
	doc, err := json.Marshal(val)
	if err != nil {
		w.violate(key, "%s: marshaling %s nested: %v", m, q(form), err)
		return
	}
	var any struct {
		U string
		P string
		L []string
		M map[string]string
		N struct{ X []string }
	}
	if err := json.Unmarshal(doc, &any); err != nil || any.U != form || any.P != form || len(any.L) != 2 || any.L[1] != form || any.M["k"] != form || len(any.N.X) != 2 || any.N.X[0] != form {
		w.violate(key, "%s: %s nested is marshaled as %s", m, q(form), q(string(doc)))
		return
	}
	if err := json.Unmarshal(doc, back); err != nil {
		w.violate(key, "%s: %s nested is marshaled as %s, which does not unmarshal: %v", m, q(form), q(string(doc)), err)
		return
	}
	var rs []*receiver
	switch b := back.(type) {
	case *nest:
		rs = []*receiver{{m: m, u: &b.U}, {m: m, u: b.P}, {m: m, u: &b.L[0]}, {m: m, u: &b.L[1]}, {m: m, u: b.M["k"]}, {m: m, u: &b.N.X[1]}}
	case *nest8141:
		rs = []*receiver{{m: m, v: &b.U}, {m: m, v: b.P}, {m: m, v: &b.L[0]}, {m: m, v: &b.L[1]}, {m: m, v: b.M["k"]}, {m: m, v: &b.N.X[1]}}
	case *nestSCIM:
		rs = []*receiver{{m: m, s: &b.U}, {m: m, s: b.P}, {m: m, s: &b.L[0]}, {m: m, s: &b.L[1]}, {m: m, s: b.M["k"]}, {m: m, s: &b.N.X[1]}}
	}
	for _, r := range rs {
		if r.text() != want {
			w.violate(key, "%s: %s nested is marshaled as %s, and one of them unmarshals into\n%s\nnot\n%s", m, q(form), q(string(doc)), r.text(), want)
			return
		}
	}
	w.count(m.String() + " nested round trips")
	w.nontrivial(m.String(), form)
}

// checkC12Literal marshals literals, edited URNs and zero values.
func checkC12Literal(w *worker, i int64) {
	r := w.r
	o := w.object()
	u := o.u
	switch r.n(8) {
	case 0:
		u = &urn.URN{}
	case 1:
		u = &urn.URN{ID: r.pick([]string{"", "x"})}
	case 2:
		u = &urn.URN{SS: r.pick([]string{"", "x"})}
	case 3:
		odd := []string{"\"", "\\", "<", ">", "&", "\u2028", "é", "\U0001F600", "\x00", "\x1f", "/", "'", " ", "\n", "\u2029", "\x7f", "a"}
		s := ""
		for k := 1 + r.n(6); k > 0; k-- {
			s += r.pick(odd)
		}
		u = &urn.URN{ID: w.g.nid(m2141), SS: s}
	case 4:
		if r.chance(1, 4) {
			u = &urn.URN{ID: w.g.body(1+r.n(2000), "", w.g.style()), SS: w.g.body(1+r.n(2000), "/~&", w.g.style())}
		}
	}
	c := *u // marshaling is the first that happens to u
	str := c.String()
	if !validUTF8(str) {
		return
	}
	key := "literal:" + inKey(m2141, str)
	if u.ID == "" && u.SS == "" && str != "" {
		w.violate(key, "the zero value reads %s", q(str))
		return
	}
	for _, v := range []interface{}{*u, u, urn.URN8141{URN: u}, &urn.URN8141{URN: u}, []urn.URN{*u}, map[string]interface{}{"a": u}} {
		doc, err := json.Marshal(v)
		if err != nil {
			w.violate(key, "marshaling %T %s: %v", v, q(str), err)
			return
		}
		var s string
		switch v.(type) {
		case []urn.URN:
			var l []string
			err = json.Unmarshal(doc, &l)
			if len(l) == 1 {
				s = l[0]
			}
		case map[string]interface{}:
			var l map[string]string
			err = json.Unmarshal(doc, &l)
			s = l["a"]
		default:
			s, err = jsonString(doc)
		}
		if err != nil || s != str {
			w.violate(key, "%T with string form %s is marshaled as %s", v, q(str), q(string(doc)))
			return
		}
	}
	for _, v := range []interface{}{urn.URN8141{}, &urn.URN8141{}, urn.URN{}, struct{ U urn.URN8141 }{}, []urn.URN8141{{}}} {
		doc, err := json.Marshal(v)
		want := `""`
		switch v.(type) {
		case struct{ U urn.URN8141 }:
			want = `{"U":""}`
		case []urn.URN8141:
			want = `[""]`
		}
		if err != nil || string(doc) != want {
			w.violate(key, "the zero %T is marshaled as %s, %v", v, doc, err)
			return
		}
	}
	w.count("literals")
	w.nontrivial("literal", str)
	w.samplef("literal %s", q(str))
}

// prefill puts something in a receiver. It also tells what the value this
// came from reports, as decoding must not change it.
func (w *worker) prefill(r *receiver) (string, func() string) {
	none := func() string { return "" }
	switch k := w.r.n(6); k {
	case 0:
		return "empty", none
	default:
		if r.m == m7643 {
			in := w.g.valid(m7643)
			if len(in) > 300 {
				in = in[:60]
			}
			if k < 4 {
				if u, ok := urn.Parse([]byte(in), opt(m7643)); ok && u != nil && u.SCIM() != nil {
					*r.s = *u.SCIM()
					return "parsed", func() string { return fmt.Sprintf("%+v", snapOf(u)) }
				}
			}
			*r.s = urn.SCIM{Type: scimschema.Type(w.r.n(5)), Name: "old", Other: w.r.pick([]string{"", "rest:%4F"})}
			return "literal", none
		}
		o := w.object()
		w.glance(o.u)
		if r.m == m8141 {
			r.v.URN = o.u
		} else {
			*r.u = *o.u
		}
		return firstWord(o.origin), func() string { return fmt.Sprintf("%+v", snapOf(o.u)) }
	}
}

// decode decodes a document in one of the ways. It tells whether the
// document reaches the receiver as it is.
func (w *worker) decode(r *receiver, doc string) (how string, err error) {
	switch w.r.n(4) {
	case 0:
		return "json.Unmarshal", json.Unmarshal([]byte(doc), r.target())
	case 1:
		return "UnmarshalJSON", r.unmarshal([]byte(doc))
	case 2:
		return "Decoder", json.NewDecoder(strings.NewReader(doc + " ")).Decode(r.target())
	}
	switch r.m {
	case m7643:
		return "member", json.Unmarshal([]byte(`{"A":{"B":`+doc+`}}`), &struct{ A struct{ B *urn.SCIM } }{A: struct{ B *urn.SCIM }{r.s}})
	case m8141:
		return "member", json.Unmarshal([]byte(`{"A":{"B":`+doc+`}}`), &struct{ A struct{ B *urn.URN8141 } }{A: struct{ B *urn.URN8141 }{r.v}})
	}
	return "member", json.Unmarshal([]byte(`{"A":{"B":`+doc+`}}`), &struct{ A struct{ B *urn.URN } }{A: struct{ B *urn.URN }{r.u}})
}

func checkC13(w *worker, m mode, in string) {
	if len(in) > 20000 {
		in = in[:20000]
	}
	o := refParse(m, in)
	r := newReceiver(m)
	for k := 1 + w.r.n(2); k > 0; k-- { // maybe twice into the same receiver
		doc := w.jsonDoc(in, w.r.n(3))
		key := "json:" + inKey(m, in)
		origin, source := "the same document decoded before", func() string { return "" }
		if k > 1 || w.r.chance(1, 2) {
			origin, source = w.prefill(r)
		}
		before, was := r.text(), source()
		var inner *urn.URN
		if m == m8141 {
			inner = r.v.URN
		}
		how, err := w.decode(r, doc)
		if (err == nil) != o.ok {
			w.violate(key, "%s: decoding %s by %s gives %v, the string it stands for is valid: %v", m, q(doc), how, err, o.ok)
			return
		}
		if err != nil {
			if r.text() != before || m == m8141 && r.v.URN != inner {
				w.violate(key, "%s: decoding %s by %s failed (%v) and changed the receiver (%s) from\n%s\nto\n%s", m, q(doc), how, err, origin, before, r.text())
				return
			}
			w.count(m.String() + " rejected")
		} else {
			if want := wantText(m, &o); r.text() != want {
				w.violate(key, "%s: decoding %s by %s into a receiver (%s) gives\n%s\nparsing gives\n%s", m, q(doc), how, origin, r.text(), want)
				return
			}
			w.count(m.String() + " accepted")
		}
		if now := source(); now != was {
			w.violate(key, "%s: decoding %s by %s changed the URN the receiver was set from (%s) from\n%s\nto\n%s", m, q(doc), how, origin, was, now)
			return
		}
		w.count("receiver: " + origin)
		w.count("by " + how)
		w.nontrivial(m.String(), doc)
		w.samplef("%s %s by %s into %s -> %v", m, q(doc), how, origin, err == nil)
	}
}

// checkC13Bad decodes documents that are no JSON strings, or no JSON.
func checkC13Bad(w *worker, m mode) {
	r := w.r
	valid := w.g.valid(m)
	if len(valid) > 300 {
		valid = valid[:300]
	}
	s := w.jsonDoc(valid, r.n(3))
	var doc string
	switch r.n(10) {
	case 0:
		doc = r.pick([]string{"true", "false", "0", "1", "-1.5e3", "{}", "[]", "123456789012345678901234567890", "[[]]", "{\"urn\":{}}"})
	case 1:
		doc = "[" + s + "]"
	case 2:
		doc = r.pick([]string{`{"URN":`, `{"ID":"ex","SS":`, `{"a":`, `{"Type":1,"Name":`}) + s + "}"
	case 3:
		doc = s[:r.n(len(s))]
	case 4:
		doc = s + r.pick([]string{"x", "\"", "{", ",", "\"\"", s})
	case 5:
		doc = valid
	case 6:
		p := r.n(len(s) + 1)
		doc = s[:p] + r.pick([]string{"\"", "\\", "\\u12", "\\x41", "\n", "\x00", "\t", "\\U0041", "\\ud800", "\x1f"}) + s[p:]
	case 7:
		b := []byte(s)
		b[r.n(len(b))] = byte(r.n(256))
		doc = string(b)
	case 8:
		doc = "'" + valid + "'"
	case 9:
		doc = r.pick([]string{"nul", "nulll", "True", "", " ", "NaN", "+1", "01", "\"", "\\", "{\"a\":}", "[1,]", "undefined", "\xef\xbb\xbf" + s})
	}
	if strings.TrimSpace(doc) == "null" {
		return
	}
	// What does it stand for?
	var str string
	isString := json.Valid([]byte(doc)) && strings.HasPrefix(strings.TrimLeft(doc, " \t\r\n"), "\"")
	want := outcome{}
	if isString {
		if err := json.Unmarshal([]byte(doc), &str); err != nil {
			isString = false
		} else {
			want = refParse(m, str)
		}
	}
	rc := newReceiver(m)
	origin, source := w.prefill(rc)
	before, was := rc.text(), source()
	key := "doc:" + inKey(m, doc)
	var err error
	how := "UnmarshalJSON"
	if r.chance(1, 2) {
		err = rc.unmarshal([]byte(doc))
	} else {
		how = "json.Unmarshal"
		err = json.Unmarshal([]byte(doc), rc.target())
	}
	if (err == nil) != want.ok {
		w.violate(key, "%s: decoding %s by %s gives %v", m, q(doc), how, err)
		return
	}
	if now := source(); now != was {
		w.violate(key, "%s: decoding %s by %s changed the URN the receiver was set from (%s) from\n%s\nto\n%s", m, q(doc), how, origin, was, now)
		return
	}
	if err != nil && rc.text() != before {
		w.violate(key, "%s: decoding %s by %s failed (%v) and changed the receiver (%s) from\n%s\nto\n%s", m, q(doc), how, err, origin, before, rc.text())
		return
	}
	if err == nil && rc.text() != wantText(m, &want) {
		w.violate(key, "%s: decoding %s by %s gives\n%s\nparsing gives\n%s", m, q(doc), how, rc.text(), wantText(m, &want))
		return
	}
	switch {
	case isString:
		w.count("a JSON string after all")
	case json.Valid([]byte(doc)):
		w.count("JSON, not a string")
	default:
		w.count("not JSON")
	}
	w.nontrivial(m.String(), doc)
	w.samplef("%s document %s by %s -> %v", m, q(doc), how, err == nil)
}

func checkC14(w *worker, m mode, in string) {
	o := refParse(m, in)
	u, ok := parseVia(int(w.index), m, []byte(in))
	if !ok || !o.ok {
		w.count("rejected")
		return
	}
	key := inKey(m, in)
	s := u.SCIM()
	if s == nil || !u.IsSCIM() {
		w.violate(key, "%s has no SCIM view", q(in))
		return
	}
	if s.Type != scimTypeNames[o.typ] || s.Type.String() != o.typ || s.Name != o.name || s.Other != o.rest {
		w.violate(key, "the SCIM view of %s has type %q, name %s and rest %s", q(in), s.Type.String(), q(s.Name), q(s.Other))
		return
	}
	if s.String() != o.scimStr() {
		w.violate(key, "the SCIM view of %s reads %s", q(in), q(s.String()))
		return
	}
	if len(in) < 2000 {
		j, err := s.MarshalJSON()
		if t, err2 := jsonString(j); err != nil || err2 != nil || t != o.scimStr() {
			w.violate(key, "the SCIM view of %s is marshaled as %s, %v", q(in), q(string(j)), err)
			return
		}
	}
	if w.r.chance(1, 4) { // the view belongs to this URN alone
		s.Type, s.Name, s.Other = scimschema.Type(w.r.n(5)), "mine", "now"
		u.ID, u.SS = "mine", "now"
		u2, ok := parseVia(w.r.n(4), m, []byte(in))
		if !ok || u2.SCIM() == nil {
			w.violate(key, "%s has no SCIM view when it is parsed again", q(in))
			return
		}
		s2 := u2.SCIM()
		if s2.Type != scimTypeNames[o.typ] || s2.Name != o.name || s2.Other != o.rest || s2.String() != o.scimStr() {
			w.violate(key, "once the SCIM view of a URN was edited, that of another one parsed from %s has type %q, name %s and rest %s", q(in), s2.Type.String(), q(s2.Name), q(s2.Other))
			return
		}
		if s.Name != "mine" || s.Other != "now" {
			w.violate(key, "the SCIM view of %s, edited, changed when the same text was parsed again", q(in))
			return
		}
		w.count("view edited")
	}
	w.count("SCIM type " + o.typ)
	if o.rest == "" {
		w.count("no rest")
	}
	w.nontrivial(in)
	w.samplef("%s -> %s", q(in), scimText(s))
}

func checkTypeName(w *worker, i int64) {
	r := w.r
	names := []string{"schemas", "api", "param"}
	s := r.pick(names)
	switch k := r.n(10); {
	case i < 3:
		s = names[i]
	case k == 0:
		s = w.g.recase(s)
	case k == 1:
		s = w.sibling(s)
	case k == 2:
		p := r.n(len(s) + 1)
		s = s[:p] + string([]byte{byte(r.n(256))}) + s[p:]
	case k == 3:
		s = s[:r.n(len(s)+1)]
	case k == 4:
		s = s + r.pick([]string{"s", " ", ":", "\x00", s, "api"})
	case k == 5:
		s = r.pick([]string{" ", "\t", ":", "x"}) + s
	case k == 6 && len(w.g.d.tokens) > 0:
		s = r.pick(w.g.d.tokens)
	case k == 7:
		s = w.g.soup()
	case k == 8:
		b := make([]byte, r.n(4))
		for i := range b {
			b[i] = byte('a' + r.n(26))
		}
		s = string(b)
	}
	want := scimTypeNames[s] // Unsupported when there is none
	got := scimschema.TypeFromString(s)
	if got != want {
		w.violate("type:"+q(s), "the type of %s is %d (%q), not %d", q(s), int(got), got.String(), int(want))
		return
	}
	if want != scimschema.Unsupported {
		if got.String() != s {
			w.violate("type:"+q(s), "the name of type %s is %q", q(s), got.String())
			return
		}
		w.count("known type name")
	} else {
		w.count("unsupported type name")
	}
	w.nontrivial("type", s)
	w.samplef("%s -> %d", q(s), int(got))
}

func checkTypeValue(w *worker, i int64) {
	x := int(i) - 100000
	if i%5 == 0 {
		x = int(w.r.u64())
	}
	t := scimschema.Type(x)
	want := ""
	for n, v := range scimTypeNames {
		if v == t {
			want = n
		}
	}
	if t.String() != want {
		w.violate(fmt.Sprintf("value:%d", x), "the name of type value %d is %q, not %q", x, t.String(), want)
		return
	}
	w.count("type values")
	w.nontrivial("value", fmt.Sprint(x))
}

// checkScimValue prints SCIM values that do not come from parsing.
func checkScimValue(w *worker, i int64) {
	r := w.r
	typ := r.pick([]string{"schemas", "api", "param"})
	s := &urn.SCIM{Type: scimTypeNames[typ], Name: w.g.body(1+r.n(20), "", 0)}
	want := "urn:ietf:params:scim:" + typ + ":" + s.Name
	if r.chance(2, 3) {
		s.Other = w.g.body(1+r.n(30), "", w.g.style())
		if s.Other == "" {
			s.Other = "o"
		}
		want += ":" + s.Other
	}
	if s.String() != want {
		w.violate("scim:"+want, "the SCIM value %+v reads %s", *s, q(s.String()))
		return
	}
	o := ref7643(want)
	if o.ok {
		u, ok := urn.Parse([]byte(s.String()), opt(m7643))
		if ok && u.SCIM() != nil && (u.SCIM().Type != s.Type || u.SCIM().Name != s.Name || u.SCIM().Other != s.Other) {
			w.violate("scim:"+want, "the SCIM value %+v reads %s, which parses into %s", *s, q(want), scimText(u.SCIM()))
			return
		}
	}
	w.count("SCIM values")
	w.nontrivial("scim", want)
}
