package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C01 to C06, C15 and C16: monitors of single parses, against the model.

const (
	qRandom = 1200000
	tRandom = 60000000
)

func inKey(m mode, in string) string {
	if len(in) > 200 {
		return fmt.Sprintf("%s:%d:%016x", m, len(in), hashStr(in))
	}
	return fmt.Sprintf("%s:%s", m, strconv.Quote(in))
}

func observe(w *worker, m mode, in string, o *outcome) {
	if o.ok {
		w.count(m.String() + " accepted")
		if m == m8141 {
			t := ""
			if o.r != "" {
				t += "r"
			}
			if o.q != "" {
				t += "q"
			}
			if o.f != "" {
				t += "f"
			} else if o.hash {
				t += "#"
			}
			w.count("RFC8141 accepted with components [" + t + "]")
		}
	} else {
		w.count(m.String() + " rejected: " + o.cat)
	}
	w.count("length " + bucket(len(in)))
	if len(in) >= 4 {
		w.nontrivial(m.String(), in)
	}
	w.samplef("%s %s -> accepted=%v %s col=%d", m, q(in), o.ok, o.cat, o.col)
}

const inputRule = "Inputs: every prefix of a set of exemplars, one of the 256 bytes, one of a set of suffixes (a cover of (situation, byte) pairs); every string over small alphabets up to a length; repeated units at all small lengths, powers of two and numbers in the sources, up to 131073; grammar-directed random inputs, their mutations, and families of near-duplicates checked one after the other. "

func init() {
	register(&property{
		id:   "C01",
		rule: inputRule + "Each goes through Parse, Machine.Parse and Machine.Error, in every mode in turn. Non-trivial: at least 4 bytes, counted by (mode, input).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom/2, tRandom/2), checkC01)...)
			}
			return out
		},
	})
	for _, x := range []struct {
		id string
		m  mode
	}{{"C02", m2141}, {"C03", m8141}, {"C04", m7643}} {
		m := x.m
		register(&property{
			id:   x.id,
			rule: inputRule + "Each is parsed in the mode and accepted or not is compared with an independent model of the language. Non-trivial: at least 4 bytes, counted by (mode, input).",
			streams: func(e *env) []stream {
				n := e.N(3*qRandom, 2*tRandom)
				out := inputStreams(e, m, n, checkAccept)
				// what the other modes take for valid
				for _, o := range allModes {
					o := o
					if o != m {
						out = append(out, stream{name: m.String() + "/of-" + o.String(), n: n / 8, run: func(w *worker, i int64) {
							checkAccept(w, m, w.g.any(o))
						}})
					}
				}
				return out
			},
		})
	}
	register(&property{
		id:   "C05",
		rule: inputRule + "The string form of each accepted one is compared with the input, then parsed again. Non-trivial: accepted inputs, counted by (mode, input).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom, tRandom/2), checkC05)...)
			}
			return out
		},
	})
	register(&property{
		id:   "C06",
		rule: inputRule + "The parts, the kind and the SCIM view of each accepted one are compared with those an independent model cuts out of the input. Non-trivial: accepted inputs, counted by (mode, input).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom, tRandom/2), checkC06)...)
			}
			return out
		},
	})
	register(&property{
		id:   "C15",
		rule: inputRule + "The error of each rejected one is compared with the part and the column an independent model blames; the bytes after the offending one are changed to see that the error stays. Non-trivial: rejected inputs of at least 4 bytes, counted by (mode, input).",
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom/2, tRandom/2), checkC15)...)
			}
			return out
		},
	})
}

func checkC01(w *worker, m mode, in string) {
	// mostly the mode the input is meant for, sometimes another
	given := []urn.Option{opt(m)}
	name := m.String()
	switch k := w.index % 13; {
	case k == 3:
		given, name, m = nil, "no option", m2141
	case k == 6:
		given, name, m = []urn.Option{urn.WithParsingMode(urn.Default)}, "Default", m2141
	case k == 9:
		x := int(w.index/13)%4096 - 100
		if x >= 0 && x <= 3 {
			x = 1 << 30
		}
		given, name, m = []urn.Option{urn.WithParsingMode(urn.ParsingMode(x))}, fmt.Sprintf("unknown mode %d", x), m2141
	case k == 11:
		m = allModes[w.r.n(3)]
		given, name = []urn.Option{opt(m)}, m.String()
	}
	key := inKey(m, in)
	b := w.bytes(in)
	if len(b) == 0 && w.index&1 == 0 {
		b = nil
	}
	u, ok := urn.Parse(b, given...)
	mc := urn.NewMachine(given...)
	if mc.Error() != nil {
		w.violate(key, "a new machine reports the error %v", mc.Error())
	}
	mu, err := mc.Parse(b)
	if (mu == nil) == (err == nil) {
		w.violate(key, "%s: Machine.Parse of %s gave URN %v and error %v", name, q(in), mu, err)
		return
	}
	if ok != (u != nil) {
		w.violate(key, "%s: Parse of %s gave URN %v and success %v", name, q(in), u, ok)
		return
	}
	if ok != (err == nil) {
		w.violate(key, "%s: on %s Parse says success=%v and Machine.Parse error %v", name, q(in), ok, err)
		return
	}
	if mc.Error() != err && (mc.Error() == nil || err == nil || mc.Error().Error() != err.Error()) {
		w.violate(key, "%s: after %s the machine reports error %v, the parse gave %v", name, q(in), mc.Error(), err)
	}
	if err != nil && err.Error() == "" {
		w.violate(key, "%s: empty error on %s", name, q(in))
	}
	if ok && len(in) < 200 {
		if a, b := snapOf(u), snapOf(mu); a != b {
			w.violate(key, "%s: Parse and Machine.Parse of %s differ:%s", name, q(in), a.diff(b))
		}
	}
	// a machine that has parsed before
	used, _ := w.data["used machine"].(urn.Machine)
	if used == nil || w.r.chance(1, 400) {
		used = urn.NewMachine()
		w.data["used machine"] = used
	}
	if len(given) > 0 {
		given[0](used)
	} else {
		used.WithParsingMode(urn.RFC2141Only)
	}
	uu, uerr := used.Parse(b)
	if (uu == nil) == (uerr == nil) || (uerr == nil) != ok {
		w.violate(fmt.Sprintf("used:%s", key), "%s: a machine that has parsed before gives for %s URN %v and error %v, a new one error %v", name, q(in), uu, uerr, err)
		return
	}
	if e := used.Error(); (e == nil) != (uerr == nil) || e != nil && e.Error() != uerr.Error() {
		w.violate(fmt.Sprintf("used:%s", key), "%s: after %s a machine that has parsed before reports error %v, the parse gave %v", name, q(in), e, uerr)
		return
	}
	if err == nil {
		w.count(m.String() + " success")
	} else {
		w.count(m.String() + " error")
	}
	if len(in) >= 4 {
		w.nontrivial(name[:2], m.String(), in)
	}
	w.count("length " + bucket(len(in)))
	w.samplef("%s %s -> %v", name, q(in), ok)
}

func checkAccept(w *worker, m mode, in string) {
	o := refParse(m, in)
	_, ok := parseVia(int(w.index), m, w.bytes(in))
	if ok != o.ok {
		if ok {
			w.violate(inKey(m, in), "%s mode accepts %s, which is not in the language (%s, column %d)", m, q(in), o.cat, o.col)
		} else {
			w.violate(inKey(m, in), "%s mode rejects %s, which is in the language", m, q(in))
		}
		return
	}
	observe(w, m, in, &o)
}

func checkC05(w *worker, m mode, in string) {
	u, ok := parseVia(int(w.index), m, w.bytes(in))
	if !ok {
		w.count(m.String() + " rejected")
		return
	}
	s := u.String()
	key := inKey(m, in)
	if s != in {
		bare := m == m8141 && strings.HasSuffix(in, "#") && strings.Count(in, "#") == 1 && s == in[:len(in)-1]
		if !bare {
			w.violate(key, "%s: %s comes back as %s", m, q(in), q(s))
			return
		}
		w.count("bare trailing # dropped")
	}
	u2, ok := parseVia(int(w.index)+1, m, []byte(s))
	if !ok {
		w.violate(key, "%s: %s is accepted, and comes back as %s, which is rejected", m, q(in), q(s))
		return
	}
	if a, b := snapOf(u2), snapOf(u); a != b {
		w.violate(key, "%s: %s comes back as %s, whose parts differ:%s", m, q(in), q(s), a.diff(b))
		return
	}
	w.count(m.String() + " round trips")
	w.count("length " + bucket(len(in)))
	w.nontrivial(m.String(), in)
	w.samplef("%s %s -> %s", m, q(in), q(s))
}

func checkC06(w *worker, m mode, in string) {
	o := refParse(m, in)
	u, ok := parseVia(int(w.index), m, w.bytes(in))
	if !ok || !o.ok { // whether to accept is for other properties
		w.count(m.String() + " rejected")
		return
	}
	key := inKey(m, in)
	got, want := snapOf(u), wantSnap(m, &o)
	// only the parts: forms and normalization are for other properties
	got.str, got.nstr, got.nid, got.nss = want.str, want.nstr, want.nid, want.nss
	if m == m7643 {
		if u.SCIM() == nil {
			w.violate(key, "no SCIM details for %s", q(in))
			return
		}
		want.scim, got.scim = "", ""
	}
	if got != want {
		w.violate(key, "%s: %s:%s", m, q(in), got.diff(want))
		return
	}
	scribble(w, u)
	observe(w, m, in, &o)
}

// scribble writes over a URN: it belongs to the caller, who may change it, and
// no later parse may give it again.
func scribble(w *worker, u *urn.URN) {
	switch w.r.n(4) {
	case 0:
		return
	case 1:
		u.SS = "over%3C"
	case 2:
		u.ID, u.SS = "scribbled", ""
	case 3:
		*u = urn.URN{ID: "scribbled", SS: "over"}
		return
	}
	if s := u.SCIM(); s != nil {
		s.Type, s.Name, s.Other = 1+scimschema.Type(w.r.n(3)), "scribbled", "over"
	}
}

var catWords = map[string]string{
	ePrefix: "expecting the prefix", eNID: "expecting the identifier to be string", eNSS: "expecting the specific string to be a string",
	eReserved: "reserved string", eHex: "percent encoded", eScimNS: "SCIM namespace", eScimType: "SCIM type", eScimName: "SCIM name part",
	eScimRest: "well-formed other SCIM", eScimShort: "not empty SCIM other", eInformal: "informal URN namespace",
	eNSS8141: "expecting the specific string to contain", eNID8141: "length 2 to 32", eRStart: "only one r-component", eQStart: "only one q-component",
	eRComp: "non-empty r-component", eQComp: "non-empty q-component", eTail: "to follow the specific string",
}

var colRE = regexp.MustCompile(`\[col (-?\d+)\]$`)

func errParts(msg string) (cat string, col int) {
	for c, words := range catWords {
		if strings.Contains(msg, words) {
			if cat != "" {
				return "ambiguous", -1
			}
			cat = c
		}
	}
	i := strings.LastIndex(msg, "[col ")
	if i < 0 || !strings.HasSuffix(msg, "]") {
		return cat, -1 << 30
	}
	n, err := strconv.Atoi(msg[i+5 : len(msg)-1])
	if err != nil {
		n = -1 << 30
	}
	return cat, n
}

func checkC15(w *worker, m mode, in string) {
	o := refParse(m, in)
	mc := urn.NewMachine(opt(m))
	_, err := mc.Parse([]byte(in))
	if err == nil || o.ok { // whether to accept is for other properties
		w.count(m.String() + " accepted")
		return
	}
	key := inKey(m, in)
	msg := err.Error()
	cat, col := errParts(msg)
	if cat != o.cat || col != o.col {
		w.violate(key, "%s: the error on %s is %q; what is wrong is the %s, column %d", m, q(in), msg, o.cat, o.col)
		return
	}
	if e := mc.Error(); e == nil || e.Error() != msg {
		w.violate(key, "%s: the machine reports %v for %s, the parse %q", m, e, q(in), msg)
		return
	}
	// what comes after the offending byte does not matter
	if o.col < len(in) && o.cat != eScimShort && w.index%4 == 0 {
		end := o.col + 1
		if o.cat == eInformal {
			end = 9
		}
		x := in[:end]
		switch w.r.n(3) {
		case 0:
			x += w.r.pick(edits)
		case 1:
			x += w.g.soup()
		}
		_, err2 := urn.NewMachine(opt(m)).Parse([]byte(x))
		if err2 == nil || err2.Error() != msg {
			w.violate(key, "%s: the error on %s is %q, but on %s it is %v", m, q(in), msg, q(x), err2)
			return
		}
		w.count("continuations changed")
	}
	observe(w, m, in, &o)
}
