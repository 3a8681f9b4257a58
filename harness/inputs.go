package main

import (
	"fmt"
	"strings"
)

// family is a finite list of inputs meant for one mode.
type family struct {
	name string
	n    int64
	at   func(w *worker, i int64) string
}

// inputs are the workloads shared by the properties about single inputs.
// weight scales the random part.
func inputs(e *env, m mode, random int64) []family {
	var fs []family
	ex := exemplars(m)
	fs = append(fs, family{"exemplars", int64(len(ex)), func(w *worker, i int64) string { return ex[i] }})
	c := newCover(m)
	fs = append(fs, family{"cover", c.size(), func(w *worker, i int64) string { return c.at(i) }})
	for k, b := range boundedSets(m, e.thorough) {
		b := b
		fs = append(fs, family{fmt.Sprintf("bounded%d", k), b.size(), func(w *worker, i int64) string { return b.at(i) }})
	}
	lens := sweepLens(e.dict, 1<<17)
	for k := range shapes {
		sh := shapes[k]
		if sh.m != m {
			continue
		}
		fs = append(fs, family{"sweep-" + sh.name, int64(len(lens)), func(w *worker, i int64) string { return sh.f(lens[i]) }})
	}
	for _, k := range stretchLens(e) {
		st := &stretched{stretchHeads[m], k.ns, &bounded{"", "", chars(stretchTails[m]), k.max}}
		fs = append(fs, family{fmt.Sprintf("stretched-%d", k.ns[len(k.ns)-1]), st.size(), func(w *worker, i int64) string { return st.at(i) }})
	}
	if e.thorough || strings.Contains("C02 C03 C04 C15 C19", e.prop) {
		ps := pairPrefixes[m]
		fs = append(fs, family{"byte-pairs", int64(len(ps)) << 16, func(w *worker, i int64) string {
			return ps[i>>16] + string([]byte{byte(i >> 8), byte(i)})
		}})
	}
	wr := wrappers(e.dict)
	bases := wrapBases[m]
	fs = append(fs, family{"wrapped", int64(len(wr) * len(bases) * 3), func(w *worker, i int64) string {
		k := int(i) % 3
		t := wr[int(i)/3%len(wr)]
		b := bases[int(i)/3/len(wr)]
		switch k {
		case 0:
			return t[0] + b
		case 1:
			return b + t[1]
		}
		return t[0] + b + t[1]
	}})
	fs = append(fs, family{"huge", int64(len(hugeShapes[m]) * len(hugeLens(e))), func(w *worker, i int64) string {
		ls := hugeLens(e)
		n := ls[int(i)%len(ls)]
		return hugeShapes[m][int(i)/len(ls)](n)
	}})
	fs = append(fs, family{"random", random, func(w *worker, i int64) string { return w.g.any(m) }})
	return fs
}

// stretched is everything that may come after a long part: each head ends in
// a unit repeated to a length, then comes any single byte or any few tokens.
type stretched struct {
	heads [][2]string
	ns    []int
	tails *bounded
}

func (s *stretched) size() int64 {
	return int64(len(s.heads)) * int64(len(s.ns)) * (256 + s.tails.size())
}

func (s *stretched) at(i int64) string {
	h := s.heads[i%int64(len(s.heads))]
	i /= int64(len(s.heads))
	n := s.ns[i%int64(len(s.ns))]
	i /= int64(len(s.ns))
	tail := ""
	if i < 256 {
		tail = string([]byte{byte(i)})
	} else {
		tail = s.tails.at(i - 256)
	}
	if n >= 37 {
		n /= len(h[1])
	}
	return h[0] + strings.Repeat(h[1], n) + tail
}

type stretchLen struct {
	ns  []int
	max int
}

func stretchLens(e *env) []stretchLen {
	var short []int
	for i := 1; i <= 130; i++ {
		if i <= 70 || i > 120 {
			short = append(short, i)
		}
	}
	if e.thorough {
		return []stretchLen{{short, 3}, {[]int{37, 259}, 5}, {[]int{4099}, 4}, {[]int{70001}, 3}, {[]int{140001}, 2}, {[]int{1<<20 + 7}, 1}}
	}
	return []stretchLen{{short, 2}, {[]int{37, 259}, 4}, {[]int{70001}, 3}}
}

// pairPrefixes stand for the situations a parser may be in; what comes next
// is any two bytes.
var pairPrefixes = map[mode][]string{
	m2141: {"", "u", "uR", "urn", "urn:", "urn:a", "urn:u", "urn:Ur", "urn:urn", "urn:a-", "urn:" + strings.Repeat("a", 30), "urn:" + strings.Repeat("a", 31), "urn:" + strings.Repeat("a", 32), "urn:ex:", "urn:ex:a", "urn:ex:%", "urn:ex:%4", "urn:ex:%4F"},
	m7643: {"", "u", "uR", "urn", "urn:", "urn:i", "urn:ietf", "urn:ietf:", "urn:ietf:params", "urn:ietf:params:s", "urn:ietf:params:scim", "urn:ietf:params:scim:", "urn:ietf:params:scim:a", "urn:ietf:params:scim:ap", "urn:ietf:params:scim:api", "urn:ietf:params:scim:api:", "urn:ietf:params:scim:s", "urn:ietf:params:scim:schemas", "urn:ietf:params:scim:schemas:", "urn:ietf:params:scim:par", "urn:ietf:params:scim:param", "urn:ietf:params:scim:param:", "urn:ietf:params:scim:api:n", "urn:ietf:params:scim:api:n:", "urn:ietf:params:scim:api:n:o", "urn:ietf:params:scim:api:n:%", "urn:ietf:params:scim:api:n:%4", "urn:ietf:params:scim:api:n:%4F"},
	m8141: {"", "u", "uR", "urn", "urn:", "urn:e", "urn:ex", "urn:ex-", "urn:u", "urn:uR", "urn:urn", "urn:urn-", "urn:urn-1", "urn:" + strings.Repeat("a", 30), "urn:" + strings.Repeat("a", 31), "urn:" + strings.Repeat("a", 32), "urn:ex:", "urn:ex:s", "urn:ex:s/", "urn:ex:%", "urn:ex:%4", "urn:ex:%4F", "urn:ex:s?", "urn:ex:s?+", "urn:ex:s?+r", "urn:ex:s?+r/", "urn:ex:s?+r?", "urn:ex:s?+r?x", "urn:ex:s?+%", "urn:ex:s?+r%", "urn:ex:s?+r%4", "urn:ex:s?+r?+", "urn:ex:s?+r?=", "urn:ex:s?+r?=q", "urn:ex:s?=", "urn:ex:s?=q", "urn:ex:s?=q?", "urn:ex:s?=%", "urn:ex:s?=q%", "urn:ex:s?=q%4", "urn:ex:s?=q?=", "urn:ex:s?=q?+", "urn:ex:s#", "urn:ex:s#f", "urn:ex:s#%", "urn:ex:s#f%4", "urn:ex:s?+r#", "urn:ex:s?=q#", "urn:ex:s?+r?=q#f"},
}

var stretchHeads = map[mode][][2]string{
	m2141: {{"urn:ex:", "s"}, {"URN:Ex-1:", "S:"}, {"urn:ex:", "%AF"}},
	m7643: {{"urn:ietf:params:scim:api:", "n"}, {"urn:ietf:params:scim:api:n:", "o"}, {"URN:ietf:params:scim:schemas:N:", "%Af"}},
	m8141: {{"urn:ex:", "s"}, {"URN:Ex-1:a", "/"}, {"urn:ex:", "%Af"}, {"urn:ex:s?+", "r"}, {"urn:ex:s?+r", "?"}, {"urn:ex:s?=", "q"}, {"urn:ex:s?+r?=q", "/?"}, {"urn:ex:s#", "f"}, {"urn:ex:s?+r?=q#", "%aF"}},
}

var stretchTails = map[mode]string{m2141: "a%4:/?#", m7643: "aA%4:/-", m8141: "a%4/?#+=^"}

// wrappers are what might be put before and after a URN.
func wrappers(d *dictionary) [][2]string {
	out := [][2]string{{"<", ">"}, {"<URL:", ">"}, {"<URN:", ">"}, {"URL:", ""}, {"URI:", ""}, {"url:urn:", ""}, {"(", ")"}, {"[", "]"}, {"{", "}"}, {"\"", "\""}, {"'", "'"}, {"`", "`"}, {"urn:", ":"}, {"urn:urn:", "::"},
		{"//", "//"}, {"http://", "/"}, {"http://n2t.net/", "/."}, {"info:", ";"}, {"doi:", "."}, {"URN", ","}, {":", ":urn"}, {"+", "+"}, {"%", "%"}, {"%20", "%20"}, {"%00", "%00"}, {"%0", "%0"}, {"?", "?"}, {"#", "#"}, {"##", "##"}, {"?+", "?+"}, {"?=", "?="}, {"-", "-"}, {"..", ".."}, {"&amp;", "&amp;"}, {"\\", "\\"}, {"u", "x"}, {"\x1b[0m", "\x1b[0m"}}
	for _, s := range []string{" ", "  ", "\t", "\n", "\n\n", "\r\n", "\r", "\v", "\f", "\x00", "\x00\x00", "\x1a", "\x04", "\x1f", "\x7f", "\x80", "\x85", "\xa0", "\xff", "\xfe\xff", "\xff\xfe", "\u0085", "\u00a0", "\u00ad", "\u2028", "\u2029", "\u200b", "\u200e", "\u2060", "\u3000", "\ufeff", "\u1680", "\u2003", "\u0301", "\U000e0020", "e\u0301", "\u017f", "\u212a", "\uff0f"} {
		out = append(out, [2]string{s, s})
	}
	for _, t := range d.tokens {
		out = append(out, [2]string{t, t})
	}
	return out
}

var wrapBases = map[mode][]string{
	m2141: {"urn:a:b", "URN:Ex-1:aB%4fc:d", "urn:ex:" + strings.Repeat("long", 20), "urn:ietf:params:scim:api:a", ""},
	m7643: {"urn:ietf:params:scim:api:a", "URN:ietf:params:scim:schemas:core:2.0:User", "urn:ietf:params:scim:param:n:%4f" + strings.Repeat("long", 20), ""},
	m8141: {"urn:ex:a", "URN:Ex-1:a/B%4f?+r?=q#f", "urn:ex:a?+r", "urn:ex:a?=q", "urn:ex:a#f", "urn:urn-7:x?=q#" + strings.Repeat("long", 20), "urn:ex:a#", ""},
}

// hugeLens are lengths no test would try.
func hugeLens(e *env) []int {
	out := []int{1<<20 + 1, 1<<24 + 5}
	if e.thorough {
		out = []int{1<<20 + 1, 1<<22 + 1, 1<<24 + 5, 1<<26 + 1}
	}
	for _, i := range e.dict.large {
		out = append(out, i, i+1)
	}
	return out
}

var hugeShapes = map[mode][]func(n int) string{
	m2141: {
		func(n int) string { return "urn:ex:" + strings.Repeat("aB-%4f", n/6+1) },
		func(n int) string { return "urn:ex:" + strings.Repeat("aB-%4f", n/6+1) + "%" },
	},
	m7643: {
		func(n int) string {
			return "urn:ietf:params:scim:api:" + strings.Repeat("n", n) + ":" + strings.Repeat("o%aF", 10)
		},
		func(n int) string { return "urn:ietf:params:scim:api:n:" + strings.Repeat("o%aF", n/4+1) },
		func(n int) string { return "urn:ietf:params:scim:api:n:" + strings.Repeat("o%aF", n/4+1) + "/" },
	},
	m8141: {
		func(n int) string { return "urn:ex:" + strings.Repeat("aB/%4F", n/6+1) + "?+r?=q#f" },
		func(n int) string {
			return "urn:ex:a?+" + strings.Repeat("r/?", n/9+1) + "?=" + strings.Repeat("q?/", n/9+1) + "#" + strings.Repeat("f/?", n/9+1)
		},
		func(n int) string { return "urn:ex:a#" + strings.Repeat("f", n) + "#" },
	},
}

// sibling makes a near-duplicate.
func (w *worker) sibling(s string) string {
	// same length, one place different
	b := []byte(s)
	if len(b) == 0 {
		return "x"
	}
	p := w.r.n(len(b))
	if w.r.chance(1, 2) && len(b) > 6 {
		p = 4 + w.r.n(len(b)-4)
	}
	switch w.r.n(5) {
	case 4: // two places swapped
		k := w.r.n(len(b))
		if w.r.chance(1, 2) && p > 0 {
			k = p - 1
		}
		b[p], b[k] = b[k], b[p]
	case 0:
		if isAlpha(b[p]) {
			b[p] ^= 32
		} else {
			b[p] = w.r.pickB(alnums)
		}
	case 1:
		b[p] = w.r.pickB(alnums + sssOther + "/?#%&~")
	case 2:
		b[p] = byte(w.r.n(256))
	case 3:
		for i := range b {
			if isAlpha(b[i]) && w.r.chance(1, 3) {
				b[i] ^= 32
			}
		}
	}
	return string(b)
}

// inputStreams makes streams out of the inputs of a mode.
func inputStreams(e *env, m mode, random int64, check func(w *worker, m mode, in string)) []stream {
	var out []stream
	for _, f := range inputs(e, m, random) {
		f := f
		s := stream{name: m.String() + "/" + f.name, n: f.n, run: func(w *worker, i int64) {
			check(w, m, f.at(w, i))
		}}
		if f.name == "huge" {
			s.chunk, s.workers = 1, 4
		}
		out = append(out, s)
	}
	// families of near-duplicates, one right after the other: what a call
	// leaves behind must not show in the next ones
	out = append(out, stream{name: m.String() + "/siblings", n: random / 12, run: func(w *worker, i int64) {
		base := w.g.any(m)
		if len(base) > 2000 {
			base = base[:2000]
		}
		check(w, m, base)
		prev := base
		for k := 0; k < 4; k++ {
			x := base
			if w.r.chance(1, 3) {
				x = prev
			}
			if w.r.chance(1, 8) {
				x += w.r.pick(edits)
			} else {
				x = w.sibling(x)
			}
			check(w, m, x)
			w.evals++
			prev = x
			if w.r.chance(1, 2) {
				check(w, m, base)
				w.evals++
			}
		}
	}})
	// texts that common hashes do not tell apart, one right after the other
	cs := collidingContexts[m]
	out = append(out, stream{name: m.String() + "/colliding", n: int64(len(colliding) * len(cs)), run: func(w *worker, i int64) {
		c, p := cs[int(i)%len(cs)], colliding[int(i)/len(cs)]
		for _, x := range []string{p[1], p[2], p[1], p[2]} {
			check(w, m, c[0]+x+c[1])
			w.evals++
		}
	}})
	return out
}

const scimStart = "urn:" + scimNS + ":"

var collidingContexts = map[mode][][2]string{
	m2141: {{"urn:ex:", ""}, {"urn:ex:", "z%4F"}, {"urn:ex", ":s"}, {"urn:", ":s"}, {"URN:ex:", ""}, {"urn:", ":%4f"}, {"urn:ex:%4f", ""}, {"urn:ex:", "{"}, {"urn:ex:", "%"}},
	m7643: {{scimStart + "api:", ""}, {scimStart + "api:", ":o"}, {scimStart + "param:n:", ""}, {scimStart + "api:n:", "%4F"}, {"urn:", ":s"}, {scimStart, ":n"}, {scimStart + "api:", "-"}},
	m8141: {{"urn:ex:", ""}, {"urn:ex:", "/%4F"}, {"urn:ex", ":s"}, {"urn:", ":s"}, {"urn:ex:a?+", ""}, {"urn:ex:a?=", ""}, {"urn:ex:a#", ""}, {"urn:ex:a?+", "?=q"}, {"urn:ex:", "?+r?=q#f"}, {"urn:ex:", "?"}},
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n <= 8:
		return "1-8"
	case n <= 32:
		return "9-32"
	case n <= 64:
		return "33-64"
	case n <= 256:
		return "65-256"
	case n <= 4096:
		return "257-4096"
	case n <= 65536:
		return "4097-65536"
	}
	return "65537+"
}
