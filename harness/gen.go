package main

import (
	"sort"
	"strings"
)

// This file holds the workloads: everything that decides which inputs are
// tried. Each of them is a finite list of cases addressed by index, so that a
// run is a function of (tier, seed, tree) only.

const (
	alnums   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	sssOther = "()+,-.:=@;$_!*'"
	pcOther  = "~&"
)

// ---- exemplars and the transition cover

// exemplars reach, through their prefixes, the distinct situations an input
// can be in for each mode.
func exemplars(m mode) []string {
	nid31 := "a" + strings.Repeat("b", 29) + "c"
	ss := []string{"x", "a%2Fb", "a%c3%A9B", "Az09()+,-.:=@;$_!*'%zZ", ":", "%7E%7e:-", "urn:ex:x", "0"}
	ids := []string{"a", "ex", "eX1", "a-b", "A--9", "urn1", "uRn-", "urn-1", "URN-12", "urnx", "ur", "u", "uab", "un", "urx", "ua-", "u-n", "u-n-0", nid31, nid31 + "d", "z" + strings.Repeat("-", 30) + "a", "9" + strings.Repeat("Z-", 15) + "1", "urn-9" + strings.Repeat("a", 27), "ietf", "isbn", "uuid"}
	var out []string
	switch m {
	case m2141:
		for i, id := range ids {
			for j, s := range ss {
				if i < 3 || j < 2 {
					out = append(out, "urn:"+id+":"+s)
				}
			}
		}
		out = append(out, "URN:foo:a123,456", "uRN:fOo:a%41", "UrN:u:r:n", "urn:ietf:params:scim:api:x:y")
	case m7643:
		for _, t := range []string{"schemas", "api", "param"} {
			for _, tail := range []string{"core", "C0re9:2.0:User", "a:b", "Z:%2F%aF%Zz9", "m:Az09()+,-.:=@;$_!*'", "n::", "core:2.0:User:a%7Eb:"} {
				out = append(out, "urn:"+scimNS+":"+t+":"+tail)
			}
		}
		out = append(out, "URN:"+scimNS+":api:x", "uRn:"+scimNS+":param:Y:z")
	case m8141:
		tails := []string{"", "?+a", "?=a", "#", "#a", "?+a?=b#c", "?+a?b/c%2Fd?", "?=a?b/c%2Fd?+e?", "#/?a%2f~&", "?+%41b?=%41b#%41", "?+a?=", "?+a??=b?/?#?", "?+a?+/b?=c", "?+a?=/b?=c?=/d", "?=a?=/b", "?+~&()+,-.:=@;$_!*'", "?+a?=?=b#", "?=~#~", "?+A/?B?=C/?D#E/?F"}
		for i, id := range ids {
			if len(id) < 2 {
				continue
			}
			for j, s := range ss {
				if i < 2 || j < 2 {
					out = append(out, "urn:"+id+":"+s)
				}
			}
		}
		for _, t := range tails {
			out = append(out, "urn:ex:e"+t, "URN:eX:a/~&%2F"+t)
		}
	}
	return out
}

// coverPrefixes are all the prefixes of the exemplars of a mode.
func coverPrefixes(m mode) []string {
	set := map[string]bool{}
	for _, e := range exemplars(m) {
		for i := 0; i <= len(e); i++ {
			set[e[:i]] = true
		}
	}
	out := make([]string, 0, len(set))
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// coverSuffixes tell situations apart: whatever the situation after a byte,
// some of them is accepted, split or refused differently.
func coverSuffixes(m mode) []string {
	common := []string{"", "a", ":x", "A", "x:y", "4F", "F", "%4F", "-", "{", "\n"}
	switch m {
	case m2141:
		return append(common, "urn:x", "n:ex:x", "rn:a:b", "-b:x%Ab", strings.Repeat("b", 30)+":x", strings.Repeat("b", 31)+":x", "/", "?", "#", ":x%")
	case m7643:
		return append(common, ":core:a%4F", "api:a", "emas:a:b", "m:x", "scim:param:x", ":ietf:params:scim:api:a", "ms:scim:api:a:%aF", "::", ":a:b:", "%", "%4")
	}
	return append(common, "/", "?", "?+a", "?=a", "#", "#f%4F?/", "+b?=c#d", "=b", "=b?=c", "?+b?+c", "+/b", "?=/x?=y", "a?b?=c", strings.Repeat("b", 29)+":x?+r?=q#f", strings.Repeat("b", 30)+":x", "-1:y/z", "1:y?=%Aa")
}

type cover struct {
	pre, suf []string
}

func (c *cover) size() int64 { return int64(len(c.pre)) * 256 * int64(len(c.suf)) }

func (c *cover) at(i int64) string {
	s := c.suf[i%int64(len(c.suf))]
	i /= int64(len(c.suf))
	b := byte(i % 256)
	i /= 256
	return c.pre[i] + string([]byte{b}) + s
}

func newCover(m mode) *cover { return &cover{coverPrefixes(m), coverSuffixes(m)} }

// ---- bounded-exhaustive enumerations

// bounded is: head, then every string over the tokens of at most max tokens,
// then tail.
type bounded struct {
	head, tail string
	toks       []string
	max        int
}

func (b *bounded) size() int64 {
	t, k := int64(0), int64(1)
	for l := 0; l <= b.max; l++ {
		t += k
		k *= int64(len(b.toks))
	}
	return t
}

func (b *bounded) at(i int64) string {
	n := int64(len(b.toks))
	l, k := 0, int64(1)
	for i >= k {
		i -= k
		k *= n
		l++
	}
	var sb strings.Builder
	sb.WriteString(b.head)
	for ; l > 0; l-- {
		sb.WriteString(b.toks[i%n])
		i /= n
	}
	sb.WriteString(b.tail)
	return sb.String()
}

func chars(s string) []string { return strings.Split(s, "") }

func boundedSets(m mode, thorough bool) []*bounded {
	x := 0
	if thorough {
		x = 1
	}
	pre := &bounded{"", "", chars("uUrRnN:a-\n"), 4 + x}
	switch m {
	case m2141:
		return []*bounded{
			pre,
			{"urn:", "", chars("urNa-0:%"), 5 + x},
			{"urn:", ":x", chars("uURrNna-0"), 4 + x},
			{"UrN:a:", "", chars("aA%4:/?#-"), 5 + x},
			{"urn:a:", "%4F", chars("aZ%0'+\x00\x80"), 4 + x},
		}
	case m7643:
		return []*bounded{
			pre,
			{"urn:ietf:params:scim:", "", []string{"schemas", "api", "param", "params", "Api", ":", "a", "Z9", "%4F", "%", "-"}, 4 + x},
			{"urn:ietf:params:scim:api:", "", chars("aA%4:/-9"), 5 + x},
			{"urn:", "api:a", []string{"ietf", "params", "scim", ":", "IETF", "", "i"}, 5 + x},
		}
	}
	return []*bounded{
		pre,
		{"urn:", "", chars("urNa-0:1"), 5 + x},
		{"urn:", ":x", chars("uURrNna-01"), 4 + x},
		{"urn:uRn-", ":x", chars("aZ019-[_`"), 4 + x},
		{"urn:ex:", "", chars("aA%4:/?#+=~{"), 4 + x},
		{"urn:ex:e?", "", chars("+=?a/%4#"), 5 + x},
		{"urn:ex:e?+a", "", chars("+=?a/%4#"), 5 + x},
		{"urn:ex:e?=a", "", chars("+=?a/%4#"), 5 + x},
		{"urn:ex:e", "", []string{"?+", "?=", "#", "a", "/", "?", "%4F", "&"}, 5 + x},
	}
}

// ---- grammar-directed random inputs

type gen struct {
	r *rng
	d *dictionary
}

// length picks how long (or how many) something is: mostly short, sometimes
// around a power of two, or a number found in the sources.
func (g *gen) length(max int) int {
	r := g.r
	n := 0
	switch k := r.n(40); {
	case k < 24:
		n = 1 + r.n(8)
	case k < 33:
		n = 1 + r.n(40)
	case k < 36:
		n = 1 + r.n(300)
	case k < 37:
		n = 1<<uint(r.n(11)) + r.n(3) - 1
	default:
		if len(g.d.ints) > 0 {
			n = g.d.ints[r.n(len(g.d.ints))] + r.n(3) - 1
			if n > 5000 && !r.chance(1, 20) {
				n = 1 + r.n(100)
			}
		}
	}
	if n < 1 {
		n = 1
	}
	if n > max {
		n = 1 + r.n(max)
	}
	return n
}

func (g *gen) prefix() string {
	if g.r.chance(1, 2) {
		return "urn"
	}
	return g.recase("urn")
}

// recase flips the case of letters at random.
func (g *gen) recase(s string) string {
	b := []byte(s)
	k := g.r.n(3)
	for i := range b {
		if isAlpha(b[i]) {
			switch k {
			case 0:
				b[i] = lowerB(b[i])
			case 1:
				b[i] = lowerB(b[i]) - 32
			default:
				if g.r.chance(1, 2) {
					b[i] ^= 32
				}
			}
		}
	}
	return string(b)
}

// filter keeps of s the bytes that are valid as a token of an identifier
// (id) or of a specific string or component.
func filterTok(s string, id bool) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if isAlnum(c) || c == '-' || !id && isSSS(c) {
			b = append(b, c)
		}
	}
	return string(b)
}

var wellKnownIDs = []string{"ietf", "isbn", "uuid", "oid", "lex", "example", "urn-5", "urn-1", "urn7", "urna", "uci", "u", "ur", "x", "URN1", "nbn", "issn", "epc", "mpeg", "burn", "xn--a", "a-1"}

func (g *gen) nid(m mode) string {
	r := g.r
	min := 1
	if m == m8141 {
		min = 2
	}
	switch r.n(10) {
	case 0, 1:
		s := r.pick(wellKnownIDs)
		if len(s) >= min {
			return g.recase(s)
		}
	case 2:
		if len(g.d.tokens) > 0 {
			s := filterTok(r.pick(g.d.tokens), true)
			s = strings.Trim(s, "-")
			if len(s) > 32 {
				s = strings.Trim(s[:32], "-")
			}
			if len(s) >= min && !foldEq(s, "urn") && !strings.HasPrefix(strings.ToLower(s), "urn-") {
				return s
			}
		}
	}
	n := min + r.n(33-min)
	switch r.n(6) {
	case 0:
		n = 32
	case 1:
		n = 31
	case 2, 3:
		n = min + r.n(6)
	}
	set := alnums
	switch r.n(6) {
	case 0:
		set = "0123456789"
	case 1:
		set = "urnURN"
	case 2:
		set = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	}
	b := make([]byte, n)
	dash := r.n(4)
	for i := range b {
		b[i] = r.pickB(set)
		if dash == 0 && i > 0 && (m != m8141 || i < n-1) && r.chance(1, 3) {
			b[i] = '-'
		}
	}
	s := string(b)
	if foldEq(s, "urn") {
		s = "urm"
	}
	if m == m8141 && n > 4 && foldEq(s[:4], "urn-") && !('1' <= s[4] && s[4] <= '9') {
		s = "urm" + s[3:]
	}
	return s
}

// body makes n units of a specific string or component. extra are characters
// allowed besides the RFC 2141 ones.
func (g *gen) body(n int, extra string, style int) string {
	r := g.r
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch k := r.n(16); style {
		case 0: // plain text
			sb.WriteByte(r.pickB(alnums))
		case 1: // mostly percent encodings
			if k < 12 {
				g.hex(&sb)
			} else {
				sb.WriteByte(r.pickB(alnums))
			}
		case 2: // punctuation
			sb.WriteByte(r.pickB(sssOther + extra))
		case 3: // one character over and over
			if i == 0 {
				style = 3
			}
			sb.WriteByte("aA0:-+="[n%7])
		default:
			switch {
			case k < 8:
				sb.WriteByte(r.pickB(alnums))
			case k < 10:
				g.hex(&sb)
			case k < 12 && extra != "":
				sb.WriteByte(r.pickB(extra))
			case k < 13 && len(g.d.tokens) > 0 && r.chance(1, 3):
				sb.WriteString(filterTok(r.pick(g.d.tokens), false))
			default:
				sb.WriteByte(r.pickB(sssOther))
			}
		}
	}
	return sb.String()
}

func (g *gen) hex(sb *strings.Builder) {
	r := g.r
	set := "0123456789abcdefABCDEF"
	switch r.n(8) {
	case 0:
		set = alnums
	case 1:
		set = "ABCDEF"
	case 2:
		set = "F0f"
	}
	sb.WriteByte('%')
	sb.WriteByte(r.pickB(set))
	sb.WriteByte(r.pickB(set))
}

func (g *gen) style() int { return g.r.n(8) }

func (g *gen) nss2141() string {
	s := g.body(g.length(1<<16), "", g.style())
	if s == "" {
		return "x"
	}
	return s
}

// component makes the text of an r- or a q-component.
func (g *gen) component(extraQ bool) string {
	extra := "/~&"
	if extraQ {
		extra = "/~&?"
	}
	s := g.body(g.length(1<<15), extra, g.style())
	for len(s) > 0 && (s[0] == '/' || s[0] == '?') {
		s = s[1:]
	}
	if s == "" {
		s = "c"
	}
	return s
}

// valid makes an input that is (with few exceptions) accepted in the mode.
func (g *gen) valid(m mode) string {
	r := g.r
	var s string
	if r.chance(1, 16) {
		return g.echo(m)
	}
	switch m {
	case m2141:
		s = g.prefix() + ":" + g.nid(m) + ":" + g.nss2141()
	case m7643:
		s = g.prefix() + ":" + scimNS + ":" + r.pick([]string{"schemas", "api", "param"}) + ":" + g.body(g.length(1<<14), "", 0)
		if r.chance(3, 4) {
			s += ":" + g.nss2141()
		}
	case m8141:
		ss := g.body(g.length(1<<16), "/~&", g.style())
		for len(ss) > 0 && ss[0] == '/' {
			ss = ss[1:]
		}
		if ss == "" {
			ss = "s"
		}
		s = g.prefix() + ":" + g.nid(m) + ":" + ss + g.tail()
	}
	return s
}

// echo makes an input that has the same text, or nearly, in several parts.
func (g *gen) echo(m mode) string {
	r := g.r
	id := g.nid(m)
	t := id
	if r.chance(1, 2) {
		t = g.body(1+r.n(12), "", g.style())
	}
	part := func() string {
		switch r.n(6) {
		case 0:
			return strings.ToUpper(t)
		case 1:
			return t + t
		case 2:
			return strings.ToLower(t)
		case 3:
			return g.body(len(t), "", 0)
		}
		return t
	}
	switch m {
	case m2141:
		return g.prefix() + ":" + id + ":" + part()
	case m7643:
		typ := r.pick([]string{"schemas", "api", "param"})
		t = r.pick([]string{typ, "ietf", "params", "scim", "urn", g.body(1+r.n(8), "", 0)})
		return g.prefix() + ":" + scimNS + ":" + typ + ":" + part() + ":" + part()
	}
	s := g.prefix() + ":" + id + ":" + part()
	if r.chance(2, 3) {
		s += "?+" + part()
	}
	if r.chance(2, 3) {
		s += "?=" + part()
	}
	if r.chance(2, 3) {
		s += "#" + part()
	}
	return s
}

// tail makes the components of an RFC 8141 URN.
func (g *gen) tail() string {
	r := g.r
	s := ""
	if r.chance(2, 5) {
		s += "?+" + g.component(r.chance(1, 2))
	}
	if r.chance(2, 5) {
		s += "?=" + g.component(r.chance(1, 2))
	}
	if r.chance(2, 5) {
		s += "#" + g.fragment()
	}
	return s
}

func (g *gen) fragment() string {
	if g.r.chance(1, 6) {
		return ""
	}
	return g.body(g.length(1<<15), "/~&?", g.style())
}

var edits = []string{"?", "#", "?+", "?=", "%", ":", "/", "+", "=", "-", "~", "&", "urn", "urn:", "\n", "\r", " ", "\x00", "{", "%4", "%G1", "%zz", "\xc3\xa9", "\x7f", "\xff", "[", "^", "|", "\"", "<", "::", "0", "u", "A"}

// mutate edits s at a few places.
func (g *gen) mutate(s string) string {
	r := g.r
	for k := 1 + r.n(3); k > 0; k-- {
		p := 0
		if len(s) > 0 {
			p = r.n(len(s) + 1)
			if r.chance(1, 3) && len(s) > 45 {
				p = r.n(45)
			} else if r.chance(1, 4) {
				p = len(s) - r.n(min2(len(s), 4)+1)
			}
		}
		switch r.n(8) {
		case 0, 1:
			s = s[:p] + r.pick(edits) + s[p:]
		case 2:
			if p < len(s) {
				s = s[:p] + s[p+1:]
			}
		case 3:
			s = s[:p]
		case 4:
			if p < len(s) {
				s = s[:p] + string([]byte{byte(r.n(256))}) + s[p+1:]
			}
		case 5:
			if p < len(s) {
				e := r.pick(edits)
				s = s[:p] + e + s[p+1:]
			}
		case 6:
			if p < len(s) {
				q := p + 1 + r.n(min2(len(s)-p, 8))
				if q > len(s) {
					q = len(s)
				}
				s = s[:q] + s[p:]
			}
		case 7:
			if len(g.d.tokens) > 0 {
				s = s[:p] + r.pick(g.d.tokens) + s[p:]
			}
		}
	}
	return s
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// soup makes unstructured bytes.
func (g *gen) soup() string {
	r := g.r
	n := r.n(24)
	if r.chance(1, 20) {
		n = r.n(2000)
	}
	b := make([]byte, n)
	k := r.n(4)
	for i := range b {
		switch k {
		case 0:
			b[i] = byte(r.n(256))
		case 1:
			b[i] = r.pickB("urnURN::-%?#=+a")
		case 2:
			b[i] = byte(32 + r.n(95))
		default:
			b[i] = r.pickB(alnums + sssOther + "?/#%&~")
		}
	}
	s := string(b)
	if r.chance(1, 2) {
		s = r.pick([]string{"urn:", "urn:a:", "urn:ex:e", "urn:ex:e?+", "urn:ex:e?=a", "urn:ex:e#", "urn:ietf:params:scim:", "urn:ietf:params:scim:api:a:"}) + s
	}
	return s
}

// any makes an input of any of the kinds above.
func (g *gen) any(m mode) string {
	switch k := g.r.n(20); {
	case k < 10:
		return g.valid(m)
	case k < 16:
		return g.mutate(g.valid(m))
	case k < 17:
		return g.valid(allModes[g.r.n(3)])
	default:
		return g.soup()
	}
}

// ---- sweeps over lengths and counts

// sweepLens are all small lengths, and those around powers of two and around
// the numbers found in the sources.
func sweepLens(d *dictionary, max int) []int {
	set := map[int]bool{}
	for i := 0; i <= 300; i++ {
		set[i] = true
	}
	for k := 8; k <= 20; k++ {
		for e := -2; e <= 2; e++ {
			set[1<<uint(k)+e] = true
		}
	}
	for _, i := range []int{500, 1000, 3000, 10000, 50000, 100000} {
		set[i] = true
	}
	for _, i := range d.ints {
		for e := -2; e <= 2; e++ {
			set[i+e] = true
		}
	}
	var out []int
	for i := range set {
		if i >= 0 && i <= max {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return out
}

// shapes build an input around a repeated unit.
var shapes = []struct {
	name string
	m    mode
	f    func(n int) string
}{
	{"id", m2141, func(n int) string { return "urn:" + strings.Repeat("a", n) + ":b" }},
	{"ID-", m2141, func(n int) string { return "URN:" + strings.Repeat("A-", n/2) + strings.Repeat("z", n%2) + ":b%AF" }},
	{"ss", m2141, func(n int) string { return "urn:a:" + strings.Repeat("b", n) }},
	{"total", m2141, func(n int) string { return rep("urn:ab:", "xY", n) }},
	{"hex", m2141, func(n int) string { return "urn:ab:" + strings.Repeat("%AF", n) + "Z" }},
	{"hex-sparse", m2141, func(n int) string {
		return "urn:ab:" + strings.Repeat("Q", n) + "%AF" + strings.Repeat("Q", n) + "%aF%Fa"
	}},
	{"colons", m2141, func(n int) string { return "urn:ab:" + strings.Repeat(":", n) + "x" }},
	{"bad-end", m2141, func(n int) string { return "urn:ab:" + strings.Repeat("b", n) + "{" }},
	{"hex-cut", m2141, func(n int) string { return "urn:ab:" + strings.Repeat("%Ab", n) + "%A" }},
	{"junk", m2141, func(n int) string { return "x" + strings.Repeat("{", n) }},
	{"newlines", m2141, func(n int) string { return strings.Repeat("\n", n) + "urn:a:b" }},
	{"name", m7643, func(n int) string { return "urn:ietf:params:scim:api:" + strings.Repeat("n", n) }},
	{"name-rest", m7643, func(n int) string {
		return "urn:ietf:params:scim:schemas:" + strings.Repeat("nM", n/2) + "a:" + strings.Repeat("%Fa", n%17) + "z"
	}},
	{"rest", m7643, func(n int) string { return "URN:ietf:params:scim:param:a:" + strings.Repeat("R", n) }},
	{"rest-hex", m7643, func(n int) string { return "urn:ietf:params:scim:param:a:" + strings.Repeat("%AZ", n) + ":" }},
	{"rest-colon", m7643, func(n int) string { return "urn:ietf:params:scim:api:a:" + strings.Repeat("b:", n) }},
	{"rest-bad", m7643, func(n int) string { return "urn:ietf:params:scim:api:a:" + strings.Repeat("b", n) + "%" }},
	{"id8", m8141, func(n int) string { return "urn:" + strings.Repeat("a", n) + ":b" }},
	{"id8-", m8141, func(n int) string { return "urn:a" + strings.Repeat("-", n) + "b:c/d" }},
	{"informal", m8141, func(n int) string { return "urn:urn-" + strings.Repeat("7", n) + ":b" }},
	{"ss8", m8141, func(n int) string { return "urn:ex:s" + strings.Repeat("/", n) }},
	{"ss8-all", m8141, func(n int) string { return rep("urn:ex:", "a/~&%AF", n) }},
	{"hex8", m8141, func(n int) string { return "urn:ex:" + strings.Repeat("%AF", n) + "?+%AF?=%AF#%AF" }},
	{"r", m8141, func(n int) string { return "urn:ex:e?+" + strings.Repeat("r", n) }},
	{"r?", m8141, func(n int) string { return "urn:ex:e?+r" + strings.Repeat("?", n) }},
	{"r?x", m8141, func(n int) string { return "urn:ex:e?+r" + strings.Repeat("?x", n) + "?=q#f" }},
	{"r-hex", m8141, func(n int) string {
		return "urn:ex:%AF?+" + strings.Repeat("%AF", n) + "?=" + strings.Repeat("%FA", n%97+1)
	}},
	{"r?=/", m8141, func(n int) string { return "urn:ex:e?+r" + strings.Repeat("?=/", n) }},
	{"r?+/", m8141, func(n int) string { return "urn:ex:e?+r" + strings.Repeat("?+/", n) }},
	{"q", m8141, func(n int) string { return "urn:ex:e?=" + strings.Repeat("q", n) }},
	{"q?", m8141, func(n int) string { return "urn:ex:e?=q" + strings.Repeat("?", n) + "#" }},
	{"q?/", m8141, func(n int) string { return "urn:ex:e?+r?=q" + strings.Repeat("?/+", n) + "#f" }},
	{"f", m8141, func(n int) string { return "urn:ex:e#" + strings.Repeat("f", n) }},
	{"f?", m8141, func(n int) string { return "urn:ex:e?+r#" + strings.Repeat("?/", n) }},
	{"f-hex", m8141, func(n int) string { return "urn:ex:e?=q#" + strings.Repeat("%AF", n) }},
	{"total8", m8141, func(n int) string { return rep("urn:ex:e?+r?=q#", "f", n) }},
	{"total8r", m8141, func(n int) string { return rep("urn:ex:e?+", "r?", n) }},
	{"f-bad", m8141, func(n int) string { return "urn:ex:e#" + strings.Repeat("f", n) + "#" }},
	{"r-bad", m8141, func(n int) string { return "urn:ex:e?+r" + strings.Repeat("?", n) + "{" }},
	{"q-bad", m8141, func(n int) string { return "urn:ex:e?=q" + strings.Repeat("?", n) + "?=x" }},
	{"junk8", m8141, func(n int) string { return "urn:ex:" + strings.Repeat("\x00", n) }},
	{"all", m8141, func(n int) string {
		k := n / 5
		return "urn:ex:" + strings.Repeat("s", k+1) + "?+" + strings.Repeat("r", k+1) + "?=" + strings.Repeat("q", k+1) + "#" + strings.Repeat("f", n-3*k)
	}},
}

// rep makes a string of exactly n bytes (at least len(head)).
func rep(head, unit string, n int) string {
	if n <= len(head) {
		return head
	}
	k := (n - len(head)) / len(unit)
	s := head + strings.Repeat(unit, k)
	return s + strings.Repeat("z", n-len(s))
}
