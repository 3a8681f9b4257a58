package main

// Independent reference model of the three URN languages.
//
// It is written from the RFC grammars and the documented conventions, as
// plain recursive scanning: it shares nothing with the automaton under test.
// It is the oracle of every behavioural monitor of this harness.

type mode int

const (
	m2141 mode = iota
	m7643
	m8141
)

var allModes = []mode{m2141, m7643, m8141}

func (m mode) String() string { return [...]string{"RFC2141", "RFC7643", "RFC8141"}[m] }

// Categories of errors: the part of the input that is at fault.
const (
	ePrefix    = "prefix"
	eNID       = "identifier"
	eNSS       = "specific string"
	eReserved  = "reserved identifier"
	eHex       = "percent encoding"
	eScimNS    = "SCIM namespace"
	eScimType  = "SCIM type"
	eScimName  = "SCIM name"
	eScimRest  = "SCIM rest"
	eScimShort = "SCIM rest incomplete"
	eInformal  = "informal identifier"
	eNSS8141   = "specific string (RFC 8141)"
	eNID8141   = "identifier (RFC 8141)"
	eRStart    = "r-component repeated"
	eQStart    = "q-component repeated"
	eRComp     = "r-component"
	eQComp     = "q-component"
	eTail      = "component or fragment"
)

// outcome is what parsing an input in a mode must give.
type outcome struct {
	ok      bool
	prefix  string // as found in the input
	id, ss  string
	r, q, f string
	hash    bool // there is a '#'
	typ     string
	name    string
	rest    string
	cat     string
	col     int
}

func isAlpha(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
func isDigit(c byte) bool { return '0' <= c && c <= '9' }
func isAlnum(c byte) bool { return isAlpha(c) || isDigit(c) }

// isSSS: characters an RFC 2141 specific string may contain by themselves.
func isSSS(c byte) bool {
	if isAlnum(c) {
		return true
	}
	switch c {
	case '(', ')', '+', ',', '-', '.', ':', '=', '@', ';', '$', '_', '!', '*', '\'':
		return true
	}
	return false
}

// isPlainPchar: a pchar but for percent encodings.
func isPlainPchar(c byte) bool { return isSSS(c) || c == '~' || c == '&' }

func lowerB(c byte) byte {
	if 'A' <= c && c <= 'Z' {
		return c + 32
	}
	return c
}

func foldEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := 0; i < len(a); i++ {
		if lowerB(a[i]) != lowerB(b[i]) {
			return false
		}
	}
	return true
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = lowerB(b[i])
	}
	return string(b)
}

// normSS lowers the two characters after each percent sign.
func normSS(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		if b[i] == '%' {
			for k := 1; k <= 2 && i+k < len(b); k++ {
				b[i+k] = lowerB(b[i+k])
			}
			i += 2
		}
	}
	return string(b)
}

func fail(cat string, col int) outcome { return outcome{cat: cat, col: col} }

// refPrefix checks "urn:". It returns false and the column when it is wrong.
func refPrefix(in string) (bool, int) {
	for i := 0; i < 4; i++ {
		if i >= len(in) || lowerB(in[i]) != "urn:"[i] {
			return false, i
		}
	}
	return true, 0
}

func refParse(m mode, in string) outcome {
	switch m {
	case m2141:
		return ref2141(in)
	case m7643:
		return ref7643(in)
	}
	return ref8141(in)
}

func ref2141(in string) outcome {
	if ok, col := refPrefix(in); !ok {
		return fail(ePrefix, col)
	}
	n := len(in)
	p := 4
	for ; p < n; p++ {
		c := in[p]
		if c == ':' && p > 4 {
			break
		}
		if p-4 >= 32 || !(isAlnum(c) || c == '-' && p > 4) {
			return fail(eNID, p)
		}
	}
	if p >= n {
		return fail(eNID, n)
	}
	id := in[4:p]
	if foldEq(id, "urn") {
		return fail(eReserved, p)
	}
	start := p + 1
	if cat, col := scanSSS(in, start); cat != 0 {
		if cat == 2 {
			return fail(eHex, col)
		}
		return fail(eNSS, col)
	}
	return outcome{ok: true, prefix: in[:3], id: id, ss: in[start:]}
}

// scanSSS checks that in[start:] is a non-empty RFC 2141 specific string.
// It returns 0, or 1 for a wrong character (or nothing at all) and 2 for a
// wrong percent encoding, and the column.
func scanSSS(in string, start int) (int, int) {
	n := len(in)
	if start >= n {
		return 1, n
	}
	for p := start; p < n; p++ {
		if in[p] == '%' {
			for k := 1; k <= 2; k++ {
				if p+k >= n || !isAlnum(in[p+k]) {
					return 2, p + k
				}
			}
			p += 2
			continue
		}
		if !isSSS(in[p]) {
			return 1, p
		}
	}
	return 0, 0
}

const scimNS = "ietf:params:scim"

func ref7643(in string) outcome {
	if ok, col := refPrefix(in); !ok {
		return fail(ePrefix, col)
	}
	n := len(in)
	want := scimNS + ":"
	for i := 0; i < len(want); i++ {
		if 4+i >= n || in[4+i] != want[i] {
			return fail(eScimNS, 4+i)
		}
	}
	ts := 4 + len(want)
	typ := ""
	col := ts
	for _, cand := range []string{"schemas:", "api:", "param:"} {
		i := 0
		for i < len(cand) && ts+i < n && in[ts+i] == cand[i] {
			i++
		}
		if i == len(cand) {
			typ = cand[:len(cand)-1]
		}
		if ts+i > col {
			col = ts + i
		}
	}
	if typ == "" {
		return fail(eScimType, col)
	}
	ns := ts + len(typ) + 1
	p := ns
	for p < n && isAlnum(in[p]) {
		p++
	}
	o := outcome{ok: true, prefix: in[:3], id: scimNS, ss: in[ts:], typ: typ, name: in[ns:p]}
	if p == ns {
		return fail(eScimName, p)
	}
	if p == n {
		return o
	}
	if in[p] != ':' {
		return fail(eScimName, p)
	}
	if cat, col := scanSSS(in, p+1); cat != 0 {
		if col >= n {
			return fail(eScimShort, n-1)
		}
		return fail(eScimRest, col)
	}
	o.rest = in[p+1:]
	return o
}

// hexAt checks the percent encoding at p; it returns the column of the first
// wrong character, or -1.
func hexAt(in string, p int) int {
	for k := 1; k <= 2; k++ {
		if p+k >= len(in) || !isAlnum(in[p+k]) {
			return p + k
		}
	}
	return -1
}

func ref8141(in string) outcome {
	if ok, col := refPrefix(in); !ok {
		return fail(ePrefix, col)
	}
	n := len(in)
	p := 4
	for ; p < n; p++ {
		c := in[p]
		l := p - 4 // characters of the identifier so far
		if c == ':' {
			if l < 2 || in[p-1] == '-' {
				return fail(eNID8141, p)
			}
			break
		}
		if l == 4 && foldEq(in[4:8], "urn-") && (isAlpha(c) || c == '0') {
			return fail(eInformal, 7)
		}
		if l >= 32 || !(isAlnum(c) || c == '-' && l > 0 && l < 31) {
			return fail(eNID8141, p)
		}
	}
	if p >= n {
		return fail(eNID8141, n)
	}
	o := outcome{ok: true, prefix: in[:3], id: in[4:p]}
	start := p + 1
	// specific string
	p = start
	for p < n {
		c := in[p]
		if c == '%' {
			if col := hexAt(in, p); col >= 0 {
				return fail(eHex, col)
			}
			p += 3
			continue
		}
		if isPlainPchar(c) || c == '/' && p > start {
			p++
			continue
		}
		break
	}
	if p == start {
		return fail(eNSS8141, p)
	}
	o.ss = in[start:p]
	if p == n {
		return o
	}
	switch in[p] {
	case '#':
		return refFragment(in, p, o)
	case '?':
		if p+1 < n && in[p+1] == '+' {
			return refR(in, p+2, o)
		}
		if p+1 < n && in[p+1] == '=' {
			return refQ(in, p+2, o)
		}
		return fail(eTail, p+1)
	}
	return fail(eNSS8141, p)
}

// goesOnAt tells whether what is at p makes a delimiter right before it a
// repeated one: a pchar, a question mark, a fragment, or the end.
func goesOnAt(in string, p int) bool {
	return p == len(in) || isPlainPchar(in[p]) || in[p] == '%' || in[p] == '?' || in[p] == '#'
}

// refR reads an r-component from p (after its "?+").
func refR(in string, start int, o outcome) outcome {
	n := len(in)
	p := start
	if p >= n {
		return fail(eRComp, n)
	}
	if in[p] == '?' { // only a repeated "?+" is looked at
		if p+1 < n && in[p+1] == '+' {
			if goesOnAt(in, p+2) {
				return fail(eRStart, p+2)
			}
			return fail(eRComp, p+2)
		}
		return fail(eRComp, p+1)
	}
	if in[p] == '/' || in[p] == '#' {
		return fail(eRComp, p)
	}
	for p < n {
		c := in[p]
		switch {
		case c == '%':
			if col := hexAt(in, p); col >= 0 {
				return fail(eHex, col)
			}
			p += 3
		case isPlainPchar(c) || c == '/':
			p++
		case c == '#':
			o.r = in[start:p]
			return refFragment(in, p, o)
		case c == '?':
			if p+1 < n && in[p+1] == '+' {
				if goesOnAt(in, p+2) {
					return fail(eRStart, p+2)
				}
			}
			if p+1 < n && in[p+1] == '=' && p+2 < n && (isPlainPchar(in[p+2]) || in[p+2] == '%') {
				o.r = in[start:p]
				return refQ(in, p+2, o)
			}
			p++
		default:
			return fail(eRComp, p)
		}
	}
	o.r = in[start:]
	return o
}

// refQ reads a q-component from p (after its "?=").
func refQ(in string, start int, o outcome) outcome {
	n := len(in)
	p := start
	if p >= n {
		return fail(eQComp, n)
	}
	if in[p] == '?' {
		if p+1 < n && in[p+1] == '=' {
			if goesOnAt(in, p+2) {
				return fail(eQStart, p+2)
			}
			return fail(eQComp, p+2)
		}
		return fail(eQComp, p+1)
	}
	if in[p] == '/' || in[p] == '#' {
		return fail(eQComp, p)
	}
	for p < n {
		c := in[p]
		switch {
		case c == '%':
			if col := hexAt(in, p); col >= 0 {
				return fail(eHex, col)
			}
			p += 3
		case isPlainPchar(c) || c == '/':
			p++
		case c == '#':
			o.q = in[start:p]
			return refFragment(in, p, o)
		case c == '?':
			if p+1 < n && in[p+1] == '=' && goesOnAt(in, p+2) {
				return fail(eQStart, p+2)
			}
			p++
		default:
			return fail(eQComp, p)
		}
	}
	o.q = in[start:]
	return o
}

// refFragment reads the fragment introduced by the '#' at p.
func refFragment(in string, at int, o outcome) outcome {
	n := len(in)
	for p := at + 1; p < n; {
		c := in[p]
		switch {
		case c == '%':
			if col := hexAt(in, p); col >= 0 {
				return fail(eHex, col)
			}
			p += 3
		case isPlainPchar(c) || c == '/' || c == '?':
			p++
		default:
			return fail(eTail, p)
		}
	}
	o.f = in[at+1:]
	o.hash = true
	return o
}

// str is the string form of an accepted input.
func (o *outcome) str() string {
	s := o.prefix + ":" + o.id + ":" + o.ss
	if o.r != "" {
		s += "?+" + o.r
	}
	if o.q != "" {
		s += "?=" + o.q
	}
	if o.f != "" {
		s += "#" + o.f
	}
	return s
}

func (o *outcome) normID() string  { return lowerASCII(o.id) }
func (o *outcome) normStr() string { return "urn:" + o.normID() + ":" + normSS(o.ss) }

// scimStr is the string form of the SCIM view.
func (o *outcome) scimStr() string {
	s := "urn:" + scimNS + ":" + o.typ + ":" + o.name
	if o.rest != "" {
		s += ":" + o.rest
	}
	return s
}
