package main

import (
	"encoding/json"
	"fmt"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// This file is the only one that knows how to call the code under test. It
// uses its public interface only.

func (m mode) sut() urn.ParsingMode {
	switch m {
	case m7643:
		return urn.RFC7643Only
	case m8141:
		return urn.RFC8141Only
	}
	return urn.RFC2141Only
}

func (m mode) kind() urn.Kind {
	switch m {
	case m7643:
		return urn.RFC7643
	case m8141:
		return urn.RFC8141
	}
	return urn.RFC2141
}

func opt(m mode) urn.Option { return urn.WithParsingMode(m.sut()) }

// snap is all that can be observed of a URN.
type snap struct {
	str, id, ss, r, q, f string
	rfc                  urn.Kind
	isSCIM               bool
	scim                 string
	nstr, nid, nss       string
}

func scimText(s *urn.SCIM) string {
	if s == nil {
		return "none"
	}
	return fmt.Sprintf("%d|%s|%s|%s", int(s.Type), s.Name, s.Other, s.String())
}

func snapOf(u *urn.URN) snap {
	// In this order: what a call changes shows in what is read before it.
	s := snap{
		id: u.ID, ss: u.SS,
		r: u.RComponent(), q: u.QComponent(), f: u.FComponent(),
		rfc: u.RFC(), isSCIM: u.IsSCIM(), scim: scimText(u.SCIM()),
		str: u.String(),
	}
	n := u.Normalize()
	s.nstr, s.nid, s.nss = n.String(), n.ID, n.SS
	return s
}

var scimTypeNames = map[string]scimschema.Type{"schemas": scimschema.Schemas, "api": scimschema.API, "param": scimschema.Param}

// wantSnap is what must be observed of the URN of an accepted input.
func wantSnap(m mode, o *outcome) snap {
	s := snap{
		str: o.str(), id: o.id, ss: o.ss, r: o.r, q: o.q, f: o.f,
		rfc: m.kind(), isSCIM: m == m7643, scim: "none",
		nstr: o.normStr(), nid: o.normID(), nss: normSS(o.ss),
	}
	if m == m7643 {
		s.scim = fmt.Sprintf("%d|%s|%s|%s", int(scimTypeNames[o.typ]), o.name, o.rest, o.scimStr())
	}
	return s
}

func (s snap) diff(t snap) string {
	d := ""
	add := func(name, a, b string) {
		if a != b {
			d += fmt.Sprintf(" %s is %s, not %s;", name, q(a), q(b))
		}
	}
	add("string form", s.str, t.str)
	add("identifier", s.id, t.id)
	add("specific string", s.ss, t.ss)
	add("r-component", s.r, t.r)
	add("q-component", s.q, t.q)
	add("f-component", s.f, t.f)
	add("RFC", fmt.Sprint(int(s.rfc)), fmt.Sprint(int(t.rfc)))
	add("IsSCIM", fmt.Sprint(s.isSCIM), fmt.Sprint(t.isSCIM))
	add("SCIM view", s.scim, t.scim)
	add("normal form", s.nstr, t.nstr)
	add("normalized identifier", s.nid, t.nid)
	add("normalized specific string", s.nss, t.nss)
	return d
}

// q quotes a string, shortening long ones.
func q(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes)...%q", s[:150], len(s), s[len(s)-100:])
	}
	return fmt.Sprintf("%q", s)
}

// parsed is the result of a parse, by whichever entry point.
type parsed struct {
	u    *urn.URN
	err  error // nil for the boolean form
	ok   bool
	text string // how it was called
}

// bytes gives an input as bytes: for half of the time in the memory that held
// the ones before it.
func (w *worker) bytes(in string) []byte {
	if w.index&8 == 0 {
		return []byte(in)
	}
	w.buf = append(w.buf[:0], in...)
	if len(in) > 1<<16 {
		b := w.buf
		w.buf = nil
		return b
	}
	return w.buf
}

// parseVia parses through one of the entry points.
func parseVia(how int, m mode, b []byte) (*urn.URN, bool) {
	if len(b) == 0 && how&4 != 0 {
		b = nil
	}
	switch how & 3 {
	case 0:
		u, ok := urn.Parse(b, opt(m))
		return u, ok && u != nil
	case 1:
		u, err := urn.NewMachine(opt(m)).Parse(b)
		return u, err == nil && u != nil
	case 2:
		if m == m2141 {
			u, ok := urn.Parse(b)
			return u, ok && u != nil
		}
		u, err := urn.NewMachine(opt(m)).Parse(b)
		return u, err == nil && u != nil
	}
	mc := urn.NewMachine()
	mc.WithParsingMode(m.sut())
	u, err := mc.Parse(b)
	return u, err == nil && u != nil
}

func jsonString(b []byte) (string, error) {
	var s string
	err := json.Unmarshal(b, &s)
	return s, err
}

func jsonOf(in string) []byte {
	b, _ := json.Marshal(in)
	return b
}
