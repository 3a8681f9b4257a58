package main

import (
	"encoding/json"
	"fmt"
	"os"
	"syscall"
	"unsafe"

	urn "github.com/leodido/go-urn"
)

// C09: the memory of the input is shown to the code under test through a
// read-only mapping between two inaccessible ones, and written through
// another mapping of the same memory. A write, or a read outside of it, faults
// at once.

const (
	arenaPages = 64
	pageSize   = 4096
	arenaSize  = arenaPages * pageSize
)

type arena struct {
	rw, ro []byte
}

func newArena() *arena {
	f, err := os.CreateTemp("", "verif-arena-")
	if err != nil {
		fatal("arena: %v", err)
	}
	os.Remove(f.Name())
	if err := f.Truncate(arenaSize); err != nil {
		fatal("arena: %v", err)
	}
	rw, err := syscall.Mmap(int(f.Fd()), 0, arenaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fatal("arena: %v", err)
	}
	base, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, arenaSize+2*pageSize, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON, ^uintptr(0), 0)
	if e != 0 {
		fatal("arena: %v", e)
	}
	ro, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+pageSize, arenaSize, syscall.PROT_READ, syscall.MAP_SHARED|syscall.MAP_FIXED, f.Fd(), 0)
	if e != 0 || ro != base+pageSize {
		fatal("arena: %v", e)
	}
	f.Close()
	a := &arena{rw: rw}
	a.ro = unsafe.Slice((*byte)(ptr(ro)), arenaSize)
	return a
}

// ptr avoids vet's complaint: the memory is not Go's.
func ptr(u uintptr) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&u)) }

// placed is an input in the arena.
type placed struct {
	at, n int
	ro    []byte // what the code under test gets
	lo    int    // the region to scribble over
	hi    int
	desc  string
}

var contexts = []string{"", "urn:ex:", "%", "%4", "u", "ur", "urn:", ":", "urn:ex:a%", "?+", "?=", "#"}
var followers = []string{"", "abc", "4F", "F", "%4F", ":x", "n:ex:a", "a#b", "?+b?=c", "\x00", "\n", "/x", "?", "=x"}

func (w *worker) place(in string) placed {
	a := w.arena
	n := len(in)
	if n > arenaSize-4096 {
		panic(harnessFailure("input too long for the arena"))
	}
	r := w.r
	p := placed{n: n}
	capEnd := 0
	switch r.n(4) {
	case 0: // right before inaccessible memory
		p.at = arenaSize - n
		capEnd = arenaSize
		p.desc = "right before inaccessible memory"
		c := r.pick(contexts)
		if p.at > len(c) {
			copy(a.rw[p.at-len(c):], c)
		}
		p.lo, p.hi = p.at-len(c), arenaSize
	case 1: // right after inaccessible memory
		p.at = 0
		capEnd = n
		p.desc = "right after inaccessible memory"
		f := r.pick(followers)
		copy(a.rw[n:], f)
		if r.chance(1, 2) {
			capEnd = n + len(f)
			p.desc += ", with capacity to spare"
		}
		p.lo, p.hi = 0, n+len(f)
	default: // in between of bytes that would go on well
		c, f := r.pick(contexts), r.pick(followers)
		p.at = 64 + len(c) + r.n(64)
		copy(a.rw[p.at-len(c):], c)
		copy(a.rw[p.at+n:], f)
		capEnd = p.at + n
		if r.chance(1, 2) {
			capEnd = p.at + n + len(f) + r.n(100)
		}
		p.desc = fmt.Sprintf("after %q and before %q, capacity %d", c, f, capEnd-p.at)
		p.lo, p.hi = p.at-len(c), p.at+n+len(f)
	}
	if p.lo < 0 {
		p.lo = 0
	}
	copy(a.rw[p.at:p.at+n], in)
	p.ro = a.ro[p.at : p.at+n : capEnd]
	return p
}

// scribble overwrites the input after the call.
func (w *worker) scribble(p placed) {
	c := byte("\x00#aZ%~"[w.r.n(6)])
	b := w.arena.rw[p.lo:p.hi]
	for i := range b {
		b[i] = c
	}
}

func init() {
	register(&property{
		id:   "C09",
		rule: inputRule + "Each is placed in memory that is read-only, next to inaccessible pages or to bytes that would carry on the input, with and without spare capacity, and parsed or decoded there: writes and stray reads fault. Then the memory is overwritten and what was returned is compared with the model. Non-trivial: at least 4 bytes, counted by (mode, input).",
		workers: func(w *worker) {
			w.arena = newArena()
		},
		streams: func(e *env) []stream {
			var out []stream
			for _, m := range allModes {
				out = append(out, inputStreams(e, m, e.N(qRandom/2, tRandom/2), checkC09)...)
				m := m
				out = append(out, stream{name: m.String() + "/json", n: e.N(300000, 15000000), run: func(w *worker, i int64) { checkC09JSON(w, m) }})
			}
			return out
		},
	})
}

func checkC09(w *worker, m mode, in string) {
	if len(in) > arenaSize-4096 {
		return
	}
	key := inKey(m, in)
	p := w.place(in)
	var u *urn.URN
	var ok bool
	var err error
	var mc urn.Machine
	fault := guarded(func() {
		if w.index%2 == 0 {
			mc = urn.NewMachine(opt(m))
			u, err = mc.Parse(p.ro)
			ok = err == nil && u != nil
		} else {
			u, ok = urn.Parse(p.ro, opt(m))
			ok = ok && u != nil
		}
	})
	if fault != "" {
		w.violate(key, "%s: parsing %s, %s, in read-only memory: %s", m, q(in), p.desc, fault)
		return
	}
	if string(p.ro) != in {
		w.violate(key, "%s: parsing %s, %s, changed it into %s", m, q(in), p.desc, q(string(p.ro)))
		return
	}
	if w.index&2 != 0 && len(in) > 0 {
		w.again(m, in, p, mc)
	}
	w.scribble(p)
	// against a parse of a private copy
	var want string
	u2, err2 := urn.NewMachine(opt(m)).Parse([]byte(in))
	ok2 := err2 == nil && u2 != nil
	if ok != ok2 {
		w.violate(key, "%s: parsing %s, %s, gives success=%v, and elsewhere %v", m, q(in), p.desc, ok, ok2)
		return
	}
	if ok {
		got := snapOf(u)
		s2 := snapOf(u2)
		o := refParse(m, in)
		if got != s2 {
			w.violate(key, "%s: the URN of %s, %s, once the input is overwritten:%s", m, q(in), p.desc, got.diff(s2))
			return
		}
		if o.ok && got != wantSnap(m, &o) {
			w.violate(key, "%s: the URN of %s, %s, once the input is overwritten:%s", m, q(in), p.desc, got.diff(wantSnap(m, &o)))
			return
		}
		w.count(m.String() + " accepted")
	} else {
		want = err2.Error()
		if err != nil && err.Error() != want {
			w.violate(key, "%s: the error of %s, %s, is %q once the input is overwritten, elsewhere %q", m, q(in), p.desc, err.Error(), want)
			return
		}
		if mc != nil && (mc.Error() == nil || mc.Error().Error() != want) {
			w.violate(key, "%s: the machine reports %v for %s, %s, once the input is overwritten, elsewhere %q", m, mc.Error(), q(in), p.desc, want)
			return
		}
		w.count(m.String() + " rejected")
	}
	w.count("placed " + p.desc[:9])
	if len(in) >= 4 {
		w.nontrivial(m.String(), in)
	}
	w.samplef("%s %s, %s", m, q(in), p.desc)
}

// again parses in the same memory something else of the same length: an
// outcome depends on the bytes, not on where they are.
func (w *worker) again(m mode, in string, p placed, mc urn.Machine) {
	b := w.arena.rw[p.at : p.at+p.n]
	for i := 1 + w.r.n(3); i > 0; i-- {
		at := w.r.n(len(b))
		if w.r.chance(1, 2) {
			at = len(b) - 1 - w.r.n(1+len(b)/3)
		}
		b[at] = w.r.pick(edits)[0]
	}
	in2 := string(b)
	var u, u2 *urn.URN
	var err, err2 error
	var ok bool
	fault := guarded(func() {
		if mc == nil {
			u, ok = urn.Parse(p.ro, opt(m))
		} else {
			u, err = mc.Parse(p.ro)
			ok = err == nil
		}
	})
	u2, err2 = urn.NewMachine(opt(m)).Parse([]byte(in2))
	key := "again:" + inKey(m, in+"\x00"+in2)
	switch {
	case fault != "":
		w.violate(key, "%s: parsing %s, where %s was before: %s", m, q(in2), q(in), fault)
	case ok != (err2 == nil) || ok && (u == nil || u2 == nil) || err != nil && err.Error() != err2.Error():
		w.violate(key, "%s: parsing %s, where %s was before, gives success=%v, error %v; elsewhere error %v", m, q(in2), q(in), ok, err, err2)
	case ok && snapOf(u) != snapOf(u2):
		w.violate(key, "%s: the URN of %s, where %s was before:%s", m, q(in2), q(in), snapOf(u).diff(snapOf(u2)))
	default:
		w.count(m.String() + " other bytes in the same memory")
	}
	if m == m2141 { // no options
		v, ok2 := urn.Parse(p.ro)
		copy(b, in)
		x, ok3 := urn.Parse(p.ro)
		y, err3 := urn.NewMachine().Parse([]byte(in))
		if ok2 != (err2 == nil) || ok3 != (err3 == nil) || ok2 && snapOf(v) != snapOf(u2) || ok3 && snapOf(x) != snapOf(y) {
			w.violate(key, "Parse gives success=%v for %s, then success=%v for %s in the same memory; elsewhere errors %v and %v, or other parts", ok2, q(in2), ok3, q(in), err2, err3)
		}
	}
	copy(b, in)
	if mc != nil {
		guarded(func() { mc.Parse(p.ro) })
	}
}

// guarded runs f and describes the fault it ends in, if any.
func guarded(f func()) (fault string) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(error); ok {
				fault = e.Error()
				if a, ok := x.(interface{ Addr() uintptr }); ok {
					fault += fmt.Sprintf(" (fault at %#x)", a.Addr())
				}
				return
			}
			fault = fmt.Sprint(x)
		}
	}()
	f()
	return ""
}

func checkC09JSON(w *worker, m mode) {
	in := w.g.any(m)
	if len(in) > 4000 {
		in = in[:4000]
	}
	doc := w.jsonDoc(in, w.r.n(3))
	key := "json:" + inKey(m, doc)
	p := w.place(doc)
	v := newReceiver(m)
	var err error
	direct := w.r.chance(1, 2)
	fault := guarded(func() {
		if direct {
			err = v.unmarshal(p.ro)
		} else {
			err = json.Unmarshal(p.ro, v.target())
		}
	})
	if fault != "" {
		w.violate(key, "%s: decoding %s, %s, in read-only memory: %s", m, q(doc), p.desc, fault)
		return
	}
	if string(p.ro) != doc {
		w.violate(key, "%s: decoding %s, %s, changed it into %s", m, q(doc), p.desc, q(string(p.ro)))
		return
	}
	w.scribble(p)
	v2 := newReceiver(m)
	err2 := json.Unmarshal([]byte(doc), v2.target())
	if direct {
		v2 = newReceiver(m)
		err2 = v2.unmarshal([]byte(doc))
	}
	if (err == nil) != (err2 == nil) || err != nil && err.Error() != err2.Error() || v.text() != v2.text() {
		w.violate(key, "%s: decoding %s, %s, gives %v, %s once the input is overwritten, and elsewhere %v, %s", m, q(doc), p.desc, err, v.text(), err2, v2.text())
		return
	}
	if err == nil {
		w.count(m.String() + " JSON accepted")
	} else {
		w.count(m.String() + " JSON rejected")
	}
	w.nontrivial("json", m.String(), doc)
	w.samplef("%s JSON %s, %s", m, q(doc), p.desc)
}
