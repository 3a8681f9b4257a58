package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// C18: the commands of tools/, run on files.

func isBlankB(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' }

// wantRemoved is what removing the comments must leave.
func wantRemoved(src string) string {
	lines := strings.SplitAfter(src, "\n")
	keep := make([]bool, len(lines))
	for i := range keep {
		keep[i] = true
	}
	for i, l := range lines {
		k := 0
		for k < len(l) && isBlankB(l[k]) {
			k++
		}
		if !strings.HasPrefix(l[k:], "//line") {
			continue
		}
		keep[i] = false
		for j := i - 1; j >= 0; j-- {
			if strings.Trim(lines[j], " \t\r\f\n") != "" || !keep[j] {
				break
			}
			keep[j] = false
		}
	}
	var sb strings.Builder
	for i, l := range lines {
		if keep[i] {
			sb.WriteString(l)
		}
	}
	return sb.String()
}

// wantCamel is what turning snake case into camel case must give.
func wantCamel(src string) string {
	lines := strings.Split(src, "\n")
	for i, l := range lines {
		b := []byte(l)
		for {
			at := -1
			for p := len(b) - 2; p > 0; p-- {
				if b[p] != '_' || !isAlnum(b[p+1]) {
					continue
				}
				k := p - 1
				for k > 0 && isDigit(b[k]) {
					k--
				}
				if 'a' <= b[k] && b[k] <= 'z' {
					at = p
					break
				}
			}
			if at < 0 {
				break
			}
			c := b[at+1]
			if 'a' <= c && c <= 'z' {
				c -= 32
			}
			b = append(append(append([]byte{}, b[:at]...), c), b[at+2:]...)
		}
		lines[i] = string(b)
	}
	return strings.Join(lines, "\n")
}

var removeTokens = []string{"//line", "//line x.rl:12", "\n", "\n", "\n\n", " ", "\t", "\r\n", "\r", "// line", "//lines", "/line", "line", "//", "//Line", "x", "code()", "\f", "\v", "\u00a0", "\u2028", "\xff", "\x00", "é", "//line\n", "  //line a\n", "\n//line b\n", "a //line c\n", "{\n", "}\n", "\"//line\"", "/*", "*/", "`\n//line\n`", "//line //line"}
var camelTokens = []string{"_", "__", "a", "b9", "9", "Z", "aB", "snake_case", "en_main", "first_final", "_x", "x_", "a_1", "1_a", "A_b", "a9_z", "a_b_c_d", "\n", "\n\n", "\r\n", " ", "\t", "é", "_é", "é_a", "\xff", "\x00", "m.cs_1", "//", "err_8141_x", "u_r_n", "(", ")", "\"a_b\"", "-", ".", "a_\n", "\n_b", "a99_9", "abc123_4x_y"}

func toolText(w *worker, toks []string) string {
	r := w.r
	var sb strings.Builder
	n := r.n(30)
	switch r.n(30) {
	case 0:
		n = 0
	case 1:
		n = 200 + r.n(1500)
	}
	for k := 0; k < n; k++ {
		if r.chance(1, 12) {
			sb.WriteByte(byte(r.n(256)))
		} else {
			sb.WriteString(r.pick(toks))
		}
		if r.chance(1, 12) {
			sb.WriteString("\n")
		}
	}
	s := sb.String()
	if r.chance(1, 2) && s != "" && !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	if len(s) > 40000 { // the tools need not be fast
		s = s[:40000]
	}
	return s
}

func init() {
	register(&property{
		id:   "C18",
		rule: "The commands, built from the tree, are run on files of random text (tokens the tools look for, near misses, odd bytes, all line ends), with random permissions and names, through symbolic links, twice in a row, with wrong arguments and unreadable paths, in directories with other files; the whole directory is compared before and after with what independent rewriters give. Non-trivial: runs that must change the file, counted by content.",
		streams: func(e *env) []stream {
			return []stream{
				{name: "removecomments", n: e.N(7000, 250000), chunk: 8, run: func(w *worker, i int64) {
					checkTool(w, "removecomments", wantRemoved, removeTokens)
				}},
				{name: "snake2camel", n: e.N(7000, 250000), chunk: 8, run: func(w *worker, i int64) {
					checkTool(w, "snake2camel", wantCamel, camelTokens)
				}},
				{name: "small removecomments", n: int64(smallTexts([]string{"\n", " ", "//line", "x", "\r", "//"}, -1)), chunk: 8, run: func(w *worker, i int64) {
					checkToolBatch(w, "removecomments", wantRemoved, []string{"\n", " ", "//line", "x", "\r", "//"}, i)
				}},
				{name: "small snake2camel", n: int64(smallTexts([]string{"_", "a", "B", "1", "\n", "-"}, -1)), chunk: 8, run: func(w *worker, i int64) {
					checkToolBatch(w, "snake2camel", wantCamel, []string{"_", "a", "B", "1", "\n", "-"}, i)
				}},
				{name: "large", n: e.N(120, 1200), chunk: 1, run: checkToolLarge},
				{name: "failures", n: e.N(600, 6000), chunk: 4, run: checkToolFailure},
				{name: "no access", n: e.N(400, 4000), chunk: 4, run: checkToolNoAccess},
			}
		},
	})
}

type entry struct {
	mode    os.FileMode
	content string
	link    string
}

func listing(dir string) map[string]entry {
	out := map[string]entry{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		e := entry{mode: fi.Mode()}
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			e.link, _ = os.Readlink(p)
		case fi.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			e.content = string(b)
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = e
		return nil
	})
	return out
}

func diffListing(got, want map[string]entry) string {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		g, ok := got[n]
		x, ok2 := want[n]
		switch {
		case !ok:
			return fmt.Sprintf("%s is gone", n)
		case !ok2:
			return fmt.Sprintf("%s (%s) is new", n, q(g.content))
		case g.mode != x.mode:
			return fmt.Sprintf("%s has mode %v, not %v", n, g.mode, x.mode)
		case g.link != x.link:
			return fmt.Sprintf("%s points to %s, not %s", n, g.link, x.link)
		case g.content != x.content:
			return fmt.Sprintf("%s holds %s, not %s", n, q(g.content), q(x.content))
		}
	}
	return ""
}

func runTool(w *worker, dir, tool string, args ...string) (int, string, string) {
	c := exec.Command(filepath.Join(w.e.scratch, "tools", tool), args...)
	c.Dir = dir
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	if c.ProcessState == nil {
		panic(harnessFailure(fmt.Sprintf("cannot run %s: %v", tool, err)))
	}
	return c.ProcessState.ExitCode(), so.String(), se.String()
}

func (w *worker) toolDir() string {
	d := filepath.Join(w.e.scratch, fmt.Sprintf("tooldir%d", w.id))
	if _, err := os.Stat(filepath.Join(w.e.scratch, "tools")); err != nil {
		panic(harnessFailure("the tools are not built"))
	}
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessFailure(err.Error()))
	}
	return d
}

func writeAs(path, content string, perm os.FileMode) {
	if err := os.WriteFile(path, []byte(content), 0o600); err != nil {
		panic(harnessFailure(err.Error()))
	}
	os.Chmod(path, perm)
}

var perms = []os.FileMode{0o644, 0o600, 0o755, 0o664, 0o444, 0o777, 0o400, 0o640, 0o711}

func checkTool(w *worker, tool string, want func(string) string, toks []string) {
	checkToolOn(w, tool, want, toolText(w, toks))
}

// checkToolLarge tries long lines and large files.
func checkToolLarge(w *worker, i int64) {
	r := w.r
	tool, want, toks := "removecomments", wantRemoved, removeTokens
	if i%2 == 1 {
		tool, want, toks = "snake2camel", wantCamel, camelTokens
	}
	var sb strings.Builder
	switch i / 2 % 5 {
	case 0: // a long line
		n := []int{4000, 4095, 4096, 5000, 8192, 32768, 65534, 65535, 65536, 65537, 70000, 131072}[int(i/10)%12]
		sb.WriteString("a_b\n")
		if r.chance(1, 2) {
			sb.WriteString(" //line ")
		}
		for sb.Len() < n {
			sb.WriteString("x y.")
		}
		sb.WriteString("a_b\n\n//line z\nc_d")
		if r.chance(1, 2) {
			sb.WriteString("\n")
		}
	case 1: // many lines
		n := 70000 + r.n(200000)
		for sb.Len() < n {
			sb.WriteString(r.pick([]string{"func f() {\n", "\tgoto st_case_1\n", "//line m.rl:1\n", "\t//line m.rl:2\r\n", "\n", "// text\n", "\tm.cs = en_main\n", "}\n", "x1_y := 3 //line\n"}))
		}
	case 2: // many blank lines
		n := 1 + r.n(20000)
		sb.WriteString("a" + strings.Repeat(r.pick([]string{"\n", "\r\n", " \n", "\t\n"}), n) + "//line x\nb_c" + strings.Repeat("\n", r.n(3)))
	case 3: // much to do on one line
		n := []int{2, 10, 30, 63, 64, 65, 100, 128, 200, 256, 300, 500}[int(i/10)%12]
		for k := 0; k < n; k++ {
			sb.WriteString(r.pick([]string{"a_", "b9_", "_", "x_y ", "z12_3_"}))
		}
		sb.WriteString("a\n" + strings.Repeat(" //line //line x\n\n", n))
	default: // bigger random texts
		for k := 0; k < 6; k++ {
			sb.WriteString(toolText(w, toks))
			sb.WriteByte('\n')
		}
	}
	w.count("large files")
	checkToolOn(w, tool, want, sb.String())
}

func checkToolOn(w *worker, tool string, want func(string) string, text string) {
	r := w.r
	key := fmt.Sprintf("%s:%016x", tool, hashStr(text))
	dir := w.toolDir()
	name := r.pick([]string{"machine.go", "a.txt", "x_y", "-f", "with space", "línea.go", "a_b_c.go", "f", " f", "f ", "-", "--help", "f\n", "$HOME", "*", "~", "a\"b", "%s"})
	perm := perms[r.n(len(perms))]
	path := filepath.Join(dir, name)
	writeAs(path, text, perm)
	writeAs(filepath.Join(dir, "other_file.go"), "\n//line x\na_b\n", 0o640)
	writeAs(filepath.Join(dir, name+".bak"), "\n//line y\nc_d\n", 0o644)
	writeAs(filepath.Join(dir, name+".tmp"), "\n//line z\ne_f\n", 0o600)
	arg := path
	switch r.n(5) {
	case 0:
		arg = "./" + name
	case 1:
		arg = name
	case 2:
		os.Symlink(name, filepath.Join(dir, "link_to"))
		arg = filepath.Join(dir, "link_to")
	}
	before := listing(dir)
	exp := want(text)
	times := 1
	if r.chance(1, 4) {
		times = 2
	}
	for k := 0; k < times; k++ {
		rc, _, se := runTool(w, dir, tool, arg)
		if rc != 0 {
			w.violate(key, "%s %s exits with %d (%s) on a file holding %s", tool, arg, rc, strings.TrimSpace(se), q(text))
			return
		}
		x := map[string]entry{}
		for n, e := range before {
			if n == name {
				e.content = exp
			}
			x[n] = e
		}
		if d := diffListing(listing(dir), x); d != "" {
			w.violate(key, "%s on a file holding %s with mode %v, run %d: %s", tool, q(text), perm, k+1, d)
			return
		}
		w.count(tool + " runs")
	}
	w.count("mode " + perm.String())
	if exp != text {
		w.nontrivial(tool, text)
	}
	w.samplef("%s on %s", tool, q(text))
}

// smallTexts counts the texts of up to 5 tokens, in batches.
const batchTexts = 40

func smallTexts(toks []string, _ int) int {
	b := bounded{toks: toks, max: 5}
	return int((b.size() + batchTexts - 1) / batchTexts)
}

// checkToolBatch tries a batch of small texts in one file: both tools work
// line by line, so texts separated by lines of their own do not interfere.
func checkToolBatch(w *worker, tool string, want func(string) string, toks []string, i int64) {
	b := bounded{toks: toks, max: 5}
	var parts []string
	for k := i * batchTexts; k < (i+1)*batchTexts && k < b.size(); k++ {
		parts = append(parts, b.at(k))
	}
	text := strings.Join(parts, "\n=\n")
	dir := w.toolDir()
	path := filepath.Join(dir, "f")
	writeAs(path, text, 0o644)
	rc, _, se := runTool(w, dir, tool, path)
	got := listing(dir)["f"].content
	exp := want(text)
	key := fmt.Sprintf("%s:batch:%d", tool, i)
	if rc != 0 || got != exp {
		// find the text
		for _, p := range parts {
			writeAs(path, p, 0o644)
			rc, _, se := runTool(w, dir, tool, path)
			if g := listing(dir)["f"].content; rc != 0 || g != want(p) {
				w.violate(key, "%s exits with %d (%s) and turns %s into %s, not %s", tool, rc, strings.TrimSpace(se), q(p), q(g), q(want(p)))
				return
			}
		}
		w.violate(key, "%s exits with %d (%s) and turns %s into %s, not %s", tool, rc, strings.TrimSpace(se), q(text), q(got), q(exp))
		return
	}
	for _, p := range parts {
		if want(p) != p {
			w.nontrivial(tool, p)
		}
	}
	w.evals += int64(len(parts)) - 1
	w.countN(tool+" small texts", int64(len(parts)))
}

// checkToolNoAccess runs the tools as a user who may not read, write or reach
// the file.
func checkToolNoAccess(w *worker, i int64) {
	r := w.r
	tool, want, toks := "removecomments", wantRemoved, removeTokens
	if i%2 == 1 {
		tool, want, toks = "snake2camel", wantCamel, camelTokens
	}
	dir := w.toolDir()
	os.Chmod(w.e.scratch, 0o711)
	os.Chmod(filepath.Join(w.e.scratch, "tools"), 0o755)
	sub := filepath.Join(dir, "sub")
	os.Mkdir(sub, 0o777)
	os.Chmod(sub, 0o777)
	text := "a\n//line x\nsnake_case\n" + toolText(w, toks)
	path := filepath.Join(sub, "f.go")
	writeAs(path, text, 0o666)
	k := int(i/2) % 5
	what := ""
	switch k {
	case 0:
		os.Chmod(path, 0o222)
		what = "not readable"
	case 1:
		os.Chmod(path, 0o444)
		what = "not writable"
	case 2:
		os.Chmod(path, 0)
		what = "neither readable nor writable"
	case 3:
		os.Chmod(sub, 0o666)
		what = "in a directory that may not be searched"
	case 4:
		os.Chmod(path, 0o666)
		what = "writable"
	}
	if r.chance(1, 3) {
		os.Chmod(sub, map[bool]os.FileMode{true: 0o666, false: 0o555}[k == 3])
	}
	before := listing(dir)
	c := exec.Command(filepath.Join(w.e.scratch, "tools", tool), path)
	c.Dir = "/"
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	var se bytes.Buffer
	c.Stderr = &se
	c.Run()
	if c.ProcessState == nil {
		w.count("could not become another user")
		return
	}
	rc := c.ProcessState.ExitCode()
	key := fmt.Sprintf("%s:access:%s", tool, what)
	x := map[string]entry{}
	for n, e := range before {
		if n == "sub/f.go" && k == 4 {
			e.content = want(text)
		}
		x[n] = e
	}
	if k == 4 && rc != 0 || k != 4 && rc == 0 {
		w.violate(key, "%s exits with %d (%s) on a file that is %s", tool, rc, strings.TrimSpace(se.String()), what)
		return
	}
	if d := diffListing(listing(dir), x); d != "" {
		w.violate(key, "%s on a file that is %s: %s", tool, what, d)
		return
	}
	w.count("files that are " + what)
	w.nontrivial(tool, what, text)
}

func checkToolFailure(w *worker, i int64) {
	r := w.r
	tool := []string{"removecomments", "snake2camel"}[i%2]
	dir := w.toolDir()
	text := "\n//line a\nsnake_case\n"
	writeAs(filepath.Join(dir, "f.go"), text, 0o644)
	os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	writeAs(filepath.Join(dir, "sub", "g.go"), text, 0o600)
	os.Symlink("nowhere", filepath.Join(dir, "dangling"))
	f := filepath.Join(dir, "f.go")
	cases := [][]string{
		{},
		{filepath.Join(dir, "missing.go")},
		{filepath.Join(dir, "sub")},
		{f, f},
		{f, filepath.Join(dir, "missing.go")},
		{filepath.Join(dir, "no", "such", "dir.go")},
		{""},
		{f + "/x"},
		{f, "", ""},
		{filepath.Join(dir, "dangling")},
		{f, filepath.Join(dir, "sub", "g.go"), f},
		{dir},
		{"-h"}, {"--help"}, {"-version"}, {"-w"}, {"--"}, {"-"}, {" " + f}, {f + " "}, {"--", f}, {"-w", f}, {f, "-w"}, {"*.go"},
	}
	args := cases[r.n(len(cases))]
	if i/2 < int64(len(cases)) {
		args = cases[i/2]
	}
	before := listing(dir)
	rc, so, se := runTool(w, dir, tool, args...)
	key := fmt.Sprintf("%s:failure:%d", tool, len(args))
	if rc == 0 {
		w.violate(key, "%s %q succeeds (output %q)", tool, args, so)
		return
	}
	if strings.TrimSpace(se) == "" {
		w.count("silent failures")
	}
	if d := diffListing(listing(dir), before); d != "" {
		w.violate(key, "%s %q fails (%s), but %s", tool, args, strings.TrimSpace(se), d)
		return
	}
	w.count(tool + " failing runs")
	w.nontrivial(tool, fmt.Sprint(args))
}
