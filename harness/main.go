package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The monitor has two layers. "drive" starts "run" in a process of its own,
// so that whatever the code under test does to the process (a fatal error, an
// endless loop, unbounded memory) is itself an observation. "one" runs a
// single case, to confirm or to replay.

func main() {
	if len(os.Args) < 2 {
		fatal("usage: monitor drive|run|one ...")
	}
	cmd := os.Args[1]
	if cmd == "pure" {
		pureMain(os.Args[2])
		return
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	repo := fs.String("repo", "/repo", "tree under test")
	verif := fs.String("verif", "/verif", "where evidence and replays go")
	scratch := fs.String("scratch", "", "scratch directory")
	strm := fs.String("stream", "", "stream (one)")
	index := fs.Int64("index", -1, "index (one)")
	from := fs.Int64("from", -1, "first index to run before (one)")
	crumbs := fs.String("crumbs", "", "breadcrumb file (run)")
	out := fs.String("out", "", "result file (run)")
	limit := fs.Duration("limit", 25*time.Second, "per case limit of the watchdog")
	workers := fs.Int("workers", 0, "workers")
	what := fs.String("what", "", "file with the description (fail)")
	scale := fs.Int64("scale", 100, "percent of the random cases")
	fs.Parse(os.Args[2:])

	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	e := &env{prop: *prop, tier: *tier, seed: *seed, repo: *repo, verif: *verif, scratch: *scratch, workers: *workers, scale: *scale}
	e.thorough = e.tier == "thorough"
	if cmd == "fail" { // a violation found before there is a monitor to run
		b, err := os.ReadFile(*what)
		if err != nil {
			fatal("%v", err)
		}
		os.Remove(filepath.Join(e.verif, "evidence", e.prop+".json"))
		os.Exit(report(e, violation{Property: e.prop, Tier: e.tier, Seed: e.seed, What: string(b)}))
	}
	p := properties[*prop]
	if p == nil {
		fatal("no such property: %s", *prop)
	}
	switch cmd {
	case "drive":
		os.Exit(drive(e, *limit))
	case "run":
		e.dict = loadDict(e.repo)
		r := newRunner(e, p, *crumbs)
		done := make(chan struct{})
		if p.slow {
			*limit = 12 * time.Minute
		}
		go r.watchdog(*limit, 10<<30, done)
		t0 := time.Now()
		t := r.all()
		close(done)
		wall := time.Since(t0).Seconds()
		res := result{Viol: t.viol, Evals: t.evals, Distinct: t.distinct}
		for k := range r.hitKeys {
			res.Known = append(res.Known, k)
		}
		if len(t.viol) == 0 {
			if t.distinct == 0 {
				res.Distrust = "nothing non-trivial was observed"
			} else if p.finish != nil {
				res.Distrust = p.finish(e, t)
			}
		}
		r.evidence(t, wall)
		writeJSON(*out, res)
	case "one":
		e.dict = loadDict(e.repo)
		e.workers = 1
		r := newRunner(e, p, "")
		w := r.newWorker(0)
		if p.workers != nil {
			p.workers(w)
		}
		streams := p.streams(e)
		for i := range streams {
			s := &streams[i]
			if s.name != *strm {
				continue
			}
			a := *index
			if *from >= 0 {
				a = *from
			}
			for k := a; k <= *index; k++ {
				w.runCase(s, k)
			}
			for _, v := range w.viol {
				b, _ := json.Marshal(v)
				fmt.Println(string(b))
			}
			if len(w.viol) > 0 {
				fmt.Println(w.viol[0].What)
				os.Exit(1)
			}
			fmt.Println("the case passes")
			return
		}
		fatal("no such stream: %s", *strm)
	}
}

type result struct {
	Viol     []violation `json:"violations"`
	Known    []string    `json:"known"`
	Distrust string      `json:"distrust"`
	Evals    int64       `json:"evaluations"`
	Distinct int64       `json:"distinct"`
}

func args(e *env, cmd string, more ...string) []string {
	a := []string{cmd, "-prop", e.prop, "-tier", e.tier, "-seed", strconv.FormatUint(e.seed, 10), "-repo", e.repo, "-verif", e.verif, "-scratch", e.scratch, "-workers", strconv.Itoa(e.workers), "-scale", strconv.FormatInt(e.scale, 10)}
	return append(a, more...)
}

// drive runs the property in a child process and gives the verdict.
func drive(e *env, limit time.Duration) int {
	crumbs := filepath.Join(e.scratch, "crumbs")
	out := filepath.Join(e.scratch, "result.json")
	errLog := filepath.Join(e.scratch, "stderr.log")
	race := filepath.Join(e.scratch, "race")
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	os.Remove(filepath.Join(e.verif, "evidence", e.prop+".json"))
	var note string
	for try := 0; try < 2; try++ {
		os.Remove(out)
		lf, err := os.Create(errLog)
		if err != nil {
			fatal("%v", err)
		}
		c := exec.Command(self, args(e, "run", "-crumbs", crumbs, "-out", out, "-limit", limit.String())...)
		c.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+race)
		c.Stdout, c.Stderr = os.Stdout, lf
		runErr := c.Run()
		lf.Close()
		logText := readTail(errLog, 1<<20)
		races := raceReports(race)
		if b, err := os.ReadFile(out); runErr == nil && err == nil {
			var res result
			if err := json.Unmarshal(b, &res); err != nil {
				fatal("%v", err)
			}
			known := loadKnown(e.verif, e.prop)
			for _, k := range res.Known {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop, known[k])
			}
			if len(races) > 0 {
				return report(e, violation{Property: e.prop, Tier: e.tier, Seed: e.seed, What: "data race:\n" + races[0]})
			}
			if len(res.Viol) > 0 {
				return report(e, res.Viol[0])
			}
			if res.Distrust != "" {
				fmt.Fprintf(os.Stderr, "inconclusive: %s\n", res.Distrust)
				return exitBroken
			}
			fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d\n", e.prop, e.tier, e.seed, res.Evals, res.Distinct)
			return 0
		}
		code := c.ProcessState.ExitCode()
		if code == exitBroken && !strings.Contains(logText, "fatal error:") && !strings.Contains(logText, "panic:") && !strings.Contains(logText, "goroutine ") {
			fmt.Fprint(os.Stderr, logText)
			return exitBroken
		}
		// The process ended by itself, or was ended: find the case.
		why := fmt.Sprintf("the process ended with status %d", code)
		if s, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && s.Signaled() {
			why = "the process ended with " + s.Signal().String()
		}
		if len(races) > 0 {
			return report(e, violation{Property: e.prop, Tier: e.tier, Seed: e.seed, What: "data race:\n" + races[0]})
		}
		if code == exitBlocked {
			return report(e, violation{Property: e.prop, Tier: e.tier, Seed: e.seed, What: head(logText, 6000)})
		}
		for _, su := range suspects(e, crumbs) {
			v, bad := confirm(e, self, su)
			if bad {
				return report(e, v)
			}
		}
		note = why + "\n" + logText
		if code != exitHang && code != exitMemory && strings.Contains(logText, "github.com/leodido/go-urn") &&
			(strings.Contains(logText, "fatal error: concurrent map") || strings.Contains(logText, "fatal error: stack overflow") || strings.Contains(logText, "fatal error: all goroutines are asleep") || strings.Contains(logText, "stack exceeds")) {
			return report(e, violation{Property: e.prop, Tier: e.tier, Seed: e.seed, What: why + "\n" + head(logText, 6000)})
		}
		limit *= 4
	}
	fmt.Fprintf(os.Stderr, "inconclusive: %s\n", head(note, 8000))
	return exitBroken
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func readTail(path string, n int) string {
	b, _ := os.ReadFile(path)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

// raceReports returns the distinct reports of the race detector.
func raceReports(prefix string) []string {
	files, _ := filepath.Glob(prefix + ".*")
	var out []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, r := range strings.Split(string(b), "==================") {
			if strings.Contains(r, "DATA RACE") {
				out = append(out, strings.TrimSpace(r))
			}
		}
		os.Remove(f)
	}
	return out
}

type suspect struct {
	stream string
	index  int64
}

func suspects(e *env, crumbs string) []suspect {
	b, err := os.ReadFile(crumbs)
	if err != nil {
		return nil
	}
	e.dict = loadDict(e.repo)
	streams := properties[e.prop].streams(e)
	var out []suspect
	word := func(i int) int64 {
		if (i+1)*8 > len(b) {
			return 0
		}
		var x uint64
		for k := 7; k >= 0; k-- {
			x = x<<8 | uint64(b[i*8+k])
		}
		return int64(x)
	}
	for i := 0; i < e.workers; i++ {
		si, ix, on := word(i*crumbWords), word(i*crumbWords+1), word(i*crumbWords+2)
		if on == 0 || si < 0 || int(si) >= len(streams) {
			continue
		}
		out = append(out, suspect{streams[si].name, ix})
	}
	return out
}

const (
	oneCPU = 30 // seconds of CPU time a single case may take
)

// confirm runs one suspect case alone, under a limit on its CPU time (not on
// wall-clock time) and on its memory.
func confirm(e *env, self string, s suspect) (violation, bool) {
	v := violation{Property: e.prop, Tier: e.tier, Seed: e.seed, Stream: s.stream, Index: s.index}
	sh := fmt.Sprintf("ulimit -t %d; exec \"$0\" \"$@\"", oneCPU)
	a := args(e, "one", "-stream", s.stream, "-index", strconv.FormatInt(s.index, 10))
	c := exec.Command("/bin/sh", append([]string{"-c", sh, self}, a...)...)
	c.Env = append(os.Environ(), "GOMEMLIMIT=4GiB", "GORACE=halt_on_error=0 exitcode=0")
	var sb strings.Builder
	c.Stdout, c.Stderr = &sb, &sb
	if err := c.Start(); err != nil {
		return v, false
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	mem := false
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	start := time.Now()
	for {
		select {
		case <-done:
			txt := sb.String()
			ws, _ := c.ProcessState.Sys().(syscall.WaitStatus)
			switch {
			case mem:
				v.What = "this case alone takes more than 8 GB of memory"
				return v, true
			case ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL && time.Since(start) > (oneCPU-5)*time.Second):
				v.What = fmt.Sprintf("this case alone does not end: it was stopped after %d s of CPU time", oneCPU)
				return v, true
			case ws.Exited() && ws.ExitStatus() == 0 && strings.Contains(txt, "the case passes"):
				return v, false
			case ws.Exited() && ws.ExitStatus() == 0:
				v.What = "this case alone ends the process, with status 0"
				return v, true
			case ws.Exited() && ws.ExitStatus() == 1:
				v.What = txt
				return v, true
			case strings.Contains(txt, "goroutine ") || strings.Contains(txt, "SIGXCPU"):
				if strings.Contains(txt, "SIGXCPU") {
					v.What = fmt.Sprintf("this case alone does not end: it was stopped after %d s of CPU time\n", oneCPU) + head(txt, 4000)
				} else {
					v.What = "this case alone ends the process:\n" + head(txt, 6000)
				}
				return v, true
			}
			return v, false
		case <-tick.C:
			if rssOf(c.Process.Pid) > 8<<30 {
				mem = true
				c.Process.Kill()
			}
			if time.Since(start) > 5*time.Minute {
				c.Process.Kill()
			}
		}
	}
}

func rssOf(pid int) uint64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var a, c uint64
	fmt.Sscan(string(b), &a, &c)
	return c * 4096
}

// report writes the replay file and prints the verdict.
func report(e *env, v violation) int {
	dir := filepath.Join(e.verif, "replays")
	os.MkdirAll(dir, 0o755)
	name := fmt.Sprintf("%s-%s-%s-%d.json", e.prop, e.tier, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, v.Stream), v.Index)
	path := filepath.Join(dir, name)
	writeJSON(path, v)
	// the evidence of a run cut short
	ev := filepath.Join(e.verif, "evidence", e.prop+".json")
	if _, err := os.Stat(ev); err != nil {
		writeJSON(ev, map[string]interface{}{"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "exploration", "wall_s": 0, "violations": 1,
			"coverage": map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run ended at the violation", "samples": []string{head(v.What, 400)}}})
	}
	fmt.Printf("stream=%s index=%d\n%s\n", v.Stream, v.Index, printable(head(v.What, 3000)))
	fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, path)
	return 1
}

// printable escapes what does not belong on a terminal.
func printable(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '\n' || r == '\t' || strconv.IsPrint(r) && r != 0xfffd {
			b.WriteRune(r)
			continue
		}
		q := strconv.QuoteRuneToASCII(r)
		b.WriteString(q[1 : len(q)-1])
	}
	return b.String()
}
