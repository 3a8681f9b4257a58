package main

import (
	"fmt"
	"log"
	"log/slog"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"syscall"
	"time"
)

// settings is what of the process a call might change besides memory.
func settings() map[string]string {
	s := map[string]string{}
	env := os.Environ()
	sort.Strings(env)
	s["environment"] = strings.Join(env, "\n")
	s["arguments"] = strings.Join(os.Args, " ")
	s["directory"], _ = os.Getwd()
	s["processors"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	sample := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}}
	metrics.Read(sample)
	for _, m := range sample {
		if m.Value.Kind() == metrics.KindUint64 {
			s[m.Name] = fmt.Sprint(m.Value.Uint64())
		}
	}
	stack := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(stack)
	threads := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(threads)
	fault := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(fault)
	s["largest stack"], s["most threads"], s["panic on fault"] = fmt.Sprint(stack), fmt.Sprint(threads), fmt.Sprint(fault)
	s["profiling"] = fmt.Sprint(runtime.MemProfileRate, runtime.SetMutexProfileFraction(-1))
	s["log"] = fmt.Sprintf("%d %q %p", log.Flags(), log.Prefix(), log.Writer())
	s["slog"] = fmt.Sprintf("%p", slog.Default())
	s["standard files"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	s["time zone"] = fmt.Sprintf("%p %s", time.Local, time.Unix(0, 0).Format(time.RFC3339))
	for k := 1; k < 32; k++ {
		if sig := syscall.Signal(k); signal.Ignored(sig) {
			s["ignored signals"] += " " + sig.String()
		}
	}
	if b, err := os.ReadFile("/proc/self/status"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			for _, p := range []string{"Umask:", "SigIgn:", "SigCgt:", "Uid:", "Gid:", "Groups:", "NoNewPrivs:", "Seccomp:", "CoreDumping:"} {
				if strings.HasPrefix(l, p) {
					s[p] = l
				}
			}
		}
	}
	for name, k := range map[string]int{"CPU": syscall.RLIMIT_CPU, "files": syscall.RLIMIT_NOFILE, "core": syscall.RLIMIT_CORE, "stack": syscall.RLIMIT_STACK, "memory": syscall.RLIMIT_AS} {
		var r syscall.Rlimit
		if syscall.Getrlimit(k, &r) == nil {
			s["limit on "+name] = fmt.Sprint(r.Cur, r.Max)
		}
	}
	if p, err := syscall.Getpriority(syscall.PRIO_PROCESS, 0); err == nil {
		s["priority"] = fmt.Sprint(p)
	}
	b := make([]byte, 200)
	b = b[:runtime.Stack(b, false)]
	s["goroutine"] = fmt.Sprint(strings.Contains(strings.SplitN(string(b), "\n", 2)[0], "locked to thread"))
	return s
}

func settingsDiff(a, b map[string]string) string {
	d := ""
	for k := range b {
		if a[k] != b[k] {
			d += fmt.Sprintf(" %s: %s, then %s;", k, q(a[k]), q(b[k]))
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			d += fmt.Sprintf(" %s: %s, then none;", k, q(a[k]))
		}
	}
	return d
}

// diverse makes calls of all kinds on generated inputs of all kinds, and looks
// at the live heap and the settings of the process.
func (w *worker) diverse(i, n int64, counter *int64) {
	r := w.r
	var calls []func(mode, string, int64)
	var ms []mode
	var holds []interface{}
	for _, m := range allModes {
		for _, c := range leakCalls {
			calls = append(calls, c.prep(m))
			ms = append(ms, m)
			holds = append(holds, kept)
		}
	}
	defer func() { kept = nil }()
	key := fmt.Sprintf("diverse:%d", i)
	before := settings()
	gor, files := runtime.NumGoroutine(), openFiles()
	var heap []int64
	grown := func(from int) int64 { return heap[len(heap)-1] - heap[from] }
	leaking := false
	for round := 0; round < leakRounds || leaking && round < 3*leakRounds; round++ {
		for k := int64(0); k < n; k++ {
			*counter++
			c := r.n(len(calls))
			m := ms[c]
			if r.chance(1, 10) {
				m = allModes[r.n(3)]
			}
			in := w.g.any(m)
			if len(in) > 6000 && r.chance(9, 10) {
				in = in[:6000]
			}
			if k%400 == 7 { // a long one
				in = newInput(m, *counter, r.chance(1, 2))
				x := strings.Repeat(r.pick([]string{"a", "Z9", "%4F", "-x", ":y"}), 1<<uint(9+r.n(11)))
				if r.chance(1, 2) {
					in += x
				} else {
					in = in[:len(in)-1] + x + in[len(in)-1:]
				}
			}
			calls[c](m, in, *counter)
			w.countN("bytes of input", int64(len(in)))
		}
		// what the calls on one and the same value hold is its latest content
		for c := range calls {
			calls[c](ms[c], newInput(ms[c], *counter, true), 0)
		}
		heap = append(heap, liveHeap())
		if round >= leakRounds-1 {
			leaking = float64(grown(0)) > leakDiverse*float64(n*int64(round)) && float64(grown(round-2)) > leakDiverse/2*float64(n*2)
		}
		w.count("rounds")
		w.countN("calls", n)
		w.nontrivial(key, fmt.Sprint(round))
	}
	if leaking {
		w.violate(key, "calls of all kinds: the live heap keeps growing: after each of %d rounds of %d calls it is %d bytes", len(heap), n, heap)
		return
	}
	if d := settingsDiff(before, settings()); d != "" {
		w.violate(key, "calls of all kinds changed the process:%s", d)
		return
	}
	w.count("looks at the settings of the process")
	w.checkLeftovers(key, "calls of all kinds", gor, files)
	w.samplef("calls of all kinds: live heap after each round of %d: %d", n, heap)
	runtime.KeepAlive(holds)
}
