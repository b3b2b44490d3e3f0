// Command zzsim is the deterministic simulator of katydid: it runs the instrumented library under
// seeded schedules and faults and checks the properties of /verif/properties.jsonl.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	rt "github.com/katydid/katydid/zzsimrt"
)

// ---- worker --------------------------------------------------------------------------------------

// Found is a violation found by a worker.
type Found struct {
	Idx     uint64
	Key     string
	Msg     string
	LogHash uint64
	Choices map[string]string
	Shrunk  bool
	Execs   int
}

// Summary is what a worker did.
type Summary struct {
	Runs, Discarded, Nontrivial, Steps, Switches, MapPerms uint64
	Preempted                                              uint64 // runs with at least one context switch
	MaxSteps                                               uint64 // largest number of steps of one guarded call
	SimTime                                                int64
	Draws                                                  [nStreams]uint64
	Faults, Probes, Known                                  map[string]int
	RunsWithFault                                          uint64
	Sigs                                                   []uint64 // distinct nontrivial scenarios
	Scheds                                                 []uint64 // distinct interleavings
	Sites                                                  []int
	Samples                                                [][]string
	LogXor                                                 uint64
	Found                                                  *Found
	Capped                                                 bool
}

func runSeed(seed uint64, prop string, idx uint64) uint64 {
	return splitmix(splitmix(seed^hashString(prop)) + idx)
}

func loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		// known: property=<id> key=<key> :: <what>
		head, what := l, ""
		if i := strings.Index(l, " :: "); i >= 0 {
			head, what = l[:i], l[i+4:]
		}
		i := strings.Index(head, " key=")
		if i < 0 {
			continue
		}
		k := head[i+5:]
		knownFindings[k] = true
		knownWhat[k] = what
	}
}

var knownWhat = map[string]string{}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	start := fs.Uint64("start", 0, "")
	stride := fs.Uint64("stride", 1, "")
	n := fs.Uint64("n", 1, "")
	secs := fs.Float64("secs", 60, "")
	shrinkSecs := fs.Float64("shrink", 40, "")
	progress := fs.String("progress", "", "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	loadKnown(*known)
	if f := os.Getenv("ZZSIM_CPUPROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	limits()
	out := takeStdout()
	var pf *os.File
	if *progress != "" {
		var err error
		if pf, err = os.Create(*progress); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	s := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	sigs, scheds := map[uint64]bool{}, map[uint64]bool{}
	sites := map[int]bool{}
	var pb [20]byte
	for idx := *start; idx < *n; idx += *stride {
		if time.Now().After(deadline) {
			s.Capped = true
			break
		}
		if pf != nil {
			pf.WriteAt(strconv.AppendUint(append(pb[:0], '@'), idx, 10), 0)
			pf.WriteAt([]byte("\n          "), int64(len(strconv.FormatUint(idx, 10))+1))
		}
		c := newChoices(runSeed(*seed, p.ID, idx))
		o := execute(p, *tier, idx, c)
		s.Runs++
		s.LogXor ^= splitmix(o.LogHash + idx)
		if o.Violation != nil {
			s.Found = &Found{Idx: idx, Key: o.Violation.Key, Msg: o.Violation.Msg, LogHash: o.LogHash, Choices: encChoices(c.rec)}
			sd := time.Now().Add(time.Duration(*shrinkSecs * float64(time.Second)))
			sh := &shrinker{p: p, tier: *tier, idx: idx, key: o.Violation.Key, best: c.rec}
			cnt := 0
			sh.budget = func() bool {
				if cnt++; pf != nil && cnt%16 == 0 {
					pf.WriteAt([]byte(fmt.Sprintf("s%d\n          ", cnt)), 0)
				}
				return time.Now().Before(sd)
			}
			sh.run()
			s.Found.Choices = encChoices(sh.best)
			s.Found.Execs = sh.execs
			s.Found.Shrunk = true
			break
		}
		s.Steps += o.Stats.Steps
		s.Switches += o.Stats.Switches
		s.MapPerms += o.Stats.MapPerms
		s.SimTime += o.Run.simTime
		if o.Run.maxSteps > s.MaxSteps {
			s.MaxSteps = o.Run.maxSteps
		}
		for i := range c.rec {
			s.Draws[i] += uint64(len(c.rec[i]))
		}
		for k, v := range o.Run.faults {
			s.Faults[k] += v
		}
		if len(o.Run.faults) > 0 {
			s.RunsWithFault++
		}
		for k, v := range o.Run.probes {
			s.Probes[k] += v
		}
		for _, k := range o.Run.known {
			s.Known[k]++
		}
		if o.Stats.Switches > 0 {
			s.Preempted++
		}
		if o.Discarded {
			s.Discarded++
		} else if !o.Run.trivial {
			s.Nontrivial++
			if len(sigs) < 1<<20 {
				sigs[o.Run.sig] = true
			}
			if len(s.Samples) < 2 && *start == 0 {
				l := o.Run.lines
				if len(l) > 60 {
					l = append(append([]string{}, l[:60]...), "...")
				}
				s.Samples = append(s.Samples, l)
			}
		}
		if o.Stats.Switches > 0 && len(scheds) < 1<<20 {
			scheds[o.Stats.SchedHash] = true
		}
		if s.Runs%7 == 1 || os.Getenv("ZZSIM_SITES") != "" {
			rt.Seen(func(i int) { sites[i] = true })
		}
	}
	for k := range sigs {
		s.Sigs = append(s.Sigs, k)
	}
	for k := range scheds {
		s.Scheds = append(s.Scheds, k)
	}
	for k := range sites {
		s.Sites = append(s.Sites, k)
	}
	w := bufio.NewWriter(out)
	json.NewEncoder(w).Encode(s)
	w.Flush()
}

// takeStdout keeps the output of the library's print functions out of ours.
func takeStdout() *os.File {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	return out
}

func limits() {
	debug.SetMaxStack(700 << 20)
	debug.SetGCPercent(400)
	if !rt.RaceBuild {
		var l syscall.Rlimit
		l.Cur, l.Max = 6<<30, 6<<30
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	} else {
		debug.SetMemoryLimit(1 << 30)
	}
}

// ---- replay --------------------------------------------------------------------------------------

// replayFile executes the replay file and prints what happened. It reports whether the violation was
// reproduced exactly.
func replayMain(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	loadKnown(*known)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[rp.Property]
	limits()
	stdout := takeStdout()
	for _, idx := range rp.Prefix {
		execute(p, rp.Tier, idx, newChoices(runSeed(rp.Seed, p.ID, idx)))
	}
	var c *Choices
	if rp.FromSeed {
		c = newChoices(runSeed(rp.Seed, p.ID, rp.Run))
	} else {
		c = replayChoices(decChoices(rp.Choices))
	}
	o := execute(p, rp.Tier, rp.Run, c)
	if !*quiet {
		for _, l := range o.Run.lines {
			fmt.Fprintln(stdout, l)
		}
	}
	h := fmt.Sprintf("%016x", o.LogHash)
	if o.Violation == nil {
		fmt.Fprintf(stdout, "REPLAY property=%s no violation, log %s\n", rp.Property, h)
		os.Exit(0)
	}
	same := o.Violation.Key == rp.Key && (h == rp.LogHash || rp.LogHash == "")
	fmt.Fprintf(stdout, "REPLAY property=%s key=%s log=%s identical=%v\n", rp.Property, o.Violation.Key, h, same)
	os.Exit(1)
}

// ---- parent --------------------------------------------------------------------------------------

type wproc struct {
	cmd      *exec.Cmd
	out, err bytes.Buffer
	prog     string
	last     string
	lastAt   time.Time
	stuck    bool
	done     bool
	sum      *Summary
	idx      uint64
}

func readProgress(path string) string {
	b, _ := os.ReadFile(path)
	if i := bytes.IndexByte(b, '\n'); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

// launch runs a worker and waits for it; stuckSecs without progress ends it.
func launch(args []string, tmp string, id int, stuckSecs float64) *wproc {
	w := &wproc{prog: filepath.Join(tmp, fmt.Sprintf("progress%d", id))}
	args = append(append([]string{"worker"}, args...), "-progress", w.prog)
	w.cmd = exec.Command(os.Args[0], args...)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", fmt.Sprintf("GORACE=log_path=%s exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4", filepath.Join(tmp, "race")))
	w.cmd.Stdout = &w.out
	w.cmd.Stderr = &limitWriter{w: &w.err, n: 1 << 20}
	if err := w.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fin := make(chan struct{})
	go func() {
		w.cmd.Wait()
		close(fin)
	}()
	w.lastAt = time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-fin:
			w.done = true
			l := readProgress(w.prog)
			if strings.HasPrefix(l, "@") {
				w.idx, _ = strconv.ParseUint(l[1:], 10, 64)
			}
			var s Summary
			if w.cmd.ProcessState.Success() && json.Unmarshal(w.out.Bytes(), &s) == nil {
				w.sum = &s
			}
			return w
		case <-tick.C:
			l := readProgress(w.prog)
			if l != w.last {
				w.last, w.lastAt = l, time.Now()
			} else if time.Since(w.lastAt).Seconds() > stuckSecs {
				w.stuck = true
				w.cmd.Process.Kill()
			}
		}
	}
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	k := len(b)
	if k > l.n {
		k = l.n
	}
	l.w.Write(b[:k])
	l.n -= k
	return len(b), nil
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	workers := fs.Int("workers", 8, "")
	secs := fs.Float64("secs", 0, "time cap; 0: tier default")
	runs := fs.Int("runs", 0, "number of runs; 0: tier default")
	verif := fs.String("verif", "/verif", "")
	sitesFile := fs.String("sites", "", "")
	fs.Parse(args)
	p := props[*prop]
	if p == nil {
		die("unknown property %q", *prop)
	}
	known := filepath.Join(*verif, "known_findings.txt")
	loadKnown(known)
	n := p.Quick
	tcap := 240.0
	if *tier == "thorough" {
		n = 1 << 40
		tcap = 700
	}
	if *runs > 0 {
		n = *runs
	}
	if *secs > 0 {
		tcap = *secs
	}
	tmp, err := os.MkdirTemp("", "zzsim")
	if err != nil {
		die("%v", err)
	}
	exit := func(code int) {
		os.RemoveAll(tmp)
		os.Exit(code)
	}
	begin := time.Now()
	common := func(extra ...string) []string {
		return append([]string{"-prop", p.ID, "-seed", fmt.Sprint(*seed), "-tier", *tier, "-known", known}, extra...)
	}
	ws := make([]*wproc, *workers)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ws[i] = launch(common("-start", fmt.Sprint(i), "-stride", fmt.Sprint(*workers), "-n", fmt.Sprint(n), "-secs", fmt.Sprint(tcap)), tmp, i, 60)
		}(i)
	}
	wg.Wait()
	tot := &Summary{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	sigs, scheds, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	var found *Found
	var crashed *wproc
	var prefix []uint64
	for i, w := range ws {
		if w.sum == nil {
			if w.cmd.ProcessState.ExitCode() == 4 || (w.idx == 0 && i > 0) {
				die("worker %d failed: %s", i, tail(w.err.String()))
			}
			crashed = w
			continue
		}
		s := w.sum
		tot.Runs += s.Runs
		tot.Discarded += s.Discarded
		tot.Nontrivial += s.Nontrivial
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.MapPerms += s.MapPerms
		tot.Preempted += s.Preempted
		tot.RunsWithFault += s.RunsWithFault
		tot.SimTime += s.SimTime
		tot.LogXor ^= s.LogXor
		tot.Capped = tot.Capped || s.Capped
		if s.MaxSteps > tot.MaxSteps {
			tot.MaxSteps = s.MaxSteps
		}
		for i := range s.Draws {
			tot.Draws[i] += s.Draws[i]
		}
		add(tot.Faults, s.Faults)
		add(tot.Probes, s.Probes)
		add(tot.Known, s.Known)
		for _, x := range s.Sigs {
			sigs[x] = true
		}
		for _, x := range s.Scheds {
			scheds[x] = true
		}
		for _, x := range s.Sites {
			sites[x] = true
		}
		tot.Samples = append(tot.Samples, s.Samples...)
		if s.Found != nil && (found == nil || s.Found.Idx < found.Idx) {
			found = s.Found
			prefix = nil
			for k := uint64(i); k < found.Idx; k += uint64(*workers) {
				prefix = append(prefix, k)
			}
		}
	}
	wall := time.Since(begin).Seconds()
	rdir := filepath.Join(*verif, "evidence", "replays")
	os.MkdirAll(rdir, 0755)
	violations := 0
	var vline string
	if found != nil {
		path := filepath.Join(rdir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *seed, found.Idx))
		vline = confirm(p, *tier, *seed, found, prefix, path, known)
		if vline == "" {
			die("%s: run %d reported %q (%s) but it does not reproduce in a fresh process: the simulation is not deterministic", p.ID, found.Idx, found.Key, found.Msg)
		}
		violations = 1
	} else if crashed != nil {
		// a fatal error (stack exhaustion, out of memory, ...) or a hang outside instrumented code
		kind := "fatal-error"
		if crashed.stuck {
			kind = "stuck"
		}
		idx := crashed.idx
		for k := 0; k < 2; k++ {
			w := launch(common("-start", fmt.Sprint(idx), "-stride", "1", "-n", fmt.Sprint(idx+1), "-secs", "100"), tmp, 100, 45)
			if w.sum != nil || w.cmd.ProcessState.ExitCode() == 4 || w.stuck != crashed.stuck {
				die("worker died at run %d (%s) but the run alone does not: %s", idx, kind, tail(crashed.err.String()))
			}
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *seed, idx))
		rp := &Replay{Property: p.ID, Tier: *tier, Seed: *seed, Run: idx, Key: p.ID + ":" + kind, Message: "the process died: " + tail(crashed.err.String()), FromSeed: true}
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("%s: run %d: %s: %s\n", p.ID, idx, kind, tail(crashed.err.String()))
		vline = fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path)
		violations = 1
	}
	// ---- evidence
	nsites := 0
	if *sitesFile != "" {
		var m struct{ Sites []json.RawMessage }
		if b, err := os.ReadFile(*sitesFile); err == nil {
			json.Unmarshal(b, &m)
			nsites = len(m.Sites)
			if f := os.Getenv("ZZSIM_SITES"); f != "" { // for finding what no run reaches
				var out []byte
				for k := range sites {
					out = append(out, fmt.Sprintf("%d %s\n", k, m.Sites[k-1])...)
				}
				os.WriteFile(f, out, 0644)
			}
		}
	}
	samples := []interface{}{}
	for _, l := range tot.Samples {
		samples = append(samples, l)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]interface{}{
		"evaluations":               tot.Runs,
		"distinct_nontrivial":       len(sigs),
		"rule":                      p.Rule,
		"samples":                   samples,
		"nontrivial_runs":           tot.Nontrivial,
		"discarded_runs":            tot.Discarded,
		"runs_per_hour":             int(float64(tot.Runs) / wall * 3600),
		"seeds":                     fmt.Sprintf("base seed %d, run seeds derived from it for runs 0..%d", *seed, tot.Runs),
		"yield_points_executed":     tot.Steps,
		"context_switches":          tot.Switches,
		"runs_with_preemption":      tot.Preempted,
		"distinct_interleavings":    len(scheds),
		"interleaving_measure":      "hash of the sequence of (task switched to, statement at which control was taken away)",
		"map_iterations_permuted":   tot.MapPerms,
		"decisions":                 map[string]uint64{"workload": tot.Draws[0], "fault": tot.Draws[1], "schedule": tot.Draws[2]},
		"simulated_seconds":         float64(tot.SimTime) / 1e9,
		"max_steps_of_one_call":     tot.MaxSteps,
		"faults_injected":           tot.Faults,
		"runs_with_fault":           tot.RunsWithFault,
		"probes":                    tot.Probes,
		"distinct_statements_seen":  len(sites),
		"statements_instrumented":   nsites,
		"real_components":           p.RealCode,
		"stubbed_components":        p.Stubs,
		"race_detector":             rt.RaceBuild,
		"log_digest":                fmt.Sprintf("%016x", tot.LogXor),
		"time_cap_reached":          tot.Capped,
		"known_findings_seen_again": tot.Known,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations, "assumptions": p.Assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", p.ID+".json"), b, 0644); err != nil {
		die("%v", err)
	}
	for k := range knownFindings {
		if strings.HasPrefix(k, p.ID+":") {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s, met %d times in this run)\n", p.ID, knownWhat[k], k, tot.Known[k])
		}
	}
	fmt.Printf("%s %s: %d runs (%d nontrivial, %d distinct) in %.1fs, %d statements executed, %d switches, faults %s, digest %016x\n",
		p.ID, *tier, tot.Runs, tot.Nontrivial, len(sigs), wall, tot.Steps, tot.Switches, showCounts(tot.Faults), tot.LogXor)
	if len(tot.Probes) > 0 {
		fmt.Printf("%s probes: %s\n", p.ID, showCounts(tot.Probes))
	}
	if vline != "" {
		fmt.Println(vline)
		exit(1)
	}
	if tot.Runs == 0 || tot.Nontrivial == 0 {
		die("nothing was explored")
	}
	exit(0)
}

func add(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func showCounts(m map[string]int) string {
	var s []string
	for _, k := range sortedKeys(m) {
		s = append(s, fmt.Sprintf("%s=%d", k, m[k]))
	}
	return strings.Join(s, " ")
}

func tail(s string) string {
	for _, pat := range []string{"fatal error", "panic:", "harness panic", "runtime:"} {
		if i := strings.Index(s, pat); i >= 0 {
			s = s[i:]
			break
		}
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// replayOnce executes a replay file in a fresh process and reports whether it reproduces exactly.
func replayOnce(path, known string) (key, log string, ok bool) {
	cmd := exec.Command(os.Args[0], "replay", "-q", "-known", known, path)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=log_path=/dev/null exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4")
	out, _ := cmd.Output()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "REPLAY ") {
			for _, f := range strings.Fields(l) {
				if strings.HasPrefix(f, "log=") {
					log = f[4:]
				}
			}
			if i := strings.Index(l, "key="); i >= 0 {
				key = l[i+4:]
				if j := strings.Index(key, " log="); j >= 0 {
					key = key[:j]
				}
			}
		}
	}
	return key, log, key != ""
}

// confirm writes the replay file and makes sure it reproduces.
func confirm(p *Prop, tier string, seed uint64, f *Found, prefix []uint64, path, known string) string {
	write := func(rp *Replay) {
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(path, b, 0644)
	}
	rp := &Replay{Property: p.ID, Tier: tier, Seed: seed, Run: f.Idx, Key: f.Key, Message: f.Msg, Choices: f.Choices, Shrunk: f.Shrunk, ShrinkRun: f.Execs}
	attempt := func() bool {
		rp.LogHash = ""
		write(rp)
		k, h, ok := replayOnce(path, known)
		if !ok {
			return false
		}
		rp.Key, rp.LogHash = k, h
		write(rp)
		k2, h2, _ := replayOnce(path, known)
		return k2 == k && h2 == h
	}
	good := attempt()
	if !good {
		rp.FromSeed, rp.Choices, rp.Shrunk = true, nil, false
		good = attempt()
	}
	if !good {
		// the failure needs state left behind in the process by earlier runs
		rp.Prefix = prefix
		if good = attempt(); good {
			deadline := time.Now().Add(60 * time.Second)
			for k := len(rp.Prefix) / 2; k >= 1 && time.Now().Before(deadline); k /= 2 {
				for i := 0; i+k <= len(rp.Prefix) && time.Now().Before(deadline); {
					old := rp.Prefix
					rp.Prefix = append(append([]uint64{}, old[:i]...), old[i+k:]...)
					if !attempt() {
						rp.Prefix = old
						i += k
					}
				}
			}
			good = attempt()
		}
	}
	if !good {
		return ""
	}
	// fill in the human-readable part
	cmd := exec.Command(os.Args[0], "replay", "-known", known, path)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=log_path=/dev/null exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=4")
	out, _ := cmd.Output()
	rp.Scenario = strings.Split(strings.TrimSpace(string(out)), "\n")
	if n := len(rp.Scenario); n > 0 {
		rp.Scenario = rp.Scenario[:n-1]
	}
	write(rp)
	fmt.Printf("%s: run %d: %s\n  %s\n", p.ID, f.Idx, rp.Key, f.Msg)
	for i, l := range rp.Scenario {
		if i == 60 {
			break
		}
		fmt.Println("  | " + l)
	}
	return fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path)
}

// selftest runs seeds twice and compares the logs.
func selftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Uint64("n", 200, "")
	seed := fs.Uint64("seed", 1, "")
	only := fs.String("prop", "", "")
	fs.Parse(args)
	var ids []string
	for id := range props {
		if *only == "" || id == *only {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		p := props[id]
		for i := uint64(0); i < *n; i++ {
			c := newChoices(runSeed(*seed, id, i))
			a := execute(p, "quick", i, c)
			b := execute(p, "quick", i, replayChoices(c.rec))
			if a.LogHash != b.LogHash || a.Stats.SchedHash != b.Stats.SchedHash || a.Stats.Steps != b.Stats.Steps {
				fmt.Printf("%s run %d: differs: log %x/%x steps %d/%d\n", id, i, a.LogHash, b.LogHash, a.Stats.Steps, b.Stats.Steps)
				for k := range a.Run.lines {
					if k >= len(b.Run.lines) || a.Run.lines[k] != b.Run.lines[k] {
						fmt.Println("  1:", a.Run.lines[k])
						if k < len(b.Run.lines) {
							fmt.Println("  2:", b.Run.lines[k])
						}
						break
					}
				}
				bad++
				if bad > 10 {
					os.Exit(1)
				}
			}
		}
		fmt.Printf("%s: %d seeds executed twice\n", id, *n)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: sim run|worker|replay|selftest|list ...")
		os.Exit(2)
	}
	rt.Init(200000)
	switch os.Args[1] {
	case "run":
		runMain(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "selftest":
		selftest(os.Args[2:])
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}
