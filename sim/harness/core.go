package main

import (
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	rt "github.com/katydid/katydid/zzsimrt"
)

// ---- choices -------------------------------------------------------------------------------------

// Stream separates the three kinds of decisions of a run, so that shrinking one does not shift another.
type Stream int

// The streams.
const (
	Work  Stream = iota // which workload: documents, grammars, operations
	Fault               // which faults, and where
	Sched               // which interleaving, which internal iteration order
	nStreams
)

type pcg struct{ hi, lo uint64 }

//go:norace
func (p *pcg) next() uint64 {
	// splitmix-seeded xoroshiro-like generator: PCG-DXSM step
	const cm = 0xda942042e4dd58b5
	hi, lo := bits.Mul64(p.lo, cm)
	hi += p.hi * cm
	lo, c := bits.Add64(lo, 0xa02bdbf7bb3c0a7b, 0)
	hi, _ = bits.Add64(hi, 0x9e3779b97f4a7c15, c)
	p.hi, p.lo = hi, lo
	x := p.hi
	l := p.lo | 1
	x ^= x >> 32
	x *= cm
	x ^= x >> 48
	x *= l
	return x
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Choices produces or replays all decisions of one run.
type Choices struct {
	gen    [nStreams]pcg
	rec    [nStreams][]uint32
	pos    [nStreams]int
	replay bool
	src    [nStreams][]uint32
}

func newChoices(seed uint64) *Choices {
	c := &Choices{}
	for i := range c.gen {
		s := splitmix(seed ^ splitmix(uint64(i)+77))
		c.gen[i] = pcg{splitmix(s), splitmix(s + 1)}
		c.gen[i].next()
	}
	return c
}

func replayChoices(src [nStreams][]uint32) *Choices { return &Choices{replay: true, src: src} }

// Draw returns a decision in [0,n).
//
//go:norace
func (c *Choices) Draw(s Stream, n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if c.replay {
		if c.pos[s] < len(c.src[s]) {
			v = uint64(c.src[s][c.pos[s]]) % n
		}
		c.pos[s]++
	} else {
		v = c.gen[s].next()
		if n <= 1<<32 {
			v = ((v >> 32) * n) >> 32
		} else {
			v = v % n & 0xffffffff
		}
	}
	c.rec[s] = append(c.rec[s], uint32(v))
	return v
}

// ---- a run ---------------------------------------------------------------------------------------

// Violation describes a broken property.
type Violation struct {
	Key string // class: identifies the same failure across schedules
	Msg string
}

type violationPanic struct{ v Violation }
type discardPanic struct{}

// Run is one simulated execution.
type Run struct {
	*Choices
	Prop    string
	Tier    string
	Index   uint64
	Verbose bool

	lines     []string
	logHash   uint64
	events    int
	faults    map[string]int
	probes    map[string]int
	trivial   bool
	sig       uint64
	maxSteps  uint64
	simTime   int64
	known     []string
	narrow    bool // wide grammars are less wide, and rare
	repeat    bool // the grammar repeats parts of itself
	parts     []part
	scale     int // see scale.go
	scaleLeft int
	long      string // a long literal
	twin      int    // which of two strings with one hash literals are made of: 0 for no preference
}

func newRun(prop string, idx uint64, c *Choices) *Run {
	return &Run{Prop: prop, Index: idx, Choices: c, logHash: 14695981039346656037, faults: map[string]int{}, probes: map[string]int{}, trivial: true, sig: 14695981039346656037}
}

// Int draws a workload decision in [0,n).
func (r *Run) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Draw(Work, uint64(n)))
}

// Chance is true with probability num/den; the zero choice is false.
func (r *Run) Chance(num, den int) bool { return r.Int(den) >= den-num }

// FInt draws a fault decision.
func (r *Run) FInt(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Draw(Fault, uint64(n)))
}

// FChance is true with probability num/den; the zero choice is false.
func (r *Run) FChance(num, den int) bool { return r.FInt(den) >= den-num }

// SInt draws a scheduling decision.
func (r *Run) SInt(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Draw(Sched, uint64(n)))
}

var verbose = os.Getenv("ZZSIM_VERBOSE") != ""

// Logf records an event of the scenario. It must not depend on anything but the run.
func (r *Run) Logf(f string, a ...interface{}) {
	r.events++
	s := fmt.Sprintf(f, a...)
	if verbose {
		fmt.Fprintln(os.Stderr, s)
	}
	for i := 0; i < len(s); i++ {
		r.logHash = (r.logHash ^ uint64(s[i])) * 1099511628211
	}
	r.logHash = (r.logHash ^ '\n') * 1099511628211
	if len(r.lines) < 4000 {
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		r.lines = append(r.lines, s)
	}
}

// Fault counts an injected fault (when it actually fires).
func (r *Run) Fault(kind string) { r.faults[kind]++ }

// Probe counts a rare condition.
func (r *Run) Probe(name string) { r.probes[name]++ }

// Nontrivial marks the run as one that exercised the property, and adds to its signature.
func (r *Run) Nontrivial(sig string) {
	r.trivial = false
	for i := 0; i < len(sig); i++ {
		r.sig = (r.sig ^ uint64(sig[i])) * 1099511628211
	}
}

// Nontrivial2 adds to the signature of the run without marking it.
func (r *Run) Nontrivial2(sig string) {
	for i := 0; i < len(sig); i++ {
		r.sig = (r.sig ^ uint64(sig[i])) * 1099511628211
	}
}

// Violate reports a violation and ends the run.
func (r *Run) Violate(key, f string, a ...interface{}) {
	panic(violationPanic{Violation{r.Prop + ":" + key, fmt.Sprintf(f, a...)}})
}

// KnownKey reports whether the violation class is listed as a known finding. If so it is counted
// and the caller goes on.
func (r *Run) KnownKey(key string) bool {
	k := r.Prop + ":" + key
	if knownFindings[k] {
		r.known = append(r.known, k)
		return true
	}
	return false
}

// Discard ends the run without judging it.
func (r *Run) Discard() { panic(discardPanic{}) }

var knownFindings = map[string]bool{}

// Caught is a panic that came out of the code under test.
type Caught struct {
	Val   interface{}
	Where string // innermost library function
	Hang  bool
	Depth bool
}

func (c *Caught) String() string {
	if c == nil {
		return "no panic"
	}
	return fmt.Sprintf("panic %q in %s", fmt.Sprint(c.Val), c.Where)
}

// Class is a stable name of the panic.
func (c *Caught) Class() string {
	if c.Hang {
		return "hang@" + c.Where
	}
	if c.Depth {
		return "runaway-recursion"
	}
	s := fmt.Sprint(c.Val)
	if e, ok := c.Val.(runtime.Error); ok {
		s = e.Error()
		switch {
		case strings.Contains(s, "index out of range"):
			s = "index out of range"
		case strings.Contains(s, "slice bounds out of range"):
			s = "slice bounds out of range"
		case strings.Contains(s, "nil pointer"):
			s = "nil dereference"
		}
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return "panic@" + c.Where + ":" + s
}

func where(stack string) string {
	// lines: function, file:line, ...; find the innermost library frame after the panic
	ls := strings.Split(stack, "\n")
	start := 0
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			start = i + 1
		}
	}
	for i := start; i < len(ls); i++ {
		l := ls[i]
		if strings.HasPrefix(l, "github.com/katydid/katydid/") && !strings.HasPrefix(l, "github.com/katydid/katydid/zzsim") {
			l = strings.TrimPrefix(l, "github.com/katydid/katydid/")
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return l
		}
	}
	return "?"
}

// Guard runs library code and returns the panic that came out of it, if any. limit bounds the number
// of statements executed.
func (r *Run) Guard(limit uint64, f func()) (c *Caught) {
	rt.SetStepLimit(limit)
	start := rt.Steps()
	defer func() {
		n := rt.Steps() - start
		if n > r.maxSteps {
			r.maxSteps = n
		}
		rt.SetStepLimit(0)
		if p := recover(); p != nil {
			c = caught(p, string(debug.Stack()))
		}
	}()
	f()
	return nil
}

func caught(p interface{}, stack string) *Caught {
	switch p.(type) {
	case violationPanic, discardPanic:
		panic(p)
	case rt.StepLimit:
		return &Caught{p, where(stack), true, false}
	case rt.DepthLimit:
		return &Caught{p, where(stack), false, true}
	}
	return &Caught{p, where(stack), false, false}
}

// Prop is a simulated check of one property.
type Prop struct {
	ID    string
	Run   func(r *Run)
	Quick int // runs in the quick tier
	Rule  string
	// RealCode and Stubs are reported in the evidence.
	RealCode []string
	Stubs    []string
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Outcome of one run.
type Outcome struct {
	Violation *Violation
	Discarded bool
	LogHash   uint64
	Sched     uint64
	Stats     rt.Stats
	Run       *Run
}

const clockBase = 1700000000 * int64(1e9)

// execute performs one run.
func execute(p *Prop, tier string, idx uint64, c *Choices) (out Outcome) {
	r := newRun(p.ID, idx, c)
	r.Tier = tier
	rt.Draw = (&gapper{c: c}).draw
	rt.Begin(rt.Options{MapOrder: true, Clock: clockBase})
	defer func() {
		out.Stats = rt.End()
		out.Run = r
		r.simTime = rt.Clock() - clockBase
		if e := recover(); e != nil {
			switch x := e.(type) {
			case violationPanic:
				out.Violation = &x.v
			case discardPanic:
				out.Discarded = true
			default:
				// a panic nobody expected: from the library it is a violation, from the harness an error
				stack := string(debug.Stack())
				cc := caught(e, stack)
				if isHarnessPanic(stack) {
					fmt.Fprintf(os.Stderr, "harness panic in %s run %d: %v\n%s\n", p.ID, idx, e, stack)
					os.Exit(4)
				}
				out.Violation = &Violation{p.ID + ":uncaught:" + cc.Class(), cc.String()}
			}
		}
		if out.Violation != nil {
			r.Logf("VIOLATION %s: %s", out.Violation.Key, out.Violation.Msg)
		}
		out.LogHash = r.logHash
	}()
	p.Run(r)
	return
}

func isHarnessPanic(stack string) bool {
	ls := strings.Split(stack, "\n")
	start := 0
	for i, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			start = i + 1
		}
	}
	for i := start; i < len(ls); i++ {
		l := ls[i]
		if strings.HasPrefix(l, "main.") {
			return true
		}
		if strings.HasPrefix(l, "github.com/katydid/katydid/") && !strings.HasPrefix(l, "github.com/katydid/katydid/zzsim") {
			return false
		}
	}
	return true
}

// ---- shrinking -----------------------------------------------------------------------------------

type shrinker struct {
	p      *Prop
	tier   string
	idx    uint64
	key    string
	best   [nStreams][]uint32
	execs  int
	budget func() bool
}

func (s *shrinker) try(c [nStreams][]uint32) bool {
	if !s.budget() {
		return false
	}
	s.execs++
	ch := replayChoices(c)
	o := execute(s.p, s.tier, s.idx, ch)
	if o.Violation == nil || o.Violation.Key != s.key {
		return false
	}
	// normalise to what was really consumed
	n := ch.rec
	for i := range n {
		k := len(n[i])
		for k > 0 && n[i][k-1] == 0 {
			k--
		}
		n[i] = n[i][:k]
	}
	if size(n) > size(s.best) {
		return false
	}
	s.best = n
	return true
}

func size(c [nStreams][]uint32) int {
	t := 0
	for _, x := range c {
		t += len(x) * 64
		for _, v := range x {
			t += bits.Len32(v)
		}
	}
	return t
}

func clone(c [nStreams][]uint32) [nStreams][]uint32 {
	var n [nStreams][]uint32
	for i := range c {
		n[i] = append([]uint32{}, c[i]...)
	}
	return n
}

func (s *shrinker) run() {
	s.try(clone(s.best))
	for improved := true; improved && s.budget(); {
		improved = false
		// empty whole streams, preferring faults and schedule
		for _, st := range []Stream{Sched, Fault} {
			if len(s.best[st]) > 0 {
				c := clone(s.best)
				c[st] = nil
				if s.try(c) {
					improved = true
				}
			}
		}
		for _, st := range []Stream{Work, Fault, Sched} {
			// delete chunks
			for k := len(s.best[st]) / 2; k >= 1; k /= 2 {
				for i := 0; i+k <= len(s.best[st]); {
					c := clone(s.best)
					c[st] = append(c[st][:i], c[st][i+k:]...)
					if s.try(c) {
						improved = true
					} else {
						i += k
					}
					if !s.budget() {
						return
					}
				}
			}
			// zero chunks
			for k := 8; k >= 2; k /= 2 {
				for i := 0; i+k <= len(s.best[st]); i += k {
					c := clone(s.best)
					z := true
					for j := i; j < i+k; j++ {
						if c[st][j] != 0 {
							z = false
						}
						c[st][j] = 0
					}
					if !z && s.try(c) {
						improved = true
					}
				}
			}
			// lower single values
			for i := 0; i < len(s.best[st]); i++ {
				for i < len(s.best[st]) && s.best[st][i] != 0 {
					v := s.best[st][i]
					done := true
					for _, nv := range []uint32{0, v / 2, v - 1} {
						if nv >= v {
							continue
						}
						c := clone(s.best)
						c[st][i] = nv
						if s.try(c) {
							improved, done = true, false
							break
						}
						if !s.budget() {
							return
						}
					}
					if done {
						break
					}
				}
			}
		}
	}
}

// ---- replay files --------------------------------------------------------------------------------

// Replay is the file written for a violation.
type Replay struct {
	Property  string            `json:"property"`
	Tier      string            `json:"tier"`
	Seed      uint64            `json:"seed"`
	Run       uint64            `json:"run"`
	Key       string            `json:"key"`
	Message   string            `json:"message"`
	LogHash   string            `json:"log_hash"`
	Shrunk    bool              `json:"shrunk"`
	Choices   map[string]string `json:"choices"`
	Faults    map[string]int    `json:"faults_injected"`
	Scenario  []string          `json:"scenario"`
	Steps     uint64            `json:"steps"`
	Switches  uint64            `json:"context_switches"`
	ShrinkRun int               `json:"shrink_executions"`
	// FromSeed: the choices are those generated from the seed. Prefix: runs executed before in the same process.
	FromSeed bool     `json:"from_seed,omitempty"`
	Prefix   []uint64 `json:"prefix_runs,omitempty"`
}

var streamNames = [nStreams]string{"work", "fault", "sched"}

func encChoices(c [nStreams][]uint32) map[string]string {
	m := map[string]string{}
	for i, x := range c {
		var sb strings.Builder
		for j, v := range x {
			if j > 0 {
				sb.WriteByte(' ')
			}
			fmt.Fprintf(&sb, "%d", v)
		}
		m[streamNames[i]] = sb.String()
	}
	return m
}

func decChoices(m map[string]string) (c [nStreams][]uint32) {
	for i := range c {
		for _, f := range strings.Fields(m[streamNames[i]]) {
			var v uint32
			fmt.Sscanf(f, "%d", &v)
			c[i] = append(c[i], v)
		}
	}
	return
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// gaps returns a preemption policy drawn for the run.
func (r *Run) gaps() func() uint64 {
	g := []int{1 << 40, 1, 3, 10, 50, 300, 2000, 20000}[r.SInt(8)]
	if g == 1<<40 {
		return func() uint64 { return 1 << 40 }
	}
	return (&gapper{r.Choices, g}).next
}

type gapper struct {
	c *Choices
	g int
}

//go:norace
func (g *gapper) next() uint64 { return 1 + g.c.Draw(Sched, uint64(2*g.g)) }

// tasks runs functions as concurrent tasks. A panic of a task, a deadlock or a data race is a
// violation. hangOK: running out of steps is not.
func (r *Run) tasks(what string, fs []func(), name func(int) string, limit uint64, hangOK bool) []rt.TaskResult {
	races := rt.RaceErrors()
	rt.SetStepLimit(limit)
	var res []rt.TaskResult
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(rt.Deadlock); ok {
					r.Violate("deadlock", "%s: no task can run", what)
				}
				panic(p)
			}
		}()
		res = rt.RunTasks(fs, r.gaps())
	}()
	rt.SetStepLimit(0)
	for i, t := range res {
		if t.Panic == nil {
			continue
		}
		if _, ok := t.Panic.(rt.StepLimit); ok && hangOK {
			r.Discard()
		}
		c := caught(t.Panic, string(t.Stack))
		r.Violate("task:"+c.Class(), "%s: %s: %s", what, name(i), c)
	}
	if n := rt.RaceErrors() - races; n > 0 {
		r.Violate("data-race", "%s: %d data races between tasks %s", what, n, func() string {
			s := ""
			for i := range fs {
				s += name(i) + "; "
			}
			return s
		}())
	}
	return res
}

//go:norace
func (g *gapper) draw(n uint64) uint64 { return g.c.Draw(Sched, n) }
