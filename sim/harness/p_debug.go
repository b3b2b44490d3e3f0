package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/debug"
	rt "github.com/katydid/katydid/zzsimrt"
)

func init() {
	register(&Prop{ID: "C16", Run: runC16, Quick: 1500000,
		RealCode: []string{"parser/debug", "parser/json", "parser/xml", "parser/yaml", "parser/proto", "parser/reflect"},
		Stubs:    []string{"half of the documents come from an in-memory source that checks the cursor protocol and injects failures", "the log, the clock and the randomness are simulated"},
		Assume:   []string{"the random source of the random walk keeps the contract of Intn"},
		Rule:     "each run draws a source (a parser of this library with a document, or the in-memory source with failing steps, failing accessors or panics) and either visits it twice with one drawn sequence of calls, bare and wrapped in one or two loggers (capturing, failing, to the line logger, to the delay logger with the simulated clock), comparing every result, every error by identity and the calls that reached the source; or walks it completely or randomly with simulated randomness and compares the result with the document. Non-trivial: at least three calls. Distinct by document, wrapper and calls."})
}

// recParser records what a consumer sees of p.
type recParser struct {
	p     parser.Interface
	calls []string
	errs  []error
}

func (c *recParser) add(s string, err error) {
	c.calls = append(c.calls, s)
	c.errs = append(c.errs, err)
}

func (c *recParser) Next() error {
	err := c.p.Next()
	c.add(fmt.Sprintf("Next()=%v", err), err)
	return err
}

func (c *recParser) IsLeaf() bool {
	b := c.p.IsLeaf()
	c.add(fmt.Sprintf("IsLeaf()=%v", b), nil)
	return b
}

func (c *recParser) Up()   { c.p.Up(); c.add("Up()", nil) }
func (c *recParser) Down() { c.p.Down(); c.add("Down()", nil) }

func (c *recParser) Bool() (bool, error) {
	v, err := c.p.Bool()
	c.add(fmt.Sprintf("Bool()=%v,%v", v, err), err)
	return v, err
}

func (c *recParser) Int() (int64, error) {
	v, err := c.p.Int()
	c.add(fmt.Sprintf("Int()=%v,%v", v, err), err)
	return v, err
}

func (c *recParser) Uint() (uint64, error) {
	v, err := c.p.Uint()
	c.add(fmt.Sprintf("Uint()=%v,%v", v, err), err)
	return v, err
}

func (c *recParser) Double() (float64, error) {
	v, err := c.p.Double()
	c.add(fmt.Sprintf("Double()=%v,%v", v, err), err)
	return v, err
}

func (c *recParser) String() (string, error) {
	v, err := c.p.String()
	c.add(fmt.Sprintf("String()=%q,%v", v, err), err)
	return v, err
}

func (c *recParser) Bytes() ([]byte, error) {
	v, err := c.p.Bytes()
	c.add(fmt.Sprintf("Bytes()=%q nil:%v,%v", v, v == nil, err), err)
	return v, err
}

// simLogger formats like a real one and remembers how much it got.
type simLogger struct{ lines, bytes int }

func (l *simLogger) Printf(format string, v ...interface{}) {
	l.lines++
	l.bytes += len(fmt.Sprintf(format, v...))
}

var devNull *os.File

func lineLogger(f func() debug.Logger) debug.Logger {
	if devNull == nil {
		var err error
		if devNull, err = os.OpenFile(os.DevNull, os.O_WRONLY, 0); err != nil {
			panic(err)
		}
	}
	old := os.Stderr
	os.Stderr = devNull
	defer func() { os.Stderr = old }()
	return f()
}

// simRand is the randomness of the random walk.
type simRand struct {
	r     *Run
	mode  int
	calls int
	bad   string
}

func (s *simRand) Intn(n int) int {
	s.calls++
	if n <= 0 {
		s.bad = fmt.Sprintf("Intn(%d)", n)
		return 0
	}
	switch s.mode {
	case 1:
		return n - 1
	case 2:
		return 0
	}
	return s.r.Int(n)
}

// walkValue is what the walkers show of a node.
func (v Val) walkValue() interface{} {
	switch {
	case v.HasI:
		return v.I
	case v.HasU:
		return v.U
	case v.HasD:
		return v.D
	case v.HasB:
		return v.B
	case v.HasS:
		return v.S
	case v.HasY:
		return []byte(v.Y)
	}
	return nil
}

func walkWant(ns []*Node) debug.Nodes {
	w := debug.Nodes{}
	for _, n := range ns {
		d := debug.Node{Label: fmt.Sprintf("%v", n.Val.walkValue())}
		if !n.Leaf {
			d.Children = walkWant(n.Kids)
		}
		w = append(w, d)
	}
	return w
}

func sameNodes(a, b debug.Nodes) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Label != b[i].Label || !sameNodes(a[i].Children, b[i].Children) {
			return false
		}
	}
	return true
}

// partOf is whether got are nodes of ns, in order.
func partOf(got debug.Nodes, ns []*Node) bool {
	i := 0
	for _, g := range got {
		for ; ; i++ {
			if i == len(ns) {
				return false
			}
			n := ns[i]
			if g.Label == fmt.Sprintf("%#v", n.Val.walkValue()) && partOf(g.Children, n.Kids) {
				break
			}
		}
		i++
	}
	return true
}

// wrapSource is a document source that can be opened any number of times.
type wrapSource struct {
	name  string
	want  []*Node
	open  func() parser.Interface
	limit uint64
	size  int
	fault treeFault
	tree  bool
}

func (r *Run) genSource(kinds ...string) *wrapSource {
	if r.Int(2) == 0 {
		b := 2 + r.Int(20)
		cfg := &DocCfg{MaxDepth: 2 + r.Int(4), Typed: r.Int(2) == 1, JSONLike: r.Int(3) == 2}
		ns := r.genForest(cfg, 0, &b)
		s := &wrapSource{name: "tree " + forest(ns), want: ns, limit: 100000 + encLimit(weight(ns)), size: countNodes(ns), tree: true}
		if r.FInt(2) == 1 {
			s.fault = treeFault{at: 1 + r.FInt(2*s.size+3), err: fmt.Errorf("source failure %d", r.FInt(100)), panic: r.FInt(4) == 3, val: r.FInt(3) == 2, after: r.FInt(3)}
		}
		s.open = func() parser.Interface {
			t := newTreeParser(ns)
			t.keepLog = true
			t.fault = s.fault
			return t
		}
		return s
	}
	if len(kinds) == 0 {
		kinds = formatKinds
	}
	w := r.genFormat(kinds...)
	d := w.gen(r)
	if w.binary && r.Int(4) == 3 {
		d = r.corruptDoc(w, d, nil)
		d.want = nil
		if c := r.Guard(docLimit(d), func() {
			if p := w.newP(); p.load(d) != nil {
				d = nil
			}
		}); c != nil {
			r.Discard()
		}
		if d == nil {
			r.Discard()
		}
		return &wrapSource{name: w.kind + " (corrupt) " + d.String(), limit: 8 * docLimit(d), size: len(d.data), open: func() parser.Interface {
			p := w.newP()
			p.load(d)
			return p
		}}
	}
	return &wrapSource{name: w.kind + " " + d.String(), want: d.want, limit: 8 * docLimit(d), size: len(d.data) + 20*countNodes(d.want), tree: true, open: func() parser.Interface {
		p := w.newP()
		r.mustLoad(w, p, d)
		return p
	}}
}

func (r *Run) sourceFault(s *wrapSource, p parser.Interface) {
	if t, ok := p.(*treeParser); ok && t.fired {
		k := "source-error"
		if s.fault.val {
			k = "accessor-error"
		}
		if s.fault.panic {
			k += "-as-panic"
		}
		r.Fault(k)
	}
}

func runC16(r *Run) {
	s := r.genSource()
	switch r.Int(3) {
	case 0:
		r.logged(s)
	case 1:
		r.walked(s)
	default:
		r.randomly(s)
	}
}

func (r *Run) logged(s *wrapSource) {
	t := &tape{r: r}
	pol := r.genPolicy()
	visit := func(p parser.Interface, t *tape) (*recParser, *Caught) {
		rec := &recParser{p: p}
		b := newBlind(t, rec, pol, s.size)
		c := r.Guard(s.limit, func() { b.level(0) })
		return rec, c
	}
	bareSrc := s.open()
	bare, bareC := visit(bareSrc, t)
	if bareC != nil && bareC.Hang {
		r.Discard()
	}
	r.sourceFault(s, bareSrc)
	r.Logf("%s: %d calls, %v", s.name, len(bare.calls), bareC)
	src := s.open()
	var p parser.Interface = src
	var name []string
	var logs []*simLogger
	delay := time.Duration(0)
	start := rt.Clock()
	for k := 1 + r.Int(2); k > 0; k-- {
		switch r.Int(3) {
		case 0:
			l := &simLogger{}
			logs = append(logs, l)
			p = debug.NewLogger(p, l)
			name = append(name, "capturing")
		case 1:
			p = debug.NewLogger(p, lineLogger(debug.NewLineLogger))
			name = append(name, "line")
		default:
			d := time.Duration(r.Int(5)) * time.Hour
			p = debug.NewLogger(p, lineLogger(func() debug.Logger { return debug.NewDelayLogger(d) }))
			delay += d
			name = append(name, "delay "+d.String())
		}
	}
	got, gotC := visit(p, t.again())
	what := s.name + ", loggers " + strings.Join(name, ", ")
	if len(bare.calls) >= 3 {
		r.Nontrivial(what + fmt.Sprint(s.fault) + strings.Join(bare.calls, ""))
	}
	for i := range got.calls {
		if i >= len(bare.calls) || got.calls[i] != bare.calls[i] {
			w := "nothing"
			if i < len(bare.calls) {
				w = bare.calls[i]
			}
			r.Violate("logger:result", "%s: call %d is %s, without the logger %s", what, i, got.calls[i], w)
		}
		if s.fault.at != 0 && got.errs[i] != bare.errs[i] {
			r.Violate("logger:error-identity", "%s: call %d returns error %v, which is not the error of the source", what, i, got.errs[i])
		}
	}
	if len(got.calls) < len(bare.calls) {
		r.Violate("logger:fewer", "%s: %d calls return, without the logger %d; %v", what, len(got.calls), len(bare.calls), gotC)
	}
	if (gotC == nil) != (bareC == nil) || gotC != nil && fmt.Sprint(gotC.Val) != fmt.Sprint(bareC.Val) || gotC != nil && s.fault.at != 0 && gotC.Val != bareC.Val {
		r.Violate("logger:panic", "%s: %v, without the logger %v", what, gotC, bareC)
	}
	a, ok := bareSrc.(*treeParser)
	b, _ := src.(*treeParser)
	if ok && string(a.log) != string(b.log) {
		r.Violate("logger:source-calls", "%s: the source was called %q, without the logger %q", what, b.log, a.log)
	}
	for _, l := range logs {
		if l.lines != len(got.calls) {
			r.Violate("logger:lines", "%s: %d calls, but %d lines logged", what, len(got.calls), l.lines)
		}
	}
	if want := int64(delay) * int64(len(got.calls)); rt.Clock()-start < want {
		r.Violate("logger:delay", "%s: %d calls took %v", what, len(got.calls), time.Duration(rt.Clock()-start))
	}
}

// walkEnd judges how a walk ended. It returns whether there is a result to look at.
func (r *Run) walkEnd(s *wrapSource, what string, p parser.Interface, c *Caught) bool {
	r.sourceFault(s, p)
	t, _ := p.(*treeParser)
	if t != nil && t.bad != "" {
		r.Violate("walk:protocol", "%s: %s", what, t.bad)
	}
	if c == nil {
		if t != nil && t.failed {
			r.Violate("walk:swallowed", "%s: the source failed with %v, but the walk ends normally", what, s.fault.err)
		}
		if t != nil && t.downs != t.ups {
			r.Violate("walk:unbalanced", "%s: %d levels entered, %d left", what, t.downs, t.ups)
		}
		return true
	}
	if c.Hang || c.Depth {
		r.Violate("walk:"+c.Class(), "%s: %s", what, c)
	}
	if t != nil {
		err, ok := c.Val.(error)
		if !t.failed || !ok || !errors.Is(err, s.fault.err) {
			r.Violate("walk:"+c.Class(), "%s: %s; the source failed: %v, with %v", what, c, t.failed, s.fault.err)
		}
	} else if s.tree {
		r.Violate("walk:"+c.Class(), "%s: %s", what, c)
	} else if _, ok := c.Val.(error); !ok {
		r.Violate("walk:"+c.Class(), "%s: %s", what, c)
	}
	return false
}

func (r *Run) walked(s *wrapSource) {
	p := s.open()
	if s.fault.val && !s.fault.panic {
		s.fault.at = 0 // the walkers try the next accessor
		p = s.open()
	}
	var got debug.Nodes
	c := r.Guard(s.limit, func() { got = debug.Walk(p) })
	what := "complete walk of " + s.name
	if s.fault.at > 0 {
		what += fmt.Sprintf(" failing at %d", s.fault.at)
	}
	if s.size > 2 {
		r.Nontrivial(what)
	}
	r.Logf("%s: %v, %v", what, got, c)
	if !r.walkEnd(s, what, p, c) || !s.tree {
		return
	}
	if want := walkWant(s.want); !sameNodes(got, want) {
		r.Violate("walk:nodes", "%s: %v, the document is %v", what, got, want)
	}
	if !got.Equal(walkWant(s.want)) {
		r.Violate("walk:equal", "%s: Nodes.Equal of equal nodes is false", what)
	}
}

func (r *Run) randomly(s *wrapSource) {
	p := s.open()
	if s.fault.val && !s.fault.panic {
		s.fault.at = 0
		p = s.open()
	}
	var rnd debug.Rand
	sim := &simRand{r: r, mode: r.Int(4)}
	rnd = sim
	if sim.mode == 3 {
		rnd = debug.NewRand()
	}
	next, down := 1+r.Int(10), 1+r.Int(5)
	var got debug.Nodes
	c := r.Guard(s.limit, func() { got = debug.RandomWalk(p, rnd, next, down) })
	what := fmt.Sprintf("random walk (%d, %d, randomness %d) of %s", next, down, sim.mode, s.name)
	if s.fault.at > 0 {
		what += fmt.Sprintf(" failing at %d", s.fault.at)
	}
	if s.size > 2 {
		r.Nontrivial(what + fmt.Sprint(got))
	}
	r.Logf("%s: %v, %v", what, got, c)
	if sim.bad != "" {
		r.Violate("walk:random", "%s: %s", what, sim.bad)
	}
	if !r.walkEnd(s, what, p, c) || !s.tree {
		return
	}
	if !partOf(got, s.want) {
		r.Violate("walk:foreign", "%s: %v is not a part of %s", what, got, forest(s.want))
	}
}
