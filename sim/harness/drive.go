package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/katydid/katydid/parser"
)

// ---- cursor schedules ----------------------------------------------------------------------------

// drivePolicy says how a document is visited.
type drivePolicy struct {
	leave  int // one in leave steps leaves the current level early; 0: never
	skip   int // one in skip nodes is not entered; 0: all are
	past   int // one in past ends is stepped past; 0: never
	read   int // how many accessors are called on average, 0: all once in the fixed order
	isLeaf bool
	stop   int // the walk is abandoned at one in stop nodes, at any depth; 0: never
}

func (r *Run) genPolicy() *drivePolicy {
	pick := func(xs ...int) int { return xs[r.Int(len(xs))] }
	return &drivePolicy{leave: pick(0, 12, 5, 3), skip: pick(0, 4, 2), past: pick(0, 3), read: pick(0, 1, 2, 4, 8), isLeaf: r.Int(3) != 2}
}

var fullWalk = &drivePolicy{isLeaf: true}

// kept is a string or byte slice a parser returned, and its contents at that time.
type kept struct {
	s    string
	b    []byte
	copy string
	what string
}

func (k *kept) ok() bool {
	if k.b != nil {
		return string(k.b) == k.copy
	}
	return k.s == k.copy
}

// tape is a sequence of decisions that can be played again.
type tape struct {
	r    *Run
	gen  *pcg // decisions come from here instead of from r
	seed int
	v    []int
	pos  int
}

// seededTape is a tape that needs no further decisions of the run.
func seededTape(seed int) *tape {
	s := splitmix(uint64(seed))
	return &tape{gen: &pcg{s, splitmix(s)}, seed: seed}
}

func (t *tape) Int(n int) int {
	if n <= 1 {
		return 0
	}
	if t.gen != nil {
		return int((t.gen.next() >> 33) % uint64(n))
	}
	if t.pos == len(t.v) {
		t.v = append(t.v, t.r.Int(n))
	}
	t.pos++
	return t.v[t.pos-1] % n
}

func (t *tape) again() *tape {
	if t.gen != nil {
		return seededTape(t.seed)
	}
	return &tape{r: t.r, v: t.v}
}

// driver visits a document with a drawn schedule and compares it with the model.
type driver struct {
	r     *Run
	p     parser.Interface
	pol   *drivePolicy
	name  string
	trace []string // what happened, when wanted
	rec   bool
	// retained values
	keep  bool
	kepts []kept
	// bounds
	steps   int
	stopped bool
}

func (d *driver) note(f string, a ...interface{}) {
	d.steps++
	if d.rec {
		d.trace = append(d.trace, fmt.Sprintf(f, a...))
	}
}

func (d *driver) bad(key, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	t := d.trace
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	d.r.Violate(key, "%s: %s (calls: %s)", d.name, msg, strings.Join(t, " "))
}

func (d *driver) draw(n int) bool { return n > 0 && d.r.Int(n) == n-1 }

// check compares the current node with the model.
func (d *driver) check(n *Node, path string) {
	isLeaf := func() {
		got := d.p.IsLeaf()
		d.note("IsLeaf=%v", got)
		if got != n.Leaf {
			d.bad("kind", "node %s %s: IsLeaf is %v", path, n.Val, got)
		}
	}
	acc := func(a int) {
		var v Val
		var err error
		if d.keep && (a == accS || a == accY) {
			if a == accS {
				var s string
				s, err = d.p.String()
				v.HasS, v.S = err == nil, s
				if err == nil {
					d.kepts = append(d.kepts, kept{s: s, copy: strings.Clone(s), what: "string of " + path})
				} else {
					v.S = ""
				}
			} else {
				var b []byte
				b, err = d.p.Bytes()
				v.HasY, v.Y = err == nil, string(b)
				if err == nil && len(b) > 0 {
					d.kepts = append(d.kepts, kept{b: b, copy: string(b), what: "bytes of " + path})
				}
				if err != nil {
					v.Y = ""
				}
			}
		} else {
			err = readAcc(d.p, a, &v)
		}
		got, want := v.accString(a), n.Val.accString(a)
		d.note("%s=%s", accNames[a], got)
		if got != want {
			d.bad("value:"+accNames[a], "node %s: %s is %s, the document says %s", path, accNames[a], got, want)
		}
	}
	if d.pol.read == 0 {
		if d.pol.isLeaf {
			isLeaf()
		}
		for a := 0; a < nAcc; a++ {
			acc(a)
		}
		return
	}
	for k := d.r.Int(2 * d.pol.read); k >= 0; k-- {
		a := d.r.Int(nAcc + 1)
		if a == nAcc {
			isLeaf()
		} else {
			acc(a)
		}
	}
	if d.pol.isLeaf {
		isLeaf()
	}
}

// level visits the nodes of one level, the cursor being before the first.
func (d *driver) level(ns []*Node, path string, top bool) {
	for i := 0; ; i++ {
		if d.draw(d.pol.leave) {
			d.note("leave")
			return
		}
		err := d.p.Next()
		d.note("Next=%v", err)
		if i == len(ns) {
			if err != io.EOF {
				d.bad("end", "level %s has %d nodes, but Next number %d returns %v", path, len(ns), i+1, err)
			}
			for d.draw(d.pol.past) {
				err := d.p.Next()
				d.note("Next=%v", err)
				if err != io.EOF {
					d.bad("past-end", "level %s: Next after the end returns %v", path, err)
				}
			}
			return
		}
		if err != nil {
			d.bad("missing", "level %s has %d nodes, but Next number %d returns %v", path, len(ns), i+1, err)
		}
		p := fmt.Sprintf("%s/%d", path, i)
		d.check(ns[i], p)
		if d.draw(d.pol.stop) {
			d.note("stop")
			d.stopped = true
			return
		}
		if !ns[i].Leaf && !d.draw(d.pol.skip) {
			d.p.Down()
			d.note("Down")
			d.level(ns[i].Kids, p, false)
			if d.stopped {
				return
			}
			d.p.Up()
			d.note("Up")
		}
	}
}

// walkModel visits a loaded document once and compares it with what it means.
func (r *Run) walkModel(w *fworld, p parser.Interface, doc *fdoc, pol *drivePolicy) *driver {
	d := &driver{r: r, p: p, pol: pol, name: w.kind + " " + doc.String(), rec: true}
	if c := r.Guard(4*docLimit(doc), func() { d.level(doc.want, "", true) }); c != nil {
		d.bad(w.kind+":walk:"+c.Class(), "%s", c)
	}
	return d
}

// ---- walks without a model -----------------------------------------------------------------------

// blind visits whatever the parser shows, recording everything.
type blind struct {
	r        *tape
	p        parser.Interface
	pol      *drivePolicy
	trace    []string
	max      int
	over     bool
	err      error
	lastLeaf int // where the record of the last leaf starts
	kepts    []kept
	keep     bool
	maxDepth int
}

func (b *blind) note(f string, a ...interface{}) { b.trace = append(b.trace, fmt.Sprintf(f, a...)) }

func (b *blind) draw(n int) bool { return n > 0 && b.r.Int(n) == n-1 }

func (b *blind) val(a int) {
	var v Val
	if b.keep && a == accS {
		s, err := b.p.String()
		v.HasS, v.S = err == nil, strings.Clone(s)
		if err == nil {
			b.kepts = append(b.kepts, kept{s: s, copy: v.S, what: "string"})
		} else {
			v.S = ""
		}
	} else if b.keep && a == accY {
		y, err := b.p.Bytes()
		v.HasY, v.Y = err == nil, string(y)
		if err == nil && len(y) > 0 {
			b.kepts = append(b.kepts, kept{b: y, copy: string(y), what: "bytes"})
		}
		if err != nil {
			v.Y = ""
		}
	} else {
		readAcc(b.p, a, &v)
	}
	b.note("%s", v.accString(a))
}

// newBlind makes a walker for a document of n bytes.
func newBlind(t *tape, p parser.Interface, pol *drivePolicy, n int) *blind {
	return &blind{r: t, p: p, pol: pol, max: 400 + 60*n, maxDepth: 20 + 2*n, lastLeaf: -1}
}

// level returns false when the walk is over because of an error.
func (b *blind) level(depth int) bool {
	for {
		if len(b.trace) > b.max {
			b.over = true
			return false
		}
		if b.draw(b.pol.leave) {
			b.note("leave")
			return true
		}
		err := b.p.Next()
		if err == io.EOF {
			b.note("EOF")
			for b.draw(b.pol.past) {
				err := b.p.Next()
				b.note("Next=%v", err)
				if err != io.EOF {
					// a document that is shown beyond its end is caught by the caller
					b.err = fmt.Errorf("Next after EOF returns %v", err)
					return false
				}
			}
			return true
		}
		if err != nil {
			b.note("error %v", err)
			b.err = err
			return false
		}
		isLeaf := b.p.IsLeaf()
		if isLeaf {
			b.lastLeaf = len(b.trace)
		} else {
			b.lastLeaf = -1
		}
		b.note("N leaf=%v", isLeaf)
		if b.pol.read == 0 {
			for a := 0; a < nAcc; a++ {
				b.val(a)
			}
		} else {
			for k := b.r.Int(2 * b.pol.read); k > 0; k-- {
				b.val(b.r.Int(nAcc))
			}
		}
		if b.draw(b.pol.stop) {
			b.note("stop")
			return false
		}
		if !isLeaf && !b.draw(b.pol.skip) {
			b.p.Down()
			b.note("Down")
			if depth > b.maxDepth {
				b.over = true
				return false
			}
			if !b.level(depth + 1) {
				return false
			}
			b.p.Up()
			b.note("Up")
		}
	}
}
