package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/katydid/katydid/encode/json"
	"github.com/katydid/katydid/encode/xml"
	"github.com/katydid/katydid/parser"
)

var parserReal = []string{"parser/json", "parser/xml", "parser/yaml", "parser/proto", "parser/reflect"}

func init() {
	register(&Prop{ID: "C10", Run: runC10, Quick: 1500000,
		RealCode: append([]string{"relapse/mem", "relapse/intern", "relapse/auto", "relapse/interp"}, parserReal...),
		Stubs:    []string{"the consumer is a simulated cursor driver that follows drawn schedules, or one of the validation engines"},
		Assume:   []string{"YAML documents are from the documented subset (block mappings and sequences of plain scalars)", "the model of a document is written by the generator that writes its text"},
		Rule:     "each run draws a format, its configuration (descriptor set, prefixes) and a document together with its model, and walks it 1 to 3 times under drawn schedules (enter, skip, leave early, step past the end, any accessors in any order and number), comparing every step and value with the model; half of the runs also validate the document with a grammar shaped after it, with every engine, against the reference matcher. Non-trivial: a schedule left, skipped or entered a nested level. Distinct by document and schedule."})
	register(&Prop{ID: "C11", Run: runC11, Quick: 1000000,
		RealCode: append([]string{"relapse"}, parserReal...),
		Stubs:    []string{"the consumer is a simulated cursor driver or a validator"},
		Assume:   []string{"as for C10"},
		Rule:     "each run uses one parser for a history of 2 to 8 documents (intact, corrupt or repeated, in one reused buffer or in separate buffers overwritten afterwards), with drawn partial walks, validations, failures and resets in between; after each initialisation the same schedule is run on a new parser and all results must be equal, and equal to the model for intact documents. Non-trivial: the parser was left in the middle or after a failure before. Distinct by documents and schedules."})
	register(&Prop{ID: "C12", Run: runC12, Quick: 1500000,
		RealCode: parserReal[:4],
		Stubs:    []string{"the consumer is a simulated cursor driver"},
		Assume:   []string{"the consumer stops at the first error that Next returns, as the protocol demands", "the bound on steps is 20000 + 4000 n + 40 n^2 executed statements for n bytes; the bound on calls is 400 + 60 n"},
		Rule:     "each run corrupts a document (truncation, bit flips, splices, inserted and deleted bytes, overwritten lengths, random bytes, deep nesting), embeds it in a larger buffer, and walks it under a drawn schedule with two different surroundings: no panic, bounded steps, equal results. For protocol buffers, a nested region is corrupted under a fixed length prefix and shown with two different tails: what is shown inside the region must be equal. Non-trivial: the corruption changed the document and the walk reached it. Distinct by bytes and schedule."})
	register(&Prop{ID: "C13", Run: runC13, Quick: 1200000,
		RealCode: append([]string{"relapse", "encode/json", "encode/xml", "encode/proto", "encode/reflect"}, parserReal...),
		Stubs:    []string{"the consumer is a simulated cursor driver, a validator or an encoder"},
		Assume:   []string{"the caller does not overwrite the buffer of values it keeps"},
		Rule:     "each run walks a document under a drawn schedule while keeping every returned string and byte slice, then validates or encodes it, re-initialises the parser with another document and walks that; at every stage the kept values, the input bytes with their surroundings, the descriptor set and the Go value must be unchanged. Non-trivial: values were kept across a re-initialisation. Distinct by documents and schedule."})
	register(&Prop{ID: "C14", Run: runC14, Quick: 2500000,
		RealCode: []string{"parser/json", "parser/xml", "parser/proto"},
		Stubs:    []string{"the consumer is a simulated cursor driver"},
		Assume:   []string{"the cut is inside the root container (JSON, XML) or inside a field (protocol buffers); other prefixes are complete documents"},
		Rule:     "each run cuts a generated document at a drawn position and walks the rest completely, or under a drawn partial schedule: a complete walk must end in an error, and everything delivered before the error must be what the intact document delivers under the same schedule, except for the last scalar. Non-trivial: something was delivered before the error. Distinct by document and cut."})
}

// ---- C10 -----------------------------------------------------------------------------------------

// shapePat makes a pattern after the shape of a forest, with variations.
func (r *Run) shapePat(ns []*Node, depth int, budget *int) *Pat {
	if len(ns) == 0 {
		if r.Int(4) == 3 {
			return &Pat{Op: '*'}
		}
		return &Pat{Op: '0'}
	}
	*budget--
	if *budget <= 0 || r.Int(12) == 11 || len(ns) > 40 {
		return &Pat{Op: '*'}
	}
	switch r.Int(14) {
	case 9: // something in there
		n := ns[r.Int(len(ns))]
		return &Pat{Op: '.', L: r.shapeNode(n, depth, budget)}
	case 10:
		return &Pat{Op: '|', L: r.shapePat(ns[:len(ns)-1], depth, budget), R: r.shapePat(ns, depth, budget)}
	case 11:
		return &Pat{Op: '&', L: &Pat{Op: '.', L: r.shapeNode(ns[len(ns)-1], depth, budget)}, R: &Pat{Op: '*'}}
	case 12:
		return &Pat{Op: '!', L: r.shapePat(ns[1:], depth, budget)}
	case 13:
		if len(ns) > 1 && len(ns) <= 6 {
			i := 1 + r.Int(len(ns)-1)
			return &Pat{Op: ';', L: r.shapePat(ns[i:], depth, budget), R: r.shapePat(ns[:i], depth, budget)}
		}
	}
	p := r.shapeNode(ns[0], depth, budget)
	if len(ns) == 1 {
		return p
	}
	return &Pat{Op: ',', L: p, R: r.shapePat(ns[1:], depth, budget)}
}

func (r *Run) shapeNode(n *Node, depth int, budget *int) *Pat {
	if n.Leaf {
		var vs []Val
		if n.HasS {
			vs = append(vs, vS(n.S))
		}
		if n.HasI {
			vs = append(vs, vI(n.I))
		}
		if n.HasU {
			vs = append(vs, vU(n.U))
		}
		if n.HasB {
			vs = append(vs, vB(n.B))
		}
		if n.HasD && n.D == n.D && n.D-n.D == 0 {
			vs = append(vs, vD(n.D))
		}
		if n.HasY {
			vs = append(vs, vY(n.Y))
		}
		if len(vs) == 0 || r.Int(8) == 7 {
			return &Pat{Op: '*'}
		}
		v := vs[r.Int(len(vs))]
		switch r.Int(6) {
		case 4:
			return &Pat{Op: 'l', Ex: &Ex{Op: "type", Lit: v}}
		case 5:
			return &Pat{Op: 'l', Ex: &Ex{Op: "ne", Lit: v}}
		}
		return &Pat{Op: 'l', Ex: &Ex{Op: "eq", Lit: v, Sugg: r.Int(2) == 1}}
	}
	name := &NameE{Op: '=', Lit: n.Val}
	if n.Val.typ() == 'y' || n.Val.typ() == 'd' {
		name = &NameE{Op: '_'}
	}
	switch r.Int(8) {
	case 6:
		name = &NameE{Op: '_'}
	case 7:
		name = &NameE{Op: '!', L: &NameE{Op: '=', Lit: vS(labelPool[r.Int(6)])}}
	}
	return &Pat{Op: 'n', Name: name, L: r.shapePat(n.Kids, depth+1, budget)}
}

func (r *Run) shapeGram(ns []*Node) *Gram {
	b := 12
	return &Gram{Main: r.shapePat(ns, 0, &b), Decls: map[string]*Pat{}}
}

func (p *drivePolicy) String() string {
	return fmt.Sprintf("leave%d-skip%d-past%d-read%d-leaf%v", p.leave, p.skip, p.past, p.read, p.isLeaf)
}

func runC10(r *Run) {
	w := r.genFormat(formatKinds...)
	doc := w.gen(r)
	r.Logf("%s %s means %s", w.kind, doc, forest(doc.want))
	for k := 1 + r.Int(3); k > 0; k-- {
		p := w.newP()
		r.mustLoad(w, p, doc)
		pol := r.genPolicy()
		d := r.walkModel(w, p, doc, pol)
		r.Logf("walk %s", strings.Join(d.trace, " "))
		if strings.Contains(strings.Join(d.trace, " "), "Down") {
			r.Nontrivial(doc.String() + strings.Join(d.trace, " "))
		}
	}
	if r.Int(2) == 1 {
		g := r.shapeGram(doc.want)
		want, ok := g.matches(doc.want, &Env{})
		if !ok {
			r.Probe("reference-too-hard")
			return
		}
		text := g.String()
		gr := r.parseGram(text)
		r.Logf("grammar %s: reference %v", text, want)
		r.Probe(fmt.Sprintf("verdict-%v", want))
		e := engines[r.Int(len(engines))]
		if e.record {
			e = engines[0]
		}
		v := r.prepareOne(text, gr, e)
		if v == nil {
			return
		}
		p := w.newP()
		r.mustLoad(w, p, doc)
		got := v.run(r, p, 5000000)
		if got.limit {
			return
		}
		if !got.normal() || got.ok != want {
			r.Violate(w.kind+":verdict:"+e.name, "%s %s, grammar %q: %s says %s, the grammar means %v for %s", w.kind, doc, text, e.name, got, want, forest(doc.want))
		}
		r.Nontrivial2(text)
	}
}

// ---- C11 -----------------------------------------------------------------------------------------

// corruptDoc damages the bytes of a document.
func (r *Run) corruptDoc(w *fworld, d *fdoc, other *fdoc) *fdoc {
	b := append([]byte{}, d.data...)
	for k := 1 + r.FInt(3); k > 0; k-- {
		at := r.FInt(len(b) + 1)
		switch r.FInt(10) {
		case 0, 1:
			r.Fault("truncate")
			b = b[:at]
		case 2, 3:
			r.Fault("bit-flip")
			if len(b) > 0 {
				at = r.FInt(len(b))
				b[at] ^= 1 << r.FInt(8)
			}
		case 4:
			r.Fault("delete")
			n := r.FInt(4)
			if at+n <= len(b) {
				b = append(b[:at:at], b[at+n:]...)
			}
		case 5:
			r.Fault("insert-token")
			t := corruptTokens[r.FInt(len(corruptTokens))]
			b = append(b[:at:at], append([]byte(t), b[at:]...)...)
		case 6:
			r.Fault("splice")
			if other != nil {
				o := other.data[r.FInt(len(other.data)+1):]
				b = append(b[:at:at], o...)
			}
		case 7:
			r.Fault("duplicate")
			e := at + r.FInt(len(b)-at+1)
			b = append(b[:e:e], b[at:]...)
		case 8:
			r.Fault("overwrite")
			if len(b) > 0 {
				at = r.FInt(len(b))
				b[at] = []byte{0, 0xff, 0x7f, 0x80, '"', '\\', '<', '>', '{', '}', '[', ']', '-', ':', ' ', '\n'}[r.FInt(16)]
			}
		default:
			r.Fault("random-bytes")
			for j := r.FInt(12); j > 0; j-- {
				b = append(b, byte(r.FInt(256)))
			}
		}
	}
	return &fdoc{data: b}
}

var corruptTokens = []string{"{", "}", "[", "]", "\"", "\\", "\\u", "\\u12", "\\ud800", ",", ":", "<", ">", "</", "/>", "<a>", "</a>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE", "&", "&#", "&#x110000;", "&amp", "=", "'", "-", "- ", "\n", "\n  ", "\t", " ", "\xff", "\xc3", "\x00",
	"\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\xff\xff\xff\xff\x0f", "\x0b", "\x0c", "\x0e", "\x0f", "true", "null", "nul", "1e", "1.", "-", "1e999", "0x1"}

func (r *Run) guardWalk(w *fworld, what string, d *fdoc, f func()) {
	if c := r.Guard(4*docLimit(d), f); c != nil {
		r.Violate(w.kind+":"+what+":"+c.Class(), "%s: %s of %s: %s", w.kind, what, d, c)
	}
}

func sameTrace(a, b []string) (int, bool) {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i, false
		}
	}
	return len(a), len(a) == len(b)
}

func around(t []string, i int) string {
	lo, hi := i-20, i+3
	if lo < 0 {
		lo = 0
	}
	if hi > len(t) {
		hi = len(t)
	}
	if lo > hi {
		lo = hi
	}
	return strings.Join(t[lo:hi], " ")
}

func runC11(r *Run) {
	w := r.genFormat(formatKinds...)
	p := w.newP()
	shared := make([]byte, 0, 4096)
	oneBuf := r.Int(3) == 2
	var docs []*fdoc
	var last *fdoc // what p was loaded with
	var lastBuf []byte
	state := "new"
	for k := 2 + r.Int(6); k > 0; k-- {
		var d *fdoc
		reset := false
		switch c := r.Int(8); {
		case c == 7 && len(docs) > 0:
			d = docs[r.Int(len(docs))]
		case c == 6 && last != nil:
			d, reset = last, true
		default:
			d = w.gen(r)
			if w.binary && r.FChance(1, 4) {
				var o *fdoc
				if len(docs) > 0 {
					o = docs[0]
				}
				d = r.corruptDoc(w, d, o)
			}
			docs = append(docs, d)
		}
		orig := d
		if reset {
			// the buffer of the parser is in place
			orig = &fdoc{data: append([]byte{}, d.data...), val: d.val, want: d.want}
		} else if w.binary {
			var buf []byte
			if oneBuf && len(d.data) <= cap(shared) {
				buf = append(shared[:0], d.data...)
			} else {
				buf = append([]byte{}, d.data...)
			}
			if last != nil && !oneBuf {
				for i := range lastBuf {
					lastBuf[i] ^= 0x55
				}
			}
			lastBuf = buf
			d = &fdoc{data: buf, want: d.want, bounds: d.bounds, regions: d.regions}
			orig = &fdoc{data: append([]byte{}, d.data...), want: d.want}
		}
		var e1, e2 error
		r.guardWalk(w, "init", orig, func() {
			if reset {
				e1 = p.reset(d)
			} else {
				e1 = p.load(d)
			}
		})
		last = d
		q := w.newP()
		r.guardWalk(w, "init", orig, func() { e2 = q.load(orig) })
		r.Logf("%s (reset %v) after %s: %v", orig, reset, state, e1)
		if fmt.Sprint(e1) != fmt.Sprint(e2) {
			r.Violate(w.kind+":init", "%s %s, parser used before (%s): Init returns %v, a new parser returns %v", w.kind, orig, state, e1, e2)
		}
		if e1 != nil {
			state = "failed init"
			r.Probe("state:" + state)
			continue
		}
		if r.Int(8) == 7 {
			state = "initialised only"
			r.Probe("state:" + state)
			continue
		}
		if d.want != nil && r.Int(4) == 3 {
			g := r.shapeGram(d.want)
			text := g.String()
			want, ok := g.matches(d.want, &Env{})
			v := r.prepareOne(text, r.parseGram(text), engines[0])
			if !ok || v == nil {
				continue
			}
			r.Logf("validate with %s", text)
			got := v.run(r, p, 5000000)
			if !got.limit && (!got.normal() || got.ok != want) {
				r.Violate(w.kind+":reused-verdict", "%s %s, parser used before (%s): grammar %q says %s, means %v", w.kind, orig, state, text, got, want)
			}
			state = "left by a validator"
			r.Probe("state:" + state)
			r.Nontrivial(orig.String() + text)
			continue
		}
		pol := r.genPolicy()
		if r.Int(3) == 2 {
			pol = &drivePolicy{isLeaf: true}
		}
		if r.Int(3) == 2 {
			pol.stop = []int{3, 8, 20}[r.Int(3)]
		}
		if d.want != nil && r.Int(2) == 1 {
			dr := r.walkModel(w, p, d, pol)
			r.Logf("walk %s", strings.Join(dr.trace, " "))
			state = "walked"
			if dr.stopped {
				state = "abandoned"
			}
			r.Probe("state:" + state)
			r.Nontrivial(orig.String() + strings.Join(dr.trace, " "))
			continue
		}
		t := &tape{r: r}
		b1 := newBlind(t, p, pol, len(orig.data)+100*countNodes(orig.want))
		r.guardWalk(w, "walk", orig, func() { b1.level(0) })
		b2 := newBlind(t.again(), q, pol, len(orig.data)+100*countNodes(orig.want))
		r.guardWalk(w, "walk", orig, func() { b2.level(0) })
		r.Logf("walk %s", strings.Join(b1.trace, " "))
		if i, ok := sameTrace(b1.trace, b2.trace); !ok {
			r.Violate(w.kind+":differs", "%s %s, parser used before (%s): shows ...%s, a new parser shows ...%s", w.kind, orig, state, around(b1.trace, i), around(b2.trace, i))
		}
		if state != "new" {
			r.Nontrivial(orig.String() + strings.Join(b1.trace, " "))
		}
		state = "walked"
		if b1.err != nil {
			state = "stopped by an error"
		} else if pol.leave > 0 {
			state = "possibly left early"
		}
		r.Probe("state:" + state)
	}
}

// ---- C12 -----------------------------------------------------------------------------------------

// deepDoc is a deeply nested document.
func (r *Run) deepDoc(w *fworld) *fdoc {
	n := 1 + r.FInt(300)
	var s string
	switch w.kind {
	case "json":
		s = strings.Repeat([]string{"[", `{"a":`, `[{"b":`}[r.FInt(3)], n)
		if r.FInt(2) == 1 {
			s += strings.Repeat([]string{"]", "}", "}]"}[r.FInt(3)], r.FInt(n+2))
		}
	case "xml":
		s = strings.Repeat([]string{"<a>", "<a b='c'>", "<a>t"}[r.FInt(3)], n)
		if r.FInt(2) == 1 {
			s += strings.Repeat("</a>", r.FInt(n+2))
		}
	case "yaml":
		var sb strings.Builder
		for i := 0; i < n/4; i++ {
			sb.WriteString(strings.Repeat(" ", i) + []string{"a:\n", "-\n", "- a:\n"}[r.FInt(3)])
		}
		s = sb.String()
	default:
		var b []byte
		for i := n; i > 0; i-- {
			k := key(nil, w.pg.msgs[0][r.FInt(len(w.pg.msgs[0]))].num, []int{2, 2, 2, 0, 1, 3, 4, 5, 6, 7}[r.FInt(10)])
			b = append(append(varint(k, uint64(len(b))), b...), byte(r.FInt(256)))
			if len(b) > 300 {
				break
			}
		}
		s = string(b)
	}
	return &fdoc{data: []byte(s)}
}

// embed puts a document into a larger buffer.
func embed(d *fdoc, guard string, pre, post int) (*fdoc, []byte) {
	var full []byte
	for i := 0; i < pre; i++ {
		full = append(full, guard[i%len(guard)])
	}
	full = append(full, d.data...)
	for i := 0; i < post; i++ {
		full = append(full, guard[i%len(guard)])
	}
	n := *d
	n.data = full[pre : pre+len(d.data)]
	if post == 0 {
		n.data = full[pre:len(full):len(full)]
	}
	return &n, full
}

// guard is what surrounds a document: what came after it before it was cut, or something else.
func (r *Run) guard(d, intact *fdoc) string {
	if r.FInt(3) == 2 && len(intact.data) > len(d.data) && bytes.HasPrefix(intact.data, d.data) {
		return string(intact.data[len(d.data):])
	}
	return guards[r.FInt(len(guards))]
}

var guards = []string{"\"}]>", "12345", "</a></b>", "\x00", "\xff", "\x80\x01", " ", "\n  - x: y\n", "\\", "abc\":1,", "l}", "e]", "se,", "n", "u0041\""}

func runC12(r *Run) {
	w := r.genFormat("json", "xml", "yaml", "proto")
	if w.kind == "proto" && r.Int(2) == 1 {
		r.protoRegion(w)
		return
	}
	var d *fdoc
	base := w.gen(r)
	if r.FInt(8) == 7 {
		r.Fault("deep-nesting")
		d = r.deepDoc(w)
	} else {
		var other *fdoc
		if r.FInt(2) == 1 {
			other = w.gen(r)
		}
		d = r.corruptDoc(w, base, other)
	}
	pol := r.genPolicy()
	if r.Int(3) == 2 {
		pol = fullWalk
	}
	r.Logf("%s %s", w.kind, d)
	t := &tape{r: r}
	var traces [2][]string
	var inits [2]error
	for k := 0; k < 2; k++ {
		e, full := embed(d, r.guard(d, base), 8, []int{8, 0, 28, 48}[r.FInt(4)])
		snap := string(full)
		p := w.newP()
		r.guardWalk(w, "init", d, func() { inits[k] = p.load(e) })
		if inits[k] == nil {
			b := newBlind(t.again(), p, pol, len(d.data))
			b.r.v = t.v
			tp := b.r
			r.guardWalk(w, "walk", d, func() { b.level(0) })
			t.v = tp.v
			traces[k] = b.trace
			if b.over {
				r.Violate(w.kind+":unbounded", "%s %s: more than %d calls or deeper than %d: ...%s", w.kind, d, b.max, b.maxDepth, around(b.trace, len(b.trace)))
			}
			if k == 0 {
				r.Logf("walk %s", strings.Join(b.trace, " "))
				if len(b.trace) > 1 && string(base.data) != string(d.data) {
					r.Nontrivial(string(d.data) + strings.Join(b.trace, " "))
				}
				if b.err != nil {
					r.Probe("ended-with-error")
				} else {
					r.Probe("ended-normally")
				}
			}
		} else {
			r.Probe("init-error")
		}
		if string(full) != snap {
			r.Violate(w.kind+":wrote", "%s %s: the parser wrote to its input or its surroundings", w.kind, d)
		}
	}
	if fmt.Sprint(inits[0]) != fmt.Sprint(inits[1]) {
		r.Violate(w.kind+":outside-init", "%s %s: Init returns %v or %v depending on the bytes around the document", w.kind, d, inits[0], inits[1])
	}
	if i, ok := sameTrace(traces[0], traces[1]); !ok {
		r.Violate(w.kind+":outside", "%s %s: what is shown depends on the bytes around the document: ...%s or ...%s", w.kind, d, around(traces[0], i), around(traces[1], i))
	}
}

// pathTo finds a node.
func pathTo(ns []*Node, n *Node, depth int) []int {
	if depth > 40 {
		return nil
	}
	for i, x := range ns {
		if x == n {
			return []int{i}
		}
		if p := pathTo(x.Kids, n, depth+1); p != nil {
			return append([]int{i}, p...)
		}
	}
	return nil
}

// protoRegion corrupts the inside of a nested length-delimited region and checks that what follows
// the region does not show inside.
func (r *Run) protoRegion(w *fworld) {
	d := w.gen(r)
	var rs []region
	for _, g := range d.regions {
		if g.node != nil && g.end > g.start {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		r.Discard()
	}
	g := rs[r.Int(len(rs))]
	path := pathTo(d.want, g.node, 0)
	if path == nil {
		r.Discard()
	}
	n := g.end - g.start
	body := r.corruptDoc(w, &fdoc{data: d.data[g.start:g.end]}, nil).data
	// keep the length: cut, or fill up with the start of something longer
	for len(body) < n {
		body = append(body, []byte{0x7f, 0x12, 0xff, 0x0a, 0x08, 0x22}[r.FInt(6)])
	}
	body = body[:n]
	r.Fault("nested-region")
	r.Logf("%s: region %d..%d of %q becomes %q", w.pg, g.start, g.end, d.data, body)
	pol := r.genPolicy()
	pol.leave = 0
	t := &tape{r: r}
	var traces [2][]string
	for k := 0; k < 2; k++ {
		b := append(append([]byte{}, d.data[:g.start]...), body...)
		for i := g.end; i < len(d.data); i++ {
			c := d.data[i]
			if k == 1 {
				c ^= 0x2a
			}
			b = append(b, c)
		}
		tail := 6
		for i := 0; i < tail; i++ {
			b = append(b, []byte{0x61, 0x02}[k])
		}
		e := &fdoc{data: b}
		p := w.newP()
		var err error
		r.guardWalk(w, "init", e, func() { err = p.load(e) })
		if err != nil {
			r.Discard()
		}
		reached := true
		r.guardWalk(w, "walk", e, func() {
			for lvl, i := range path {
				for j := 0; j <= i; j++ {
					if p.Next() != nil {
						reached = false
						return
					}
				}
				if lvl < len(path) {
					p.Down()
				}
			}
		})
		if !reached {
			r.Discard()
		}
		bl := newBlind(t.again(), p, pol, len(b))
		r.guardWalk(w, "walk", e, func() { bl.level(0) })
		t.v = bl.r.v
		traces[k] = bl.trace
		if bl.over {
			r.Violate(w.kind+":unbounded", "%s %s: more than %d calls", w.kind, e, bl.max)
		}
	}
	r.Logf("inside: %s", strings.Join(traces[0], " "))
	if i, ok := sameTrace(traces[0], traces[1]); !ok {
		r.Violate("proto:region", "%s: region %d..%d of %q replaced by %q: what is shown inside the region depends on the bytes after it: ...%s or ...%s", w.pg, g.start, g.end, d.data, body, around(traces[0], i), around(traces[1], i))
	}
	r.Nontrivial(string(body) + string(d.data))
}

// ---- C13 -----------------------------------------------------------------------------------------

func (r *Run) checkKept(w *fworld, d *fdoc, ks []kept, when string) {
	for i := range ks {
		if !ks[i].ok() {
			now := ks[i].s
			if ks[i].b != nil {
				now = string(ks[i].b)
			}
			r.Violate(w.kind+":kept", "%s %s: the %s was %q when it was read and is %q %s", w.kind, d, ks[i].what, ks[i].copy, now, when)
		}
	}
}

func runC13(r *Run) {
	w := r.genFormat(formatKinds...)
	pre, post := r.Int(9), r.Int(9)
	var descSnap string
	if w.desc != nil {
		descSnap = dumpAny(w.desc)
	}
	type held struct {
		d    *fdoc
		full []byte
		snap string
		val  string
		keep []kept
	}
	var hs []*held
	checkAll := func(when string) {
		for _, h := range hs {
			if h.full != nil && string(h.full) != h.snap {
				r.Violate(w.kind+":input", "%s %q: the input became %q %s", w.kind, h.snap, h.full, when)
			}
			if h.d.val.IsValid() {
				if now := dumpAny(h.d.val.Interface()); now != h.val {
					r.Violate(w.kind+":input", "%s: the Go value %s became %s %s", w.kind, h.val, now, when)
				}
			}
			r.checkKept(w, h.d, h.keep, when)
		}
		if w.desc != nil && dumpAny(w.desc) != descSnap {
			r.Violate(w.kind+":descriptor", "%s: the descriptor set changed %s", w.pg, when)
		}
	}
	p := w.newP()
	for k := 2 + r.Int(3); k > 0; k-- {
		d := w.gen(r)
		h := &held{d: d}
		corrupt := false
		if w.binary {
			if r.FChance(1, 8) {
				d = r.corruptDoc(w, d, nil)
				corrupt = true
			}
			h.d, h.full = embed(d, guards[r.Int(len(guards))], pre, post)
			h.snap = string(h.full)
		} else {
			h.val = dumpAny(d.val.Interface())
		}
		hs = append(hs, h)
		r.Logf("%s %s", w.kind, d)
		var err error
		r.guardWalk(w, "init", h.d, func() { err = p.load(h.d) })
		checkAll("after initialising the parser")
		if err != nil {
			continue
		}
		pol := r.genPolicy()
		if r.Int(3) == 2 {
			pol = fullWalk
		}
		t := &tape{r: r}
		b := newBlind(t, p, pol, len(d.data)+100*countNodes(d.want))
		b.keep = true
		r.guardWalk(w, "walk", h.d, func() { b.level(0) })
		h.keep = b.kepts
		r.Logf("walk %s", strings.Join(b.trace, " "))
		checkAll("after the walk")
		if !corrupt && r.Int(2) == 1 {
			r.mustLoad(w, p, h.d)
			what := r.useDoc(w, p, h.d)
			r.Logf("%s", what)
			checkAll("after " + what)
		}
		if len(hs) > 1 && len(hs[0].keep) > 0 {
			r.Nontrivial(d.String() + strings.Join(b.trace, " "))
		}
	}
}

// useDoc validates or encodes a loaded document, ignoring the result.
func (r *Run) useDoc(w *fworld, p parser.Interface, d *fdoc) string {
	what := ""
	var f func()
	switch r.Int(4) {
	case 1:
		what, f = "encoding to JSON", func() { json.Encode(p) }
	case 2:
		what, f = "encoding to XML", func() { xml.Encode(p) }
	case 3:
		v := reflect.New(reflect.TypeOf(goAll{}))
		what, f = "encoding to a Go value", func() { encodeReflect(p, v) }
	default:
		g := r.shapeGram(d.want)
		text := g.String()
		r.Logf("grammar %s", text)
		v := r.prepareOne(text, r.parseGram(text), engines[0])
		what, f = "validation with "+text, func() {
			if v != nil {
				v.validate(p)
			}
		}
	}
	if c := r.Guard(5000000+4*docLimit(d), f); c != nil && !c.Hang {
		r.Violate(w.kind+":use:"+c.Class(), "%s %s: %s: %s", w.kind, d, what, c)
	}
	return what
}

// ---- C14 -----------------------------------------------------------------------------------------

func runC14(r *Run) {
	w := r.genFormat("json", "xml", "proto")
	d := w.gen(r)
	lo, hi := d.start+1, d.end-1
	cut := 0
	if w.kind == "proto" {
		at := map[int]bool{0: true, len(d.data): true}
		for _, b := range d.bounds {
			at[b] = true
		}
		if len(d.data) < 2 {
			r.Discard()
		}
		cut = 1 + r.FInt(len(d.data)-1)
		if at[cut] {
			r.Discard()
		}
	} else {
		if len(d.want) == 1 && d.want[0].Leaf || hi < lo {
			r.Discard()
		}
		cut = lo + r.FInt(hi-lo+1)
	}
	r.Fault("torn")
	e := &fdoc{data: d.data[:cut]}
	e, _ = embed(e, r.guard(e, d), 4, 8*r.FInt(2))
	pol := fullWalk
	full := true
	if r.Int(2) == 1 {
		pol, full = r.genPolicy(), false
	}
	r.Logf("%s %s cut at %d", w.kind, d, cut)
	p, q := w.newP(), w.newP()
	r.mustLoad(w, p, d)
	t := &tape{r: r}
	b1 := newBlind(t, p, pol, len(d.data))
	r.guardWalk(w, "walk", d, func() { b1.level(0) })
	if b1.err != nil {
		r.Violate(w.kind+":intact-error", "%s %s: %v", w.kind, d, b1.err)
	}
	var err error
	r.guardWalk(w, "init", e, func() { err = q.load(e) })
	if err != nil {
		r.Probe("init-error")
		return
	}
	b2 := newBlind(t.again(), q, pol, len(d.data))
	r.guardWalk(w, "walk", e, func() { b2.level(0) })
	r.Logf("walk %s", strings.Join(b2.trace, " "))
	if full && b2.err == nil {
		r.Violate(w.kind+":complete", "%s %q is cut short (of %s), but a complete walk reports no error: %s", w.kind, e.data, d, strings.Join(b2.trace, " "))
	}
	i, ok := sameTrace(b2.trace, b1.trace)
	if !ok && b2.err == nil && b2.lastLeaf >= 0 && i >= b2.lastLeaf {
		ok = true
	}
	if !ok && b2.err != nil && (i == len(b2.trace)-1 || b2.lastLeaf >= 0 && i >= b2.lastLeaf) {
		ok = true
	}
	if !ok {
		r.Violate(w.kind+":wrong", "%s %q, cut from %s: shows ...%s where the intact document shows ...%s", w.kind, e.data, d, around(b2.trace, i), around(b1.trace, i))
	}
	if len(b2.trace) > 1 {
		r.Nontrivial(string(e.data) + pol.String())
	}
}
