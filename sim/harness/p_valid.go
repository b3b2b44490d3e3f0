package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/interp"

	rt "github.com/katydid/katydid/zzsimrt"
)

var validReal = []string{"relapse/parser", "relapse/lexer", "relapse/ast", "relapse/intern", "relapse/mem", "relapse/auto", "relapse/interp", "relapse/funcs", "relapse/compose", "relapse/name", "relapse/sets"}
var treeStub = []string{"the document source is an in-memory tree behind parser.Interface that injects failures and monitors the cursor protocol"}
var modelAssume = []string{"the meaning of a grammar is given by the reference matcher in sim/harness/grammar.go, which enumerates the definition of each pattern directly", "comparisons are false for a value of another type, and negation is the complement"}

func init() {
	register(&Prop{ID: "C03", Run: runC03, Quick: 250000, RealCode: validReal, Stubs: treeStub, Assume: append([]string{"grammars have no left recursion, which the engines document as unsupported", "grammars whose automaton exceeds 3 million statements to compile are not compiled"}, modelAssume...),
		Rule: "each run draws a random grammar (up to 4 levels, up to 3 declarations), 1 to 3 documents sampled from it, mutated or random, and an iteration order for every internal map; every engine that applies validates each document and is compared with the reference matcher. Non-trivial: at least one engine stepped into a document. Distinct by grammar text and documents."})
	register(&Prop{ID: "C01", Run: runC01, Quick: 250000, RealCode: validReal, Stubs: treeStub, Assume: modelAssume,
		Rule: "each run prepares one random grammar once with every memoising or compiled engine and validates a history of 4 to 40 documents (with repeats, mutations of earlier documents, unseen labels, cut-short and failing sources), comparing every verdict with the reference matcher and with a newly prepared validator. Non-trivial: at least one document was validated after another one. Distinct by grammar and history."})
	register(&Prop{ID: "C02", Run: runC02, Quick: 120000, RealCode: validReal, Stubs: treeStub, Assume: modelAssume,
		Rule: "each run validates a history of documents with one prepared validator while the source fails or panics at a drawn step or value access, or a user function fails or panics at a drawn evaluation; a source error that was delivered must come out as an error, and all other validations must give the reference verdict. Non-trivial: a fault fired and a validation followed it. Distinct by grammar, history and faults."})
	register(&Prop{ID: "C05", Run: runC05, Quick: 25000, RealCode: validReal, Stubs: treeStub, Assume: append([]string{"formatting in place is meant to change the layout and is applied to clones only"}, modelAssume...),
		Rule: "each run parses a grammar and applies 3 to 14 operations to it (prepare with any engine, validate, simplify, print, walk, clone, compare, hash, look up references), one after another or as concurrently scheduled tasks; a structural dump and the printed text must not change, no data race may occur, and validators prepared at any point must agree with the reference. Non-trivial: an engine was prepared or the grammar was simplified. Distinct by grammar and operations."})
	register(&Prop{ID: "C06", Run: runC06, Quick: 400000, RealCode: validReal, Stubs: append([]string{"time.Now in the library reads the simulated clock"}, treeStub...), Assume: modelAssume,
		Rule: "each run prepares a grammar containing context-dependent functions or now() and then alternates setting the context, moving the simulated clock forwards and backwards, and validating; each verdict must be the reference verdict for the current context and time. Non-trivial: the context or clock changed between two validations. Distinct by grammar, documents and changes."})
}

// rawEx is a function of a value that fails for values of another type.
func (r *Run) rawEx() *Ex {
	c := stringPool[r.Int(4)]
	q := litText(vS(c))
	str := func(text string, f func(s string) bool) *Ex {
		e := &Ex{Op: "tpl", Lit: vS(c), Text: text, Fail: func(v Val) bool { return !v.HasS }}
		e.F = func(v Val, env *Env) bool {
			if e.Fail(v) {
				return env.FailAs
			}
			return f(v.S)
		}
		return e
	}
	switch r.Int(6) {
	case 0:
		return str("hasPrefix($string, "+q+")", func(s string) bool { return strings.HasPrefix(s, c) })
	case 1:
		return str("hasSuffix($string, "+q+")", func(s string) bool { return strings.HasSuffix(s, c) })
	case 2:
		return str("contains($string, "+q+")", func(s string) bool { return strings.Contains(s, c) })
	case 3:
		return str("eqFold($string, "+q+")", func(s string) bool { return strings.EqualFold(s, c) })
	case 4:
		return str("regex(\"^a\", $string)", func(s string) bool { return strings.HasPrefix(s, "a") })
	}
	e := &Ex{Op: "tpl", Lit: vI(2), Text: "contains($int, []int{1, 2})", Fail: func(v Val) bool { return !v.HasI }}
	e.F = func(v Val, env *Env) bool {
		if e.Fail(v) {
			return env.FailAs
		}
		return v.I == 1 || v.I == 2
	}
	return e
}

// addRaw puts such a function into some of the leaves.
func addRaw(r *Run, p *Pat) bool {
	if p.Op == 'l' {
		switch r.Int(4) {
		case 1:
			p.Ex = r.rawEx()
		case 2:
			p.Ex = &Ex{Op: "and", L: p.Ex, R: r.rawEx()}
		default:
			return false
		}
		return true
	}
	a := p.L != nil && addRaw(r, p.L)
	b := p.R != nil && addRaw(r, p.R)
	return a || b
}

// fails says whether the function may fail for the value.
func (e *Ex) fails(v Val) bool {
	return e.Fail != nil && e.Fail(v) || e.L != nil && e.L.fails(v) || e.R != nil && e.R.fails(v)
}

// mayFail says whether some function fails for a node that the grammar can place it on: one whose path
// of labels leads to it, whatever its siblings are.
func (g *Gram) mayFail(ps []*Pat, ns []*Node) bool {
	seen := map[*Pat]bool{}
	var at []*Pat
	var open func(p *Pat)
	open = func(p *Pat) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		switch p.Op {
		case 'n', 'l':
			at = append(at, p)
		case '@':
			open(g.Decls[p.Ref])
		default:
			open(p.L)
			open(p.R)
		}
	}
	for _, p := range ps {
		open(p)
	}
	for _, n := range ns {
		var below []*Pat
		for _, p := range at {
			switch {
			case p.Op == 'l':
				if p.Ex.fails(n.Val) {
					return true
				}
			case p.Name.eval(n.Val, false):
				below = append(below, p.L)
			}
		}
		if len(below) > 0 && g.mayFail(below, n.Kids) {
			return true
		}
	}
	return false
}

func runC03(r *Run) {
	g, _, dc := r.genWorld()
	raw := false
	if r.Int(6) == 5 {
		raw = addRaw(r, g.Main)
		for _, n := range g.Names {
			raw = addRaw(r, g.Decls[n]) || raw
		}
	}
	text := g.String()
	r.Logf("grammar %s", text)
	gr := r.parseGram(text)
	vs := r.prepareAll(text, gr, dc.Unique, nil)
	nd := 1 + r.Int(3)
	for k := 0; k < nd; k++ {
		doc := r.genDoc(g, dc)
		want, ok := g.matches(doc, &Env{})
		if !ok {
			r.Probe("reference-too-hard")
			continue
		}
		r.Logf("document %s: reference %v", forest(doc), want)
		fail, other := false, want
		if raw {
			// a function fails only for a node that it is placed on
			if fail = g.mayFail([]*Pat{g.Main}, doc); fail {
				if other, ok = g.matches(doc, &Env{FailAs: true}); !ok {
					continue
				}
				r.Probe("may-fail")
			} else {
				r.Probe("cannot-fail")
			}
		}
		if want {
			r.Probe("accepted")
		} else {
			r.Probe("rejected")
		}
		for _, v := range vs {
			t := newTreeParser(doc)
			got := v.run(r, t, 2000000)
			r.Logf("%s: %s", v.eng.name, got)
			if got.limit {
				r.Probe("validate-too-large:" + v.eng.name)
				continue
			}
			if fail && got.pan == nil && (got.err != nil || got.ok == other) {
				continue
			}
			if !got.normal() || got.ok != want {
				r.Violate("verdict:"+v.eng.name, "grammar %q, document %s: %s says %s, the grammar means %v", text, forest(doc), v.eng.name, got, want)
			}
			if t.nexts > 0 {
				r.Nontrivial(text + forest(doc))
			}
		}
	}
}

// prepareAll prepares the grammar with every engine that is selected and applies.
func (r *Run) prepareAll(text string, gr *ast.Grammar, unique bool, sel func(e *engine) bool) []*validator {
	var vs []*validator
	for _, e := range engines {
		if e.record && !unique || sel != nil && !sel(e) {
			continue
		}
		if v := r.prepareOne(text, gr, e); v != nil {
			vs = append(vs, v)
		}
	}
	return vs
}

func (r *Run) prepareOne(text string, gr *ast.Grammar, e *engine) *validator {
	v, err, pan := r.prepare(e, gr, 3000000)
	if pan != nil {
		if pan.Hang {
			r.Logf("%s: too large to prepare", e.name)
			r.Probe("prepare-too-large:" + e.name)
			return nil
		}
		r.Violate("prepare:"+e.name+":"+pan.Class(), "preparing %q with %s: %s", text, e.name, pan)
	}
	if tooManyStates(text, e, err) {
		r.Logf("%s: %s", e.name, err)
		r.Probe("prepare-too-large:" + e.name)
		return nil
	}
	if err != nil {
		r.Violate("prepare-refused:"+e.name, "preparing %q with %s: %s", text, e.name, err)
	}
	return v
}

// tooManyStates says that the automaton was refused for its size, which only a wide grammar may be.
func tooManyStates(text string, e *engine, err error) bool {
	return err == auto.ErrTooManyStates && strings.HasPrefix(e.name, "auto") && len(text) > 400
}

// ---- C01 -----------------------------------------------------------------------------------------

// history draws a sequence of documents with repeats and variations.
func (r *Run) history(g *Gram, dc *DocCfg, n int) [][]*Node {
	var h [][]*Node
	for len(h) < n {
		switch k := r.Int(5); {
		case k == 0 && len(h) > 0:
			h = append(h, h[r.Int(len(h))])
		case k == 1 && len(h) > 0:
			m := r.mutateForest(h[r.Int(len(h))], dc)
			if dc.Unique {
				m = dedupe(m)
			}
			h = append(h, limitForest(m, r.width(), r.depth()))
		default:
			h = append(h, r.genDoc(g, dc))
		}
	}
	return h
}

func runC01(r *Run) {
	g, _, dc := r.genWorld()
	text := g.String()
	r.Logf("grammar %s", text)
	gr := r.parseGram(text)
	vs := r.prepareAll(text, gr, dc.Unique, func(e *engine) bool { return e.stateful })
	n := 4 + r.Int(8)
	if r.Int(4) == 3 {
		n += r.Int(30)
	}
	if r.scale == scaleList && r.Int(2) == 1 {
		n = 150
	}
	done := 0
	for _, doc := range r.history(g, dc, n) {
		want, ok := g.matches(doc, &Env{})
		if !ok {
			r.Probe("reference-too-hard")
			continue
		}
		// some earlier documents come from sources that are cut short or fail
		cut := -1
		if r.FChance(1, 6) {
			cut = r.FInt(12)
		}
		r.Logf("document %s: reference %v", forest(doc), want)
		for _, v := range vs {
			if cut >= 0 {
				t := newTreeParser(doc)
				t.fault = treeFault{at: cut + 1, err: errSource, after: r.FInt(3)}
				got := v.run(r, t, 2000000)
				if t.fired {
					r.Fault("source-error")
					r.Logf("%s, source fails at step %d: %s", v.eng.name, cut+1, got)
				}
			}
			got := v.run(r, newTreeParser(doc), 2000000)
			if got.limit {
				r.Probe("validate-too-large:" + v.eng.name)
				continue
			}
			if !got.normal() || got.ok != want {
				var fresh verdict
				if f := r.prepareOne(text, gr, v.eng); f != nil {
					fresh = f.run(r, newTreeParser(doc), 2000000)
				}
				r.Violate("verdict:"+v.eng.name, "grammar %q, document %s after %d others: %s says %s, the grammar means %v, a new validator says %s", text, forest(doc), done, v.eng.name, got, want, fresh)
			}
		}
		done++
		if done > 1 {
			r.Nontrivial(text + forest(doc))
		}
	}
}

// ---- C02 -----------------------------------------------------------------------------------------

var errSource = errors.New("simulated source failure")

var sourceErrs = []error{errSource, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrShortBuffer}

// addFail puts the failing user function somewhere into the grammar.
func addFail(r *Run, p *Pat) bool {
	switch p.Op {
	case 'l':
		old := p.Ex
		switch r.Int(4) {
		case 0:
			p.Ex = &Ex{Op: "userfail", Lit: vS(stringPool[r.Int(3)])}
		case 1:
			p.Ex = &Ex{Op: "or", L: &Ex{Op: "userfail", Lit: vS(stringPool[r.Int(3)])}, R: old}
		case 2:
			p.Ex = &Ex{Op: "and", L: old, R: &Ex{Op: "userfail", Lit: vS(stringPool[r.Int(3)])}}
		default:
			p.Ex = &Ex{Op: "not", L: &Ex{Op: "userfail", Lit: vS(stringPool[r.Int(3)])}}
		}
		return true
	}
	a := p.L != nil && addFail(r, p.L)
	b := p.R != nil && addFail(r, p.R)
	return a || b
}

func runC02(r *Run) {
	g, _, dc := r.genWorld()
	user := r.Int(3) == 2
	if user {
		user = addFail(r, g.Main)
		for _, n := range g.Names {
			if addFail(r, g.Decls[n]) {
				user = true
			}
		}
	}
	text := g.String()
	r.Logf("grammar %s", text)
	gr := r.parseGram(text)
	userFail.at, userFail.n, userFail.fired, userFail.panic = 0, 0, false, false
	vs := r.prepareAll(text, gr, dc.Unique, nil)
	n := 2 + r.Int(6)
	faults := 0
	for _, doc := range r.history(g, dc, n) {
		want, ok := g.matches(doc, &Env{})
		if !ok {
			r.Probe("reference-too-hard")
			continue
		}
		r.Logf("document %s: reference %v", forest(doc), want)
		kind := r.FInt(5) // 0: no fault
		at := 1 + r.FInt(12)
		fe := sourceErrs[r.FInt(len(sourceErrs))]
		pan := r.FInt(3) == 2
		after := r.FInt(3)
		for _, v := range vs {
			if kind > 0 {
				t := newTreeParser(doc)
				userFail.at, userFail.n, userFail.fired, userFail.panic = 0, 0, false, false
				name := ""
				switch {
				case kind == 4 && user:
					userFail.at, userFail.panic = at, pan
					name = "user-function"
				case kind == 3:
					t.fault = treeFault{at: at, err: fe, panic: pan, val: true}
					name = "source-value"
				default:
					t.fault = treeFault{at: at, err: fe, panic: pan, after: after}
					name = "source-next"
				}
				got := v.run(r, t, 2000000)
				fired := t.fired || userFail.fired
				userFail.at = 0
				if fired {
					what := name + "-error"
					if pan {
						what = name + "-panic"
					}
					r.Fault(what)
					faults++
					r.Logf("%s, %s at %d (%v): %s", v.eng.name, what, at, fe, got)
					if got.limit {
						continue
					}
					if got.pan != nil && !pan {
						r.Violate("fault-panic:"+v.eng.name, "grammar %q, document %s, %s at %d: %s", text, forest(doc), what, at, got)
					}
					if name == "source-next" && !pan && (got.err == nil || got.ok) {
						r.Violate("fault-verdict:"+v.eng.name, "grammar %q, document %s: the source fails with %q at step %d but %s says %v, %s", text, forest(doc), fe, at, v.eng.name, got.ok, got)
					}
				} else if !got.limit && (!got.normal() || got.ok != want) {
					r.Violate("verdict:"+v.eng.name, "grammar %q, document %s: %s says %s, the grammar means %v", text, forest(doc), v.eng.name, got, want)
				}
			}
			got := v.run(r, newTreeParser(doc), 2000000)
			if got.limit {
				continue
			}
			if !got.normal() || got.ok != want {
				r.Violate("later-verdict:"+v.eng.name, "grammar %q, document %s after %d failed validations: %s says %s, the grammar means %v", text, forest(doc), faults, v.eng.name, got, want)
			}
			if faults > 0 {
				r.Nontrivial(text + forest(doc) + fmt.Sprint(kind, at, pan))
			}
		}
	}
}

// ---- C05 -----------------------------------------------------------------------------------------

// dump writes out a value completely, following pointers.
func dump(v reflect.Value, sb *strings.Builder, depth int) {
	if depth > 400 {
		sb.WriteString("!deep")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		dump(v.Elem(), sb, depth+1)
	case reflect.Struct:
		sb.WriteString(v.Type().Name())
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i).Name
			if strings.HasPrefix(f, "XXX_sizecache") {
				continue
			}
			fv := v.Field(i)
			if (fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Slice) && fv.IsNil() {
				continue
			}
			sb.WriteString(f)
			sb.WriteByte(':')
			dump(fv, sb, depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(v.Index(i), sb, depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", v.Float())
	case reflect.Map:
		fmt.Fprintf(sb, "map%d", v.Len())
	default:
		sb.WriteString(v.Kind().String())
	}
}

func dumpAny(x interface{}) string {
	var sb strings.Builder
	dump(reflect.ValueOf(x), &sb, 0)
	return sb.String()
}

type nopVisitor struct{ n int }

func (v *nopVisitor) Visit(node interface{}) interface{} { v.n++; return v }

// spaced adds comments and layout to the text of a grammar at places where a space is.
func spaced(r *Run, text string) string {
	if r.Int(2) == 0 {
		return text
	}
	var sb strings.Builder
	quote := byte(0)
	for i := 0; i < len(text); i++ {
		c := text[i]
		if quote != 0 {
			if c == '\\' && quote == '"' {
				sb.WriteByte(c)
				i++
				c = text[i]
			} else if c == quote {
				quote = 0
			}
			sb.WriteByte(c)
			continue
		}
		if c == '"' || c == '`' {
			quote = c
		}
		if strings.HasPrefix(text[i:], "[]byte{") && (i == 0 || text[i-1] != ']') {
			quote = '}' // a literal is one token
		}
		if c == ' ' && r.Int(4) == 0 {
			sb.WriteString([]string{"  ", "\n", " /* c */ ", "\t", " // x\n"}[r.Int(5)])
			continue
		}
		sb.WriteByte(c)
	}
	return sb.String()
}

func runC05(r *Run) {
	r.narrow = true
	g, _, dc := r.genWorld()
	text := spaced(r, g.String())
	r.Logf("grammar %q", text)
	gr := r.parseGram(text)
	var other *ast.Grammar
	if r.Int(2) == 0 {
		other = r.parseGram(r.genGram(&GramCfg{Depth: 3}).String())
	} else {
		other = r.parseGram(g.String())
	}
	before := dumpAny(gr)
	otherBefore := dumpAny(other)
	var s0 string
	if c := r.Guard(5000000, func() { s0 = gr.String() }); c != nil {
		r.Violate("op:"+c.Class(), "printing %q: %s", text, c)
	}
	if dumpAny(gr) != before {
		r.Violate("changed:String", "printing the grammar %q changed it", text)
	}
	docs := r.history(g, dc, 2)
	wants := make([]bool, len(docs))
	for i, d := range docs {
		var ok bool
		if wants[i], ok = g.matches(d, &Env{}); !ok {
			r.Discard()
		}
	}
	type op struct {
		name string
		f    func()
		v    []verdict // filled when the operation prepares and validates
	}
	mk := func() *op {
		o := &op{}
		k := r.Int(14)
		switch {
		case k < 6:
			var es []*engine
			for _, e := range engines {
				if !e.record || dc.Unique {
					es = append(es, e)
				}
			}
			e := es[r.Int(len(es))]
			o.name = "prepare+validate:" + e.name
			o.v = make([]verdict, len(docs))
			o.f = func() {
				v, err := e.prepare(gr)
				if tooManyStates(text, e, err) {
					o.v = nil
					return
				}
				for i, d := range docs {
					if err != nil {
						o.v[i] = verdict{err: err}
						continue
					}
					ok, err := v.validate(newTreeParser(d))
					o.v[i] = verdict{ok: ok, err: err}
				}
			}
		case k == 6:
			o.name = "simplify"
			rec := r.Int(2) == 0
			o.f = func() {
				s := interp.NewSimplifier(gr)
				if rec {
					s = s.OptimizeForRecord()
				}
				s.Grammar()
			}
		case k == 7:
			o.name = "simplify-top"
			o.f = func() {
				if p := gr.GetTopPattern(); p != nil {
					interp.NewSimplifier(gr).Simplify(p)
				}
			}
		case k == 8:
			o.name = "print"
			o.f = func() { _ = gr.String(); _ = gr.GoString() }
		case k == 9:
			o.name = "walk"
			o.f = func() { gr.Walk(&nopVisitor{}); ast.HasNot(gr) }
		case k == 10:
			o.name = "clone+format+change"
			o.f = func() {
				c := gr.Clone()
				c.Format()
				scribble(reflect.ValueOf(c), 0)
			}
		case k == 11:
			o.name = "compare"
			o.f = func() { gr.Equal(other); other.Equal(gr); gr.Equal(gr) }
		case k == 12:
			o.name = "hash"
			o.f = func() {
				if p := gr.GetTopPattern(); p != nil {
					p.Hash()
					p.Compare(other.GetTopPattern())
				}
			}
		default:
			o.name = "refs+recursion"
			o.f = func() {
				refs := ast.NewRefLookup(gr)
				refs.Clone()
				ast.NewGrammar(refs)
				interp.HasRecursion(gr)
			}
		}
		return o
	}
	n := 3 + r.Int(6)
	ops := make([]*op, n)
	names := ""
	for i := range ops {
		ops[i] = mk()
		names += ops[i].name + " "
		if strings.HasPrefix(ops[i].name, "prepare") || strings.HasPrefix(ops[i].name, "simpl") {
			r.Nontrivial("")
		}
	}
	r.Logf("operations: %s", names)
	r.Nontrivial2(text + names)
	conc := r.Int(2) == 1
	check := func(after string) {
		if dumpAny(gr) != before {
			r.Violate("changed:"+after, "the grammar %q was changed by %s", text, after)
		}
		if dumpAny(other) != otherBefore {
			r.Violate("changed-other:"+after, "the grammar %q was changed by %s", other.String(), after)
		}
	}
	if conc {
		fs := make([]func(), n)
		for i := range ops {
			fs[i] = ops[i].f
		}
		r.tasks("grammar "+text, fs, func(i int) string { return ops[i].name }, 20000000, true)
		check("concurrent use")
	} else {
		for _, o := range ops {
			c := r.Guard(6000000, o.f)
			if c != nil {
				if c.Hang {
					r.Probe("too-large:" + o.name)
					o.v = nil
				} else {
					r.Violate("op:"+o.name+":"+c.Class(), "%s of %q: %s", o.name, text, c)
				}
			}
			check(o.name)
		}
	}
	var s1 string
	r.Guard(5000000, func() { s1 = gr.String() })
	if s1 != s0 {
		r.Violate("changed-text", "the printed text of %q was %q and is now %q", text, s0, s1)
	}
	for _, o := range ops {
		for i, v := range o.v {
			if v.err != nil || v.ok != wants[i] {
				r.Violate("verdict:"+o.name, "grammar %q, document %s, %s among %s: %s, the grammar means %v", text, forest(docs[i]), o.name, names, v, wants[i])
			}
		}
	}
}

// scribble overwrites everything reachable, to show that a clone shares nothing with its original.
func scribble(v reflect.Value, depth int) {
	if depth > 100 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if strings.HasPrefix(v.Type().Field(i).Name, "XXX_") {
				continue
			}
			scribble(v.Field(i), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
		}
	case reflect.Uint64:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(77.5)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// ---- C06 -----------------------------------------------------------------------------------------

func runC06(r *Run) {
	gc := &GramCfg{Depth: 4, Ctx: true}
	dc := &DocCfg{MaxNodes: 14, MaxDepth: 5, Unique: r.Int(3) == 2}
	useNow := r.Int(3) == 2
	gc.Now = useNow
	g := r.genGram(gc)
	text := g.String()
	r.Logf("grammar %s", text)
	gr := r.parseGram(text)
	vs := r.prepareAll(text, gr, dc.Unique, func(e *engine) bool { return e.name == "mem" || e.name == "relapse" || e.name == "mem-record" })
	if useNow && !strings.Contains(text, "zzctx") {
		// the other engines have no context, but they do have a clock
		vs = append(vs, r.prepareAll(text, gr, dc.Unique, func(e *engine) bool {
			return e.name != "mem" && e.name != "relapse" && e.name != "mem-record"
		})...)
	}
	env := &Env{Now: rt.Clock()}
	var ctx *funcs.Context
	if r.Int(2) == 0 {
		env.Ctx = []string{"", "a", "b", "s"}[r.Int(4)]
		ctx = &funcs.Context{Value: env.Ctx}
		for _, v := range vs {
			if v.setCtx != nil {
				v.setCtx(ctx)
			}
		}
		r.Logf("context %q", env.Ctx)
	}
	docs := r.history(g, dc, 1+r.Int(3))
	steps := 2 + r.Int(8)
	changed := false
	for i := 0; i < steps; i++ {
		switch r.Int(4) {
		case 0:
			env.Ctx = []string{"", "a", "b", "s"}[r.Int(4)]
			if ctx != nil && r.Int(3) == 0 {
				// change the value inside the context that is set
				ctx.Value = env.Ctx
			} else if c := (&funcs.Context{Value: env.Ctx}); true {
				ctx = c
				for _, v := range vs {
					if v.setCtx != nil {
						v.setCtx(ctx)
					}
				}
			}
			r.Fault("context-change")
			r.Logf("context %q", env.Ctx)
			changed = true
		case 1:
			d := []int64{1, 1000, 1e9, 3600e9, -1, -1e9, -3600e9 * 24}[r.Int(7)]
			rt.SetClock(rt.Clock() + d)
			env.Now = rt.Clock()
			if d > 0 {
				r.Fault("clock-forward")
			} else {
				r.Fault("clock-backward")
			}
			r.Logf("clock %d", env.Now-clockBase)
			changed = changed || useNow
		default:
			doc := docs[r.Int(len(docs))]
			want, ok := g.matches(doc, env)
			if !ok {
				r.Probe("reference-too-hard")
				continue
			}
			r.Logf("document %s: reference %v", forest(doc), want)
			if want {
				r.Probe("accepted")
			} else {
				r.Probe("rejected")
			}
			for _, v := range vs {
				got := v.run(r, newTreeParser(doc), 2000000)
				if got.limit {
					continue
				}
				if !got.normal() || got.ok != want {
					r.Violate("verdict:"+v.eng.name, "grammar %q, document %s, context %q, clock %d: %s says %s, the grammar means %v", text, forest(doc), env.Ctx, env.Now-clockBase, v.eng.name, got, want)
				}
			}
			if changed {
				r.Nontrivial(text + forest(doc) + env.Ctx + fmt.Sprint(env.Now))
			}
		}
	}
}
