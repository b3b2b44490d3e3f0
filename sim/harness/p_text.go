package main

import (
	"errors"
	"reflect"
	"strings"

	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/lexer"
	"github.com/katydid/katydid/relapse/parser"
	"github.com/katydid/katydid/relapse/token"
)

func init() {
	register(&Prop{ID: "C30", Run: runC30, Quick: 200000,
		RealCode: []string{"relapse/parser", "relapse/lexer", "relapse/ast", "relapse/token", "relapse/errors"},
		Stubs:    []string{"in some runs the token source handed to the parser is a wrapper that panics or ends early at a drawn token"},
		Assume:   []string{"the step bound is 20000 executed statements plus 4000 per byte of text for parsing"},
		Rule:     "each run draws 2 to 9 texts (well-formed grammars, token-level and byte-level corruptions, truncations, splices, random tokens, deep nesting, extreme literals), and parses them in a drawn order with one parser object, with token sources that panic or end early in between; each outcome (structure, printed text, error) is compared with that of a new parser, and all grammars returned earlier must stay as they were. Non-trivial: the parser object was used before. Distinct by texts and order."})
	register(&Prop{ID: "C31", Run: runC31, Quick: 80000,
		RealCode: validReal, Stubs: treeStub,
		Assume: []string{"grammars in which a reference reaches itself without entering a node are left out: the documentation excludes left recursion", "preparing is bounded by 400000 executed statements plus 40000 per byte of grammar text for all engines but the automaton compiler, whose result can be exponential"},
		Rule:   "each run prepares a canary grammar, then 1 to 4 grammars that parse but are broken semantically (undefined, duplicate or unused references, unknown functions, wrong arguments, ill-typed or failing constant expressions, extreme literals) with every engine, validates documents with whatever was prepared, also with failing sources, and finally checks the canary validators and newly prepared ones against the reference. Non-trivial: a grammar reached an engine. Distinct by grammar texts."})
}

// ---- texts ---------------------------------------------------------------------------------------

var tokenPool = []string{"(", ")", "[", "]", "{", "}", ",", ";", "|", "&", "*", "?", "!", ".", "@", "#", "=", "==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::", "->", ":", "_", "a", "main", "<empty>",
	"$string", "$int", "$uint", "$double", "$bool", "$[]byte", "true", "false", "0", "5", "-3", "int(0x1F)", "uint(7)", "1.5", "double(2)", "\"s\"", "`raw`", "[]byte{0x01, 'a'}", "[]int{1}", "[]string{}", "[]uint{uint(1)}", "/* c */", "// l\n", " ", "\n",
	"99999999999999999999", "uint(18446744073709551616)", "int(-9223372036854775809)", "1e999", "double(.e)", "\"\\xff\"", "\"\\U7fffffff\"", "[]byte{300}", "[]byte{-1}", "'", "\"", "`", "/*", "\\", "\x00", "\xff\xfe", "\u2028", "$", "[]", "#a = ", "@b", "contains(", "length(", "0x", "int(0778)", "double(0x10)", "double(1e400)", "uint(0x)",
	"[]byte{',', '\\', '''}", "[]byte{'\\x6', '}'}", "[]byte{'\\400'}", "[]byte{0400, 0x100, 000377}", "[]byte{'\u4e16'}", "[]byte{'\\u1041', '\\U00110000', '\xff'}", "int(0x8000000000000000)", "int(0777)", "uint(01777777777777777777777)", "'a'", "'\\n'"}

// tokensOf splits a text crudely, so that joining gives the text back.
func tokensOf(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		j := i + 1
		isw := func(c byte) bool {
			return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$'
		}
		switch {
		case isw(s[i]):
			for j < len(s) && isw(s[j]) {
				j++
			}
		case s[i] == '"':
			for j < len(s) && s[j] != '"' {
				j++
			}
			if j < len(s) {
				j++
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func (r *Run) corruptText(s string) string {
	for k := 1 + r.FInt(3); k > 0; k-- {
		ts := tokensOf(s)
		n := len(ts)
		if n == 0 {
			return tokenPool[r.FInt(len(tokenPool))]
		}
		i := r.FInt(n)
		switch r.FInt(11) {
		case 0: // truncate
			r.Fault("text-truncated")
			s = s[:r.FInt(len(s)+1)]
			continue
		case 1: // delete token
			r.Fault("token-lost")
			ts = append(ts[:i:i], ts[i+1:]...)
		case 2: // duplicate
			r.Fault("token-duplicated")
			ts = append(ts[:i+1:i+1], ts[i:]...)
		case 3: // swap
			r.Fault("tokens-reordered")
			j := r.FInt(n)
			ts[i], ts[j] = ts[j], ts[i]
		case 4, 5, 6: // replace or insert
			r.Fault("token-inserted")
			t := tokenPool[r.FInt(len(tokenPool))]
			if r.FInt(2) == 0 {
				ts[i] = t
			} else {
				ts = append(ts[:i:i], append([]string{t}, ts[i:]...)...)
			}
		case 7: // flip a byte
			r.Fault("bit-flip")
			b := []byte(s)
			b[r.FInt(len(b))] ^= 1 << uint(r.FInt(8))
			s = string(b)
			continue
		case 8: // overwrite a byte
			r.Fault("byte-overwritten")
			b := []byte(s)
			b[r.FInt(len(b))] = byte(r.FInt(256))
			s = string(b)
			continue
		case 9: // splice a part elsewhere
			r.Fault("text-spliced")
			j := i + r.FInt(n-i) + 1
			at := r.FInt(n)
			ts = append(append(append([]string{}, ts[:at]...), ts[i:j]...), ts[at:]...)
		default: // cut out
			r.Fault("text-lost")
			j := i + r.FInt(n-i) + 1
			ts = append(ts[:i:i], ts[j:]...)
		}
		s = strings.Join(ts, "")
		if len(s) > 20000 {
			s = s[:20000]
		}
	}
	return s
}

func (r *Run) nested() string {
	n := []int{5, 50, 50, 200, 200, 1000}[r.Int(6)]
	switch r.Int(7) {
	case 0:
		return strings.Repeat("!(", n) + "*" + strings.Repeat(")", n)
	case 1:
		return strings.Repeat("a:", n) + "*"
	case 2:
		return strings.Repeat("(", n) + "*" + strings.Repeat("|*)", n)
	case 3:
		return "-> " + strings.Repeat("not(", n) + "true" + strings.Repeat(")", n)
	case 4:
		return strings.Repeat("[", n)
	case 5:
		return strings.Repeat("a:.{", n)
	default:
		return strings.Repeat("#a = * ", n)
	}
}

func (r *Run) genText() string {
	base := func() string {
		if r.Int(3) == 0 {
			return r.genSloppy()
		}
		return spaced(r, r.genGram(&GramCfg{Depth: 1 + r.Int(4), Typed: r.Int(2) == 0}).String())
	}
	switch r.Int(10) {
	case 0, 1:
		return base()
	case 2:
		n := r.Int(14)
		s := ""
		for i := 0; i < n; i++ {
			s += tokenPool[r.Int(len(tokenPool))]
			if r.Int(3) == 0 {
				s += " "
			}
		}
		return s
	case 3:
		n := r.Int(30)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.Int(256))
		}
		return string(b)
	case 4:
		s := r.nested()
		if r.FInt(3) > 0 {
			return r.corruptText(s)
		}
		return s
	case 5:
		return "-> " + r.genSloppyExpr(r.Int(len(exTypes)), 3)
	default:
		return r.corruptText(base())
	}
}

// ---- C30 -----------------------------------------------------------------------------------------

type parseOut struct {
	err  string
	dump string
	gr   interface{}
}

func (p parseOut) String() string {
	if p.err != "" {
		return "error " + p.err
	}
	return p.dump
}

var errScanner = errors.New("simulated token source failure")

// faultyScanner panics or ends at the n-th token.
type faultyScanner struct {
	l     *lexer.Lexer
	n     int
	panic bool
	fired bool
}

func (f *faultyScanner) Scan() *token.Token {
	t := f.l.Scan()
	f.n--
	if f.n < 0 {
		f.fired = true
		if f.panic {
			panic(errScanner)
		}
		t.Type = token.EOF
		t.Lit = nil
	}
	return t
}

func (r *Run) parseWith(what string, text string, f func() (interface{}, error)) (o parseOut) {
	var g interface{}
	var err error
	limit := uint64(20000 + 4000*len(text))
	c := r.Guard(limit, func() { g, err = f() })
	if c != nil {
		r.Violate(c.Class(), "%s of %q (%d bytes): %s", what, text, len(text), c)
	}
	if err != nil {
		o.err = err.Error()
		if o.err == "" {
			o.err = "(empty)"
		}
		return
	}
	if g == nil || reflect.ValueOf(g).IsNil() {
		r.Violate("neither", "%s of %q returned neither a grammar nor an error", what, text)
	}
	o.gr = g
	o.dump = dumpAny(g)
	return
}

func runC30(r *Run) {
	n := 2 + r.Int(5)
	texts := make([]string, n)
	for i := range texts {
		texts[i] = r.genText()
	}
	p := parser.NewParser()
	type kept struct {
		text string
		o    parseOut
		str  string
	}
	var ks []kept
	steps := n + r.Int(4)
	for k := 0; k < steps; k++ {
		text := texts[k%n]
		if k >= n {
			text = texts[r.Int(n)]
		}
		expr := r.Int(5) == 0 && len(text) < 600
		if fk := r.FInt(8); fk >= 6 {
			// a use of the parser that is cut short
			fs := &faultyScanner{l: lexer.NewLexer([]byte(text)), n: r.FInt(20), panic: fk == 7}
			c := r.Guard(uint64(20000+4000*len(text)), func() { p.Parse(fs) })
			if c != nil && !(fs.panic && fs.fired && c.Val == errScanner) {
				r.Violate(c.Class(), "parsing %q with a token source that ends early: %s", text, c)
			}
			if fs.fired {
				if fs.panic {
					r.Fault("token-source-panic")
				} else {
					r.Fault("token-source-truncated")
				}
			}
			r.Logf("cut short: %q", text)
		}
		one := func(what string, ps *parser.Parser) parseOut {
			return r.parseWith(what, text, func() (interface{}, error) {
				if expr {
					return ps.ParseExpr(text)
				}
				return ps.ParseGrammar(text)
			})
		}
		a := one("parsing", p)
		b := one("parsing (new parser)", parser.NewParser())
		c := r.parseWith("parsing (package function)", text, func() (interface{}, error) {
			if expr {
				return parser.ParseExpr(text)
			}
			return relapse.Parse(text)
		})
		if a.err != b.err || a.dump != b.dump {
			r.Violate("history", "text %q with a parser used %d times before: %s; with a new parser: %s", text, k, a, b)
		}
		if c.err != b.err || c.dump != b.dump {
			r.Violate("unstable", "text %q parsed twice with new parsers: %s and %s", text, b, c)
		}
		kp := kept{text: text, o: a}
		if a.gr != nil {
			r.Probe("accepted")
			var s1, s2 string
			cc := r.Guard(uint64(2000000+20000*len(text)), func() {
				switch x := a.gr.(type) {
				case *ast.Grammar:
					s1, s2 = x.String(), b.gr.(*ast.Grammar).String()
				case *ast.Expr:
					s1, s2 = x.String(), b.gr.(*ast.Expr).String()
				}
			})
			if cc != nil {
				r.Violate("print:"+cc.Class(), "printing the result of parsing %q: %s", text, cc)
			}
			if s1 != s2 {
				r.Violate("history-text", "text %q with a parser used %d times before prints as %q; with a new parser as %q", text, k, s1, s2)
			}
			kp.str = s1
		} else {
			r.Probe("refused")
		}
		ks = append(ks, kp)
		r.Logf("parse %q expr=%v: %.300s", text, expr, a)
		if k > 0 {
			r.Nontrivial(text)
		}
	}
	for i, k := range ks {
		if k.o.gr != nil && dumpAny(k.o.gr) != k.o.dump {
			r.Violate("earlier-changed", "the result of parsing %q (use %d of the parser) was changed by later uses", k.text, i)
		}
	}
}

// ---- semantically broken grammars ----------------------------------------------------------------

var exTypes = []string{"bool", "int", "uint", "double", "string", "[]byte", "[]bool", "[]int", "[]uint", "[]double", "[]string", "[][]byte"}

const (
	tBool = iota
	tInt
	tUint
	tDouble
	tString
	tBytes
)

type sig struct {
	name string
	out  int
	in   []int
}

var sigs = func() []sig {
	var s []sig
	add := func(name string, out int, in ...int) { s = append(s, sig{name, out, in}) }
	add("and", tBool, tBool, tBool)
	add("or", tBool, tBool, tBool)
	add("not", tBool, tBool)
	for _, t := range []int{tInt, tString, tUint} {
		add("contains", tBool, t, t+6)
	}
	add("contains", tBool, tString, tString)
	for t := 0; t < 6; t++ {
		add("elem", t, t+6, tInt)
		add("eq", tBool, t, t)
		add("ne", tBool, t, t)
		add("length", tInt, t+6)
		add("print", t, t)
		add("print", t+6, t+6)
		add("range", t+6, t+6, tInt, tInt)
		add("type", tBool, t)
		if t != tBool && t != tString {
			for _, f := range []string{"ge", "gt", "le", "lt"} {
				add(f, tBool, t, t)
			}
		}
	}
	add("eqFold", tBool, tString, tString)
	add("hasPrefix", tBool, tString, tString)
	add("hasSuffix", tBool, tString, tString)
	add("length", tInt, tBytes)
	add("length", tInt, tString)
	add("now", tInt)
	add("regex", tBool, tString, tString)
	add("toLower", tString, tString)
	add("toUpper", tString, tString)
	add("zzctx", tBool, tString, tString)
	add("zzctxc", tBool, tString)
	add("zzmany", tInt, tInt, tString, tBool, tDouble, tUint, tBytes, tString+6, tInt+6)
	add("zzsplit", tString+6, tString)
	add("zzsize", tInt, tInt)
	add("zzsize", tInt, tString)
	add("zzsize", tInt, tInt+6)
	add("zzsize", tInt, tInt, tInt)
	add("zzfail", tBool, tString, tString)
	return s
}()

var sloppyLits = [][]string{
	{"true", "false"},
	{"0", "1", "-1", "5", "int(0x7fffffffffffffff)", "-9223372036854775808", "100", "9223372036854775808"},
	{"uint(0)", "uint(1)", "uint(18446744073709551615)", "uint(5)", "uint(18446744073709551616)"},
	{"0.0", "1.5", "double(-1)", "1e308", "1e400", "double(0x10)"},
	{`"a"`, `""`, `"ab"`, "`raw`", `"(["`, `"^a*$"`, `"\xff"`, `"\u00e9"`},
	{"[]byte{}", "[]byte{0x01, 255}", "[]byte{'a', 'b'}", "[]byte{256}"},
}

// genSloppyExpr makes the text of an expression of mostly the given type.
func (r *Run) genSloppyExpr(t, d int) string {
	if r.FInt(12) == 11 {
		r.Fault("wrong-type")
		t = r.FInt(len(exTypes))
	}
	if d <= 0 || r.Int(3) == 0 {
		if t >= 6 {
			n := r.Int(4)
			var p []string
			for i := 0; i < n; i++ {
				p = append(p, r.genSloppyExpr(t-6, d-1))
			}
			return exTypes[t] + "{" + strings.Join(p, ", ") + "}"
		}
		if r.Int(3) == 0 {
			return "$" + exTypes[t]
		}
		l := sloppyLits[t]
		return l[r.Int(len(l))]
	}
	var cand []sig
	for _, s := range sigs {
		if s.out == t {
			cand = append(cand, s)
		}
	}
	s := cand[r.Int(len(cand))]
	name, in := s.name, s.in
	switch r.FInt(24) {
	case 23:
		r.Fault("unknown-function")
		name = []string{"nofunc", "Contains", "eq2", "main"}[r.FInt(4)]
	case 22:
		r.Fault("missing-argument")
		if len(in) > 0 {
			in = in[:len(in)-1]
		}
	case 21:
		r.Fault("extra-argument")
		in = append(append([]int{}, in...), r.FInt(len(exTypes)))
	}
	var p []string
	for _, a := range in {
		p = append(p, r.genSloppyExpr(a, d-1))
	}
	return name + "(" + strings.Join(p, ", ") + ")"
}

func (r *Run) genSloppyLeaf() string {
	switch r.Int(4) {
	case 0:
		op := []string{"==", "!=", "<", ">", "<=", ">=", "~=", "*=", "^=", "$=", "::"}[r.Int(11)]
		t := r.Int(12)
		if r.Int(2) == 0 {
			t = tString
		}
		return op + " " + r.genSloppyExpr(t, 1)
	case 1:
		if r.FInt(4) == 3 {
			r.Fault("not-boolean")
			return "-> " + r.genSloppyExpr(r.FInt(len(exTypes)), 2)
		}
	}
	return "-> " + r.genSloppyExpr(tBool, 3)
}

func (r *Run) genSloppyName(d int) string {
	switch r.Int(8) {
	case 0:
		return "_"
	case 1:
		if d > 0 {
			return "!(" + r.genSloppyName(d-1) + ")"
		}
	case 2:
		if d > 0 {
			return "(" + r.genSloppyName(d-1) + "|" + r.genSloppyName(d-1) + ")"
		}
	case 3:
		t := r.Int(6)
		return sloppyLits[t][r.Int(len(sloppyLits[t]))]
	}
	return labelPool[r.Int(4)]
}

func (r *Run) genSloppyPat(d int, refs []string) string {
	if d <= 0 || r.Int(6) == 0 {
		switch r.Int(5) {
		case 0:
			return "<empty>"
		case 1:
			return "*"
		case 2:
			return "@" + refs[r.Int(len(refs))]
		}
		return r.genSloppyLeaf()
	}
	sub := func() string { return r.genSloppyPat(d-1, refs) }
	list := func(o, sep, c string) string {
		s := sub() + sep + sub()
		for r.Int(3) == 2 {
			s += sep + sub()
		}
		return o + s + c
	}
	switch r.Int(12) {
	case 0:
		return list("[", ",", "]")
	case 1:
		return list("(", "|", ")")
	case 2:
		return list("(", "&", ")")
	case 3:
		return list("{", ";", "}")
	case 4:
		return "(" + sub() + ")*"
	case 5:
		return "(" + sub() + ")?"
	case 6:
		return "!(" + sub() + ")"
	case 7:
		return "." + sub()
	}
	return r.genSloppyName(2) + ":" + sub()
}

// genSloppy makes a syntactically well-formed grammar with little regard for its meaning.
func (r *Run) genSloppy() string {
	names := []string{"main", "x1", "x2", "x3"}[:1+r.Int(4)]
	refs := append([]string{}, names...)
	if r.FInt(4) == 3 {
		r.Fault("undefined-reference")
		refs = append(refs, "nowhere")
	}
	s := ""
	top := r.Int(2) == 0
	if top {
		s = r.genSloppyPat(1+r.Int(3), refs)
		names = names[1:]
	}
	if r.FInt(6) == 5 && len(names) > 0 {
		r.Fault("duplicate-declaration")
		names = append(append([]string{}, names...), names[r.FInt(len(names))])
		if r.FInt(3) == 2 {
			names = append(names, "main")
		}
	}
	if r.FInt(8) == 7 && len(names) > 1 {
		r.Fault("main-missing")
		names = names[1:]
	}
	for _, n := range names {
		s += " #" + n + " = " + r.genSloppyPat(1+r.Int(3), refs)
	}
	return s
}

// leftRecursive: some reference reaches itself without entering a node. It looks at the syntax tree.
func leftRecursive(g *ast.Grammar) bool {
	edges := map[string][]string{}
	var refsOf func(v reflect.Value, out *[]string)
	refsOf = func(v reflect.Value, out *[]string) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			switch x := v.Interface().(type) {
			case *ast.TreeNode, *ast.LeafNode:
				return
			case *ast.Reference:
				*out = append(*out, x.GetName())
				return
			}
			refsOf(v.Elem(), out)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if k := v.Field(i).Kind(); k == reflect.Ptr || k == reflect.Struct {
					refsOf(v.Field(i), out)
				}
			}
		}
	}
	addTo := func(n string, p *ast.Pattern) {
		l := edges[n]
		refsOf(reflect.ValueOf(p), &l)
		edges[n] = l
	}
	if g.TopPattern != nil {
		addTo("main", g.TopPattern)
	}
	for _, d := range g.PatternDecls {
		addTo(d.Name, d.Pattern)
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		switch state[n] {
		case 1:
			return true
		case 2:
			return false
		}
		state[n] = 1
		for _, m := range edges[n] {
			if visit(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range edges {
		if visit(n) {
			return true
		}
	}
	return false
}

// ---- C31 -----------------------------------------------------------------------------------------

func runC31(r *Run) {
	canary, _, dc := r.genWorld()
	ctext := canary.String()
	cgr := r.parseGram(ctext)
	cvs := r.prepareAll(ctext, cgr, dc.Unique, nil)
	docs := r.history(canary, dc, 2)
	r.Logf("canary %s", ctext)
	n := 1 + r.Int(4)
	for k := 0; k < n; k++ {
		text := r.genSloppy()
		if r.FInt(4) == 3 {
			text = r.corruptText(text)
		}
		if r.Int(8) == 7 {
			text = r.nested()
			if len(text) > 2000 {
				text = "*"
			}
		}
		var gr *ast.Grammar
		var err error
		if c := r.Guard(100000000, func() { gr, err = relapse.Parse(text) }); c != nil {
			r.Probe("parse-crashed") // C30
			continue
		}
		if err != nil {
			r.Probe("not-parsed")
			continue
		}
		if leftRecursive(gr) {
			r.Probe("left-recursive")
			continue
		}
		r.Logf("grammar %q", text)
		r.Nontrivial(text)
		cfg := &DocCfg{MaxNodes: 10, MaxDepth: 4, Typed: true, Unique: r.Int(2) == 0, JSONLike: r.Int(2) == 0}
		var ds [][]*Node
		for i := 0; i < 2; i++ {
			b := cfg.MaxNodes
			d := r.genForest(cfg, r.Int(2), &b)
			if cfg.Unique {
				d = dedupe(d)
			}
			ds = append(ds, limitForest(d, 6, 6))
		}
		fault := r.FInt(12)
		for _, e := range engines {
			limit := uint64(400000 + 40000*len(text))
			if strings.HasPrefix(e.name, "auto") {
				limit = 6000000
			}
			v, err, pan := r.prepare(e, gr, limit)
			if pan != nil {
				if pan.Hang && strings.HasPrefix(e.name, "auto") {
					r.Probe("prepare-too-large:" + e.name)
					continue
				}
				r.Violate("prepare:"+e.name+":"+pan.Class(), "preparing %q with %s: %s", text, e.name, pan)
			}
			if err != nil {
				r.Probe("refused:" + e.name)
				r.Logf("%s: %s", e.name, err)
				continue
			}
			if v == nil {
				r.Violate("neither:"+e.name, "preparing %q with %s gave neither a validator nor an error", text, e.name)
			}
			if e.record && !cfg.Unique {
				continue
			}
			r.Probe("prepared:" + e.name)
			for _, d := range ds {
				t := newTreeParser(d)
				if fault < 6 {
					t.fault = treeFault{at: 1 + fault, err: errSource, val: fault%2 == 1}
				}
				userFail.at = 0
				res := v.run(r, t, 3000000)
				if t.fired {
					r.Fault("source-error")
				}
				r.Logf("%s on %s: %s", e.name, forest(d), res)
				if res.limit {
					r.Probe("validate-too-large:" + e.name)
				} else if res.pan != nil {
					r.Violate("validate:"+e.name+":"+res.pan.Class(), "grammar %q, document %s, %s: %s", text, forest(d), e.name, res.pan)
				}
			}
		}
	}
	after := r.prepareAll(ctext, cgr, dc.Unique, nil)
	for _, d := range docs {
		want, ok := canary.matches(d, &Env{})
		if !ok {
			continue
		}
		for i, v := range append(append([]*validator{}, cvs...), after...) {
			got := v.run(r, newTreeParser(d), 2000000)
			if got.limit {
				continue
			}
			if !got.normal() || got.ok != want {
				r.Violate("canary:"+v.eng.name, "the grammar %q (prepared before the others: %v), document %s, %s: %s, the grammar means %v", ctext, i < len(cvs), forest(d), v.eng.name, got, want)
			}
		}
	}
}
