package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

// ---- user functions ------------------------------------------------------------------------------

// The functions registered by the "application" of the simulation.
//
//	zzctx($string, "c")  value == context + "c"
//	zzctxc("c")          context == "c"
//	zzmany(i, s, b, d, u, y, ss, is) is a number made of all its arguments
//	zzsplit(s)           the characters of a string
//	zzsize(i), zzsize(s), zzsize(is), zzsize(i, i)  are numbers
//	zzfail("c", $string) behaves like value == "c", but fails or panics when told to
type userFunc struct {
	name string
	a    funcs.ConstString
	v    funcs.String
	ctx  *funcs.Context
}

var errUser = errors.New("user function failed")

// userFail tells zzfail what to do: the n-th evaluation from now fails.
var userFail struct {
	at    int
	n     int
	panic bool
	fired bool
}

func ctxString(c *funcs.Context) string {
	if c == nil || c.Value == nil {
		return ""
	}
	return c.Value.(string)
}

func (u *userFunc) SetContext(c *funcs.Context) { u.ctx = c }

func (u *userFunc) Eval() (bool, error) {
	a, err := u.a.Eval()
	if err != nil {
		return false, err
	}
	if u.name == "zzctxc" {
		return ctxString(u.ctx) == a, nil
	}
	v, err := u.v.Eval()
	if u.name == "zzfail" {
		userFail.n++
		if userFail.at != 0 && userFail.n == userFail.at {
			userFail.fired = true
			if userFail.panic {
				panic(errUser)
			}
			return false, errUser
		}
	}
	if err != nil {
		return false, nil
	}
	if u.name == "zzctx" {
		return v == ctxString(u.ctx)+a, nil
	}
	return v == a, nil
}

func (u *userFunc) HasVariable() bool { return true }

func (u *userFunc) String() string {
	switch u.name {
	case "zzctxc":
		return "zzctxc(" + u.a.String() + ")"
	case "zzctx":
		return "zzctx($string, " + u.a.String() + ")"
	}
	return "zzfail(" + u.a.String() + ", $string)"
}

func (u *userFunc) Hash() uint64 {
	h := fnv.New64a()
	h.Write([]byte(u.String()))
	return h.Sum64()
}

func (u *userFunc) Compare(that funcs.Comparable) int {
	if u.Hash() != that.Hash() {
		if u.Hash() < that.Hash() {
			return -1
		}
		return 1
	}
	return strings.Compare(u.String(), that.String())
}

func newUser(name string, v funcs.String, a funcs.ConstString) funcs.Bool {
	return funcs.TrimBool(&ctxFn{V1: v, name: name, V2: a})
}

// ctxFn is a function of a string and a constant string.
type ctxFn struct {
	V1   funcs.String
	V2   funcs.ConstString
	name string
	ctx  *funcs.Context
}

func (f *ctxFn) u() *userFunc                   { return &userFunc{name: f.name, a: f.V2, v: f.V1, ctx: f.ctx} }
func (f *ctxFn) Eval() (bool, error)            { return f.u().Eval() }
func (f *ctxFn) SetContext(c *funcs.Context)    { f.ctx = c }
func (f *ctxFn) HasVariable() bool              { return true }
func (f *ctxFn) String() string                 { return f.u().String() }
func (f *ctxFn) Hash() uint64                   { return f.u().Hash() }
func (f *ctxFn) Compare(c funcs.Comparable) int { return f.u().Compare(c) }

// ctxFn1 is a function of a constant string.
type ctxFn1 struct {
	V1  funcs.ConstString
	ctx *funcs.Context
}

func (f *ctxFn1) u() *userFunc                   { return &userFunc{name: "zzctxc", a: f.V1, ctx: f.ctx} }
func (f *ctxFn1) Eval() (bool, error)            { return f.u().Eval() }
func (f *ctxFn1) SetContext(c *funcs.Context)    { f.ctx = c }
func (f *ctxFn1) HasVariable() bool              { return true }
func (f *ctxFn1) String() string                 { return f.u().String() }
func (f *ctxFn1) Hash() uint64                   { return f.u().Hash() }
func (f *ctxFn1) Compare(c funcs.Comparable) int { return f.u().Compare(c) }

// ctxStr is the context as a string.
type ctxStr struct{ ctx *funcs.Context }

func (f *ctxStr) Eval() (string, error)          { return ctxString(f.ctx), nil }
func (f *ctxStr) SetContext(c *funcs.Context)    { f.ctx = c }
func (f *ctxStr) HasVariable() bool              { return true }
func (f *ctxStr) String() string                 { return "zzctxs()" }
func (f *ctxStr) Hash() uint64                   { return 7717 }
func (f *ctxStr) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

// ctxLen is the length of the context.
type ctxLen struct{ ctx *funcs.Context }

func (f *ctxLen) Eval() (int64, error)           { return int64(len(ctxString(f.ctx))), nil }
func (f *ctxLen) SetContext(c *funcs.Context)    { f.ctx = c }
func (f *ctxLen) HasVariable() bool              { return true }
func (f *ctxLen) String() string                 { return "zzctxn()" }
func (f *ctxLen) Hash() uint64                   { return 7719 }
func (f *ctxLen) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

// manyFn is a function of many arguments, of all types.
type manyFn struct {
	I  funcs.Int
	S  funcs.String
	B  funcs.Bool
	D  funcs.Double
	U  funcs.Uint
	Y  funcs.Bytes
	SS funcs.Strings
	IS funcs.Ints
}

func (f *manyFn) Eval() (int64, error) {
	i, err := f.I.Eval()
	if err != nil {
		return 0, err
	}
	s, err := f.S.Eval()
	if err != nil {
		return 0, err
	}
	b, err := f.B.Eval()
	if err != nil {
		return 0, err
	}
	d, err := f.D.Eval()
	if err != nil {
		return 0, err
	}
	u, err := f.U.Eval()
	if err != nil {
		return 0, err
	}
	y, err := f.Y.Eval()
	if err != nil {
		return 0, err
	}
	ss, err := f.SS.Eval()
	if err != nil {
		return 0, err
	}
	is, err := f.IS.Eval()
	if err != nil {
		return 0, err
	}
	return manyOf(i, s, b, d, u, string(y), len(ss), len(is)), nil
}

func manyOf(i int64, s string, b bool, d float64, u uint64, y string, ss, is int) int64 {
	n := i + int64(u) + int64(len(s)+2*len(y)+ss-is)
	if b {
		n++
	}
	if d > 1 {
		n -= 2
	}
	return n
}

func (f *manyFn) args() []funcs.Func {
	return []funcs.Func{f.I, f.S, f.B, f.D, f.U, f.Y, f.SS, f.IS}
}

func (f *manyFn) HasVariable() bool {
	for _, a := range f.args() {
		if a.HasVariable() {
			return true
		}
	}
	return false
}

func (f *manyFn) String() string                 { return funcText("zzmany", f.args()...) }
func (f *manyFn) Hash() uint64                   { return funcHash(f) }
func (f *manyFn) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

func funcText(name string, args ...funcs.Func) string {
	var ts []string
	for _, a := range args {
		ts = append(ts, a.String())
	}
	return name + "(" + strings.Join(ts, ", ") + ")"
}

func funcHash(f funcs.Comparable) uint64 {
	h := fnv.New64a()
	h.Write([]byte(f.String()))
	return h.Sum64()
}

// splitFn makes a list of a string.
type splitFn struct{ Text funcs.String }

func (f *splitFn) Eval() ([]string, error) {
	s, err := f.Text.Eval()
	if err != nil {
		return nil, err
	}
	return splitOf(s), nil
}

func splitOf(s string) []string {
	var l []string
	for _, c := range s {
		l = append(l, string(c))
	}
	return l
}

func (f *splitFn) HasVariable() bool              { return f.Text.HasVariable() }
func (f *splitFn) String() string                 { return funcText("zzsplit", f.Text) }
func (f *splitFn) Hash() uint64                   { return funcHash(f) }
func (f *splitFn) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

// The functions named zzsize differ only in their parameters.
type sizeInt struct{ A funcs.Int }
type sizeStr struct{ A funcs.String }
type sizeInts struct{ A funcs.Ints }
type sizeTwo struct {
	A funcs.Int
	B funcs.Int
}

func (f *sizeInt) Eval() (int64, error) {
	a, err := f.A.Eval()
	if err != nil {
		return 0, err
	}
	return a + 1, nil
}

func (f *sizeStr) Eval() (int64, error) {
	a, err := f.A.Eval()
	if err != nil {
		return 0, err
	}
	return int64(len(a)) + 2, nil
}

func (f *sizeInts) Eval() (int64, error) {
	a, err := f.A.Eval()
	if err != nil {
		return 0, err
	}
	return int64(len(a)) + 3, nil
}

func (f *sizeTwo) Eval() (int64, error) {
	a, err := f.A.Eval()
	if err != nil {
		return 0, err
	}
	b, err := f.B.Eval()
	if err != nil {
		return 0, err
	}
	return a - b, nil
}

func (f *sizeInt) HasVariable() bool              { return f.A.HasVariable() }
func (f *sizeInt) String() string                 { return funcText("zzsize", f.A) }
func (f *sizeInt) Hash() uint64                   { return funcHash(f) }
func (f *sizeInt) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

func (f *sizeStr) HasVariable() bool              { return f.A.HasVariable() }
func (f *sizeStr) String() string                 { return funcText("zzsize", f.A) }
func (f *sizeStr) Hash() uint64                   { return funcHash(f) }
func (f *sizeStr) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

func (f *sizeInts) HasVariable() bool              { return f.A.HasVariable() }
func (f *sizeInts) String() string                 { return funcText("zzsize", f.A) }
func (f *sizeInts) Hash() uint64                   { return funcHash(f) }
func (f *sizeInts) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

func (f *sizeTwo) HasVariable() bool              { return f.A.HasVariable() || f.B.HasVariable() }
func (f *sizeTwo) String() string                 { return funcText("zzsize", f.A, f.B) }
func (f *sizeTwo) Hash() uint64                   { return funcHash(f) }
func (f *sizeTwo) Compare(c funcs.Comparable) int { return cmpFunc(f, c) }

func cmpFunc(a, b funcs.Comparable) int {
	if x, y := a.Hash(), b.Hash(); x != y {
		if x < y {
			return -1
		}
		return 1
	}
	return strings.Compare(a.String(), b.String())
}

func init() {
	funcs.Register("zzctxs", func() funcs.String { return &ctxStr{} })
	funcs.Register("zzctxn", func() funcs.Int { return &ctxLen{} })
	funcs.Register("zzmany", func(i funcs.Int, s funcs.String, b funcs.Bool, d funcs.Double, u funcs.Uint, y funcs.Bytes, ss funcs.Strings, is funcs.Ints) funcs.Int {
		return funcs.TrimInt(&manyFn{i, s, b, d, u, y, ss, is})
	})
	funcs.Register("zzsplit", func(s funcs.String) funcs.Strings { return funcs.TrimStrings(&splitFn{s}) })
	funcs.Register("zzsize", func(a funcs.Int) funcs.Int { return funcs.TrimInt(&sizeInt{a}) })
	funcs.Register("zzsize", func(a funcs.String) (funcs.Int, error) { return funcs.TrimInt(&sizeStr{a}), nil })
	funcs.Register("zzsize", func(a funcs.Ints) funcs.Int { return &sizeInts{a} })
	funcs.Register("zzsize", func(a, b funcs.Int) (funcs.Int, error) { return &sizeTwo{a, b}, nil })
	funcs.Register("zzctx", func(v funcs.String, a funcs.ConstString) funcs.Bool { return newUser("zzctx", v, a) })
	funcs.Register("zzctxc", func(a funcs.ConstString) funcs.Bool { return funcs.TrimBool(&ctxFn1{V1: a}) })
	funcs.Register("zzfail", func(a funcs.ConstString, v funcs.String) funcs.Bool { return newUser("zzfail", v, a) })
}

// ---- engines -------------------------------------------------------------------------------------

// validator is a prepared grammar.
type validator struct {
	eng      *engine
	dead     bool // stopped at the step limit, which may be in the middle of anything
	validate func(p parser.Interface) (bool, error)
	setCtx   func(c *funcs.Context)
	obj      interface{} // what is kept between validations
}

type engine struct {
	name     string
	record   bool
	stateful bool
	prepare  func(g *ast.Grammar) (*validator, error)
}

var engines = []*engine{
	{name: "relapse", stateful: true, prepare: func(g *ast.Grammar) (*validator, error) {
		m, err := relapse.Prepare(g)
		if err != nil {
			return nil, err
		}
		return &validator{obj: m, validate: func(p parser.Interface) (bool, error) { return relapse.Validate(m, p) }, setCtx: m.SetContext}, nil
	}},
	{name: "mem", stateful: true, prepare: func(g *ast.Grammar) (*validator, error) {
		m, err := mem.New(g)
		if err != nil {
			return nil, err
		}
		return &validator{obj: m, validate: m.Validate, setCtx: m.SetContext}, nil
	}},
	{name: "mem-record", stateful: true, record: true, prepare: func(g *ast.Grammar) (*validator, error) {
		m, err := mem.NewRecord(g)
		if err != nil {
			return nil, err
		}
		return &validator{obj: m, validate: m.Validate, setCtx: m.SetContext}, nil
	}},
	{name: "auto", stateful: true, prepare: func(g *ast.Grammar) (*validator, error) {
		a, err := auto.Compile(g)
		if err != nil {
			return nil, err
		}
		return &validator{obj: a, validate: a.Validate}, nil
	}},
	{name: "auto-record", stateful: true, record: true, prepare: func(g *ast.Grammar) (*validator, error) {
		a, err := auto.CompileRecord(g)
		if err != nil {
			return nil, err
		}
		return &validator{obj: a, validate: a.Validate}, nil
	}},
	{name: "intern", prepare: func(g *ast.Grammar) (*validator, error) {
		return &validator{obj: g, validate: func(p parser.Interface) (bool, error) { return intern.Interpret(g, false, p) }}, nil
	}},
	{name: "intern-record", record: true, prepare: func(g *ast.Grammar) (*validator, error) {
		return &validator{obj: g, validate: func(p parser.Interface) (bool, error) { return intern.Interpret(g, true, p) }}, nil
	}},
	{name: "interp", prepare: func(g *ast.Grammar) (*validator, error) {
		return &validator{obj: g, validate: func(p parser.Interface) (bool, error) { return interp.Interpret(g, p) }}, nil
	}},
}

// verdict is the outcome of one validation.
type verdict struct {
	ok    bool
	err   error
	pan   *Caught
	limit bool // the step budget ran out
}

func (v verdict) String() string {
	switch {
	case v.limit:
		return "step limit"
	case v.pan != nil:
		return v.pan.String()
	case v.err != nil:
		return "error: " + v.err.Error()
	}
	return fmt.Sprint(v.ok)
}

func (v verdict) normal() bool { return v.pan == nil && v.err == nil && !v.limit }

// prepare prepares a grammar under a step budget.
func (r *Run) prepare(e *engine, g *ast.Grammar, limit uint64) (v *validator, err error, pan *Caught) {
	pan = r.Guard(r.steps(e, limit), func() { v, err = e.prepare(g) })
	if v != nil {
		v.eng = e
	}
	return
}

// run validates one document.
func (v *validator) run(r *Run, p parser.Interface, limit uint64) (res verdict) {
	if v.dead {
		return verdict{limit: true}
	}
	pan := r.Guard(r.steps(v.eng, limit), func() { res.ok, res.err = v.validate(p) })
	if pan != nil {
		if pan.Hang {
			v.dead = true // it was stopped in the middle of something that is not a fault
			return verdict{limit: true, pan: pan}
		}
		return verdict{pan: pan}
	}
	return
}

// parseGram parses the text of a generated grammar, which is well formed.
func (r *Run) parseGram(text string) *ast.Grammar {
	var g *ast.Grammar
	var err error
	if c := r.Guard(50000000, func() { g, err = relapse.Parse(text) }); c != nil {
		r.Violate("parse:"+c.Class(), "parsing the well-formed grammar %q: %s", text, c)
	}
	if err != nil {
		r.Violate("parse-refused", "parsing the well-formed grammar %q: %s", text, err)
	}
	return g
}

// ---- documents that have a chance ----------------------------------------------------------------

// sample makes a forest that is likely to be accepted by p.
func (r *Run) sample(g *Gram, p *Pat, cfg *DocCfg, depth int, budget *int) []*Node {
	if *budget <= 0 || depth > r.depth() {
		return nil
	}
	switch p.Op {
	case ',', '&', ';', '|':
	default:
		*budget--
	}
	switch p.Op {
	case '0':
		return nil
	case '*':
		if r.Int(2) == 0 {
			return nil
		}
		b := 4
		return r.genForest(cfg, depth, &b)
	case 'n':
		n := inner(r.sampleName(p.Name, cfg))
		n.Kids = r.sample(g, p.L, cfg, depth+1, budget)
		if len(n.Kids) == 0 && r.Int(3) == 0 {
			n.Leaf = true
		}
		return []*Node{n}
	case 'l':
		for i := 0; i < 6; i++ {
			v := r.genScalar(cfg)
			if i%2 == 0 {
				v = r.exHint(p.Ex, cfg)
			}
			if p.Ex.eval(v, false, &Env{}) {
				return []*Node{leaf(v)}
			}
		}
		return []*Node{leaf(r.genScalar(cfg))}
	case ',':
		return append(r.sample(g, p.L, cfg, depth, budget), r.sample(g, p.R, cfg, depth, budget)...)
	case '|':
		if p.R.Op == '|' && p.R.R.Op == '|' {
			alts := []*Pat{}
			for ; p.Op == '|'; p = p.R {
				alts = append(alts, p.L)
			}
			return r.sample(g, append(alts, p)[r.Int(len(alts)+1)], cfg, depth, budget)
		}
		if r.Int(2) == 0 {
			return r.sample(g, p.L, cfg, depth, budget)
		}
		return r.sample(g, p.R, cfg, depth, budget)
	case '&':
		if r.Int(2) == 0 {
			return r.sample(g, p.L, cfg, depth, budget)
		}
		return r.sample(g, p.R, cfg, depth, budget)
	case ';':
		a, b := r.sample(g, p.L, cfg, depth, budget), r.sample(g, p.R, cfg, depth, budget)
		var o []*Node
		for len(a) > 0 || len(b) > 0 {
			if len(b) == 0 || (len(a) > 0 && r.Int(2) == 0) {
				o, a = append(o, a[0]), a[1:]
			} else {
				o, b = append(o, b[0]), b[1:]
			}
		}
		return o
	case '+':
		var o []*Node
		n := r.many(4)
		if isMany(n) {
			*budget += 2 * n
		}
		for i := n; i > 0; i-- {
			o = append(o, r.sample(g, p.L, cfg, depth, budget)...)
		}
		return o
	case '?':
		if r.Int(2) == 0 {
			return nil
		}
		return r.sample(g, p.L, cfg, depth, budget)
	case '@':
		return r.sample(g, g.Decls[p.Ref], cfg, depth+1, budget)
	case '.':
		b := 2
		o := r.genForest(cfg, depth, &b)
		if len(o) > 2 {
			o = o[:2]
		}
		return append(o, r.sample(g, p.L, cfg, depth, budget)...)
	}
	b := 4
	return r.genForest(cfg, depth, &b)
}

func (r *Run) sampleName(n *NameE, cfg *DocCfg) Val {
	switch n.Op {
	case '=':
		v := n.Lit
		if cfg.JSONLike && v.HasI && v.I >= 0 {
			return jsonNumber(v.I)
		}
		return v
	case '|':
		if r.Int(2) == 0 {
			return r.sampleName(n.L, cfg)
		}
		return r.sampleName(n.R, cfg)
	}
	return r.genLabel(cfg)
}

func (r *Run) exHint(e *Ex, cfg *DocCfg) Val {
	switch e.Op {
	case "and", "or":
		if r.Int(2) == 0 {
			return r.exHint(e.L, cfg)
		}
		return r.exHint(e.R, cfg)
	case "not":
		return r.exHint(e.L, cfg)
	}
	v := e.Lit
	switch {
	case v.HasI && cfg.JSONLike:
		return jsonNumber(v.I)
	case v.HasI && e.Op != "eq" && v.I < 100 && v.I > -100:
		v.I += int64(r.Int(3)) - 1
	case v.HasS && r.Int(2) == 0:
		v.S += "b"
	}
	if !v.HasB && !v.HasY && !v.HasS && !v.HasI && !v.HasU && !v.HasD {
		return r.genScalar(cfg)
	}
	return v
}

// mutate changes a forest a little.
func (r *Run) mutateForest(ns []*Node, cfg *DocCfg) []*Node {
	if len(ns) == 0 {
		b := 3
		return r.genForest(cfg, 0, &b)
	}
	i := r.Int(len(ns))
	out := append([]*Node{}, ns...)
	switch r.Int(6) {
	case 0:
		return append(out[:i], out[i+1:]...)
	case 1:
		return append(out, ns[i])
	case 2:
		j := r.Int(len(ns))
		out[i], out[j] = out[j], out[i]
		return out
	case 3:
		c := *out[i]
		if c.Leaf {
			c.Val = r.genScalar(cfg)
		} else {
			c.Val = r.genLabel(cfg)
		}
		out[i] = &c
		return out
	default:
		c := *out[i]
		if !c.Leaf {
			c.Kids = r.mutateForest(c.Kids, cfg)
		}
		out[i] = &c
		return out
	}
}

// dedupe removes siblings with equal labels.
func dedupe(ns []*Node) []*Node {
	seen := map[string]bool{}
	var out []*Node
	for _, n := range ns {
		k := n.Val.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		c := *n
		c.Kids = dedupe(n.Kids)
		out = append(out, &c)
	}
	return out
}

// limitForest bounds width, depth and size, and makes every node a tree of its own.
func limitForest(ns []*Node, width, depth int) []*Node {
	if depth <= 0 {
		return nil
	}
	if len(ns) > width {
		ns = ns[:width]
	}
	out := make([]*Node, len(ns))
	for i, n := range ns {
		c := *n
		c.Kids = limitForest(n.Kids, width, depth-1)
		out[i] = &c
	}
	return out
}

// genDoc makes a document for the grammar.
func (r *Run) genDoc(g *Gram, cfg *DocCfg) []*Node {
	var ns []*Node
	b := cfg.MaxNodes
	if r.scale != 0 {
		r.scaleLeft = r.Int(3)
		if r.scale == scaleDeep && g.Decls["rc"] != nil && r.Int(2) == 1 {
			return r.nestedDoc(g, cfg)
		}
	}
	if r.scale == scaleStates && r.Int(6) > 0 {
		return limitForest(r.manyDoc(g, cfg), r.width(), r.depth())
	}
	switch r.Int(4) {
	case 0:
		ns = r.genForest(cfg, 0, &b)
	case 1:
		ns = r.mutateForest(r.sample(g, g.Main, cfg, 0, &b), cfg)
	default:
		ns = r.sample(g, g.Main, cfg, 0, &b)
	}
	if cfg.Unique {
		ns = dedupe(ns)
	}
	return limitForest(ns, r.width(), r.depth())
}

// genWorld makes a grammar and the configuration of its documents.
func (r *Run) genWorld() (*Gram, *GramCfg, *DocCfg) {
	gc := &GramCfg{Depth: 4, Typed: r.Int(3) == 2}
	dc := &DocCfg{MaxNodes: 14, MaxDepth: 5, Typed: gc.Typed, Unique: r.Int(3) == 2}
	dc.JSONLike = r.Int(2) == 1
	return r.genGram(gc), gc, dc
}
