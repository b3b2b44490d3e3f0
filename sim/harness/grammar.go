package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- names ---------------------------------------------------------------------------------------

// NameE is a name expression.
type NameE struct {
	Op   byte // '=' literal, '_' any, '!' except, '|' choice
	Lit  Val
	L, R *NameE
}

func litText(v Val) string {
	h := litHash(v)
	switch {
	case v.HasS:
		return strText(v.S, h)
	case v.HasI:
		switch {
		case h%3 == 2:
			return strconv.FormatInt(v.I, 10)
		case h%16 == 3 && v.I >= 0:
			return fmt.Sprintf("int(0x%x)", v.I)
		case h%16 == 4 && v.I >= 0:
			return fmt.Sprintf("int(0%o)", v.I)
		}
		return fmt.Sprintf("int(%d)", v.I)
	case v.HasU:
		return fmt.Sprintf([]string{"uint(%d)", "uint(%d)", "uint(%d)", "uint(%d)", "uint(0x%x)", "uint(0%o)", "uint(0X%X)"}[h%7], v.U)
	case v.HasD:
		return "double(" + strconv.FormatFloat(v.D, "ffe"[h%3], -1, 64) + ")"
	case v.HasB:
		return fmt.Sprint(v.B)
	}
	var p []string
	for i := 0; i < len(v.Y); i++ {
		p = append(p, byteText(v.Y[i], h>>uint(i%8)))
	}
	return "[]byte{" + strings.Join(p, ", ") + "}"
}

// litHash chooses one of the ways of writing the value.
func litHash(v Val) uint64 {
	return splitmix(uint64(v.I)^v.U^math.Float64bits(v.D)^uint64(len(v.S+v.Y))) ^ uint64(strings.Count(v.S+v.Y, "a"))
}

func strText(s string, h uint64) string {
	if h%4 == 3 && utf8.ValidString(s) && !strings.ContainsAny(s, "`\r\x00") {
		return "`" + s + "`"
	}
	q := strconv.Quote(s)
	if len(s) > 0 && s[0] >= 'a' && s[0] <= 'z' {
		switch h % 16 {
		case 4:
			q = fmt.Sprintf("\"\\x%02x%s", s[0], q[2:])
		case 5:
			q = fmt.Sprintf("\"\\%03o%s", s[0], q[2:])
		case 6:
			q = fmt.Sprintf("\"\\u%04x%s", s[0], q[2:])
		}
	}
	return q
}

func byteText(c byte, h uint64) string {
	switch h % 16 {
	case 0:
		return fmt.Sprintf("0x%02X", c)
	case 1:
		return fmt.Sprintf("0x%x", c)
	case 2:
		return fmt.Sprintf("0%o", c)
	case 3:
		return fmt.Sprintf("'\\x%02x'", c)
	case 4:
		return fmt.Sprintf("'\\%03o'", c)
	case 5:
		return fmt.Sprintf("'\\u%04x'", c)
	case 6, 7, 8:
		if c >= ' ' && c < 127 && c != '}' {
			return strconv.QuoteRune(rune(c))
		}
	}
	return strconv.Itoa(int(c))
}

func isID(s string) bool {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || (i > 0 && c >= '0' && c <= '9')) {
			return false
		}
	}
	return s != "" && s != "_"
}

func (n *NameE) String() string {
	switch n.Op {
	case '_':
		return "_"
	case '!':
		return "!(" + n.L.String() + ")"
	case '|':
		return "(" + n.L.String() + "|" + n.R.String() + ")"
	}
	if n.Lit.HasS && isID(n.Lit.S) {
		return n.Lit.S
	}
	return litText(n.Lit)
}

// eqLit: (equal, of the same type)
func eqLit(c, v Val) (bool, bool) {
	switch {
	case c.HasS:
		return v.HasS && v.S == c.S, v.HasS
	case c.HasI:
		return v.HasI && v.I == c.I, v.HasI
	case c.HasU:
		return v.HasU && v.U == c.U, v.HasU
	case c.HasD:
		return v.HasD && v.D == c.D, v.HasD
	case c.HasB:
		return v.HasB && v.B == c.B, v.HasB
	}
	return v.HasY && v.Y == c.Y, v.HasY
}

// eval gives the meaning of the name.
func (n *NameE) eval(v Val, neg bool) bool {
	switch n.Op {
	case '_':
		return !neg
	case '!':
		return n.L.eval(v, !neg)
	case '|':
		if neg {
			return n.L.eval(v, true) && n.R.eval(v, true)
		}
		return n.L.eval(v, false) || n.R.eval(v, false)
	}
	eq, _ := eqLit(n.Lit, v)
	return eq != neg
}

// ---- leaf expressions ----------------------------------------------------------------------------

// Ex is a boolean expression over the value of the node.
type Ex struct {
	Op   string // eq ne lt le gt ge type prefix suffix contains regex lenEq and or not true false ctx user now
	Lit  Val
	L, R *Ex
	Sugg bool // print as a builtin when possible

	// for Op "tpl"
	Text string
	F    func(v Val, env *Env) bool
	Fail func(v Val) bool // says whether the function fails, then F gives Env.FailAs
}

var varName = map[byte]string{'s': "$string", 'i': "$int", 'u': "$uint", 'd': "$double", 'b': "$bool", 'y': "$[]byte"}

func (v Val) typ() byte {
	switch {
	case v.HasS:
		return 's'
	case v.HasI:
		return 'i'
	case v.HasU:
		return 'u'
	case v.HasD:
		return 'd'
	case v.HasB:
		return 'b'
	}
	return 'y'
}

var opSym = map[string]string{"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}

// fn is the functional notation.
func (e *Ex) fn() string {
	switch e.Op {
	case "true", "false":
		return e.Op
	case "tpl":
		return e.Text
	case "and", "or":
		return e.Op + "(" + e.L.fn() + ", " + e.R.fn() + ")"
	case "not":
		return "not(" + e.L.fn() + ")"
	case "type":
		return "type(" + varName[e.Lit.typ()] + ")"
	case "prefix":
		return "and(type($string), hasPrefix($string, " + litText(e.Lit) + "))"
	case "suffix":
		return "and(type($string), hasSuffix($string, " + litText(e.Lit) + "))"
	case "contains":
		return "and(type($string), contains($string, " + litText(e.Lit) + "))"
	case "regex":
		return "and(type($string), regex(" + litText(e.Lit) + ", $string))"
	case "lenEq":
		return "eq(length($string), " + litText(e.Lit) + ")"
	case "ctx":
		return "zzctx($string, " + litText(e.Lit) + ")"
	case "ctxc":
		return "zzctxc(" + litText(e.Lit) + ")"
	case "nowlt":
		return "lt(now(), " + litText(e.Lit) + ")"
	case "nowge":
		return "ge(now(), " + litText(e.Lit) + ")"
	case "userfail":
		return "zzfail(" + litText(e.Lit) + ", $string)"
	}
	return e.Op + "(" + varName[e.Lit.typ()] + ", " + litText(e.Lit) + ")"
}

func (e *Ex) String() string {
	if e.Sugg {
		if s, ok := opSym[e.Op]; ok {
			return s + " " + litText(e.Lit)
		}
		if e.Op == "type" {
			return ":: " + varName[e.Lit.typ()]
		}
	}
	return "-> " + e.fn()
}

func cmp3(c, v Val) (int, bool) {
	switch c.typ() {
	case 'i':
		if !v.HasI {
			return 0, false
		}
		switch {
		case v.I < c.I:
			return -1, true
		case v.I > c.I:
			return 1, true
		}
		return 0, true
	case 'u':
		if !v.HasU {
			return 0, false
		}
		switch {
		case v.U < c.U:
			return -1, true
		case v.U > c.U:
			return 1, true
		}
		return 0, true
	case 'd':
		if !v.HasD {
			return 0, false
		}
		switch {
		case v.D < c.D:
			return -1, true
		case v.D > c.D:
			return 1, true
		}
		return 0, true
	case 'y':
		if !v.HasY {
			return 0, false
		}
		return strings.Compare(v.Y, c.Y), true
	}
	return 0, false
}

// Env is what user functions depend on.
type Env struct {
	Ctx    string
	Now    int64
	FailAs bool
}

// eval gives the meaning of the expression: a comparison, also for inequality, fails on a value of
// another type.
func (e *Ex) eval(v Val, neg bool, env *Env) bool {
	pos := func(b bool) bool { return b != neg }
	switch e.Op {
	case "true":
		return pos(true)
	case "false":
		return pos(false)
	case "not":
		return e.L.eval(v, !neg, env)
	case "and":
		if neg {
			return e.L.eval(v, true, env) || e.R.eval(v, true, env)
		}
		return e.L.eval(v, false, env) && e.R.eval(v, false, env)
	case "or":
		if neg {
			return e.L.eval(v, true, env) && e.R.eval(v, true, env)
		}
		return e.L.eval(v, false, env) || e.R.eval(v, false, env)
	case "eq", "ne":
		eq, typ := eqLit(e.Lit, v)
		return pos(typ && eq == (e.Op == "eq"))
	case "lt", "le", "gt", "ge":
		c, typ := cmp3(e.Lit, v)
		var b bool
		switch e.Op {
		case "lt":
			b = c < 0
		case "le":
			b = c <= 0
		case "gt":
			b = c > 0
		case "ge":
			b = c >= 0
		}
		return pos(typ && b)
	case "type":
		switch e.Lit.typ() {
		case 's':
			return pos(v.HasS)
		case 'i':
			return pos(v.HasI)
		case 'u':
			return pos(v.HasU)
		case 'd':
			return pos(v.HasD)
		case 'b':
			return pos(v.HasB)
		}
		return pos(v.HasY)
	case "prefix":
		return pos(v.HasS && strings.HasPrefix(v.S, e.Lit.S))
	case "suffix":
		return pos(v.HasS && strings.HasSuffix(v.S, e.Lit.S))
	case "contains":
		return pos(v.HasS && strings.Contains(v.S, e.Lit.S))
	case "regex":
		return pos(v.HasS && regexModel(e.Lit.S, v.S))
	case "lenEq":
		return pos(v.HasS && int64(len(v.S)) == e.Lit.I)
	case "ctx":
		return pos(v.HasS && v.S == env.Ctx+e.Lit.S)
	case "nowlt":
		return pos(env.Now < e.Lit.I)
	case "nowge":
		return pos(env.Now >= e.Lit.I)
	case "userfail":
		return pos(v.HasS && v.S == e.Lit.S)
	case "ctxc":
		return pos(env.Ctx == e.Lit.S)
	case "tpl":
		return pos(e.F(v, env))
	}
	panic("unknown op " + e.Op)
}

// regexModel: the generator uses only "^x$"-like and plain literals.
func regexModel(re, s string) bool {
	a, b := strings.HasPrefix(re, "^"), strings.HasSuffix(re, "$")
	lit := strings.TrimSuffix(strings.TrimPrefix(re, "^"), "$")
	switch {
	case a && b:
		return s == lit
	case a:
		return strings.HasPrefix(s, lit)
	case b:
		return strings.HasSuffix(s, lit)
	}
	return strings.Contains(s, lit)
}

// ---- patterns ------------------------------------------------------------------------------------

// Pat is a pattern.
type Pat struct {
	Op   byte // '0' empty, '*' any, 'n' node, 'l' leaf, ',' concat, '|' or, '&' and, ';' interleave, '+' zeroOrMore, '?' optional, '@' ref, '!' not, '.' contains
	Name *NameE
	Ex   *Ex
	L, R *Pat
	Ref  string
	id   int
}

// Gram is a grammar: main and declarations.
type Gram struct {
	Main  *Pat
	Names []string
	Decls map[string]*Pat
	big   bool // documents may be large
}

func (p *Pat) String() string {
	switch p.Op {
	case '0':
		return "<empty>"
	case '*':
		return "*"
	case 'n':
		if p.L.Op == 'l' {
			return p.Name.String() + " " + p.L.String()
		}
		return p.Name.String() + ": " + p.L.String()
	case 'l':
		return p.Ex.String()
	case ',':
		return "[" + p.L.String() + ", " + p.R.String() + "]"
	case '|':
		return "(" + p.L.String() + " | " + p.R.String() + ")"
	case '&':
		return "(" + p.L.String() + " & " + p.R.String() + ")"
	case ';':
		return "{" + p.L.String() + "; " + p.R.String() + "}"
	case '+':
		return "(" + p.L.String() + ")*"
	case '?':
		return "(" + p.L.String() + ")?"
	case '@':
		return "@" + p.Ref
	case '!':
		return "!(" + p.L.String() + ")"
	case '.':
		return "." + p.L.String()
	}
	panic("op")
}

func (g *Gram) String() string {
	var sb strings.Builder
	sb.WriteString(g.Main.String())
	for _, n := range g.Names {
		sb.WriteString("\n#" + n + " = " + g.Decls[n].String())
	}
	return sb.String()
}

// ---- reference matcher ---------------------------------------------------------------------------

type mkey struct {
	p    *Pat
	ns   *Node // first node, nil when empty
	n    int
	mask uint64
}

// matcher decides membership by direct enumeration of the definition.
type matcher struct {
	g     *Gram
	env   *Env
	memo  map[string]bool
	ids   map[*Pat]int
	nids  map[*Node]int
	steps int
	max   int
}

func newMatcher(g *Gram, env *Env) *matcher {
	max := 30000
	if g.big {
		max = 300000
	}
	return &matcher{g: g, max: max, env: env, memo: map[string]bool{}, ids: map[*Pat]int{}, nids: map[*Node]int{}}
}

// tooHard is panicked when the enumeration becomes too large.
type tooHard struct{}

// matches reports whether the grammar accepts the forest; ok is false if that is too expensive to decide.
func (g *Gram) matches(ns []*Node, env *Env) (res, ok bool) {
	m := newMatcher(g, env)
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(tooHard); is {
				res, ok = false, false
				return
			}
			panic(e)
		}
	}()
	return m.match(g.Main, ns), true
}

func (m *matcher) match(p *Pat, ns []*Node) bool {
	if m.steps++; m.steps > m.max {
		panic(tooHard{})
	}
	switch p.Op {
	case '0':
		return len(ns) == 0
	case '*':
		return true
	case 'n':
		return len(ns) == 1 && p.Name.eval(ns[0].Val, false) && m.match(p.L, ns[0].Kids)
	case 'l':
		return len(ns) == 1 && p.Ex.eval(ns[0].Val, false, m.env) && len(ns[0].Kids) == 0
	case '@':
		return m.match(m.g.Decls[p.Ref], ns)
	case '|':
		return m.match(p.L, ns) || m.match(p.R, ns)
	case '&':
		return m.match(p.L, ns) && m.match(p.R, ns)
	case '!':
		return !m.match(p.L, ns)
	case '?':
		return len(ns) == 0 || m.match(p.L, ns)
	}
	key := m.key(p, ns)
	if b, ok := m.memo[key]; ok {
		return b
	}
	res := false
	switch p.Op {
	case ',':
		lo, hi := 0, len(ns)
		if (p.L.Op == 'n' || p.L.Op == 'l') && hi > 0 {
			lo, hi = 1, 1
		}
		for i := lo; i <= hi && !res; i++ {
			res = m.match(p.L, ns[:i]) && m.match(p.R, ns[i:])
		}
	case '+':
		res = len(ns) == 0
		hi := len(ns)
		if (p.L.Op == 'n' || p.L.Op == 'l') && hi > 0 {
			hi = 1
		}
		for i := 1; i <= hi && !res; i++ {
			res = m.match(p.L, ns[:i]) && m.match(p, ns[i:])
		}
	case '.':
		for i := 0; i <= len(ns) && !res; i++ {
			for j := i; j <= len(ns) && !res; j++ {
				res = m.match(p.L, ns[i:j])
			}
		}
	case ';':
		if len(ns) > 9 {
			panic(tooHard{})
		}
		for mask := 0; mask < 1<<uint(len(ns)) && !res; mask++ {
			var a, b []*Node
			for i, n := range ns {
				if mask>>uint(i)&1 == 0 {
					a = append(a, n)
				} else {
					b = append(b, n)
				}
			}
			res = m.match(p.L, a) && m.match(p.R, b)
		}
	}
	m.memo[key] = res
	return res
}

func (m *matcher) key(p *Pat, ns []*Node) string {
	id, ok := m.ids[p]
	if !ok {
		id = len(m.ids)
		m.ids[p] = id
	}
	b := make([]byte, 0, 4+4*len(ns))
	b = strconv.AppendInt(b, int64(id), 36)
	for _, n := range ns {
		k, ok := m.nids[n]
		if !ok {
			k = len(m.nids)
			m.nids[n] = k
		}
		b = append(b, ' ')
		b = strconv.AppendInt(b, int64(k), 36)
	}
	return string(b)
}

// ---- random grammars -----------------------------------------------------------------------------

// GramCfg configures random grammars.
type GramCfg struct {
	Depth      int  // nesting of patterns
	Typed      bool // names and values of several types
	NoExpr     bool
	Ctx        bool // use the context functions
	StringOnly bool
	Now        bool // use now()
}

func (r *Run) genName(cfg *GramCfg, d int) *NameE {
	k := r.Int(12)
	switch {
	case k < 7 || d <= 0:
		if cfg.Typed && r.Int(6) == 5 {
			return &NameE{Op: '=', Lit: r.genLit(cfg)}
		}
		return &NameE{Op: '=', Lit: vS(r.genLabelText())}
	case k < 9:
		return &NameE{Op: '_'}
	case k < 10:
		return &NameE{Op: '|', L: r.genName(cfg, d-1), R: r.genName(cfg, d-1)}
	default:
		return &NameE{Op: '!', L: r.genName(cfg, d-1)}
	}
}

func (r *Run) genLit(cfg *GramCfg) Val {
	if cfg.StringOnly {
		return vS(r.strLit(len(stringPool)))
	}
	switch r.Int(10) {
	case 0, 1, 2, 8:
		return vS(r.strLit(len(stringPool)))
	case 9:
		return vY(r.strLit(len(stringPool)))
	case 3, 4:
		return vI(intPool[r.Int(len(intPool))])
	case 5:
		return vU(uintPool[r.Int(len(uintPool))])
	case 6:
		return vD(dblPool[r.Int(len(dblPool))])
	default:
		return vB(r.Int(2) == 1)
	}
}

// genTpl makes an expression with other functions, lists and constants on either side.
func (r *Run) genTpl(cfg *GramCfg) *Ex {
	c := r.strLit(4)
	q := litText(vS(c))
	n := intPool[r.Int(6)]
	str := func(text string, f func(s string) bool) *Ex {
		return &Ex{Op: "tpl", Lit: vS(c), Text: text, F: func(v Val, env *Env) bool { return v.HasS && f(v.S) }}
	}
	num := func(text string, f func(i int64) bool) *Ex {
		return &Ex{Op: "tpl", Lit: vI(n), Text: text, F: func(v Val, env *Env) bool { return v.HasI && f(v.I) }}
	}
	eq := func(s string) bool { return s == c }
	switch k := r.Int(16); k {
	case 0:
		return str("eq("+q+", $string)", eq)
	case 1:
		return str("and(type($string), eqFold($string, "+q+"))", func(s string) bool { return strings.EqualFold(s, c) })
	case 2:
		return str("and(type($string), contains($string, []string{"+q+", \"b\"}))", func(s string) bool { return s == c || s == "b" })
	case 3:
		return str("eq(toLower($string), "+q+")", func(s string) bool { return strings.ToLower(s) == c })
	case 4:
		return str("eq(toUpper("+q+"), toUpper($string))", func(s string) bool { return strings.ToUpper(s) == strings.ToUpper(c) })
	case 5:
		return str("eq(elem([]string{\"a\", $string}, 1), "+q+")", eq)
	case 6:
		return str("eq(elem(range([]string{\"a\", $string, \"c\"}, 1, 3), 0), "+q+")", eq)
	case 7:
		return str("eq(length([]string{$string, "+q+"}), 2)", func(s string) bool { return true })
	case 8:
		return num(fmt.Sprintf("lt(%d, $int)", n), func(i int64) bool { return n < i })
	case 9:
		return num(fmt.Sprintf("ge(%d, $int)", n), func(i int64) bool { return n >= i })
	case 10:
		return num(fmt.Sprintf("and(type($int), contains($int, []int{%d, 1}))", n), func(i int64) bool { return i == n || i == 1 })
	case 11:
		return num(fmt.Sprintf("eq(%d, elem([]int{7, 8, $int}, 2))", n), func(i int64) bool { return i == n })
	case 12:
		return num(fmt.Sprintf("le(elem(range([]int{$int, 3}, 0, 1), 0), %d)", n), func(i int64) bool { return i <= n })
	case 13:
		b := r.Int(2) == 1
		return &Ex{Op: "tpl", Lit: vB(b), Text: fmt.Sprintf("eq(elem([]bool{$bool, true}, 0), %v)", b), F: func(v Val, env *Env) bool { return v.HasB && v.B == b }}
	case 14:
		return &Ex{Op: "tpl", Text: "eq(length([]int{1, 2}), 2)", F: func(v Val, env *Env) bool { return true }}
	default:
		return str("ne("+q+", $string)", func(s string) bool { return s != c })
	}
}

// genCtx makes an expression in which the context or the clock occurs below other functions.
func (r *Run) genCtx(cfg *GramCfg) *Ex {
	if cfg.Now && (!cfg.Ctx || r.Int(2) == 0) {
		c := clockBase + []int64{0, 1, -1, 1e9, -1e9, 1800e9, -1800e9}[r.Int(7)]
		t := func(text string, f func(now int64) bool) *Ex {
			return &Ex{Op: "tpl", Lit: vI(c), Text: text, F: func(v Val, env *Env) bool { return f(env.Now) }}
		}
		switch r.Int(7) {
		case 0:
			return t(fmt.Sprintf("lt(elem([]int{1, now()}, 1), %d)", c), func(now int64) bool { return now < c })
		case 1:
			return t(fmt.Sprintf("ge(%d, now())", c), func(now int64) bool { return c >= now })
		case 2:
			return t(fmt.Sprintf("contains(now(), []int{%d, %d})", c, clockBase), func(now int64) bool { return now == c || now == clockBase })
		case 3:
			return t(fmt.Sprintf("gt(elem(range([]int{1, now(), 2}, 1, 2), 0), %d)", c), func(now int64) bool { return now > c })
		case 4:
			return t(fmt.Sprintf("elem([]bool{true, le(now(), %d)}, 1)", c), func(now int64) bool { return now <= c })
		case 5:
			return t(fmt.Sprintf("eq(le(%d, now()), true)", c), func(now int64) bool { return c <= now })
		default:
			return &Ex{Op: "tpl", Lit: vI(c), Text: "lt($int, now())", F: func(v Val, env *Env) bool { return v.HasI && v.I < env.Now }}
		}
	}
	c := r.strLit(4)
	q := litText(vS(c))
	any := func(text string, f func(ctx string) bool) *Ex {
		return &Ex{Op: "tpl", Lit: vS(c), Text: text, F: func(v Val, env *Env) bool { return f(env.Ctx) }}
	}
	str := func(text string, f func(s, ctx string) bool) *Ex {
		return &Ex{Op: "tpl", Lit: vS(c), Text: text, F: func(v Val, env *Env) bool { return v.HasS && f(v.S, env.Ctx) }}
	}
	same := func(s, ctx string) bool { return s == ctx }
	is := func(ctx string) bool { return ctx == c }
	switch r.Int(19) {
	case 0:
		return str("eq($string, zzctxs())", same)
	case 1:
		return any("eq(zzctxs(), "+q+")", is)
	case 2:
		return str("and(type($string), contains($string, zzctxs()))", strings.Contains)
	case 3:
		return str("eq($string, elem([]string{"+q+", zzctxs()}, 1))", same)
	case 4:
		return str("eq($string, toLower(zzctxs()))", same)
	case 5:
		return any("eq(length(zzctxs()), 1)", func(ctx string) bool { return len(ctx) == 1 })
	case 6:
		return any("eq(length([]string{zzctxs()}), 1)", func(ctx string) bool { return true })
	case 7:
		return any("eq(elem([]int{3, zzctxn()}, 1), 1)", func(ctx string) bool { return len(ctx) == 1 })
	case 8:
		return any("eq(elem(range([]string{\"x\", zzctxs(), \"y\"}, 1, 3), 0), "+q+")", is)
	case 9:
		return str("and(type($string), hasPrefix($string, zzctxs()))", strings.HasPrefix)
	case 10:
		return str("eq(length($string), zzctxn())", func(s, ctx string) bool { return len(s) == len(ctx) })
	case 11:
		return any("contains(zzctxn(), []int{1, 2})", func(ctx string) bool { return len(ctx) == 1 || len(ctx) == 2 })
	case 12:
		return str("and(type($string), eqFold($string, toUpper(zzctxs())))", strings.EqualFold)
	case 13:
		return str("eq(elem([]string{$string, "+q+"}, zzctxn()), \"a\")", func(s, ctx string) bool {
			return len(ctx) == 0 && s == "a" || len(ctx) == 1 && c == "a"
		})
	case 14:
		return any("elem([]bool{false, eq(zzctxs(), "+q+")}, 1)", is)
	case 15:
		return any("lt(zzctxn(), 1)", func(ctx string) bool { return len(ctx) < 1 })
	case 16:
		return any("contains(zzctxs(), []string{"+q+", \"s\"})", func(ctx string) bool { return ctx == c || ctx == "s" })
	case 17:
		return any("regex(\"^a$\", zzctxs())", func(ctx string) bool { return ctx == "a" })
	default:
		return any("eq("+q+", elem(range([]string{zzctxs(), \"y\"}, 0, 1), 0))", is)
	}
}

func (r *Run) genEx(cfg *GramCfg, d int) *Ex {
	k := r.Int(20)
	if (cfg.Now || cfg.Ctx) && r.Int(4) == 3 {
		return r.genCtx(cfg)
	}
	if !cfg.StringOnly && r.Int(12) == 11 {
		return r.genTpl(cfg)
	}
	if !cfg.StringOnly && r.Int(10) == 9 {
		return r.genFn(cfg)
	}
	if cfg.Now && r.Int(3) == 0 {
		off := []int64{0, 1, -1, 1e9, -1e9, 1800e9, -1800e9}[r.Int(7)]
		return &Ex{Op: []string{"nowlt", "nowge"}[r.Int(2)], Lit: vI(clockBase + off)}
	}
	if cfg.Ctx && r.Int(3) == 0 {
		if r.Int(3) == 0 {
			return &Ex{Op: "ctxc", Lit: vS(r.strLit(3))}
		}
		return &Ex{Op: "ctx", Lit: vS(r.strLit(3))}
	}
	if d > 0 && k >= 15 {
		switch k {
		case 15:
			return &Ex{Op: "and", L: r.genEx(cfg, d-1), R: r.genEx(cfg, d-1)}
		case 16, 17:
			return &Ex{Op: "or", L: r.genEx(cfg, d-1), R: r.genEx(cfg, d-1)}
		default:
			e := r.genEx(cfg, d-1)
			return &Ex{Op: "not", L: e}
		}
	}
	switch k {
	case 0, 1, 2, 3, 4, 15, 16, 17:
		return &Ex{Op: "eq", Lit: r.genLit(cfg), Sugg: r.Int(2) == 0}
	case 5, 6, 18:
		return &Ex{Op: "ne", Lit: r.genLit(cfg), Sugg: r.Int(2) == 0}
	case 7, 8:
		l := r.genLit(cfg)
		if t := l.typ(); t == 's' || t == 'b' {
			return &Ex{Op: "eq", Lit: l}
		}
		return &Ex{Op: []string{"lt", "le", "gt", "ge"}[r.Int(4)], Lit: l, Sugg: r.Int(2) == 0}
	case 9, 10:
		return &Ex{Op: "type", Lit: r.genLit(cfg), Sugg: r.Int(2) == 0}
	case 11:
		return &Ex{Op: "prefix", Lit: vS(r.strLit(4))}
	case 12:
		return &Ex{Op: "contains", Lit: vS(r.strLit(4))}
	case 13:
		return &Ex{Op: "regex", Lit: vS([]string{"a", "^a", "b$", "^ab$"}[r.Int(4)])}
	case 14:
		if r.Int(2) == 0 {
			return &Ex{Op: "lenEq", Lit: vI(int64(r.Int(4)))}
		}
		return &Ex{Op: "suffix", Lit: vS(r.strLit(4))}
	default:
		return &Ex{Op: []string{"true", "false"}[r.Int(2)]}
	}
}

// genPat makes a random pattern. Some grammars repeat parts of themselves.
func (r *Run) genPat(cfg *GramCfg, d int, after []string, all []string, guarded bool) *Pat {
	if d > 0 && r.twin == 0 && r.Int(30) == 29 {
		return r.twinPat(cfg, d, after, all, guarded)
	}
	if r.repeat && d > 0 && len(r.parts) > 0 && r.Int(4) == 3 {
		c := r.parts[r.Int(len(r.parts))]
		if guarded || !c.guarded && c.after == len(after) {
			return c.p
		}
	}
	var p *Pat
	if r.repeat && d > 1 && r.Int(4) == 3 {
		p = r.repeatPat(cfg, d, after, all, guarded)
	} else {
		p = r.genPat1(cfg, d, after, all, guarded)
	}
	if r.repeat {
		r.parts = append(r.parts, part{p, guarded, len(after)})
	}
	return p
}

// twinText is a string of which there is another one with the same hash, in a run that makes twins.
func (r *Run) twinText() (string, bool) {
	if r.twin == 0 || r.Int(2) == 0 {
		return "", false
	}
	return []string{"Aa", "BB"}[r.twin-1], true
}

// strLit is one of the first n strings.
func (r *Run) strLit(n int) string {
	if s, ok := r.twinText(); ok {
		return s
	}
	if r.scale == scaleText {
		if s, ok := r.longText(wordAlphabet); ok {
			r.long = s
			return s
		}
		if r.long != "" && r.Int(3) == 2 {
			return r.longLit()
		}
	}
	return stringPool[r.Int(n)]
}

// twins makes two things that differ only in literals with the same hash.
func (r *Run) twins(make func(r *Run)) {
	seed := uint64(r.Int(1 << 30))
	for t := 1; t <= 2; t++ {
		sub := newRun(r.Prop, r.Index, newChoices(seed))
		sub.twin = t
		make(sub)
	}
}

// twinPat makes a pattern of two patterns that differ only in literals with the same hash.
func (r *Run) twinPat(cfg *GramCfg, d int, after []string, all []string, guarded bool) *Pat {
	var ps []*Pat
	leaf := r.Int(3) == 0 && !cfg.NoExpr
	r.twins(func(r *Run) {
		if leaf {
			ps = append(ps, &Pat{Op: 'l', Ex: r.genEx(cfg, 2)})
		} else {
			ps = append(ps, r.genPat(cfg, d-1, after, all, guarded))
		}
	})
	for i, p := range ps {
		if r.Int(8) == 7 {
			ps[i] = &Pat{Op: '!', L: p}
		}
	}
	return &Pat{Op: []byte{'|', '&', ';', ','}[r.Int(4)], L: ps[0], R: ps[1]}
}

type part struct {
	p       *Pat
	guarded bool
	after   int
}

// repeatPat makes a chain of a few patterns, some of them more than once.
func (r *Run) repeatPat(cfg *GramCfg, d int, after []string, all []string, guarded bool) *Pat {
	op := []byte{'|', '|', '&', ';', ','}[r.Int(5)]
	items := make([]*Pat, 2+r.Int(2))
	nm := r.genName(cfg, 1)
	for i := range items {
		switch r.Int(3) {
		case 0:
			items[i] = r.genPat(cfg, d-1, after, all, guarded)
		case 1:
			items[i] = &Pat{Op: 'n', Name: nm, L: r.genPat(cfg, d-2, after, all, true)}
		default:
			items[i] = &Pat{Op: 'n', Name: r.genName(cfg, 0), L: &Pat{Op: '*'}}
		}
	}
	p := items[r.Int(len(items))]
	for n := 1 + r.Int(4); n > 0; n-- {
		p = &Pat{Op: op, L: items[r.Int(len(items))], R: p}
	}
	return p
}

// branchPat makes alternatives that start differently or in the same way and go on with nodes of the
// same name, whose patterns are merged in some of the states of the grammar and not in others.
func (r *Run) branchPat(cfg *GramCfg) *Pat {
	any := func(name string) *Pat {
		return &Pat{Op: 'n', Name: &NameE{Op: '=', Lit: vS(name)}, L: &Pat{Op: '*'}}
	}
	outer := []byte{'|', '|', '&'}[r.Int(3)]
	inner := []byte{'|', '|', '&', ';'}[r.Int(4)]
	leaf := func() *Pat {
		switch r.Int(8) {
		case 6:
			return &Pat{Op: 'l', Ex: &Ex{Op: "eq", Lit: vI(int64(r.Int(3)))}}
		case 7:
			return &Pat{Op: []byte{'.', '+', '?', '!'}[r.Int(4)], L: any(r.genLabelText())}
		}
		return any(r.genLabelText())
	}
	chain := func(op byte, n int, f func() *Pat) *Pat {
		p := f()
		items := []*Pat{p}
		for ; n > 1; n-- {
			if r.Int(2) == 1 {
				items = append(items, items[r.Int(len(items))])
			} else {
				items = append(items, f())
			}
			p = &Pat{Op: op, L: items[len(items)-1], R: p}
		}
		return p
	}
	name := labelPool[r.Int(3)]
	branch := func() *Pat {
		n := &Pat{Op: 'n', Name: &NameE{Op: '=', Lit: vS(name)}, L: chain(inner, 1+r.Int(6), leaf)}
		switch r.Int(6) {
		case 0:
			return n
		case 1:
			return &Pat{Op: ',', L: &Pat{Op: '?', L: any(labelPool[r.Int(3)])}, R: n}
		case 2:
			return &Pat{Op: '.', L: n}
		case 3:
			return &Pat{Op: ',', L: &Pat{Op: '+', L: any(labelPool[r.Int(3)])}, R: n}
		}
		first := &Pat{Op: '|', L: any(labelPool[r.Int(3)]), R: any(labelPool[r.Int(4)])}
		return &Pat{Op: ',', L: first, R: n}
	}
	p := chain(outer, 2+r.Int(3), branch)
	if r.Int(4) == 3 {
		p = &Pat{Op: '+', L: p}
	}
	return p
}

func (r *Run) genPat1(cfg *GramCfg, d int, after []string, all []string, guarded bool) *Pat {
	sub := func() *Pat { return r.genPat(cfg, d-1, after, all, guarded) }
	k := r.Int(26)
	if d <= 0 {
		switch k % 6 {
		case 0:
			return &Pat{Op: '0'}
		case 1, 2:
			return &Pat{Op: '*'}
		case 3:
			if !cfg.NoExpr {
				return &Pat{Op: 'l', Ex: r.genEx(cfg, 1)}
			}
		case 4:
			if len(all) > 0 && guarded {
				return &Pat{Op: '@', Ref: all[r.Int(len(all))]}
			}
			if len(after) > 0 {
				return &Pat{Op: '@', Ref: after[r.Int(len(after))]}
			}
		}
		return &Pat{Op: 'n', Name: r.genName(cfg, 1), L: &Pat{Op: '*'}}
	}
	switch {
	case k < 7:
		return &Pat{Op: 'n', Name: r.genName(cfg, 2), L: r.genPat(cfg, d-1, after, all, true)}
	case k < 10:
		return &Pat{Op: ',', L: sub(), R: sub()}
	case k < 12:
		return &Pat{Op: '|', L: sub(), R: sub()}
	case k < 14:
		return &Pat{Op: '&', L: sub(), R: sub()}
	case k < 16:
		return &Pat{Op: ';', L: sub(), R: sub()}
	case k < 18:
		return &Pat{Op: '+', L: sub()}
	case k < 19:
		return &Pat{Op: '?', L: sub()}
	case k < 20:
		return &Pat{Op: '!', L: sub()}
	case k < 22:
		return &Pat{Op: '.', L: sub()}
	case k < 23:
		if !cfg.NoExpr {
			return &Pat{Op: 'l', Ex: r.genEx(cfg, 2)}
		}
		return &Pat{Op: '*'}
	case k < 24:
		return &Pat{Op: '*'}
	}
	if guarded && len(all) > 0 {
		return &Pat{Op: '@', Ref: all[r.Int(len(all))]}
	}
	if len(after) > 0 {
		return &Pat{Op: '@', Ref: after[r.Int(len(after))]}
	}
	return &Pat{Op: '0'}
}

// widePat makes a pattern with many alternatives, which gives one state many children.
func (r *Run) widePat(cfg *GramCfg, after []string) *Pat {
	n := []int{8, 20, 33, 62, 63, 64, 65, 70, 90, 127, 128, 129, 140}[r.Int(13)]
	if r.narrow {
		n = n/4 + 2
	}
	op := []byte{'|', '|', '|', '&', ','}[r.Int(5)]
	if op == ',' {
		n = n/4 + 2
	}
	deep := r.Int(3)
	star := r.Int(3)
	item := func(i int) *Pat {
		l := &Pat{Op: 'l', Ex: &Ex{Op: "eq", Lit: vI(int64(i)), Sugg: true}}
		switch {
		case deep == 1:
			l = &Pat{Op: 'n', Name: &NameE{Op: '=', Lit: vS(labelPool[i%3])}, L: l}
		case deep == 2:
			l = &Pat{Op: '.', L: l}
		}
		nm := &NameE{Op: '='}
		switch {
		case cfg.Typed && i%5 == 4:
			nm.Lit = vI(int64(i % 2))
		default:
			nm.Lit = vS(labelPool[i%2])
		}
		if i%9 == 8 {
			nm = &NameE{Op: '_'}
		}
		p := &Pat{Op: 'n', Name: nm, L: l}
		switch op {
		case '&':
			return &Pat{Op: '!', L: p}
		case ',':
			return &Pat{Op: '?', L: p}
		}
		return p
	}
	p := item(n - 1)
	for i := n - 2; i >= 0; i-- {
		p = &Pat{Op: op, L: item(i), R: p}
	}
	switch star {
	case 1:
		if op == '|' {
			p = &Pat{Op: '+', L: p}
		}
	case 2:
		p = &Pat{Op: '.', L: p}
	}
	return p
}

// genGram makes a random grammar. Unguarded references go only to later declarations, so that there
// is no left recursion; a node guards.
func (r *Run) genGram(cfg *GramCfg) *Gram {
	r.drawScale(150)
	if r.scale == 0 && r.Int(1500) == 1499 {
		r.scale = scaleStates
		r.Probe("scale:" + scaleNames[r.scale])
	}
	g := &Gram{Decls: map[string]*Pat{}, big: r.scale != 0}
	nd := 0
	if r.Int(3) == 0 {
		nd = 1 + r.Int(3)
	}
	for i := 0; i < nd; i++ {
		g.Names = append(g.Names, fmt.Sprintf("d%d", i))
	}
	wide := 40
	if r.narrow {
		wide = 200
	}
	r.repeat, r.parts = r.Int(4) == 3, nil
	if r.Int(wide) == wide-1 {
		g.Main = r.widePat(cfg, g.Names)
	} else if r.Int(8) == 7 {
		g.Main = r.branchPat(cfg)
	} else {
		g.Main = r.genPat(cfg, 1+r.Int(cfg.Depth), g.Names, g.Names, false)
	}
	for i, n := range g.Names {
		g.Decls[n] = r.genPat(cfg, 1+r.Int(cfg.Depth-1), g.Names[i+1:], g.Names, false)
	}
	switch r.scale {
	case scaleDeep:
		r.nestGram(g, cfg)
	case scaleStates:
		g.Main = r.manyPat(cfg)
	}
	return g
}
