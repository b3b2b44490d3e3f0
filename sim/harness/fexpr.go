package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Expressions over all the functions and all their types, with their meaning. A scalar or a list
// expression can fail: a variable fails on a value of another type, elem and range fail outside their
// list, and every function fails when one of its arguments does, except that
//
//	a comparison of a failing argument is false,
//	type(e) says whether e succeeds,
//	or(f, g) with a failing f is g, and not(f) with a failing f is true.
//
// A boolean function that can fail is used only as or(f, g) with a comparison g that cannot.

// fx is an expression of a type: s i u d b y for scalars and S I U D B Y for lists.
type fx struct {
	text string
	ev   func(v Val, env *Env) (fv, bool)
}

type fv struct {
	v Val
	l []Val
}

func (f fx) num(v Val, env *Env) (int64, bool) {
	x, ok := f.ev(v, env)
	return x.v.I, ok
}

var listTyp = map[byte]string{'s': "[]string", 'i': "[]int", 'u': "[]uint", 'd': "[]double", 'b': "[]bool", 'y': "[][]byte"}

func (r *Run) litOf(t byte) Val {
	switch t {
	case 's':
		return vS(r.strLit(10))
	case 'i':
		return vI(intPool[r.Int(7)])
	case 'u':
		return vU(uintPool[r.Int(len(uintPool))])
	case 'd':
		return vD(dblPool[r.Int(10)])
	case 'b':
		return vB(r.Int(2) == 1)
	}
	return vY(r.strLit(6))
}

func (v Val) as(t byte) (Val, bool) {
	switch t {
	case 's':
		return vS(v.S), v.HasS
	case 'i':
		return vI(v.I), v.HasI
	case 'u':
		return vU(v.U), v.HasU
	case 'd':
		return vD(v.D), v.HasD
	case 'b':
		return vB(v.B), v.HasB
	}
	return vY(v.Y), v.HasY
}

func konst(v Val) fx {
	return fx{litText(v), func(Val, *Env) (fv, bool) { return fv{v: v}, true }}
}

func variable(t byte) fx {
	return fx{varName[t], func(v Val, _ *Env) (fv, bool) {
		x, ok := v.as(t)
		return fv{v: x}, ok
	}}
}

// small is an expression for an index.
func (r *Run) smallInt(cfg *GramCfg, d int) fx {
	switch r.Int(6) {
	case 5:
		return r.scalar(cfg, 'i', d-1)
	case 4:
		return konst(vI([]int64{3, 7, -1, -2, -3, -7}[r.Int(6)]))
	}
	return konst(vI(int64(r.Int(3))))
}

func (r *Run) scalar(cfg *GramCfg, t byte, d int) fx {
	if d <= 0 {
		if r.Int(2) == 0 {
			return konst(r.litOf(t))
		}
		return variable(t)
	}
	k := r.Int(8)
	switch {
	case k < 2:
		return konst(r.litOf(t))
	case k < 5:
		return variable(t)
	}
	switch {
	case t == 's' && k < 7:
		if cfg.Ctx && r.Int(3) == 2 {
			return fx{"zzctxs()", func(v Val, env *Env) (fv, bool) { return fv{v: vS(env.Ctx)}, true }}
		}
		a := r.scalar(cfg, 's', d-1)
		f, n := strings.ToLower, "toLower"
		if r.Int(2) == 1 {
			f, n = strings.ToUpper, "toUpper"
		}
		return fx{n + "(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok := a.ev(v, env)
			return fv{v: vS(f(x.v.S))}, ok
		}}
	case t == 'i' && k == 5 && r.Int(4) == 3:
		return r.userInt(cfg, d-1)
	case t == 'i' && k < 7:
		if cfg.Now && r.Int(3) == 2 {
			return fx{"now()", func(v Val, env *Env) (fv, bool) { return fv{v: vI(env.Now)}, true }}
		}
		if cfg.Ctx && r.Int(3) == 2 {
			return fx{"zzctxn()", func(v Val, env *Env) (fv, bool) { return fv{v: vI(int64(len(env.Ctx)))}, true }}
		}
		switch lt := "sysiudby"[r.Int(8)]; {
		case r.Int(2) == 0 && (lt == 's' || lt == 'y'):
			a := r.scalar(cfg, lt, d-1)
			return fx{"length(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
				x, ok := a.ev(v, env)
				return fv{v: vI(int64(len(x.v.S + x.v.Y)))}, ok
			}}
		default:
			a := r.list(cfg, lt, d-1)
			return fx{"length(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
				x, ok := a.ev(v, env)
				return fv{v: vI(int64(len(x.l)))}, ok
			}}
		}
	case t == 'b' && k < 7:
		e := r.safeBool(cfg, d-1)
		return fx{e.Text, func(v Val, env *Env) (fv, bool) { return fv{v: vB(e.F(v, env))}, true }}
	}
	a, i := r.list(cfg, t, d-1), r.smallInt(cfg, d-1)
	return fx{"elem(" + a.text + ", " + i.text + ")", func(v Val, env *Env) (fv, bool) {
		l, ok1 := a.ev(v, env)
		n, ok2 := i.num(v, env)
		if !ok1 || !ok2 || len(l.l) == 0 {
			return fv{}, false
		}
		n, ok := inList(n, len(l.l))
		if !ok || n == int64(len(l.l)) {
			return fv{}, false
		}
		return fv{v: l.l[n]}, true
	}}
}

// inList resolves an index: a negative one counts from the end.
func inList(n int64, size int) (int64, bool) {
	if n < 0 {
		if n %= int64(size); n < 0 {
			n += int64(size)
		}
	}
	return n, n <= int64(size)
}

// userInt calls a function of the application.
func (r *Run) userInt(cfg *GramCfg, d int) fx {
	switch r.Int(6) {
	case 0:
		a := r.scalar(cfg, 'i', d)
		return fx{"zzsize(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok := a.num(v, env)
			return fv{v: vI(x + 1)}, ok
		}}
	case 1:
		a := r.scalar(cfg, 's', d)
		return fx{"zzsize(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok := a.ev(v, env)
			return fv{v: vI(int64(len(x.v.S)) + 2)}, ok
		}}
	case 2:
		a := r.list(cfg, 'i', d)
		return fx{"zzsize(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok := a.ev(v, env)
			return fv{v: vI(int64(len(x.l)) + 3)}, ok
		}}
	case 3:
		a, b := r.scalar(cfg, 'i', d), r.scalar(cfg, 'i', d)
		return fx{"zzsize(" + a.text + ", " + b.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok1 := a.num(v, env)
			y, ok2 := b.num(v, env)
			return fv{v: vI(x - y)}, ok1 && ok2
		}}
	}
	var as []fx
	var ts []string
	for _, t := range "isbduy" {
		as = append(as, r.scalar(cfg, byte(t), d))
	}
	as = append(as, r.list(cfg, 's', d), r.list(cfg, 'i', d))
	for _, a := range as {
		ts = append(ts, a.text)
	}
	return fx{"zzmany(" + strings.Join(ts, ", ") + ")", func(v Val, env *Env) (fv, bool) {
		var x []fv
		for _, a := range as {
			y, ok := a.ev(v, env)
			if !ok {
				return fv{}, false
			}
			x = append(x, y)
		}
		return fv{v: vI(manyOf(x[0].v.I, x[1].v.S, x[2].v.B, x[3].v.D, x[4].v.U, x[5].v.Y, len(x[6].l), len(x[7].l)))}, true
	}}
}

func (r *Run) list(cfg *GramCfg, t byte, d int) fx {
	if d > 0 && t == 's' && r.Int(8) == 7 {
		a := r.scalar(cfg, 's', d-1)
		return fx{"zzsplit(" + a.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok := a.ev(v, env)
			var l fv
			for _, c := range splitOf(x.v.S) {
				l.l = append(l.l, vS(c))
			}
			return l, ok
		}}
	}
	if d > 0 && r.Int(4) == 3 {
		a, f, e := r.list(cfg, t, d-1), r.smallInt(cfg, d-1), r.smallInt(cfg, d-1)
		return fx{"range(" + a.text + ", " + f.text + ", " + e.text + ")", func(v Val, env *Env) (fv, bool) {
			l, ok1 := a.ev(v, env)
			n, ok2 := f.num(v, env)
			m, ok3 := e.num(v, env)
			if !ok1 || !ok2 || !ok3 || len(l.l) == 0 {
				return fv{}, false
			}
			n, ok1 = inList(n, len(l.l))
			m, ok2 = inList(m, len(l.l))
			if !ok1 || !ok2 || n > m {
				return fv{}, false
			}
			return fv{l: l.l[n:m]}, true
		}}
	}
	var parts []fx
	var texts []string
	if r.twin > 0 && (t == 'i' || t == 'u') && r.Int(2) == 1 {
		// The lists have the same hash.
		for _, n := range [][]int64{{0, 31}, {1, 0}}[r.twin-1] {
			p := konst(map[byte]Val{'i': vI(n), 'u': vU(uint64(n))}[t])
			parts, texts = append(parts, p), append(texts, p.text)
		}
	}
	for n := r.Int(4); len(parts) < n; {
		p := r.scalar(cfg, t, d-1)
		parts, texts = append(parts, p), append(texts, p.text)
	}
	return fx{listTyp[t] + "{" + strings.Join(texts, ", ") + "}", func(v Val, env *Env) (fv, bool) {
		var l fv
		for _, p := range parts {
			x, ok := p.ev(v, env)
			if !ok {
				return fv{}, false
			}
			l.l = append(l.l, x.v)
		}
		return l, true
	}}
}

func tpl(text string, f func(v Val, env *Env) bool) *Ex { return &Ex{Op: "tpl", Text: text, F: f} }

// mayFail makes a boolean expression that can fail.
func (r *Run) mayFail(cfg *GramCfg, d int) fx {
	two := func(name string, f func(a, b string) bool) fx {
		a, b := r.scalar(cfg, 's', d), r.scalar(cfg, 's', d)
		return fx{name + "(" + a.text + ", " + b.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok1 := a.ev(v, env)
			y, ok2 := b.ev(v, env)
			return fv{v: vB(f(x.v.S, y.v.S))}, ok1 && ok2
		}}
	}
	switch r.Int(8) {
	case 0:
		return two("contains", strings.Contains)
	case 1:
		return two("hasPrefix", strings.HasPrefix)
	case 2:
		return two("hasSuffix", strings.HasSuffix)
	case 3:
		return two("eqFold", strings.EqualFold)
	case 4:
		e := []string{"a", "^a", "b$", "^ab$", "^$", "[ab]+", "^(a|s)$"}[r.Int(7)]
		a := r.scalar(cfg, 's', d)
		re := regexp.MustCompile(e)
		return fx{"regex(" + litText(vS(e)) + ", " + a.text + ")", func(v Val, env *Env) (fv, bool) {
			x, ok := a.ev(v, env)
			return fv{v: vB(re.MatchString(x.v.S))}, ok
		}}
	case 5:
		return r.scalar(cfg, 'b', 2)
	default:
		t := "siu"[r.Int(3)]
		a := r.scalar(cfg, t, d)
		var l []Val
		var texts []string
		for n := r.Int(4); len(l) < n; {
			c := r.litOf(t)
			l, texts = append(l, c), append(texts, litText(c))
		}
		return fx{"contains(" + a.text + ", " + listTyp[t] + "{" + strings.Join(texts, ", ") + "})", func(v Val, env *Env) (fv, bool) {
			x, ok := a.ev(v, env)
			for _, c := range l {
				if c == x.v {
					return fv{v: vB(true)}, ok
				}
			}
			return fv{v: vB(false)}, ok
		}}
	}
}

// compare makes a comparison.
func (r *Run) compare(cfg *GramCfg, d int, simple bool) *Ex {
	t := "siudby"[r.Int(6)]
	ops := []string{"eq", "ne"}
	if t != 's' && t != 'b' {
		ops = []string{"eq", "ne", "lt", "le", "gt", "ge"}
	}
	op := ops[r.Int(len(ops))]
	a, b := variable(t), konst(r.litOf(t))
	if !simple {
		a, b = r.scalar(cfg, t, d), r.scalar(cfg, t, d)
	}
	return tpl(op+"("+a.text+", "+b.text+")", func(v Val, env *Env) bool {
		x, ok1 := a.ev(v, env)
		y, ok2 := b.ev(v, env)
		if !ok1 || !ok2 {
			return false
		}
		switch op {
		case "eq":
			return x.v == y.v
		case "ne":
			return x.v != y.v
		}
		c, _ := cmp3(y.v, x.v)
		return map[string]bool{"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
	})
}

// safeBool makes a boolean expression that cannot fail.
func (r *Run) safeBool(cfg *GramCfg, d int) *Ex {
	switch k := r.Int(10); {
	case k < 4 || d <= 0:
		return r.compare(cfg, d, false)
	case k < 7:
		f, g := r.mayFail(cfg, d-1), r.compare(cfg, 0, true)
		return tpl("or("+f.text+", "+g.Text+")", func(v Val, env *Env) bool {
			x, ok := f.ev(v, env)
			return ok && x.v.B || g.F(v, env)
		})
	case k < 8:
		t := "siudby"[r.Int(6)]
		a := r.scalar(cfg, t, d)
		return tpl("type("+a.text+")", func(v Val, env *Env) bool {
			_, ok := a.ev(v, env)
			return ok
		})
	case k < 9:
		a, b := r.safeBool(cfg, d-1), r.safeBool(cfg, d-1)
		or := r.Int(2) == 1
		return tpl(fmt.Sprintf("%s(%s, %s)", map[bool]string{false: "and", true: "or"}[or], a.Text, b.Text), func(v Val, env *Env) bool {
			if or {
				return a.F(v, env) || b.F(v, env)
			}
			return a.F(v, env) && b.F(v, env)
		})
	default:
		a := r.safeBool(cfg, d-1)
		return tpl("not("+a.Text+")", func(v Val, env *Env) bool { return !a.F(v, env) })
	}
}

// genFn makes a leaf expression over all the functions.
func (r *Run) genFn(cfg *GramCfg) *Ex {
	if r.twin > 0 || r.Int(6) < 5 {
		return r.safeBool(cfg, 1+r.Int(3))
	}
	var es []*Ex
	r.twins(func(r *Run) { es = append(es, r.safeBool(cfg, 1+r.Int(3))) })
	if r.Int(2) == 1 {
		return &Ex{Op: "or", L: es[0], R: es[1]}
	}
	return &Ex{Op: "and", L: es[0], R: es[1]}
}
