package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	"github.com/katydid/katydid/parser/proto"
	"github.com/katydid/katydid/parser/xml"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/lexer"
	"github.com/katydid/katydid/relapse/parser"

	rt "github.com/katydid/katydid/zzsimrt"
)

func init() {
	register(&Prop{ID: "C08", Run: runC08, Quick: 100000,
		RealCode: append([]string{"parser/json", "parser/xml", "parser/yaml", "parser/proto", "parser/reflect", "encode/json", "encode/xml", "encode/proto", "encode/reflect"}, validReal...),
		Stubs:    append([]string{"work is counted in executed statements of the library, memory in values that can be reached from the object and from the variables of the packages"}, treeStub...),
		Assume:   []string{"work inside the standard library is not counted", "variables of packages that hold more than 3000 values before the first run (tables) are not measured"},
		Rule:     "each run uses one object (a validator, a parser of a format, an encoder, a grammar parser) or prepares and parses anew 12 to 300 times with the same 1 to 4 inputs in a drawn order, some of them with a source that fails or panics, a corrupt document or a walk that is left early; the statements executed per round and the values kept must not grow from round to round. Non-trivial: at least 12 rounds were measured. Distinct by object and inputs."})
}

// ---- what an object keeps ------------------------------------------------------------------------

type seenPtr struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

// weigher counts the values that can be reached.
type weigher struct {
	seen map[seenPtr]bool
	n    int
	max  int
}

func (w *weigher) opaque(t reflect.Type) bool {
	switch t.PkgPath() {
	case "reflect", "runtime", "sync", "unsafe", "internal/abi", "main":
		return true
	}
	return false
}

func (w *weigher) add(v reflect.Value, depth int) {
	w.n++
	if w.n > w.max || depth > 3000 || !v.IsValid() || w.opaque(v.Type()) {
		return
	}
	first := func(p unsafe.Pointer, n int) bool {
		k := seenPtr{p, v.Type(), n}
		if w.seen[k] {
			return false
		}
		w.seen[k] = true
		return true
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && first(v.UnsafePointer(), 0) {
			w.add(v.Elem(), depth+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.add(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.add(v.Field(i), depth+1)
		}
	case reflect.Slice:
		if v.IsNil() || !first(v.UnsafePointer(), v.Len()) {
			return
		}
		fallthrough
	case reflect.Array:
		if flat(v.Type().Elem().Kind()) {
			w.n += 1 + v.Len()/8
			return
		}
		for i := 0; i < v.Len(); i++ {
			w.add(v.Index(i), depth+1)
		}
	case reflect.String:
		w.n += v.Len() / 8
	case reflect.Map:
		if v.IsNil() || !first(v.UnsafePointer(), 0) {
			return
		}
		for it := v.MapRange(); it.Next(); {
			w.add(it.Key(), depth+1)
			w.add(it.Value(), depth+1)
		}
	}
}

func flat(k reflect.Kind) bool { return k >= reflect.Bool && k <= reflect.Complex128 }

// weigh counts what the objects keep.
func weigh(max int, objs ...interface{}) int {
	w := &weigher{seen: map[seenPtr]bool{}, max: max}
	for _, o := range objs {
		w.add(reflect.ValueOf(o), 0)
	}
	return w.n
}

var (
	globalsOnce sync.Once
	globals     []interface{}
)

// packageVars are the variables of the packages that are not large tables.
func packageVars() []interface{} {
	globalsOnce.Do(func() {
		for _, g := range rt.Globals {
			if weigh(3000, g.Ptr) < 3000 {
				globals = append(globals, g.Ptr)
			}
		}
	})
	return globals
}

// ---- uses ----------------------------------------------------------------------------------------

// repeated is an object and the ways in which it is used again and again.
type repeated struct {
	what string
	obj  func() interface{}
	uses []repeatedUse
}

type repeatedUse struct {
	what  string
	limit uint64
	f     func()
}

func (r *Run) repeatValidator() *repeated {
	g, _, dc := r.genWorld()
	text := g.String()
	gr := r.parseGram(text)
	e := engines[r.Int(len(engines))]
	if e.record && !dc.Unique {
		e = engines[0]
	}
	x := &repeated{what: e.name + " with " + text}
	fresh := e.stateful && r.Int(5) == 4
	var v *validator
	if v = r.prepareOne(text, gr, e); v == nil {
		r.Discard()
	}
	x.obj = func() interface{} { return v.obj }
	if fresh {
		x.what += ", prepared again"
		x.obj = func() interface{} { return gr }
	}
	ctx := v.setCtx != nil && r.Int(3) == 2
	for k := 1 + r.Int(4); k > 0; k-- {
		doc := r.genDoc(g, dc)
		u := repeatedUse{what: forest(doc), limit: 3000000}
		t := newTreeParser(doc)
		if r.FInt(3) == 2 {
			t.fault = treeFault{at: 1 + r.FInt(12), err: sourceErrs[r.FInt(len(sourceErrs))], panic: r.FInt(3) == 2, val: r.FInt(3) == 2}
			u.what += fmt.Sprintf(" failing at %d", t.fault.at)
			r.Fault("source-fails")
		}
		n := 0
		u.f = func() {
			vv := v
			if fresh {
				nv, err := e.prepare(gr)
				if err != nil {
					return
				}
				vv = nv
			}
			if ctx {
				n++
				vv.setCtx(&funcs.Context{Value: fmt.Sprint("context ", n%10)})
			}
			t.Reset()
			vv.validate(t)
		}
		x.uses = append(x.uses, u)
	}
	return x
}

// library is the parser that p drives.
func library(p fparser) interface{} {
	v := reflect.ValueOf(p)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	return v.Field(0).Interface()
}

func (r *Run) repeatParser() *repeated {
	w := r.genFormat(formatKinds...)
	p := w.newP()
	x := &repeated{what: w.kind + " parser", obj: func() interface{} { return library(p) }}
	for k := 1 + r.Int(4); k > 0; k-- {
		d := w.gen(r)
		if w.binary && r.FChance(1, 4) {
			d = r.corruptDoc(w, d, nil)
		}
		pol := r.genPolicy()
		if r.Int(3) == 2 {
			pol.stop = []int{3, 8, 20}[r.Int(3)]
		}
		tp := seededTape(r.Int(1 << 20))
		reset := r.Int(4) == 3
		u := repeatedUse{what: d.String() + " " + pol.String(), limit: 20*docLimit(d) + 2000000}
		u.f = func() {
			if p.load(d) != nil {
				return
			}
			for i := 0; i < 2; i++ {
				b := newBlind(tp.again(), p, pol, len(d.data)+100*countNodes(d.want))
				b.level(0)
				if !reset || p.reset(d) != nil {
					return
				}
			}
		}
		x.uses = append(x.uses, u)
	}
	return x
}

func (r *Run) repeatEncoder() *repeated {
	t := r.genTarget(true)
	x := &repeated{what: t.kind + " encoder " + t.name, obj: func() interface{} { return t.enc }}
	for k := 1 + r.Int(4); k > 0; k-- {
		ns := r.anyForest(t)
		src := newTreeParser(ns)
		u := repeatedUse{what: forest(ns), limit: 2 * encLimit(weight(ns))}
		if r.FInt(3) == 2 {
			src.fault = treeFault{at: 1 + r.FInt(2*countNodes(ns)+1), err: errSource, panic: r.FInt(3) == 2, val: r.FInt(3) == 2}
			u.what += fmt.Sprintf(" failing at %d", src.fault.at)
			r.Fault("source-fails")
		}
		scratch := r.scratch()
		u.f = func() {
			src.Reset()
			t.encode(src, scratch)
		}
		x.uses = append(x.uses, u)
	}
	return x
}

func (r *Run) repeatText() *repeated {
	p := parser.NewParser()
	x := &repeated{what: "grammar parser", obj: func() interface{} { return p }}
	for k := 1 + r.Int(4); k > 0; k-- {
		text := r.genText()
		if len(text) > 2000 {
			text = text[:2000]
		}
		u := repeatedUse{what: text, limit: uint64(40000 + 8000*len(text))}
		cut, pan := -1, false
		if r.FInt(4) == 3 {
			cut, pan = r.FInt(20), r.FInt(2) == 1
			u.what += fmt.Sprintf(" cut short at %d", cut)
			r.Fault("token-source-fails")
		}
		print := r.Int(3) == 2
		u.f = func() {
			if cut >= 0 {
				p.Parse(&faultyScanner{l: lexer.NewLexer([]byte(text)), n: cut, panic: pan})
				return
			}
			if g, err := p.ParseGrammar(text); err == nil && print {
				_ = g.String()
				_ = ast.NewRefLookup(g)
			}
		}
		x.uses = append(x.uses, u)
	}
	return x
}

func (r *Run) repeatDecode() *repeated {
	w := r.genFormat("xml")
	x := &repeated{what: "XML decoder", obj: func() interface{} { return nil }}
	for k := 1 + r.Int(4); k > 0; k-- {
		d := w.gen(r)
		if r.FChance(1, 4) {
			d = r.corruptDoc(w, d, nil)
		}
		t := seededTape(r.Int(1 << 20))
		u := repeatedUse{what: fmt.Sprintf("%q into %T", d.data, newXMLTarget(t.again())), limit: 20*docLimit(d) + 2000000}
		u.f = func() { xml.Unmarshal(d.data, newXMLTarget(t.again())) }
		x.uses = append(x.uses, u)
	}
	return x
}

// stretch repeats n times a segment of the children of some node.
func stretch(ns []*Node, path []int, from, to, n int) []*Node {
	out := append([]*Node{}, ns...)
	if len(path) > 0 {
		c := *ns[path[0]]
		c.Kids = stretch(c.Kids, path[1:], from, to, n)
		out[path[0]] = &c
		return out
	}
	var l []*Node
	for ; n > 0; n-- {
		l = append(l, ns[from:to]...)
	}
	return append(append(out[:from:from], l...), ns[to:]...)
}

// nest puts a node n times into itself, in the place of one of its children or as one more.
func nest(ns []*Node, path []int, at, kid, n int) []*Node {
	out := append([]*Node{}, ns...)
	if len(path) > 0 {
		c := *ns[path[0]]
		c.Kids = nest(c.Kids, path[1:], at, kid, n)
		out[path[0]] = &c
		return out
	}
	in := ns[at]
	for ; n > 0; n-- {
		c := *ns[at]
		c.Kids = append([]*Node{}, c.Kids...)
		if kid < len(c.Kids) && !c.Kids[kid].Leaf {
			c.Kids[kid] = in
		} else if len(c.Kids) > 0 && c.Kids[0].Leaf {
			c.Kids = []*Node{in}
		} else {
			c.Kids = append(c.Kids, in)
		}
		in = &c
	}
	out[at] = in
	return out
}

// growList validates documents in which a list gets longer: once all its states have been reached, a
// validator has nothing more to remember.
func (r *Run) growList() {
	g, gc, dc := r.genWorld()
	if r.scale != 0 {
		r.Discard()
	}
	if r.Int(4) == 3 {
		// many patterns for the children of one node
		label := r.genLabelText()
		op := []byte{';', '&', '|'}[r.Int(3)]
		for k := 3 + r.Int(3); k >= 0; k-- {
			p := &Pat{Op: []byte{'.', '+', '!', '.'}[r.Int(4)], L: &Pat{Op: 'n', Name: &NameE{Op: '=', Lit: vS(r.genLabelText())}, L: r.genPat(gc, 1, nil, nil, true)}}
			if r.Int(5) == 4 {
				p = r.genPat(gc, 2, nil, nil, true)
			}
			p = &Pat{Op: 'n', Name: &NameE{Op: '=', Lit: vS(label)}, L: p}
			if op != ';' {
				p = &Pat{Op: ',', L: p, R: &Pat{Op: '+', L: r.genPat(gc, 1, nil, nil, true)}}
			}
			if k == 0 && r.Int(2) == 0 {
				p = &Pat{Op: '*'}
			}
			g.Main = &Pat{Op: op, L: p, R: g.Main}
		}
	}
	text := g.String()
	gr := r.parseGram(text)
	e := []*engine{engines[0], engines[1], engines[5], engines[7]}[r.Int(4)]
	v := r.prepareOne(text, gr, e)
	if v == nil {
		r.Discard()
	}
	doc := r.genDoc(g, dc)
	var path []int
	ns := doc
	for len(ns) > 0 {
		k := r.Int(len(ns) + 1)
		if k == len(ns) || len(ns[k].Kids) == 0 {
			break
		}
		path = append(path, k)
		ns = ns[k].Kids
	}
	if len(ns) == 0 || ns[0].Leaf {
		r.Discard()
	}
	from := r.Int(len(ns))
	to := from + 1 + r.Int(2)
	if to > len(ns) {
		to = len(ns)
	}
	deep := r.Int(4) == 3
	kid := r.Int(3)
	how := fmt.Sprintf("children %d to %d of %v repeated", from, to-1, path)
	if deep {
		how = fmt.Sprintf("child %d of %v nested in its child %d", from, path, kid)
	}
	name := fmt.Sprintf("%s with %q, document %s, %s", e.name, text, forest(doc), how)
	r.Logf("%s", name)
	var kept []int
	var cost []int64
	var depth []int
	for _, n := range []int{60, 120, 240} {
		longer := stretch(doc, path, from, to, n)
		if deep {
			longer = nest(doc, path, from, kid, n)
		}
		t := newTreeParser(longer)
		s := rt.Steps()
		rt.WatchDepth(37)
		got := v.run(r, t, 20000000)
		cost = append(cost, int64(rt.Steps()-s))
		depth = append(depth, rt.Deepest())
		rt.WatchDepth(0)
		if got.limit {
			r.Probe("list-too-hard")
			return
		}
		if t.nexts < n {
			r.Probe("list-not-read")
			return
		}
		kept = append(kept, weigh(1<<20, v.obj))
	}
	r.Nontrivial(name)
	if !deep && depth[1]-depth[0] > 30 && depth[2]-depth[1] > 60 {
		r.Violate("depth-list:"+e.name, "%s: calls are %d deep for 60, %d for 120 and %d for 240", name, depth[0], depth[1], depth[2])
	}
	if !e.stateful && cost[2]-cost[1] > 3*(cost[1]-cost[0])+2000 {
		r.Violate("work-list:"+e.name, "%s: it takes %d statements for 60, %d for 120 and %d for 240", name, cost[0], cost[1], cost[2])
	}
	if kept[1]-kept[0] >= 60 && kept[2]-kept[1] >= 120 {
		r.Violate("memory-list:"+e.name, "%s: %d values are kept after 60, %d after 120 and %d after 240", name, kept[0], kept[1], kept[2])
	}
}

// growInput reads, parses or encodes inputs in which a part is repeated more and more often.
func (r *Run) growInput() {
	var name string
	var use func(n int)
	deep, walked := false, false
	switch k := r.Int(8); {
	case k < 4:
		w := r.genFormat([]string{"json", "xml", "proto", "yaml"}[k])
		d := w.gen(r)
		if w.kind == "xml" && (bytes.Contains(d.data, []byte("<?")) || bytes.Contains(d.data, []byte("<!"))) || len(d.data) > 2000 {
			r.Discard()
		}
		if w.kind == "yaml" && len(d.data) > 0 && d.data[len(d.data)-1] != '\n' {
			d.data = append(d.data, '\n')
		}
		pol := &drivePolicy{isLeaf: true, skip: r.Int(2), read: -r.Int(2)} // everything or nothing
		p := w.newP()
		walked = pol.skip == 0
		deep = w.kind != "proto" && r.Int(3) == 2
		name = fmt.Sprintf("reading %s %q (%s) with", w.kind, d.data, pol)
		if deep {
			name = fmt.Sprintf("reading %s %q (%s), nested, with", w.kind, d.data, pol)
			if w.kind == "yaml" {
				r.Discard()
			}
		}
		use = func(n int) {
			data := bytes.Repeat(d.data, n)
			switch {
			case deep && w.kind == "json":
				data = append(append(bytes.Repeat([]byte(`{"a":[`), n), d.data...), bytes.Repeat([]byte(`]}`), n)...)
			case deep:
				data = append(append(bytes.Repeat([]byte(`<a b="c">`), n), d.data...), bytes.Repeat([]byte(`</a>`), n)...)
			case w.kind == "json":
				data = append(append([]byte("["), bytes.Repeat(append(append([]byte{}, d.data...), ','), n-1)...), append(append([]byte{}, d.data...), ']')...)
			case w.kind == "xml":
				data = append(append([]byte("<r>"), data...), "</r>"...)
			}
			if p.load(&fdoc{data: data}) != nil {
				return
			}
			b := newBlind(seededTape(0), p, pol, len(data))
			b.level(0)
		}
	case k == 4:
		t := r.genTarget(false)
		ns := r.anyForest(t)
		name = fmt.Sprintf("encoding %s to %s with", forest(ns), t.name)
		use = func(n int) {
			var l []*Node
			for i := 0; i < n; i++ {
				l = append(l, ns...)
			}
			t.encode(newTreeParser(l), nil)
		}
	case k == 6:
		w := r.genFormat("xml")
		d := w.gen(r)
		if bytes.Contains(d.data, []byte("<?")) || bytes.Contains(d.data, []byte("<!")) || len(d.data) > 2000 {
			r.Discard()
		}
		t := seededTape(r.Int(1 << 20))
		name = fmt.Sprintf("decoding %q into %T with", d.data, newXMLTarget(t.again()))
		use = func(n int) {
			data := append(append([]byte("<r>"), bytes.Repeat(d.data, n)...), "</r>"...)
			xml.Unmarshal(data, newXMLTarget(t.again()))
		}
	case k == 7:
		w := r.genFormat("proto")
		d := w.gen(r)
		if len(d.data) > 2000 {
			r.Discard()
		}
		p := w.newP()
		name = fmt.Sprintf("looking for latent fields in %q with", d.data)
		use = func(n int) {
			if p.load(&fdoc{data: bytes.Repeat(d.data, n)}) == nil {
				proto.NoLatentAppendingOrMerging(p.(protoP).ProtoParser)
			}
		}
	default:
		text := r.genGram(&GramCfg{Depth: 3}).String()
		if len(text) > 1000 || strings.Contains(text, "#") {
			r.Discard()
		}
		name = fmt.Sprintf("parsing %q with", text)
		use = func(n int) {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&sb, "#a%d = %s\n", i, text)
			}
			parser.ParseGrammar(sb.String())
		}
	}
	r.Logf("%s more and more of it", name)
	var cost []int64
	var depth []int
	r.Guard(10000000, func() { use(20) }) // what is done once, for example for a type
	for _, n := range []int{20, 40, 80} {
		s := rt.Steps()
		rt.WatchDepth(37)
		c := r.Guard(10000000, func() { use(n) })
		depth = append(depth, rt.Deepest())
		rt.WatchDepth(0)
		if c != nil {
			if c.Hang {
				r.Probe("input-too-hard")
			}
			return
		}
		cost = append(cost, int64(rt.Steps()-s))
	}
	r.Nontrivial(name)
	if !(deep && walked) && depth[1]-depth[0] > 10 && depth[2]-depth[1] > 20 {
		r.Violate("depth-input:"+strings.Fields(name)[0], "%s 20 times as much makes calls %d deep, 40 times as much %d, 80 times as much %d", name, depth[0], depth[1], depth[2])
	}
	times := int64(3)
	if deep {
		// the JSON parser looks for the end of every value when it comes to it: once per level
		times = 6
	}
	if cost[2]-cost[1] > times*(cost[1]-cost[0])+2000 {
		r.Violate("work-input:"+strings.Fields(name)[0], "%s 20 times as much takes %d statements, 40 times as much %d, 80 times as much %d", name, cost[0], cost[1], cost[2])
	}
}

// runC08 uses an object again and again.
func runC08(r *Run) {
	var x *repeated
	switch r.Int(13) {
	case 12:
		x = r.repeatDecode()
	case 10, 11:
		r.growInput()
		return
	case 8, 9:
		r.growList()
		return
	case 0, 1, 2:
		x = r.repeatValidator()
	case 3, 4:
		x = r.repeatParser()
	case 5, 6:
		x = r.repeatEncoder()
	default:
		x = r.repeatText()
	}
	var what []string
	for _, u := range x.uses {
		what = append(what, u.what)
	}
	name := x.what + ", used for " + strings.Join(what, " and ")
	r.Logf("%s", name)
	shuffle := r.Int(2) == 1
	round := func(k int) (uint64, bool) {
		us := append([]repeatedUse{}, x.uses...)
		if shuffle {
			// the last one stays the last, as an object may keep what it used last
			for i := len(us) - 2; i > 0; i-- {
				j := r.SInt(i + 1)
				us[i], us[j] = us[j], us[i]
			}
		}
		s := rt.Steps()
		for _, u := range us {
			if c := r.Guard(u.limit, u.f); c != nil && c.Hang {
				// other checks decide what is too much for one use
				if k < 3 {
					r.Discard()
				}
				return 0, false
			}
		}
		return rt.Steps() - s, true
	}
	keeps := func() int {
		return weigh(1<<20, append([]interface{}{x.obj()}, packageVars()...)...)
	}
	var cost []uint64
	for k := 0; k < 3; k++ {
		c, _ := round(k)
		cost = append(cost, c)
	}
	n := int(150000 / (cost[2] + 1))
	if n < 12 {
		n = 12
	}
	if n > 300 {
		n = 300
	}
	kept, at := 0, 0
	for k := 3; k < n; k++ {
		if at == 0 && k >= n/4 {
			kept, at = keeps(), k
		}
		c, ok := round(k)
		if !ok {
			r.Violate("work:"+x.kind(), "%s: round %d does not end, round 2 took %d statements", name, k, cost[2])
		}
		cost = append(cost, c)
	}
	more := keeps() - kept
	r.Logf("%d rounds of %d statements", n, cost[2])
	r.Nontrivial(name)
	if more > (n-at)/2 {
		r.Violate("memory:"+x.kind(), "%s: %d values are kept after %d rounds, %d after %d rounds", name, kept, at, kept+more, n)
	}
	early, late := uint64(0), ^uint64(0)
	for k := 2; k <= n/4; k++ {
		if cost[k] > early {
			early = cost[k]
		}
	}
	for k := n - n/4; k < n; k++ {
		if cost[k] < late {
			late = cost[k]
		}
	}
	if late > early+early/10+16 {
		r.Violate("work:"+x.kind(), "%s: rounds 2 to %d take at most %d statements, rounds %d to %d at least %d", name, n/4, early, n-n/4, n-1, late)
	}
}

// kind is the first word of what is used.
func (x *repeated) kind() string { return strings.Fields(x.what)[0] }
