package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	ejson "github.com/katydid/katydid/encode/json"
	eproto "github.com/katydid/katydid/encode/proto"
	sreflect "github.com/katydid/katydid/encode/reflect"
	exml "github.com/katydid/katydid/encode/xml"
	"github.com/katydid/katydid/parser"
	sxml "github.com/katydid/katydid/parser/xml"
	"github.com/katydid/katydid/relapse/ast"
)

func init() {
	real := []string{"encode/json", "encode/xml", "encode/proto", "encode/reflect", "parser/*"}
	register(&Prop{ID: "C20", Run: runC20, Quick: 2500000, RealCode: real,
		Stubs:  []string{"most sources are in memory and fail at a drawn step; some are real parsers over corrupted documents"},
		Assume: []string{"accessor errors mean that the value is not of that type, as for all parsers of this library; only failing steps count as failures of the source"},
		Rule:   "each run draws a target (JSON, XML, a message of a drawn descriptor, a Go type, also with fields of unsupported types), a source shaped after the target, shaped and mutated, random, or a real parser over a corrupted document, and usually a step at which it fails with a drawn error or panics. Encode must return an error if a step failed, must not crash, must end within a step budget and must not write values the source did not deliver. Non-trivial: a step failed or the document does not fit the target. Distinct by target, document and failing step."})
	register(&Prop{ID: "C21", Run: runC21, Quick: 1500000, RealCode: real,
		Stubs:  []string{"some sources are in memory, the others are the parsers of this library"},
		Assume: []string{"documents the target can represent: for JSON a level is one scalar, or fields with different names, or items in order, text is valid UTF-8 and an empty node equals null; for XML names are XML names and text is not empty, not adjacent to other text and free of characters XML cannot carry, and scalars come back as their text; for protocol buffers the fields of the message with values in range; for Go values the fields of the type"},
		Rule:   "each run makes a history of encodings with one target and, for protocol buffers, one encoder: documents the target can represent (from memory or through a real parser), scratch buffers of drawn length, capacity and content, and failed encodings in between. The output is read back with the parser of the target and compared with the document; earlier outputs are compared with what they were. Non-trivial: at least two nodes. Distinct by document, target and history."})
	register(&Prop{ID: "C07", Run: runC07, Quick: 250000, RealCode: append([]string{"all validation engines (relapse/*)"}, real...),
		Stubs:  []string{"the source is in memory, single-pass and checks every call"},
		Assume: []string{"no left recursion"},
		Rule:   "each run has all engines validate a drawn document with a drawn grammar, or an encoder encode a drawn document, reading from a source that checks the protocol and may fail at a drawn step. The source must see no illegal call; without failure the levels entered and left must be equal in number. Non-trivial: at least two nodes. Distinct by consumer, document and failing step."})
}

func encodeReflect(p parser.Interface, v reflect.Value) error { return sreflect.Encode(p, v) }

// goOdd has fields that cannot be encoded into.
type goOdd struct {
	A map[string]int64
	B chan int64
	C interface{}
	D func()
	E complex128
	F [3]int64
	G **string
	H *[]int64
	I []map[string]bool
	x int64
	J *goOdd
	K []interface{}
	L int8
	M []uint8
	N uint16
	O []*[]string
	P []**int64
	Q *[]byte
	R [][]byte
	S int
	T error
	U uintptr
	V []chan int
	W map[int64]goInner
	*Small
	*goInner
}

// target is something to encode into.
type target struct {
	kind string
	name string
	pg   *protoGen
	enc  eproto.Encoder
	typ  reflect.Type
	w    *fworld
	// names of fields
	names []string
}

func (r *Run) genTarget(odd bool) *target {
	switch r.Int(4) {
	case 0:
		w := r.genFormat("json")
		return &target{kind: "json", name: "json", w: w, names: labelPool[:4]}
	case 1:
		w := &fworld{kind: "xml", newP: func() fparser { return xmlP{sxml.NewXMLParser()} }}
		return &target{kind: "xml", name: "xml", w: w, names: labelPool[:4]}
	case 2:
		t := &target{kind: "reflect", w: r.genFormat("reflect")}
		t.typ = reflect.TypeOf(goAll{})
		switch k := r.Int(6); {
		case k == 4:
			t.typ = reflect.TypeOf(goInner{})
		case k == 5 && odd:
			t.typ = reflect.TypeOf(goOdd{})
		}
		for i := 0; i < t.typ.NumField(); i++ {
			t.names = append(t.names, t.typ.Field(i).Name)
		}
		t.names = append(t.names, "X", "Y", "A", "B")
		t.name = t.typ.String()
		return t
	default:
		w := r.genFormat("proto")
		t := &target{kind: "proto", name: w.pg.String(), w: w, pg: w.pg}
		var err error
		if c := r.Guard(1000000, func() { t.enc, err = eproto.NewEncoder(w.desc, w.pkg, w.msg) }); c != nil {
			r.Violate("proto:new:"+c.Class(), "NewEncoder for %s: %s", t.name, c)
		}
		if err != nil {
			r.Violate("proto:new-refused", "NewEncoder for %s: %v", t.name, err)
		}
		for _, fs := range w.pg.msgs {
			for _, f := range fs {
				t.names = append(t.names, f.name)
			}
		}
		return t
	}
}

// encode encodes into t. The result is bytes or a Go value.
func (t *target) encode(p parser.Interface, scratch []byte) (out []byte, val reflect.Value, err error) {
	switch t.kind {
	case "json":
		out, err = ejson.Encode(p)
	case "xml":
		out, err = exml.Encode(p)
	case "proto":
		out, err = t.enc.Encode(scratch, p)
	default:
		val = reflect.New(t.typ)
		err = sreflect.Encode(p, val.Interface())
		val = val.Elem()
	}
	return
}

// read reads an output back.
func (t *target) read(r *Run, out []byte, val reflect.Value) (ns []*Node, err error) {
	d := &fdoc{data: out, val: val}
	if t.kind != "reflect" {
		d.val = reflect.Value{}
	} else {
		d.want = []*Node{}
	}
	limit := 20*docLimit(d) + 2000000
	if c := r.Guard(limit, func() {
		p := t.w.newP()
		if err = p.load(d); err != nil {
			return
		}
		ns, err = readForest(p)
	}); c != nil {
		return nil, fmt.Errorf("%s", c)
	}
	return
}

// relabel gives some nodes the names of fields.
func (r *Run) relabel(ns []*Node, names []string, one int) []*Node {
	out := make([]*Node, len(ns))
	for i, n := range ns {
		c := *n
		if !n.Leaf {
			if r.Int(one) == one-1 {
				c.Val = vS(names[r.Int(len(names))])
			}
			c.Kids = r.relabel(n.Kids, names, one)
		}
		out[i] = &c
	}
	return out
}

// shaped makes a document for the target.
func (r *Run) shaped(t *target) []*Node {
	var ns []*Node
	for {
		switch t.kind {
		case "reflect":
			v := reflect.New(t.typ).Elem()
			b := 4 + r.Int(24)
			if t.typ == reflect.TypeOf(goOdd{}) {
				v = reflect.New(reflect.TypeOf(goAll{})).Elem()
				r.fillGo(v, 0, &b)
				return r.relabel(goForest(v), t.names, 3)
			}
			r.fillGo(v, 0, &b)
			return goForest(v)
		case "proto":
			return t.w.gen(r).want
		case "json":
			return r.genJSON().want
		default:
			ns = r.genXML(&xmlCfg{}).want
		}
		return ns
	}
}

func (r *Run) anyForest(t *target) []*Node {
	cfg := &DocCfg{MaxDepth: 2 + r.Int(4), Typed: r.Int(2) == 1, JSONLike: r.Int(3) == 2}
	switch r.Int(4) {
	case 0:
		return r.shaped(t)
	case 1, 2:
		ns := r.shaped(t)
		for k := 1 + r.Int(4); k > 0; k-- {
			ns = r.mutateForest(ns, cfg)
		}
		if r.Int(3) == 2 {
			ns = r.relabel(ns, t.names, 4)
		}
		if r.Int(4) == 3 {
			ns = r.widen(ns)
		}
		return ns
	default:
		b := 2 + r.Int(20)
		return r.relabel(r.genForest(cfg, 0, &b), t.names, 2)
	}
}

// widen replaces some scalars by values of the same type that need 64 bits.
func (r *Run) widen(ns []*Node) []*Node {
	out := make([]*Node, len(ns))
	for i, n := range ns {
		c := *n
		c.Kids = r.widen(n.Kids)
		if n.Leaf && r.Int(3) == 2 {
			switch v := n.Val; {
			case v.HasD && !v.HasI && !v.HasU:
				c.Val = vD([]float64{1e300, -1e300, 3.5e38, math.MaxFloat64}[r.Int(4)])
			case v.HasI && !v.HasU && !v.HasD:
				c.Val = vI([]int64{math.MaxInt32 + 1, math.MinInt32 - 1, 1 << 32, math.MinInt64}[r.Int(4)])
			case v.HasU && !v.HasI && !v.HasD:
				c.Val = vU([]uint64{math.MaxUint32 + 1, 1 << 40, math.MaxUint64}[r.Int(3)])
			}
		}
		out[i] = &c
	}
	return out
}

// encLimit is a step budget for encoding a document.
func encLimit(n int) uint64 { return 200000 + 4000*uint64(n) + 40*uint64(n*n) }

// weight is the size of a document.
func weight(ns []*Node) int {
	w := len(ns)
	for _, n := range ns {
		w += (len(n.S)+len(n.Y))/4 + weight(n.Kids)
	}
	return w
}

// scratch makes a scratch buffer.
func (r *Run) scratch() []byte {
	n := []int{0, 1, 2, 3, 5, 9, 10, 11, 19, 20, 21, 30, 41, 64, 100, 1000}[r.Int(16)] + r.Int(4)
	b := make([]byte, n, n+r.Int(3)*r.Int(40))
	for i := range b {
		b[i] = 0xEE
	}
	if r.Int(8) == 7 {
		return nil
	}
	return b
}

// watch notes a failing step.
type watch struct {
	parser.Interface
	err error
}

func (w *watch) Next() error {
	err := w.Interface.Next()
	if err != nil && err != io.EOF {
		w.err = err
	}
	return err
}

// leafPaths lists the scalars by the names above them.
func leafPaths(ns []*Node, path string, m map[string][]Val) {
	for _, n := range ns {
		if n.Leaf {
			m[path] = append(m[path], n.Val)
			continue
		}
		p := path
		if n.HasS {
			p += "/" + n.S
		}
		leafPaths(n.Kids, p, m)
	}
}

// fits is whether v, read back, is the value w of the source.
func fits(v, w Val) bool {
	if v.HasI && w.HasI && v.I == w.I || v.HasU && w.HasU && v.U == w.U || v.HasB && w.HasB && v.B == w.B || v.HasS && w.HasS && v.S == w.S || v.HasY && w.HasY && v.Y == w.Y {
		return true
	}
	return v.HasD && w.HasD && (v.D == w.D || v.D == float64(float32(w.D)) && (!math.IsInf(v.D, 0) || math.IsInf(w.D, 0)) || v.D != v.D && w.D != w.D)
}

func (v Val) zero() bool {
	return v == Val{} || v == vI(0) || v == vU(0) || v == vD(0) || v == vB(false) || v == vS("") || v == vY("")
}

func runC20(r *Run) {
	t := r.genTarget(true)
	if t.kind == "reflect" && r.Int(12) == 11 {
		r.badValue(t)
		return
	}
	limit := uint64(0)
	var p parser.Interface
	var tree *treeParser
	var ns []*Node
	name := ""
	if r.Int(5) == 4 {
		w := r.genFormat(formatKinds...)
		if t.kind == "proto" && r.Int(3) > 0 {
			w = t.w
		}
		d := w.gen(r)
		if w.binary {
			d = r.corruptDoc(w, d, nil)
		}
		f := w.newP()
		var err error
		if c := r.Guard(docLimit(d), func() { err = f.load(d) }); c != nil || err != nil {
			r.Discard()
		}
		limit = 10*docLimit(d) + 100000
		p = f
		name = "corrupt " + w.kind + " " + d.String()
	} else {
		ns = r.anyForest(t)
		tree = newTreeParser(ns)
		n := countNodes(ns)
		if r.FInt(3) > 0 {
			tree.fault = treeFault{at: 1 + r.FInt(2*n+2), err: sourceErrs[r.FInt(len(sourceErrs))], panic: r.FInt(8) == 7, val: r.FInt(6) == 5, after: r.FInt(3)}
		}
		limit = encLimit(weight(ns))
		p = tree
		name = forest(ns)
		if tree.fault.at > 0 {
			name += fmt.Sprintf(" failing at call %d (accessor: %v, panic: %v) with %q", tree.fault.at, tree.fault.val, tree.fault.panic, tree.fault.err)
		}
	}
	what := fmt.Sprintf("encoding %s to %s", name, t.name)
	watched := &watch{Interface: p}
	var out []byte
	var val reflect.Value
	var err error
	c := r.Guard(limit, func() { out, val, err = t.encode(watched, r.scratch()) })
	r.Logf("%s: %q, %v, %v", what, out, err, c)
	if c != nil {
		if tree != nil && tree.fired && tree.fault.panic && c.Val == interface{}(tree.fault.err) {
			r.Fault("source-panic")
			r.Nontrivial(what)
			return
		}
		r.Violate(t.kind+":"+c.Class(), "%s: %s", what, c)
	}
	if watched.err != nil {
		r.Fault("source-error-in-" + t.kind)
		r.Nontrivial(what)
		if err == nil {
			r.Violate(t.kind+":swallowed", "%s: the source failed with %q, but Encode returns %q without an error", what, watched.err, out)
		}
		return
	}
	if tree != nil && tree.fired {
		r.Fault("accessor-error")
		r.Nontrivial(what)
		if err == nil && t.kind == "proto" { // the others try the accessors, one after the other

			r.sameWithout(t, ns, what, limit, out, val)
		}
		return
	}
	if err != nil {
		r.Probe("refused by " + t.kind)
		r.Nontrivial(what)
		return
	}
	if t.kind != "proto" && t.kind != "reflect" || tree == nil {
		return
	}
	got, rerr := t.read(r, out, val)
	if rerr != nil {
		r.Violate(t.kind+":unreadable", "%s: the result %q cannot be read: %v", what, out, rerr)
	}
	have := map[string][]Val{}
	leafPaths(ns, "", have)
	put := map[string][]Val{}
	leafPaths(got, "", put)
	if len(put) != len(have) {
		r.Nontrivial(what)
	}
	for path, vs := range put {
		for _, v := range vs {
			ok := t.kind == "reflect" && v.zero()
			for _, w := range have[path] {
				ok = ok || fits(v, w)
			}
			if !ok && t.kind == "reflect" {
				ok = promoted(path, v, have)
			}
			if !ok {
				r.Violate(t.kind+":invented", "%s: the result has %s at %s, which the source did not deliver", what, v, path)
			}
		}
	}
}

// sameWithout checks that the result is what it is when the accessor does not fail.
func (r *Run) sameWithout(t *target, ns []*Node, what string, limit uint64, out []byte, val reflect.Value) {
	var out2 []byte
	var val2 reflect.Value
	var err error
	if c := r.Guard(limit, func() { out2, val2, err = t.encode(newTreeParser(ns), r.scratch()) }); c != nil || err != nil {
		return
	}
	a, b := string(out), string(out2)
	if t.kind == "reflect" {
		a, b = dumpAny(val.Interface()), dumpAny(val2.Interface())
	}
	if a != b {
		r.Violate(t.kind+":partial", "%s: without an error the result is %s, but %s when a value cannot be read", what, b, a)
	}
}

// badValue encodes into something that is not a pointer to a struct.
func (r *Run) badValue(t *target) {
	ns := r.anyForest(t)
	n := 3
	var np *int
	vals := []interface{}{nil, reflect.Zero(reflect.PtrTo(t.typ)).Interface(), reflect.Zero(t.typ).Interface(), n, &n, np, "s", []int{1}, map[string]int{}, &[]int{2}}
	i := r.Int(len(vals))
	what := fmt.Sprintf("encoding %s into a %T", forest(ns), vals[i])
	var err error
	c := r.Guard(encLimit(weight(ns)), func() { err = sreflect.Encode(newTreeParser(ns), vals[i]) })
	r.Logf("%s: %v %v", what, err, c)
	r.Nontrivial(what)
	if c != nil {
		r.Violate("reflect:"+c.Class(), "%s: %s", what, c)
	}
	if err == nil {
		r.Violate("reflect:bad-value", "%s: no error", what)
	}
}

// promoted is whether a value came through a field of an embedded struct.
func promoted(path string, v Val, have map[string][]Val) bool {
	for _, e := range []string{"/Small", "/goInner"} {
		if !strings.Contains(path, e) {
			continue
		}
		for _, w := range have[strings.Replace(path, e, "", 1)] {
			if fits(v, w) {
				return true
			}
		}
		for _, w := range have[strings.Replace(path, e, "", -1)] {
			if fits(v, w) {
				return true
			}
		}
	}
	return false
}

// ---- documents a target can represent ------------------------------------------------------------

// firstVal is the value the JSON and XML encoders write.
func (v Val) firstVal() Val {
	switch {
	case v.HasI:
		return vI(v.I)
	case v.HasU:
		return vU(v.U)
	case v.HasD:
		return vD(v.D)
	case v.HasB:
		return vB(v.B)
	case v.HasS:
		return vS(v.S)
	case v.HasY:
		return vY(v.Y)
	}
	return Val{}
}

func (r *Run) fitJSON(ns []*Node) []*Node {
	if len(ns) == 0 {
		return nil
	}
	for _, n := range ns {
		if n.Leaf {
			c := *n
			f := c.Val.firstVal()
			if f.HasS && !validUTF8(f.S) {
				c.Val = vS("text")
			}
			if f.HasD && (f.D != f.D || f.D-f.D != 0) {
				c.Val = vD(0.5)
			}
			return []*Node{&c}
		}
	}
	list := ns[0].HasI || !ns[0].HasS
	var out []*Node
	used := map[string]bool{}
	for i, n := range ns {
		c := &Node{Kids: r.fitJSON(n.Kids)}
		if list {
			c.Val = vI(int64(i))
		} else {
			s := n.S
			if !n.HasS || n.HasI || !validUTF8(s) {
				s = r.jsonText(4)
			}
			for used[s] {
				s += "x"
			}
			used[s] = true
			c.Val = vS(s)
		}
		out = append(out, c)
	}
	return out
}

func isXMLName(s string) bool {
	for i, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
		case i > 0 && (c >= '0' && c <= '9' || c == '-' || c == '.'):
		default:
			return false
		}
	}
	return s != ""
}

func isXMLText(s string) bool {
	if s == "" || !validUTF8(s) {
		return false
	}
	for _, c := range s {
		if !(c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000) {
			return false
		}
	}
	return true
}

func (r *Run) fitXML(ns []*Node, top bool) []*Node {
	var out []*Node
	text := false
	for _, n := range ns {
		if n.Leaf {
			f := n.Val.firstVal()
			if top || text || f == (Val{}) || f.HasY && f.Y == "" {
				continue
			}
			c := *n
			if f.HasS && !isXMLText(f.S) {
				c.Val = vS("some <text> & ]]> 'more' \"\t\n\r")
			}
			text = true
			out = append(out, &c)
			continue
		}
		text = false
		c := &Node{Kids: r.fitXML(n.Kids, false), Val: vS(n.S)}
		if !n.HasS || n.HasI || n.HasU || n.HasD || n.HasB || !isXMLName(n.S) {
			c.Val = vS([]string{"a", "b1", "_", "long-name.x"}[r.Int(4)])
		}
		out = append(out, c)
	}
	return out
}

// fitProto merges neighbouring occurrences of a repeated field, which cannot be told apart.
func (t *target) fitProto(ns []*Node, m int) []*Node {
	var out []*Node
	for _, n := range ns {
		var f *protoField
		for _, g := range t.pg.msgs[m] {
			if g.name == n.S {
				f = g
			}
		}
		kid := func(k []*Node) []*Node {
			if f.typ == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
				return t.fitProto(k, f.msg)
			}
			return k
		}
		if !f.rep {
			out = append(out, inner(n.Val, kid(n.Kids)...))
			continue
		}
		if len(n.Kids) == 0 {
			continue
		}
		if k := len(out); k == 0 || out[k-1].Val != n.Val {
			out = append(out, inner(n.Val))
		}
		last := out[len(out)-1]
		for _, e := range n.Kids {
			last.Kids = append(last.Kids, inner(vI(int64(len(last.Kids))), kid(e.Kids)...))
		}
	}
	return out
}

// numbers gives the numbers of a document more than one type, as JSON has them.
func numbers(ns []*Node) []*Node {
	out := make([]*Node, len(ns))
	for i, n := range ns {
		c := *n
		if n.Leaf && n.HasI {
			c.Val = jsonNumber(n.I)
		}
		c.Kids = numbers(n.Kids)
		out[i] = &c
	}
	return out
}

// sameJSON compares a document with what JSON made of it, fields in any order.
func sameJSON(want, got []*Node, path string) string {
	if len(want) == 0 {
		if len(got) != 1 || !got[0].Leaf || got[0].Val != (Val{}) {
			return fmt.Sprintf("%s is empty, but comes back as %s", path, forest(got))
		}
		return ""
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%s is %s, but comes back as %s", path, forest(want), forest(got))
	}
	for i, w := range want {
		if w.Leaf {
			f := w.Val.firstVal()
			g := got[0].Val
			if f.HasY {
				f = vS(base64.StdEncoding.EncodeToString([]byte(f.Y)))
			}
			if !got[0].Leaf || f == (Val{}) && g != (Val{}) || f != (Val{}) && !fits(g, f) {
				return fmt.Sprintf("%s is %s, but comes back as %s", path, w, forest(got))
			}
			continue
		}
		var g *Node
		if w.HasI {
			g = got[i]
		} else {
			for _, n := range got {
				if n.HasS && n.S == w.S && !n.Leaf {
					g = n
				}
			}
		}
		if g == nil || g.Leaf || w.HasI && g.Val != w.Val {
			return fmt.Sprintf("%s/%s is lost: %s", path, w.Val, forest(got))
		}
		if s := sameJSON(w.Kids, g.Kids, path+"/"+w.Val.String()); s != "" {
			return s
		}
	}
	return ""
}

func sameXML(want, got []*Node, path string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s is %s, but comes back as %s", path, forest(want), forest(got))
	}
	for i, w := range want {
		g := got[i]
		if g.Leaf != w.Leaf {
			return fmt.Sprintf("%s: %s comes back as %s", path, w, g)
		}
		if w.Leaf {
			f := w.Val.firstVal()
			if f.HasY {
				f = vS(base64.StdEncoding.EncodeToString([]byte(f.Y)))
			}
			if f.HasD && f.D != f.D && g.S == "NaN" {
				continue
			}
			if !fits(g.Val, f) {
				return fmt.Sprintf("%s: %s comes back as %s", path, w, g)
			}
			continue
		}
		if g.S != w.S {
			return fmt.Sprintf("%s: %s comes back as %s", path, w, g)
		}
		if s := sameXML(w.Kids, g.Kids, path+"/"+w.S); s != "" {
			return s
		}
	}
	return ""
}

type madeOut struct {
	out  []byte
	copy []byte
	what string
}

func runC21(r *Run) {
	t := r.genTarget(false)
	var made []madeOut
	hist := ""
	n := 1 + r.Int(4)
	for i := 0; i < n; i++ {
		var ns []*Node
		var real parser.Interface
		reading := uint64(0) // what reading the source may take
		name := ""
		switch {
		case (t.kind == "json" || t.kind == "xml") && r.Int(2) == 0:
			b := 2 + r.Int(24)
			ns = r.genForest(&DocCfg{MaxDepth: 2 + r.Int(5), Typed: r.Int(3) == 2, JSONLike: r.Int(2) == 1}, 0, &b)
		case t.kind == "json" || t.kind == "xml":
			w := r.genFormat(formatKinds...)
			d := w.gen(r)
			ns = d.want
			fit := r.fitted(t, ns)
			if sameForest(fit, ns) {
				p := w.newP()
				r.mustLoad(w, p, d)
				real = p
				reading = 8 * docLimit(d)
				name = w.kind + " " + d.String()
			}
		case t.kind == "proto":
			d := t.w.gen(r)
			ns = d.want
			if r.Int(2) == 1 {
				p := t.w.newP()
				r.mustLoad(t.w, p, d)
				real = p
				reading = 8 * docLimit(d)
				name = fmt.Sprintf("proto %q, which is ", d.data)
			}
		default:
			ns = r.shaped(t)
		}
		want := r.fitted(t, ns)
		src := want
		if t.kind == "proto" || t.kind == "reflect" {
			src = ns
		}
		name += forest(ns)
		var p parser.Interface = newTreeParser(src)
		if real != nil {
			p = real
		} else if r.Int(4) == 3 && (t.kind == "proto" || t.kind == "reflect") {
			p = newTreeParser(numbers(src))
		}
		scratch := r.scratch()
		if len(made) > 0 && r.Int(4) == 3 {
			// the buffer of an earlier output, which is not needed any more
			k := r.Int(len(made))
			scratch = made[k].out[:r.Int(cap(made[k].out)+1)]
			made = append(made[:k:k], made[k+1:]...)
		}
		size := len(scratch)
		what := fmt.Sprintf("encoding %s to %s with a scratch buffer of %d bytes%s", name, t.name, size, hist)
		fault := false
		if r.FInt(4) == 3 {
			tr := newTreeParser(src)
			tr.fault = treeFault{at: 1 + r.FInt(2*countNodes(src)+1), err: errSource, panic: r.FInt(3) == 2}
			p = tr
			fault = true
		}
		var out []byte
		var val reflect.Value
		var err error
		limit := encLimit(weight(ns))*2 + reading
		if c := r.Guard(limit, func() { out, val, err = t.encode(p, scratch) }); c != nil {
			if fault && c.Val == interface{}(errSource) {
				r.Fault("source-panic")
				hist += " after a panic"
				continue
			}
			r.Violate(t.kind+":"+c.Class(), "%s: %s", what, c)
		}
		r.Logf("%s: %q, %v", what, out, err)
		if fault && err != nil {
			r.Fault("source-error")
			hist += " after a failure"
			continue
		}
		if err != nil {
			r.Violate(t.kind+":refused", "%s: %v", what, err)
		}
		if countNodes(ns) > 1 {
			r.Nontrivial(what)
		}
		got, err := t.read(r, out, val)
		if err != nil {
			r.Violate(t.kind+":unreadable", "%s: the result %q cannot be read: %v", what, out, err)
		}
		diff := ""
		switch t.kind {
		case "json":
			diff = sameJSON(want, got, "")
		case "xml":
			diff = sameXML(want, got, "")
		default:
			if !sameForest(want, got) {
				diff = fmt.Sprintf("it is %s, but comes back as %s", forest(want), forest(got))
			}
		}
		if diff != "" {
			r.Violate(t.kind+":differs", "%s: %s (output %q)", what, diff, out)
		}
		if out != nil {
			made = append(made, madeOut{out, append([]byte{}, out...), what})
		}
		for _, m := range made {
			if !bytes.Equal(m.out, m.copy) {
				r.Violate(t.kind+":overwritten", "%s: the output of an earlier encoding (%s) changes from %q to %q", what, m.what, m.copy, m.out)
			}
		}
		hist += fmt.Sprintf(" after %s", forest(ns))
	}
}

func (r *Run) fitted(t *target, ns []*Node) []*Node {
	switch t.kind {
	case "json":
		return r.fitJSON(ns)
	case "xml":
		return r.fitXML(ns, true)
	case "proto":
		return t.fitProto(ns, 0)
	}
	return ns
}

// ---- C07 -----------------------------------------------------------------------------------------

func (r *Run) monitored(ns []*Node) *treeParser {
	t := newTreeParser(ns)
	if r.FInt(2) == 1 {
		t.fault = treeFault{at: 1 + r.FInt(2*countNodes(ns)+2), err: sourceErrs[r.FInt(len(sourceErrs))], val: r.FInt(5) == 4, after: r.FInt(3)}
	}
	return t
}

func (r *Run) protocol(what string, t *treeParser, c *Caught, ended bool) {
	if t.fired {
		k := "source-error"
		if t.fault.val {
			k = "accessor-error"
		}
		r.Fault(k)
	}
	if t.bad != "" {
		r.Violate("protocol", "%s: %s", what, t.bad)
	}
	if ended && t.downs != t.ups {
		r.Violate("unbalanced", "%s: %d levels entered, %d left", what, t.downs, t.ups)
	}
	if c != nil && c.Hang {
		r.Discard()
	}
	if ended && t.failed {
		r.Violate("ended", "%s: ended without error although the source failed", what)
	}
}

func runC07(r *Run) {
	if r.Int(2) == 0 {
		t := r.genTarget(true)
		ns := r.anyForest(t)
		src := r.monitored(ns)
		var err error
		c := r.Guard(encLimit(weight(ns)), func() { _, _, err = t.encode(src, r.scratch()) })
		what := fmt.Sprintf("encoding %s to %s, %+v", forest(ns), t.name, src.fault)
		if countNodes(ns) > 1 {
			r.Nontrivial(what)
		}
		r.Logf("%s: %v %v", what, err, c)
		r.protocol(what, src, c, c == nil && err == nil)
		return
	}
	g, _, dc := r.genWorld()
	text := g.String()
	for d := 1 + r.Int(2); d > 0; d-- {
		ns := r.genDoc(g, dc)
		r.Logf("%q %s", text, forest(ns))
		var gr *ast.Grammar
		for _, e := range engines {
			if e.record && !dc.Unique {
				continue
			}
			gr = r.parseGram(text)
			v, err, pan := r.prepare(e, gr, 3000000)
			if err != nil || pan != nil {
				continue
			}
			src := r.monitored(ns)
			res := v.run(r, src, 2000000)
			what := fmt.Sprintf("%s: validating %s with %q, %+v", e.name, forest(ns), text, src.fault)
			if countNodes(ns) > 1 {
				r.Nontrivial(what)
			}
			r.protocol(what, src, res.pan, res.normal())
		}
	}
}
