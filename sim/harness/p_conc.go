package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	eproto "github.com/katydid/katydid/encode/proto"
	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/parser/debug"
	sproto "github.com/katydid/katydid/parser/proto"
	sxml "github.com/katydid/katydid/parser/xml"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/funcs"
	"github.com/katydid/katydid/relapse/interp"
	gparser "github.com/katydid/katydid/relapse/parser"
	rt "github.com/katydid/katydid/zzsimrt"
)

func init() {
	register(&Prop{ID: "C04", Run: runC04, Quick: 25000,
		RealCode: []string{"parser/*", "encode/*", "relapse/* (all engines, the grammar parser, the function registry)"},
		Stubs:    []string{"some documents are in memory and fail at a drawn step"},
		Assume:   []string{"no left recursion", "functions are registered before the goroutines start"},
		Rule:     "each run draws a world that is shared (a parsed grammar, grammar texts, documents of one or two formats with their descriptor, Go values, struct types) and 2 to 6 jobs; each job makes its own parser, validator, encoder or grammar parser, before the tasks start or in its task, and uses it several times. The jobs run as tasks that a drawn schedule switches between any two statements of the library, and one after the other, in either order. Every job must return the same result in both, no task may crash, and the race detector must see no race. Non-trivial: at least one switch. Distinct by jobs, world and schedule."})
}

// job is work with own objects only. mk makes the objects, the result of which does the work.
type job struct {
	name  string
	mk    func() func() string
	early bool
}

type concWorld struct {
	r     *Run
	g     *Gram
	gr    *ast.Grammar
	text  string
	trees [][]*Node
	fw    []*fworld
	docs  [][]*fdoc
	texts []string
	typ   reflect.Type
	xmls  [][]byte
	tgt   *target
}

func trace(b *blind) string {
	s := strings.Join(b.trace, " ")
	if b.over {
		s += " over"
	}
	return s
}

func safely(f func() string) (s string) {
	defer func() {
		if p := recover(); p != nil {
			switch p.(type) {
			case error, string:
				if _, ok := p.(interface{ RuntimeError() }); !ok && strings.Contains(fmt.Sprint(p), "source failure") {
					s += fmt.Sprint("panic ", p)
					return
				}
			}
			panic(p)
		}
	}()
	return f()
}

func verdictString(ok bool, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprint(ok)
}

func (w *concWorld) walkJob() *job {
	r := w.r
	k := r.Int(len(w.fw))
	fw, docs := w.fw[k], w.docs[k]
	n := 1 + r.Int(4)
	seed, order := r.Int(1<<30), make([]int, n)
	for i := range order {
		order[i] = r.Int(len(docs))
	}
	pol := r.genPolicy()
	logged := r.Int(4) == 3
	kind := fw.kind
	return &job{name: fmt.Sprintf("walk-%s%v", kind, order), mk: func() func() string {
		p := fw.newP()
		return func() string {
			var sb strings.Builder
			t := seededTape(seed)
			for _, i := range order {
				if err := p.load(docs[i]); err != nil {
					fmt.Fprintf(&sb, "load error %v; ", err)
					continue
				}
				var src parser.Interface = p
				var l *simLogger
				if logged {
					l = &simLogger{}
					src = debug.NewLogger(p, l)
				}
				size := len(docs[i].data) + 20*countNodes(docs[i].want)
				b := newBlind(t, src, pol, size)
				b.level(0)
				sb.WriteString(trace(b))
				sb.WriteString("; ")
			}
			return sb.String()
		}
	}}
}

// want is the verdict the grammar means.
func (w *concWorld) want(tree int, ctx string) bool {
	m, ok := w.g.matches(w.trees[tree], &Env{Ctx: ctx, Now: rt.Clock()})
	if !ok {
		w.r.Discard()
	}
	return m
}

func (w *concWorld) validateJob() *job {
	r := w.r
	var es []*engine
	for _, e := range engines {
		if !e.record {
			es = append(es, e)
		}
	}
	e := es[r.Int(len(es))]
	n := 1 + r.Int(4)
	type use struct {
		tree  int
		ctx   string
		fault treeFault
		again bool
		want  bool
	}
	uses := make([]use, n)
	for i := range uses {
		u := use{tree: r.Int(len(w.trees)), ctx: []string{"", "a", "b", "s"}[r.Int(4)], again: r.Int(4) == 3}
		if r.FInt(4) == 3 {
			u.fault = treeFault{at: 1 + r.FInt(20), err: fmt.Errorf("source failure"), panic: r.FInt(3) == 2}
			if w.want(u.tree, u.ctx) {
				u.want = true
			}
		}
		uses[i] = u
	}
	return &job{name: "validate-" + e.name, mk: func() func() string {
		v, err := e.prepare(w.gr)
		return func() string {
			if err != nil {
				return "prepare: " + err.Error()
			}
			var sb strings.Builder
			for i, u := range uses {
				if u.again && i > 0 {
					v, err = e.prepare(w.gr)
					if err != nil {
						return "prepare: " + err.Error()
					}
				}
				if v.setCtx != nil {
					v.setCtx(&funcs.Context{Value: u.ctx})
				}
				t := newTreeParser(w.trees[u.tree])
				t.fault = u.fault
				s := safely(func() string { return verdictString(v.validate(t)) })
				if u.fault.at > 0 && s != fmt.Sprint(!u.want) {
					// whether the failing step is reached may depend on the order of a map
					s = "*"
				}
				sb.WriteString(s)
				sb.WriteString("; ")
			}
			return sb.String()
		}
	}}
}

// formatValidateJob validates documents read by a parser with a grammar for that format.
func (w *concWorld) formatValidateJob() *job {
	r := w.r
	k := r.Int(len(w.fw))
	fw, docs := w.fw[k], w.docs[k]
	n := 1 + r.Int(3)
	order := make([]int, n)
	for i := range order {
		order[i] = r.Int(len(docs))
	}
	e := engines[r.Int(len(engines))]
	if e.record {
		e = engines[0]
	}
	return &job{name: "validate-" + fw.kind + "-" + e.name, mk: func() func() string {
		v, err := e.prepare(w.gr)
		p := fw.newP()
		return func() string {
			if err != nil {
				return "prepare: " + err.Error()
			}
			var sb strings.Builder
			for _, i := range order {
				if err := p.load(docs[i]); err != nil {
					fmt.Fprintf(&sb, "load error %v; ", err)
					continue
				}
				sb.WriteString(verdictString(v.validate(p)))
				sb.WriteString("; ")
			}
			return sb.String()
		}
	}}
}

func (w *concWorld) encodeJob() *job {
	r := w.r
	t := w.tgt
	n := 1 + r.Int(4)
	docs := make([][]*Node, n)
	faults := make([]treeFault, n)
	scratch := make([]int, n)
	for i := range docs {
		docs[i] = w.trees[r.Int(len(w.trees))]
		if r.Int(3) > 0 {
			docs[i] = r.fitted(t, r.shaped(t))
		}
		if r.FInt(4) == 3 {
			faults[i] = treeFault{at: 1 + r.FInt(20), err: fmt.Errorf("source failure")}
		}
		scratch[i] = []int{0, 0, 1, 10, 100, 5000}[r.Int(6)]
	}
	return &job{name: "encode-" + t.kind, mk: func() func() string {
		o := *t
		if t.kind == "proto" {
			enc, err := eproto.NewEncoder(t.w.desc, t.w.pkg, t.w.msg)
			if err != nil {
				return func() string { return "NewEncoder: " + err.Error() }
			}
			o.enc = enc
		}
		return func() string {
			var sb strings.Builder
			for i := range docs {
				src := newTreeParser(docs[i])
				src.fault = faults[i]
				var buf []byte
				if scratch[i] > 0 {
					buf = make([]byte, scratch[i])
				}
				out, val, err := o.encode(src, buf)
				switch {
				case err != nil:
					fmt.Fprintf(&sb, "error %v; ", err)
				case val.IsValid():
					fmt.Fprintf(&sb, "%s; ", dumpAny(val.Interface()))
				default:
					fmt.Fprintf(&sb, "%q; ", out)
				}
			}
			return sb.String()
		}
	}}
}

func (w *concWorld) textJob() *job {
	r := w.r
	n := 1 + r.Int(4)
	order, how := make([]int, n), make([]int, n)
	for i := range order {
		order[i], how[i] = r.Int(len(w.texts)), r.Int(4)
	}
	return &job{name: fmt.Sprintf("parse%v", order), mk: func() func() string {
		p := gparser.NewParser()
		return func() string {
			var sb strings.Builder
			for i, j := range order {
				var g *ast.Grammar
				var err error
				if how[i] == 0 {
					g, err = relapse.Parse(w.texts[j])
				} else {
					g, err = p.ParseGrammar(w.texts[j])
				}
				if err != nil {
					fmt.Fprintf(&sb, "error %v; ", err)
					continue
				}
				sb.WriteString(g.String())
				if how[i] == 2 && !leftRecursive(g) {
					_, err := relapse.Prepare(g)
					fmt.Fprintf(&sb, " %v", err)
				}
				sb.WriteString("; ")
			}
			return sb.String()
		}
	}}
}

func (w *concWorld) grammarJob() *job {
	k := w.r.Int(5)
	return &job{name: fmt.Sprintf("grammar%d", k), mk: func() func() string {
		return func() string {
			switch k {
			case 0:
				return w.gr.String()
			case 1:
				// which equal references are replaced is up to the order of a map; the meaning is not
				s := interp.NewSimplifier(w.gr).Grammar()
				return verdictString(interp.Interpret(s, newTreeParser(w.trees[0])))
			case 2:
				c := w.gr.Clone()
				c.Format()
				return c.String()
			case 3:
				return fmt.Sprint(w.gr.Equal(w.gr.Clone()), interp.HasRecursion(w.gr), ast.HasNot(w.gr))
			}
			p := w.gr.GetTopPattern()
			if p == nil {
				return "none"
			}
			return fmt.Sprint(p.Hash(), p.Compare(p.Clone()))
		}
	}}
}

func (w *concWorld) unmarshalJob() *job {
	r := w.r
	n := 1 + r.Int(3)
	order := make([]int, n)
	for i := range order {
		order[i] = r.Int(len(w.xmls))
	}
	return &job{name: "unmarshal", mk: func() func() string {
		return func() string {
			var sb strings.Builder
			for _, i := range order {
				v := reflect.New(w.typ)
				err := sxml.NewDecoder(bytes.NewReader(w.xmls[i])).Decode(v.Interface())
				fmt.Fprintf(&sb, "%v %s; ", err, dumpAny(v.Interface()))
			}
			return sb.String()
		}
	}}
}

func (w *concWorld) descJob() *job {
	var fw *fworld
	for _, f := range w.fw {
		if f.kind == "proto" {
			fw = f
		}
	}
	if fw == nil {
		return w.walkJob()
	}
	r := w.r
	docs := w.docs[0]
	if fw != w.fw[0] {
		docs = w.docs[1]
	}
	d := docs[r.Int(len(docs))]
	return &job{name: "descriptors", mk: func() func() string {
		return func() string {
			var sb strings.Builder
			m, err := sproto.NewDescriptorMap(fw.pkg, fw.msg, fw.desc)
			fmt.Fprintf(&sb, "%v ", err)
			if err == nil {
				root := m.GetRoot()
				fmt.Fprintf(&sb, "%s ", root.GetName())
				for _, f := range root.GetField() {
					if x := m.LookupMessage(f); x != nil {
						fmt.Fprintf(&sb, "%s:%s ", f.GetName(), x.GetName())
					}
				}
			}
			p := fw.newP()
			if err := p.load(d); err == nil {
				fmt.Fprint(&sb, sproto.NoLatentAppendingOrMerging(p.(protoP).ProtoParser))
			}
			return sb.String()
		}
	}}
}

// genXMLType makes a struct type, of which many are new to the library.
func (r *Run) genXMLType(depth int) reflect.Type {
	n := 1 + r.Int(4)
	var fs []reflect.StructField
	if r.Int(4) == 3 {
		tag := ""
		if r.Int(3) == 2 {
			tag = fmt.Sprintf("xml:%q", xmlNames[r.Int(len(xmlNames))])
		}
		fs = append(fs, reflect.StructField{Name: "XMLName", Type: reflect.TypeOf(sxml.Name{}), Tag: reflect.StructTag(tag)})
	}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		name := xmlNames[i%len(xmlNames)]
		switch k := r.Int(9); {
		case k == 0 && depth > 0:
			f.Type = r.genXMLType(depth - 1)
		case k == 1 && depth > 0:
			f.Type = reflect.PointerTo(r.genXMLType(depth - 1))
		case k == 7 && depth > 0:
			f.Type = reflect.SliceOf(r.genXMLType(depth - 1))
		case k == 2:
			f.Type = reflect.TypeOf([]string{})
		case k == 3:
			f.Type = reflect.TypeOf(int64(0))
		case k == 8:
			f.Type = []reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf(false), reflect.TypeOf((*string)(nil)), reflect.TypeOf(xText("")), reflect.TypeOf(xAttr{})}[r.Int(5)]
		default:
			f.Type = reflect.TypeOf("")
		}
		tag := name
		if r.Int(5) == 4 && f.Type.Kind() == reflect.String {
			tag += ",attr"
		} else if r.Int(5) == 4 {
			switch r.Int(4) {
			case 0:
				tag = name + ">" + xmlNames[r.Int(len(xmlNames))]
			case 1:
				tag = ",any"
			case 2:
				if f.Type.Kind() == reflect.String {
					tag = ",chardata"
				}
			case 3:
				if f.Type.Kind() == reflect.String {
					tag = ",innerxml"
				}
			}
		}
		f.Tag = reflect.StructTag(fmt.Sprintf("xml:%q", tag))
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func runC04(r *Run) {
	w := &concWorld{r: r}
	gc := &GramCfg{Depth: 3, Ctx: r.Int(3) == 2}
	dc := &DocCfg{MaxNodes: 10, MaxDepth: 4, JSONLike: r.Int(2) == 1}
	for k := 1 + r.Int(2); k > 0; k-- {
		fw := r.genFormat(formatKinds...)
		var ds []*fdoc
		for n := 1 + r.Int(3); n > 0; n-- {
			d := fw.gen(r)
			if fw.binary && r.FInt(4) == 3 {
				d = r.corruptDoc(fw, d, nil)
			}
			ds = append(ds, d)
		}
		w.fw, w.docs = append(w.fw, fw), append(w.docs, ds)
	}
	if r.Int(3) == 2 && w.docs[0][0].want != nil {
		w.g = r.shapeGram(w.docs[0][0].want)
	} else {
		w.g = r.genGram(gc)
	}
	w.text = w.g.String()
	w.gr = r.parseGram(w.text)
	w.trees = r.history(w.g, dc, 3)
	w.texts = append(w.texts, w.text)
	for k := r.Int(3); k > 0; k-- {
		w.texts = append(w.texts, r.genText())
	}
	w.tgt = r.genTarget(false)
	names := ""
	var jobs []*job
	pick := func() *job {
		switch r.Int(10) {
		case 0, 1:
			return w.validateJob()
		case 2:
			return w.formatValidateJob()
		case 3, 4:
			return w.walkJob()
		case 5, 6:
			return w.encodeJob()
		case 7:
			if r.Int(2) == 0 {
				return w.grammarJob()
			}
			return w.textJob()
		case 8:
			return w.textJob()
		}
		if r.Int(2) == 0 {
			return w.descJob()
		}
		if w.typ == nil {
			w.typ = r.genXMLType(2)
			for k := 1 + r.Int(2); k > 0; k-- {
				w.xmls = append(w.xmls, r.genXML(&xmlCfg{}).data)
			}
		}
		return w.unmarshalJob()
	}
	n := 2 + r.Int(5)
	for len(jobs) < n {
		j := pick()
		j.early = r.Int(3) == 2
		jobs = append(jobs, j)
		names += j.name + " "
		// the same kind of work at the same time is where sharing shows
		for len(jobs) < n && r.Int(3) == 2 {
			c := *j
			c.early = r.Int(3) == 2
			jobs = append(jobs, &c)
			names += c.name + " "
		}
	}
	r.Logf("grammar %s; %d texts; jobs %s", w.text, len(w.texts), names)
	for k, ds := range w.docs {
		for _, d := range ds {
			r.Logf("%s %s", w.fw[k].kind, d)
		}
	}
	alone := make([]string, n)
	together := make([]string, n)
	doAlone := func() {
		for i, j := range jobs {
			if c := r.Guard(6000000, func() { alone[i] = j.mk()() }); c != nil {
				if c.Hang {
					r.Discard()
				}
				r.Violate("alone:"+c.Class(), "%s alone: %s", j.name, c)
			}
		}
	}
	doTogether := func() {
		fs := make([]func(), n)
		for i, j := range jobs {
			i, j := i, j
			if !j.early {
				fs[i] = func() { together[i] = j.mk()() }
				continue
			}
			var run func() string
			if c := r.Guard(6000000, func() { run = j.mk() }); c != nil {
				if c.Hang {
					r.Discard()
				}
				r.Violate("make:"+c.Class(), "%s: %s", j.name, c)
			}
			fs[i] = func() { together[i] = run() }
		}
		r.tasks("jobs "+names, fs, func(i int) string { return jobs[i].name }, 20000000, true)
	}
	before := dumpAny(w.gr)
	if r.Int(2) == 0 {
		doTogether()
		doAlone()
	} else {
		doAlone()
		doTogether()
	}
	for i, j := range jobs {
		r.Logf("%s: %s", j.name, alone[i])
		if alone[i] != together[i] {
			k := strings.IndexFunc(j.name, func(c rune) bool { return c == '[' })
			if k < 0 {
				k = len(j.name)
			}
			r.Violate("differs:"+j.name[:k], "%s among %s: with the others at the same time %s, alone %s", j.name, names, together[i], alone[i])
		}
	}
	if dumpAny(w.gr) != before {
		r.Violate("changed", "the grammar %q was changed by %s", w.text, names)
	}
	r.Nontrivial(names + w.text)
}
