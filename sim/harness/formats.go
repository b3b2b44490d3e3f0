package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	"github.com/katydid/katydid/parser"
	sjson "github.com/katydid/katydid/parser/json"
	sproto "github.com/katydid/katydid/parser/proto"
	sreflect "github.com/katydid/katydid/parser/reflect"
	sxml "github.com/katydid/katydid/parser/xml"
	syaml "github.com/katydid/katydid/parser/yaml"
)

// ---- documents of the supported formats ----------------------------------------------------------

// fdoc is a serialised document and what it means.
type fdoc struct {
	data  []byte
	val   reflect.Value // for Go values
	want  []*Node
	start int // where the root container starts and ends (json, xml)
	end   int
	// boundaries of top-level fields (proto)
	bounds []int
	// nested length-delimited regions (proto)
	regions []region
	deep    int // messages still to be nested at once (proto)
}

type region struct {
	start, end int
	node       *Node
}

func (d *fdoc) String() string {
	if d.val.IsValid() {
		return "Go value " + forest(d.want)
	}
	return fmt.Sprintf("%q", d.data)
}

// fparser is a parser that can be loaded with a document.
type fparser interface {
	parser.Interface
	load(d *fdoc) error
	// reset goes back to the beginning of the last document.
	reset(d *fdoc) error
}

// fworld is a format together with whatever configures it (descriptor, prefixes).
type fworld struct {
	kind   string
	newP   func() fparser
	gen    func(r *Run) *fdoc
	binary bool // byte faults apply
	// proto
	desc *descriptor.FileDescriptorSet
	pkg  string
	msg  string
	pg   *protoGen
}

type jsonP struct{ sjson.JsonParser }

func (p jsonP) load(d *fdoc) error  { return p.Init(d.data) }
func (p jsonP) reset(d *fdoc) error { return p.Reset() }

type xmlP struct{ sxml.XMLParser }

func (p xmlP) load(d *fdoc) error  { return p.Init(d.data) }
func (p xmlP) reset(d *fdoc) error { return p.Reset() }

type yamlP struct{ syaml.YamlParser }

func (p yamlP) load(d *fdoc) error  { return p.Init(d.data) }
func (p yamlP) reset(d *fdoc) error { return p.Reset() }

type protoP struct{ sproto.ProtoParser }

func (p protoP) load(d *fdoc) error  { return p.Init(d.data) }
func (p protoP) reset(d *fdoc) error { return p.Reset() }

type reflectP struct{ sreflect.ReflectParser }

func (p reflectP) load(d *fdoc) error  { p.Init(d.val); return nil }
func (p reflectP) reset(d *fdoc) error { p.Init(d.val); return nil }

var formatKinds = []string{"json", "xml", "proto", "reflect", "yaml"}

// genFormat draws a format and its configuration.
func (r *Run) genFormat(kinds ...string) *fworld {
	k := kinds[r.Int(len(kinds))]
	r.drawScale(120)
	switch k {
	case "json":
		return &fworld{kind: k, binary: true, newP: func() fparser { return jsonP{sjson.NewJsonParser()} }, gen: func(r *Run) *fdoc { return r.genJSON() }}
	case "xml":
		x := &xmlCfg{}
		if r.Int(3) == 2 {
			x.attr, x.elem, x.text = []string{"", "@", "attr_"}[r.Int(3)], []string{"", "elem_"}[r.Int(2)], []string{"", "text_"}[r.Int(2)]
		}
		return &fworld{kind: k, binary: true, newP: func() fparser {
			return xmlP{sxml.NewXMLParser(sxml.WithAttrPrefix(x.attr), sxml.WithElemPrefix(x.elem), sxml.WithTextPrefix(x.text))}
		}, gen: func(r *Run) *fdoc { return r.genXML(x) }}
	case "yaml":
		return &fworld{kind: k, binary: true, newP: func() fparser { return yamlP{syaml.NewYamlParser()} }, gen: func(r *Run) *fdoc { return r.genYAML() }}
	case "reflect":
		return &fworld{kind: k, newP: func() fparser { return reflectP{sreflect.NewReflectParser()} }, gen: func(r *Run) *fdoc { return r.genReflect() }}
	default:
		pg := r.genProtoWorld()
		switch r.Prop {
		case "C10", "C11", "C12", "C13", "C14":
			pg.scatter = r.Int(2) == 1
		}
		return &fworld{kind: "proto", binary: true, desc: pg.desc, pkg: pg.pkg, msg: "M0", pg: pg, newP: func() fparser {
			p, err := sproto.NewProtoParser(pg.pkg, "M0", pg.desc)
			if err != nil {
				r.Violate("proto:descriptor", "NewProtoParser refuses the descriptor: %v", err)
			}
			return protoP{p}
		}, gen: func(r *Run) *fdoc { return pg.genDoc(r) }}
	}
}

// mustLoad loads a well-formed document.
func (r *Run) mustLoad(w *fworld, p fparser, d *fdoc) {
	var err error
	if c := r.Guard(docLimit(d), func() { err = p.load(d) }); c != nil {
		r.Violate(w.kind+":init:"+c.Class(), "%s: Init of %s: %s", w.kind, d, c)
	}
	if err != nil {
		r.Violate(w.kind+":init-refused", "%s: Init of the well-formed %s: %v", w.kind, d, err)
	}
}

// docLimit is a step budget for anything done with one document.
func docLimit(d *fdoc) uint64 {
	n := uint64(len(d.data))
	if d.val.IsValid() {
		n = uint64(20 * weight(d.want))
	}
	return 20000 + 4000*n + 40*n*n
}

// ---- JSON ----------------------------------------------------------------------------------------

type jsonGen struct {
	r      *Run
	sb     strings.Builder
	budget int
	deep   int // containers still to be nested at once
}

func (r *Run) genJSON() *fdoc {
	g := &jsonGen{r: r, budget: 4 + r.Int(20), deep: r.deepness()}
	g.ws()
	start := g.sb.Len()
	var want []*Node
	root := r.Int(8)
	switch {
	case root < 5:
		want = g.object(0)
	case root < 7:
		want = g.array(0)
	default:
		want = []*Node{leaf(g.scalar())}
	}
	end := g.sb.Len()
	g.ws()
	return &fdoc{data: []byte(g.sb.String()), want: want, start: start, end: end}
}

func (g *jsonGen) ws() {
	for g.r.Int(4) == 3 {
		g.sb.WriteByte(" \n\t\r"[g.r.Int(4)])
	}
}

func (g *jsonGen) object(depth int) []*Node {
	g.sb.WriteByte('{')
	g.ws()
	var ns []*Node
	n := g.count()
	for i := 0; i < n && (g.budget > 0 || isMany(n) || g.deep > 0); i++ {
		g.budget--
		if len(ns) > 0 {
			g.sb.WriteByte(',')
			g.ws()
		}
		name := g.r.jsonText(6)
		g.str(name)
		g.ws()
		g.sb.WriteByte(':')
		g.ws()
		ns = append(ns, inner(vS(name), g.value(depth+1)...))
		g.ws()
	}
	g.sb.WriteByte('}')
	return ns
}

func (g *jsonGen) array(depth int) []*Node {
	g.sb.WriteByte('[')
	g.ws()
	var ns []*Node
	n := g.count()
	for i := 0; i < n && (g.budget > 0 || isMany(n) || g.deep > 0); i++ {
		g.budget--
		if len(ns) > 0 {
			g.sb.WriteByte(',')
			g.ws()
		}
		ns = append(ns, inner(vI(int64(i)), g.value(depth+1)...))
		g.ws()
	}
	g.sb.WriteByte(']')
	return ns
}

func (g *jsonGen) value(depth int) []*Node {
	k := g.r.Int(6)
	switch {
	case g.deep > 0:
		g.deep--
		k = 4 + k%2
	case depth > 5:
		k = 0
	}
	switch k {
	case 4:
		return g.object(depth)
	case 5:
		return g.array(depth)
	}
	return []*Node{leaf(g.scalar())}
}

// count is the number of members of a container.
func (g *jsonGen) count() int {
	n := g.r.many(4)
	if g.deep > 0 && n == 0 {
		n = 1
	}
	if isMany(n) {
		g.budget += n / 2
	}
	return n
}

func (g *jsonGen) scalar() Val {
	switch g.r.Int(8) {
	case 0, 1:
		s := g.r.jsonText(8)
		g.str(s)
		return vS(s)
	case 2:
		b := g.r.Int(2) == 1
		fmt.Fprintf(&g.sb, "%v", b)
		return vB(b)
	case 3:
		g.sb.WriteString("null")
		return Val{}
	default:
		t := g.r.numText()
		g.sb.WriteString(t)
		return numVal(t)
	}
}

// numText is the text of a JSON number.
func (r *Run) numText() string {
	s := ""
	if r.Int(4) == 3 {
		s = "-"
	}
	switch r.Int(8) {
	case 0, 1, 2:
		s += strconv.Itoa(r.Int(20))
	case 3:
		s += edgeNums[r.Int(len(edgeNums))]
	case 4:
		s += fmt.Sprintf("%d.%d", r.Int(30), r.Int(200))
	case 5:
		s += fmt.Sprintf("%de%d", 1+r.Int(9), r.Int(12))
	case 6:
		s += fmt.Sprintf("%d.%dE-%d", r.Int(9), r.Int(100), r.Int(8))
	default:
		s += fmt.Sprintf("0.%0*de+%d", 1+r.Int(3), r.Int(10), r.Int(5))
	}
	return s
}

var edgeNums = []string{"9223372036854775807", "18446744073709551615", "4294967296", "123456789012345678", "2147483648", "9223372036854775808", "9223372036854775809", "18446744073709551616", "9.223372036854775807e18", "9223372036854774784e0", "9.3e18", "1e19", "2e19", "1e300", "1.7976931348623157e308", "4.9e-324", "1e-400", "9007199254740993", "9007199254740993.0", "4294967295", "2147483647", "0.1", "0.30000000000000004"}

// numVal is what a JSON number answers to.
func numVal(t string) (v Val) {
	if f, err := strconv.ParseFloat(t, 64); err == nil {
		v.HasD, v.D = true, f
		if f == math.Trunc(f) && f >= -1<<63 && f < 1<<63 {
			v.HasI, v.I = true, int64(f)
		}
	}
	if i, err := strconv.ParseInt(t, 10, 64); err == nil {
		v.HasI, v.I = true, i
	}
	if u, err := strconv.ParseUint(t, 10, 64); err == nil {
		v.HasU, v.U = true, u
	}
	return v
}

var textAlphabet = []string{"a", "b", "c", "d", "{", "}", "[", "]", "\"", "\\", "/", ":", ",", " ", "\n", "\t", "<", "&", "\u00e9", "\u4e16", "\U0001f600", "0", "'", "\u2028"}

// jsonText is a random string.
func (r *Run) jsonText(max int) string {
	if s, ok := r.longText(textAlphabet); ok {
		return s
	}
	if r.Int(3) == 0 {
		return labelPool[r.Int(6)]
	}
	var sb strings.Builder
	for i := r.Int(max); i > 0; i-- {
		sb.WriteString(textAlphabet[r.Int(len(textAlphabet))])
	}
	return sb.String()
}

func (g *jsonGen) str(s string) {
	g.sb.WriteByte('"')
	esc := g.r.Int(4) // how eagerly to escape
	for _, c := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\n': `\n`, '\t': `\t`, '/': `\/`}[c]
		must := c < 0x20 || c == '"' || c == '\\'
		switch {
		case short != "" && (must || esc > 0) && g.r.Int(4) != 3:
			g.sb.WriteString(short)
		case must || esc == 3 && g.r.Int(2) == 1:
			f := `\u%04x`
			if g.r.Int(2) == 1 {
				f = `\u%04X`
			}
			if c >= 0x10000 {
				c -= 0x10000
				fmt.Fprintf(&g.sb, f, 0xd800+(c>>10))
				fmt.Fprintf(&g.sb, f, 0xdc00+(c&0x3ff))
			} else {
				fmt.Fprintf(&g.sb, f, c)
			}
		default:
			g.sb.WriteRune(c)
		}
	}
	g.sb.WriteByte('"')
}

// ---- XML -----------------------------------------------------------------------------------------

type xmlCfg struct{ attr, elem, text string }

type xmlGen struct {
	r      *Run
	c      *xmlCfg
	sb     strings.Builder
	budget int
	deep   int
	plain  bool // no text outside of leaf elements
}

var xmlNames = []string{"a", "b", "c", "d", "e", "Name", "x1", "_y", "a.b", "a-b", "\u00e9l"}

func (r *Run) xmlName() string {
	if s, ok := r.longText(wordAlphabet); ok {
		return "n" + s
	}
	return xmlNames[r.Int(len(xmlNames))]
}

func (r *Run) genXML(c *xmlCfg) *fdoc {
	g := &xmlGen{r: r, c: c, budget: 4 + r.Int(18), deep: r.deepness()}
	if r.Int(3) == 2 {
		g.sb.WriteString([]string{"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", " <?xml version='1.0'?>\n\n"}[r.Int(3)])
		if r.Int(3) == 2 {
			g.sb.WriteString("<?style a=\"<b>\"?>\n")
		}
	}
	if r.Int(6) == 5 {
		g.sb.WriteString("<!-- prolog <x> -->")
	}
	if r.Int(8) == 7 {
		g.sb.WriteString("<!DOCTYPE a [<!ELEMENT a (b)>]>")
	}
	start := g.sb.Len()
	root := g.elem(0)
	end := g.sb.Len()
	for r.Int(4) == 3 {
		g.sb.WriteString([]string{"\n", "  ", "<!-- end -->", "<?pi end?>"}[r.Int(4)])
		if r.Int(2) == 0 {
			break
		}
	}
	d := &fdoc{data: []byte(g.sb.String()), start: start, end: end, want: []*Node{root}}
	// text that follows the root element is a node too, unless it is at the very end
	rest := strings.TrimRight(g.sb.String()[end:], " \n")
	for rest != "" {
		if rest[0] == '<' {
			rest = rest[strings.IndexByte(rest, '>')+1:]
			continue
		}
		i := strings.IndexByte(rest, '<')
		if i < 0 {
			i = len(rest)
		}
		d.want = append(d.want, leaf(g.textVal(rest[:i])))
		rest = rest[i:]
	}
	return d
}

func (g *xmlGen) textVal(s string) (v Val) {
	v = Val{HasS: true, S: g.c.text + s, HasY: true, Y: s}
	xmlNum(s, &v)
	return v
}

func xmlNum(s string, v *Val) {
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		v.HasD, v.D = true, f
	}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		v.HasI, v.I = true, i
	}
	if u, err := strconv.ParseUint(s, 10, 64); err == nil {
		v.HasU, v.U = true, u
	}
	switch strings.TrimSpace(s) {
	case "1", "t", "T", "TRUE", "true", "True":
		v.HasB, v.B = true, true
	case "0", "f", "F", "FALSE", "false", "False":
		v.HasB, v.B = true, false
	}
}

// xmlText is a non-empty text; its written form is escaped.
func (r *Run) xmlText() string {
	if r.Int(3) == 2 {
		return []string{"1", "0", "true", "-12", "3.5", "18446744073709551615", " false ", "1e3", " 7"}[r.Int(9)]
	}
	for i := 0; i < 4; i++ {
		if s := r.jsonText(6); s != "" && !strings.Contains(s, "\r") {
			return s
		}
	}
	return "t"
}

func (g *xmlGen) escape(s string, quote byte) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c == '<':
			sb.WriteString([]string{"&lt;", "&#60;", "&#x3C;"}[g.r.Int(3)])
		case c == '&':
			sb.WriteString([]string{"&amp;", "&#38;"}[g.r.Int(2)])
		case c == '>' || quote != 0 && byte(c) == quote && c < 128:
			fmt.Fprintf(&sb, "&#%d;", c)
		case c == ']' || g.r.Int(10) == 9:
			fmt.Fprintf(&sb, "&#x%x;", c)
		default:
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func (g *xmlGen) elem(depth int) *Node {
	g.budget--
	name := g.r.xmlName()
	n := inner(vS(g.c.elem + name))
	full := name
	ns := g.r.Int(10) == 9
	if ns {
		full = "p:" + name
	}
	g.sb.WriteString("<" + full)
	if ns {
		g.sb.WriteString(" xmlns:p=\"urn:p\"")
		n.Kids = append(n.Kids, inner(vS(g.c.attr+"p"), leaf(g.attrVal("urn:p"))))
	}
	for more := g.r.many(1); more > 0 || g.r.Int(3) == 2 && g.budget > 0; more-- {
		g.budget--
		an, av := g.r.xmlName(), ""
		if g.r.Int(4) != 3 {
			av = g.r.xmlText()
		}
		q := "\"'"[g.r.Int(2)]
		g.sb.WriteString([]string{" ", "\n", "  "}[g.r.Int(3)] + an + []string{"=", " = "}[g.r.Int(2)] + string(q) + g.escape(av, q) + string(q))
		n.Kids = append(n.Kids, inner(vS(g.c.attr+an), leaf(g.attrVal(av))))
	}
	if g.deep == 0 && (g.r.Int(5) == 4 || depth > 6) {
		g.sb.WriteString("/>")
		return n
	}
	g.sb.WriteString(">")
	text := false // the last thing written is text
	n0 := g.r.many(5)
	if isMany(n0) {
		g.budget += n0 / 2
	}
	for k := n0; k > 0 && (g.budget > 0 || isMany(n0)) || g.deep > 0; k-- {
		kind := g.r.Int(6)
		if g.deep > 0 {
			g.deep--
			kind = 0
		}
		switch kind {
		case 0, 1:
			n.Kids = append(n.Kids, g.elem(depth+1))
			text = false
		case 2, 3:
			if text {
				g.sb.WriteString("<!-- c -->")
			}
			g.budget--
			s := g.r.xmlText()
			g.sb.WriteString(g.escape(s, 0))
			n.Kids = append(n.Kids, leaf(g.textVal(s)))
			text = true
		case 4:
			s := strings.Replace(g.r.jsonText(6), "]", "", -1)
			if g.r.Int(4) == 3 {
				s = "<?php ?> <b>"
			}
			g.budget--
			g.sb.WriteString("<![CDATA[" + s + "]]>")
			if s != "" {
				n.Kids = append(n.Kids, leaf(g.textVal(s)))
			}
			text = false
		default:
			g.sb.WriteString([]string{"<!-- <a> & -->", "<?pi x?>", "<!---->"}[g.r.Int(3)])
			text = false
		}
	}
	g.sb.WriteString("</" + full + []string{"", " "}[g.r.Int(2)] + ">")
	return n
}

func (g *xmlGen) attrVal(s string) Val {
	v := Val{HasS: true, S: g.c.text + s}
	xmlNum(s, &v)
	return v
}

// ---- YAML ----------------------------------------------------------------------------------------

type yamlGen struct {
	r      *Run
	sb     strings.Builder
	budget int
	deep   int
	unit   string
}

var yamlWords = []string{"a", "b", "Robert", "hello world", "x y z", "katydid", "a-b", "true", "false", "\u4e16"}

func (r *Run) genYAML() *fdoc {
	g := &yamlGen{r: r, budget: 3 + r.Int(18), deep: r.deepness(), unit: []string{"  ", "\t", " ", "    "}[r.Int(4)]}
	ind := strings.Repeat(g.unit, r.Int(3))
	if r.Int(3) == 2 {
		g.sb.WriteString("\n")
	}
	var want []*Node
	if r.Int(5) == 4 {
		want = g.array(ind)
	} else {
		want = g.object(ind)
	}
	s := g.sb.String()
	if r.Int(2) == 1 {
		s = strings.TrimRight(s, "\n")
	} else if r.Int(3) == 2 {
		s += ind + "\n"
	}
	return &fdoc{data: []byte(s), want: want, end: len(s)}
}

func (g *yamlGen) blank() {
	if g.r.Int(8) == 7 {
		g.sb.WriteString([]string{"\n", "   \n"}[g.r.Int(2)])
	}
}

func (g *yamlGen) scalar() (string, Val) {
	var t string
	switch g.r.Int(6) {
	case 0, 1:
		t = strconv.Itoa(g.r.Int(300) - 100)
	case 4:
		t = edgeNums[g.r.Int(len(edgeNums))]
		if g.r.Int(2) == 1 {
			t = "-" + t
		}
	case 2:
		t = fmt.Sprintf("%d.%d", g.r.Int(10), g.r.Int(100))
	case 3:
		t = "00" + strconv.Itoa(g.r.Int(80))
	default:
		t = yamlWords[g.r.Int(len(yamlWords))]
		if s, ok := g.r.longText(wordAlphabet); ok {
			t = "w" + s
		}
	}
	v := vS(t)
	if !strings.HasPrefix(t, "00") {
		n := numVal(t)
		v.HasI, v.I, v.HasU, v.U, v.HasD, v.D = n.HasI, n.I, n.HasU, n.U, n.HasD, n.D
	}
	if t == "true" || t == "false" {
		v.HasB, v.B = true, t == "true"
	}
	return t, v
}

func (g *yamlGen) object(ind string) []*Node {
	var ns []*Node
	n := 1 + g.r.many(4)
	for i := 0; i < n && (g.budget > 0 || i == 0 || isMany(n)); i++ {
		g.budget--
		g.blank()
		g.sb.WriteString(ind)
		ns = append(ns, g.field(ind))
	}
	return ns
}

// field writes "name: ..." after the indentation; children are indented deeper than ind.
func (g *yamlGen) field(ind string) *Node {
	name := labelPool[g.r.Int(len(labelPool))]
	if s, ok := g.r.longText(wordAlphabet); ok {
		name = "k" + s
	}
	n := inner(vS(name))
	k := g.r.Int(8)
	switch {
	case g.deep > 0:
		g.deep--
		k = 5
	case g.budget <= 0 && k > 4:
		k = 0
	}
	switch k {
	case 0, 1, 2:
		t, v := g.scalar()
		g.sb.WriteString(name + ":" + []string{" ", "  "}[g.r.Int(2)] + t + []string{"", " "}[g.r.Int(2)] + "\n")
		n.Kids = []*Node{leaf(v)}
	case 3:
		g.sb.WriteString(name + ":\n")
		n.Kids = []*Node{leaf(Val{})}
	case 4:
		g.sb.WriteString(name + "\n")
		n.Kids = []*Node{leaf(Val{})}
	case 5, 6:
		g.sb.WriteString(name + ":\n")
		n.Kids = g.object(ind + g.unit)
	default:
		g.sb.WriteString(name + ":\n")
		n.Kids = g.array(ind + g.unit)
	}
	return n
}

func (g *yamlGen) array(ind string) []*Node {
	var ns []*Node
	n := 1 + g.r.many(4)
	for i := 0; i < n && (g.budget > 0 || i == 0 || isMany(n)); i++ {
		g.budget--
		g.blank()
		e := inner(vI(int64(i)))
		g.sb.WriteString(ind + "-")
		switch g.r.Int(5) {
		case 3:
			g.sb.WriteString(" ")
			e.Kids = []*Node{g.field(ind + g.unit)}
			// a name without a colon is a value here
			if k := e.Kids[0]; len(k.Kids) == 1 && k.Kids[0].Leaf && k.Kids[0].Val.String() == "null" && strings.HasSuffix(g.sb.String(), "- "+k.S+"\n") {
				e.Kids = []*Node{leaf(vS(k.S))}
			}
		case 4:
			g.sb.WriteString("\n")
			e.Kids = []*Node{leaf(Val{})}
		default:
			t, v := g.scalar()
			g.sb.WriteString(" " + t + "\n")
			e.Kids = []*Node{leaf(v)}
		}
		ns = append(ns, e)
	}
	return ns
}

// ---- Go values -----------------------------------------------------------------------------------

type goInner struct {
	A int64
	B string
	C []int64
	D *goInner
}

type goAll struct {
	F64  float64
	F32  float32
	I64  int64
	I32  int32
	U64  uint64
	U32  uint32
	Bo   bool
	S    string
	By   []byte
	Ps   *string
	Pi   *int64
	Pu   *uint32
	Pf   *float64
	Pb   *bool
	In   goInner
	Pin  *goInner
	Ss   []string
	Is   []int32
	Us   []uint64
	Bs   [][]byte
	Fs   []float32
	Ins  []goInner
	Pins []*goInner
	Nest [][]int64
	All  *goAll
	Small
	Emp struct{}
}

// Small is embedded.
type Small struct {
	X bool
	Y []bool
}

func (r *Run) genReflect() *fdoc {
	budget := 6 + r.Int(24)
	deep := r.deepness()
	var v reflect.Value
	switch r.Int(5) {
	case 0:
		v = reflect.New(reflect.TypeOf(goInner{})).Elem()
	case 1:
		v = reflect.New(reflect.TypeOf([]goInner{})).Elem()
	default:
		v = reflect.New(reflect.TypeOf(goAll{})).Elem()
	}
	if v.Kind() == reflect.Slice {
		n := r.Int(3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			r.fillGo(v.Index(i), 1, &budget)
			r.nestGo(v.Index(i), deep)
			deep = 0
		}
	} else {
		r.fillGo(v, 0, &budget)
		r.nestGo(v, deep)
	}
	d := &fdoc{val: v, want: goForest(v)}
	if v.Kind() == reflect.Struct && r.Int(2) == 1 {
		d.val = v.Addr()
	}
	return d
}

// nestGo nests values of the type in each other.
func (r *Run) nestGo(v reflect.Value, deep int) {
	for ; deep > 0; deep-- {
		f := v.FieldByName("D")
		if !f.IsValid() {
			f = v.FieldByName("All")
		}
		if r.Int(4) == 3 {
			b := 3
			r.fillGo(v, 3, &b)
		}
		f.Set(reflect.New(f.Type().Elem()))
		v = f.Elem()
	}
}

// fillGo fills a Go value at random.
func (r *Run) fillGo(v reflect.Value, depth int, budget *int) {
	*budget--
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if r.Int(3) == 2 && *budget > 0 {
				r.fillGo(v.Field(i), depth, budget)
			}
		}
	case reflect.Ptr:
		if depth < 4 && *budget > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			r.fillGo(v.Elem(), depth+1, budget)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(r.poolText()))
			return
		}
		if depth >= 4 {
			return
		}
		n := r.many(4)
		s := reflect.MakeSlice(v.Type(), n, n+r.Int(2))
		for i := 0; i < n; i++ {
			r.fillGo(s.Index(i), depth+1, budget)
		}
		v.Set(s)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(dblPool[r.Int(len(dblPool))])
	case reflect.Int64:
		v.SetInt(intPool[r.Int(len(intPool))])
	case reflect.Int32:
		v.SetInt([]int64{0, 1, -1, math.MaxInt32, math.MinInt32}[r.Int(5)])
	case reflect.Uint64:
		v.SetUint(uintPool[r.Int(len(uintPool))])
	case reflect.Uint32:
		v.SetUint([]uint64{0, 1, 7, math.MaxUint32}[r.Int(4)])
	case reflect.Bool:
		v.SetBool(r.Int(2) == 1)
	case reflect.String:
		v.SetString(r.jsonText(6))
	}
}

// goForest is what a Go value means as a document.
func goForest(v reflect.Value) []*Node {
	switch {
	case v.Kind() == reflect.Ptr:
		if v.IsNil() {
			return []*Node{leaf(Val{})}
		}
		return goForest(v.Elem())
	case v.Kind() == reflect.Struct:
		var ns []*Node
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if (f.Kind() == reflect.Ptr || f.Kind() == reflect.Slice) && f.IsNil() {
				continue
			}
			ns = append(ns, inner(vS(v.Type().Field(i).Name), goForest(f)...))
		}
		return ns
	case v.Kind() == reflect.Slice && v.Type().Elem().Kind() != reflect.Uint8:
		var ns []*Node
		for i := 0; i < v.Len(); i++ {
			ns = append(ns, inner(vI(int64(i)), goForest(v.Index(i))...))
		}
		return ns
	}
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return []*Node{leaf(vD(v.Float()))}
	case reflect.Int32, reflect.Int64:
		return []*Node{leaf(vI(v.Int()))}
	case reflect.Uint32, reflect.Uint64:
		return []*Node{leaf(vU(v.Uint()))}
	case reflect.Bool:
		return []*Node{leaf(vB(v.Bool()))}
	case reflect.String:
		return []*Node{leaf(vS(v.String()))}
	case reflect.Slice:
		return []*Node{leaf(vY(string(v.Bytes())))}
	}
	return []*Node{leaf(Val{})}
}

// ---- protocol buffers ----------------------------------------------------------------------------

type protoField struct {
	name   string
	num    int32
	typ    descriptor.FieldDescriptorProto_Type
	rep    bool
	packed bool // option
	msg    int
}

type protoGen struct {
	desc *descriptor.FileDescriptorSet
	pkg  string
	msgs [][]*protoField
	// where the messages are declared
	where string
	// scatter lets fields occur again, apart from each other or in another encoding
	scatter bool
}

var protoTypes = []descriptor.FieldDescriptorProto_Type{
	descriptor.FieldDescriptorProto_TYPE_STRING, descriptor.FieldDescriptorProto_TYPE_INT64, descriptor.FieldDescriptorProto_TYPE_MESSAGE,
	descriptor.FieldDescriptorProto_TYPE_DOUBLE, descriptor.FieldDescriptorProto_TYPE_FLOAT, descriptor.FieldDescriptorProto_TYPE_UINT64,
	descriptor.FieldDescriptorProto_TYPE_INT32, descriptor.FieldDescriptorProto_TYPE_FIXED64, descriptor.FieldDescriptorProto_TYPE_FIXED32,
	descriptor.FieldDescriptorProto_TYPE_BOOL, descriptor.FieldDescriptorProto_TYPE_BYTES, descriptor.FieldDescriptorProto_TYPE_UINT32,
	descriptor.FieldDescriptorProto_TYPE_ENUM, descriptor.FieldDescriptorProto_TYPE_SFIXED32, descriptor.FieldDescriptorProto_TYPE_SFIXED64,
	descriptor.FieldDescriptorProto_TYPE_SINT32, descriptor.FieldDescriptorProto_TYPE_SINT64,
}

func packable(t descriptor.FieldDescriptorProto_Type) bool {
	return t != descriptor.FieldDescriptorProto_TYPE_STRING && t != descriptor.FieldDescriptorProto_TYPE_BYTES && t != descriptor.FieldDescriptorProto_TYPE_MESSAGE
}

func sp(s string) *string { return &s }

func (r *Run) genProtoWorld() *protoGen {
	pg := &protoGen{pkg: []string{"pkg", "a.b"}[r.Int(2)]}
	file := &descriptor.FileDescriptorProto{Name: sp("f.proto"), Package: sp(pg.pkg)}
	// messages of another package, extensions that are declared there, and a message and an extension of
	// it that must not be taken for those of M0
	other := &descriptor.FileDescriptorProto{Name: sp("g.proto"), Package: sp([]string{"other", "pkg.sub", "b"}[r.Int(3)])}
	files := []*descriptor.FileDescriptorProto{file}
	nm := 1 + r.Int(3)
	if r.Int(8) == 7 {
		nm += 2
	}
	full := make([]string, nm) // names of the messages
	inOther := make([]bool, nm)
	parent, short := make([]int, nm), make([]string, nm) // a message may be declared in another one, also with a name used elsewhere
	taken := map[string]bool{}
	for m := range full {
		parent[m], short[m] = -1, fmt.Sprintf("M%d", m)
		full[m] = fmt.Sprintf(".%s.M%d", pg.pkg, m)
		switch k := r.Int(8); {
		case m > 0 && k == 7:
			parent[m] = r.Int(m)
			if n := []string{short[m], "N", "M0", "M1"}[r.Int(4)]; !taken[full[parent[m]]+"."+n] {
				short[m] = n
			}
			full[m], inOther[m] = full[parent[m]]+"."+short[m], inOther[parent[m]]
		case m > 0 && k == 6:
			full[m], inOther[m] = fmt.Sprintf(".%s.M%d", other.GetPackage(), m), true
		}
		taken[full[m]] = true
	}
	mds := make([]*descriptor.DescriptorProto, nm)
	for m := 0; m < nm; m++ {
		var fs []*protoField
		md := &descriptor.DescriptorProto{Name: sp(short[m])}
		mds[m] = md
		nf := 1 + r.Int(5)
		ext := r.Int(4) == 3
		if ext {
			s, e := int32(1000), int32(2000)
			md.ExtensionRange = []*descriptor.DescriptorProto_ExtensionRange{{Start: &s, End: &e}}
		}
		used := map[int32]bool{}
		for i := 0; i < nf; i++ {
			f := &protoField{name: fmt.Sprintf("%s%d", labelPool[r.Int(4)], i), typ: protoTypes[r.Int(len(protoTypes))], rep: r.Int(3) == 2, msg: r.Int(nm)}
			f.num = []int32{1, 2, 3, 15, 16, 17, 100, 536870911}[r.Int(8)] + int32(i)
			if f.num > 536870911 {
				f.num = int32(200 + i)
			}
			isExt := ext && r.Int(3) == 2
			if isExt {
				f.num = int32(1000 + i)
			} else if f.num >= 1000 && f.num < 2000 {
				f.num = int32(500 + i)
			}
			for used[f.num] {
				f.num += 7
			}
			used[f.num] = true
			f.packed = f.rep && packable(f.typ) && r.Int(2) == 1
			fd := &descriptor.FieldDescriptorProto{Name: sp(f.name), Number: &f.num, Type: &f.typ}
			label := descriptor.FieldDescriptorProto_LABEL_OPTIONAL
			if f.rep {
				label = descriptor.FieldDescriptorProto_LABEL_REPEATED
			}
			fd.Label = &label
			if f.packed {
				t := true
				fd.Options = &descriptor.FieldOptions{Packed: &t}
			}
			switch f.typ {
			case descriptor.FieldDescriptorProto_TYPE_MESSAGE:
				fd.TypeName = sp(full[f.msg])
			case descriptor.FieldDescriptorProto_TYPE_ENUM:
				fd.TypeName = sp("." + pg.pkg + ".E")
			}
			if isExt {
				fd.Extendee = sp(full[m])
				switch r.Int(5) {
				case 2:
					other.Extension = append(other.Extension, fd)
				case 3: // declared inside a message, that may have nothing to do with it
					in := mds[r.Int(m+1)]
					in.Extension = append(in.Extension, fd)
				default:
					file.Extension = append(file.Extension, fd)
				}
			} else {
				md.Field = append(md.Field, fd)
			}
			fs = append(fs, f)
		}
		pg.msgs = append(pg.msgs, fs)
		switch {
		case parent[m] >= 0:
			mds[parent[m]].NestedType = append(mds[parent[m]].NestedType, md)
		case inOther[m]:
			other.MessageType = append(other.MessageType, md)
		default:
			file.MessageType = append(file.MessageType, md)
		}
	}
	if r.Int(4) == 3 {
		decoy := func(num int32) *descriptor.FieldDescriptorProto {
			t, l := descriptor.FieldDescriptorProto_TYPE_BOOL, descriptor.FieldDescriptorProto_LABEL_OPTIONAL
			return &descriptor.FieldDescriptorProto{Name: sp("decoy"), Number: &num, Type: &t, Label: &l}
		}
		s, e := int32(1000), int32(2000)
		other.MessageType = append(other.MessageType, &descriptor.DescriptorProto{Name: sp("M0"), Field: []*descriptor.FieldDescriptorProto{decoy(1)},
			ExtensionRange: []*descriptor.DescriptorProto_ExtensionRange{{Start: &s, End: &e}}})
		x := decoy(1000)
		x.Extendee = sp("." + other.GetPackage() + ".M0")
		if r.Int(2) == 1 {
			file.Extension = append([]*descriptor.FieldDescriptorProto{x}, file.Extension...)
		} else {
			other.Extension = append(other.Extension, x)
		}
	}
	if len(other.MessageType)+len(other.Extension) > 0 {
		if files = append(files, other); r.Int(2) == 1 {
			files[0], files[1] = other, file
		}
	}
	pg.where = strings.Join(full, " ")
	file.EnumType = []*descriptor.EnumDescriptorProto{{Name: sp("E")}}
	pg.desc = &descriptor.FileDescriptorSet{File: files}
	return pg
}

func (pg *protoGen) String() string {
	var sb strings.Builder
	for i, fs := range pg.msgs {
		fmt.Fprintf(&sb, "message M%d {", i)
		for _, f := range fs {
			if f.rep {
				sb.WriteString(" repeated")
			}
			t := strings.ToLower(strings.TrimPrefix(f.typ.String(), "TYPE_"))
			if f.typ == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
				t = fmt.Sprintf("M%d", f.msg)
			}
			fmt.Fprintf(&sb, " %s %s = %d", t, f.name, f.num)
			if f.packed {
				sb.WriteString(" [packed]")
			}
			sb.WriteByte(';')
		}
		sb.WriteString(" } ")
	}
	return sb.String() + pg.where
}

func (pg *protoGen) genDoc(r *Run) *fdoc {
	d := &fdoc{}
	budget := 4 + r.Int(20)
	d.deep = r.deepness()
	d.want, d.data = pg.message(r, d, 0, 0, &budget, true)
	d.end = len(d.data)
	return d
}

func varint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

func key(b []byte, num int32, wire int) []byte {
	return varint(b, uint64(uint32(num)<<3|uint32(wire)))
}

// message writes a message. The offsets of the regions below are relative to this message and are
// moved by the caller.
func (pg *protoGen) message(r *Run, d *fdoc, m, depth int, budget *int, top bool) ([]*Node, []byte) {
	var ns []*Node
	var b []byte
	fs := append([]*protoField{}, pg.msgs[m]...)
	for i := len(fs) - 1; i > 0; i-- {
		j := r.Int(i + 1)
		fs[i], fs[j] = fs[j], fs[i]
	}
	if pg.scatter && r.Int(3) == 2 {
		for k := 1 + r.Int(3); k > 0; k-- {
			i := r.Int(len(fs))
			f := fs[i]
			if r.Int(2) == 1 {
				i = r.Int(len(fs) + 1)
			}
			fs = append(fs[:i], append([]*protoField{f}, fs[i:]...)...)
		}
	}
	nest := d.deep > 0
	if nest {
		d.deep--
		for i, f := range fs {
			if f.typ == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
				fs[0], fs[i] = fs[i], fs[0]
				break
			}
		}
	}
	var open *protoField // whose list goes on when another element follows
	for i, f := range fs {
		nest := nest && i == 0
		if r.Int(8) == 7 {
			n := len(b)
			b = pg.unknown(r, m, b)
			if len(b) > n {
				open = nil
			}
			if top {
				d.bounds = append(d.bounds, len(b))
			}
		}
		if !nest && (*budget <= 0 || r.Int(4) == 0) {
			continue
		}
		if !nest && f.typ == descriptor.FieldDescriptorProto_TYPE_MESSAGE && depth > 4 {
			continue
		}
		packed := f.rep && packable(f.typ) && r.Int(2) == 1
		if open == f && !packed {
			continue
		}
		open = nil
		*budget--
		n := inner(vS(f.name))
		one := func() []*Node {
			if f.typ != descriptor.FieldDescriptorProto_TYPE_MESSAGE {
				v, enc, wire := r.protoScalar(f.typ)
				b = append(key(b, f.num, wire), enc...)
				return []*Node{leaf(v)}
			}
			first := len(d.regions)
			kids, enc := pg.message(r, d, f.msg, depth+1, budget, false)
			b = varint(key(b, f.num, 2), uint64(len(enc)))
			for i := first; i < len(d.regions); i++ {
				d.regions[i].start += len(b)
				d.regions[i].end += len(b)
			}
			d.regions = append(d.regions, region{len(b), len(b) + len(enc), nil})
			b = append(b, enc...)
			return kids
		}
		mark := func(n *Node) {
			if k := len(d.regions); k > 0 && d.regions[k-1].node == nil {
				d.regions[k-1].node = n
			}
		}
		switch {
		case !f.rep:
			n.Kids = one()
			mark(n)
		case packed:
			var body []byte
			for i := r.many(4); i > 0; i-- {
				v, enc, _ := r.protoScalar(f.typ)
				body = append(body, enc...)
				n.Kids = append(n.Kids, inner(vI(int64(len(n.Kids))), leaf(v)))
			}
			b = varint(key(b, f.num, 2), uint64(len(body)))
			d.regions = append(d.regions, region{len(b), len(b) + len(body), n})
			b = append(b, body...)
		default:
			open = f
			for i := 1 + r.many(3); i > 0; i-- {
				e := inner(vI(int64(len(n.Kids))))
				e.Kids = one()
				mark(e)
				n.Kids = append(n.Kids, e)
				if top {
					d.bounds = append(d.bounds, len(b))
				}
			}
		}
		ns = append(ns, n)
		if top {
			d.bounds = append(d.bounds, len(b))
		}
	}
	return ns, b
}

// unknown writes a field that is not in the descriptor.
func (pg *protoGen) unknown(r *Run, m int, b []byte) []byte {
	num := int32(300 + r.Int(50))
	for _, f := range pg.msgs[m] {
		if f.num == num {
			return b
		}
	}
	switch r.Int(4) {
	case 0:
		return varint(key(b, num, 0), uint64(r.Int(1000)))
	case 1:
		return append(key(b, num, 1), 1, 2, 3, 4, 5, 6, 7, 8)
	case 2:
		s := r.poolText()
		return append(varint(key(b, num, 2), uint64(len(s))), s...)
	}
	return append(key(b, num, 5), 1, 2, 3, 4)
}

func (r *Run) protoScalar(t descriptor.FieldDescriptorProto_Type) (Val, []byte, int) {
	le := binary.LittleEndian
	switch t {
	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
		f := dblPool[r.Int(len(dblPool))]
		return vD(f), le.AppendUint64(nil, math.Float64bits(f)), 1
	case descriptor.FieldDescriptorProto_TYPE_FLOAT:
		f := float32(dblPool[r.Int(len(dblPool))])
		return vD(float64(f)), le.AppendUint32(nil, math.Float32bits(f)), 5
	case descriptor.FieldDescriptorProto_TYPE_INT64:
		i := intPool[r.Int(len(intPool))]
		return vI(i), varint(nil, uint64(i)), 0
	case descriptor.FieldDescriptorProto_TYPE_INT32, descriptor.FieldDescriptorProto_TYPE_ENUM:
		i := r.int32()
		return vI(i), varint(nil, uint64(i)), 0
	case descriptor.FieldDescriptorProto_TYPE_SINT32:
		i := r.int32()
		return vI(i), varint(nil, uint64(uint32(i<<1)^uint32(i>>31))), 0
	case descriptor.FieldDescriptorProto_TYPE_SINT64:
		i := intPool[r.Int(len(intPool))]
		return vI(i), varint(nil, uint64(i<<1)^uint64(i>>63)), 0
	case descriptor.FieldDescriptorProto_TYPE_SFIXED32:
		i := r.int32()
		return vI(i), le.AppendUint32(nil, uint32(i)), 5
	case descriptor.FieldDescriptorProto_TYPE_SFIXED64:
		i := intPool[r.Int(len(intPool))]
		return vI(i), le.AppendUint64(nil, uint64(i)), 1
	case descriptor.FieldDescriptorProto_TYPE_UINT64:
		u := uintPool[r.Int(len(uintPool))]
		return vU(u), varint(nil, u), 0
	case descriptor.FieldDescriptorProto_TYPE_UINT32:
		u := uint64(uint32(uintPool[r.Int(len(uintPool))]))
		return vU(u), varint(nil, u), 0
	case descriptor.FieldDescriptorProto_TYPE_FIXED64:
		u := uintPool[r.Int(len(uintPool))]
		return vU(u), le.AppendUint64(nil, u), 1
	case descriptor.FieldDescriptorProto_TYPE_FIXED32:
		u := uint64(uint32(uintPool[r.Int(len(uintPool))]))
		return vU(u), le.AppendUint32(nil, uint32(u)), 5
	case descriptor.FieldDescriptorProto_TYPE_BOOL:
		b := r.Int(2)
		return vB(b == 1), []byte{byte(b)}, 0
	case descriptor.FieldDescriptorProto_TYPE_BYTES:
		s := r.poolText()
		return vY(s), append(varint(nil, uint64(len(s))), s...), 2
	default:
		s := r.jsonText(8)
		return vS(s), append(varint(nil, uint64(len(s))), s...), 2
	}
}

func (r *Run) int32() int64 {
	return []int64{0, 1, -1, 300, math.MaxInt32, math.MinInt32}[r.Int(6)]
}
