package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/katydid/katydid/parser"
)

// ---- values --------------------------------------------------------------------------------------

// Val is what the accessors of one node return. More than one may succeed.
type Val struct {
	HasB, HasY, HasS, HasI, HasU, HasD bool
	B                                  bool
	Y                                  string
	S                                  string
	I                                  int64
	U                                  uint64
	D                                  float64
}

func vS(s string) Val  { return Val{HasS: true, S: s} }
func vI(i int64) Val   { return Val{HasI: true, I: i} }
func vU(u uint64) Val  { return Val{HasU: true, U: u} }
func vD(d float64) Val { return Val{HasD: true, D: d} }
func vB(b bool) Val    { return Val{HasB: true, B: b} }
func vY(b string) Val  { return Val{HasY: true, Y: b} }

// String is canonical: equal values have equal strings.
func (v Val) String() string {
	var s []string
	if v.HasB {
		s = append(s, fmt.Sprintf("%v", v.B))
	}
	if v.HasY {
		s = append(s, fmt.Sprintf("bytes%q", v.Y))
	}
	if v.HasS {
		s = append(s, fmt.Sprintf("%q", v.S))
	}
	if v.HasI {
		s = append(s, fmt.Sprintf("int(%d)", v.I))
	}
	if v.HasU {
		s = append(s, fmt.Sprintf("uint(%d)", v.U))
	}
	if v.HasD {
		if v.D != v.D {
			s = append(s, "double(NaN)")
		} else {
			s = append(s, fmt.Sprintf("double(%x/%g)", math.Float64bits(v.D), v.D))
		}
	}
	if len(s) == 0 {
		return "null"
	}
	return strings.Join(s, "|")
}

// accessor order constants
const (
	accB = iota
	accY
	accS
	accI
	accU
	accD
	nAcc
)

var accNames = [nAcc]string{"Bool", "Bytes", "String", "Int", "Uint", "Double"}

// readVal calls all accessors of a value.
func readVal(p parser.Value) (v Val) {
	for a := 0; a < nAcc; a++ {
		readAcc(p, a, &v)
	}
	return v
}

// readAcc calls one accessor and stores the result. It returns the error of the accessor.
func readAcc(p parser.Value, acc int, v *Val) error {
	switch acc {
	case accB:
		x, err := p.Bool()
		v.HasB, v.B = err == nil, x
		if err != nil {
			v.B = false
		}
		return err
	case accY:
		x, err := p.Bytes()
		v.HasY = err == nil
		v.Y = ""
		if err == nil {
			v.Y = string(x)
		}
		return err
	case accS:
		x, err := p.String()
		v.HasS = err == nil
		v.S = ""
		if err == nil {
			v.S = strings.Clone(x)
		}
		return err
	case accI:
		x, err := p.Int()
		v.HasI, v.I = err == nil, x
		if err != nil {
			v.I = 0
		}
		return err
	case accU:
		x, err := p.Uint()
		v.HasU, v.U = err == nil, x
		if err != nil {
			v.U = 0
		}
		return err
	default:
		x, err := p.Double()
		v.HasD, v.D = err == nil, x
		if err != nil {
			v.D = 0
		}
		return err
	}
}

// accString is the part of v that accessor acc sees.
func (v Val) accString(acc int) string {
	var w Val
	switch acc {
	case accB:
		w.HasB, w.B = v.HasB, v.B
	case accY:
		w.HasY, w.Y = v.HasY, v.Y
	case accS:
		w.HasS, w.S = v.HasS, v.S
	case accI:
		w.HasI, w.I = v.HasI, v.I
	case accU:
		w.HasU, w.U = v.HasU, v.U
	case accD:
		w.HasD, w.D = v.HasD, v.D
	}
	return w.String()
}

// ---- trees ---------------------------------------------------------------------------------------

// Node is a node of a document.
type Node struct {
	Val
	Leaf bool
	Kids []*Node
}

func leaf(v Val) *Node                 { return &Node{Val: v, Leaf: true} }
func inner(v Val, kids ...*Node) *Node { return &Node{Val: v, Kids: kids} }

func (n *Node) String() string {
	if n.Leaf {
		return n.Val.String()
	}
	return n.Val.String() + forest(n.Kids)
}

func forest(ns []*Node) string {
	var sb strings.Builder
	sb.WriteByte('{')
	for i, n := range ns {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(n.String())
	}
	sb.WriteByte('}')
	return sb.String()
}

func countNodes(ns []*Node) int {
	t := 0
	for _, n := range ns {
		t += 1 + countNodes(n.Kids)
	}
	return t
}

func sameForest(a, b []*Node) bool { return forest(a) == forest(b) }

// readForest reads a whole document by a plain complete walk.
func readForest(p parser.Interface) ([]*Node, error) {
	var ns []*Node
	for {
		if err := p.Next(); err != nil {
			if err == io.EOF {
				return ns, nil
			}
			return ns, err
		}
		n := &Node{Val: readVal(p), Leaf: p.IsLeaf()}
		ns = append(ns, n)
		if !n.Leaf {
			p.Down()
			kids, err := readForest(p)
			n.Kids = kids
			if err != nil {
				return ns, err
			}
			p.Up()
		}
	}
}

// ---- in-memory source ----------------------------------------------------------------------------

var errNoValue = errors.New("value is not of this type")

// protoErr is a violation of the cursor protocol by the consumer.
type protoErr struct{ msg string }

// treeFault is what a source does wrong.
type treeFault struct {
	at    int // the at-th call of this kind fails, counting from 1; 0: never
	err   error
	panic bool
	val   bool // fail in a value accessor instead of Next
	after int  // what comes after an error: 0 another error, 1 the rest of the document, 2 the end
}

type frame struct {
	ns  []*Node
	pos int // index of the current node, -1 before the first Next
	eof bool
	in  bool // the current node has been entered
}

// treeParser presents a forest as a parser.Interface. It monitors that the consumer keeps to the
// cursor protocol and can inject failures.
type treeParser struct {
	root  []*Node
	stack []frame
	// monitor
	bad      string
	failed   bool // an error or panic was delivered
	eofs     int
	nexts    int
	values   int
	downs    int
	ups      int
	log      []byte
	keepLog  bool
	freeText bool // when set, Bytes returns a slice that is overwritten on the next call
	scratch  []byte
	// fault
	fault  treeFault
	fired  bool
	sticky bool
	onStep func()
}

func newTreeParser(ns []*Node) *treeParser {
	t := &treeParser{root: ns}
	t.Reset()
	return t
}

// Reset starts from the beginning.
func (t *treeParser) Reset() error {
	t.stack = append(t.stack[:0], frame{ns: t.root, pos: -1})
	t.failed = false
	t.nexts, t.values, t.eofs, t.downs, t.ups = 0, 0, 0, 0, 0
	t.log = t.log[:0]
	t.fired = false
	return nil
}

func (t *treeParser) violate(f string, a ...interface{}) {
	if t.bad == "" {
		t.bad = fmt.Sprintf(f, a...)
	}
}

func (t *treeParser) note(b byte) {
	if t.keepLog {
		t.log = append(t.log, b)
	}
}

func (t *treeParser) top() *frame { return &t.stack[len(t.stack)-1] }

func (t *treeParser) cur() *Node {
	f := t.top()
	if f.pos < 0 || f.pos >= len(f.ns) {
		return nil
	}
	return f.ns[f.pos]
}

func (t *treeParser) Next() error {
	if t.onStep != nil {
		t.onStep()
	}
	t.note('n')
	if t.failed {
		t.violate("Next after an error was delivered")
		switch t.fault.after {
		case 0:
			return io.ErrUnexpectedEOF
		case 2:
			return io.EOF
		}
	}
	f := t.top()
	if f.eof {
		t.violate("Next after the end of this level was reported")
	}
	t.nexts++
	if t.fault.at != 0 && !t.fault.val && t.nexts == t.fault.at {
		t.fired = true
		t.failed = true
		if t.fault.panic {
			panic(t.fault.err)
		}
		return t.fault.err
	}
	f.pos++
	f.in = false
	if f.pos >= len(f.ns) {
		f.eof = true
		t.eofs++
		t.note('.')
		return io.EOF
	}
	return nil
}

func (t *treeParser) IsLeaf() bool {
	t.note('l')
	if t.failed {
		t.violate("IsLeaf after an error was delivered")
	}
	n := t.cur()
	if n == nil {
		t.violate("IsLeaf while not on a node")
		return true
	}
	return n.Leaf
}

func (t *treeParser) Down() {
	t.note('d')
	t.downs++
	if t.failed {
		t.violate("Down after an error was delivered")
		if t.fault.after == 0 {
			return
		}
	}
	n := t.cur()
	if n == nil {
		t.violate("Down while not on a node")
		t.stack = append(t.stack, frame{pos: -1})
		return
	}
	if n.Leaf {
		t.violate("Down on the leaf %s", n.Val)
	}
	if t.top().in {
		t.violate("Down twice on the node %s", n.Val)
	}
	t.top().in = true
	t.stack = append(t.stack, frame{ns: n.Kids, pos: -1})
}

func (t *treeParser) Up() {
	t.note('u')
	t.ups++
	if t.failed {
		t.violate("Up after an error was delivered")
		if t.fault.after == 0 {
			return
		}
	}
	if len(t.stack) == 1 {
		t.violate("Up at the top level")
		return
	}
	t.stack = t.stack[:len(t.stack)-1]
}

func (t *treeParser) value() *Node {
	t.note('v')
	if t.failed {
		t.violate("value read after an error was delivered")
	}
	n := t.cur()
	if n == nil {
		t.violate("value read while not on a node")
		return &Node{Leaf: true}
	}
	return n
}

func (t *treeParser) access() error {
	t.values++
	if t.fault.at != 0 && t.fault.val && t.values == t.fault.at {
		t.fired = true
		if t.fault.panic {
			t.failed = true
			panic(t.fault.err)
		}
		return t.fault.err
	}
	return nil
}

func (t *treeParser) Bool() (bool, error) {
	n := t.value()
	if err := t.access(); err != nil {
		return false, err
	}
	if !n.HasB {
		return false, errNoValue
	}
	return n.B, nil
}

func (t *treeParser) Bytes() ([]byte, error) {
	n := t.value()
	if err := t.access(); err != nil {
		return nil, err
	}
	if !n.HasY {
		return nil, errNoValue
	}
	return []byte(n.Y), nil
}

func (t *treeParser) String() (string, error) {
	n := t.value()
	if err := t.access(); err != nil {
		return "", err
	}
	if !n.HasS {
		return "", errNoValue
	}
	return n.S, nil
}

func (t *treeParser) Int() (int64, error) {
	n := t.value()
	if err := t.access(); err != nil {
		return 0, err
	}
	if !n.HasI {
		return 0, errNoValue
	}
	return n.I, nil
}

func (t *treeParser) Uint() (uint64, error) {
	n := t.value()
	if err := t.access(); err != nil {
		return 0, err
	}
	if !n.HasU {
		return 0, errNoValue
	}
	return n.U, nil
}

func (t *treeParser) Double() (float64, error) {
	n := t.value()
	if err := t.access(); err != nil {
		return 0, err
	}
	if !n.HasD {
		return 0, errNoValue
	}
	return n.D, nil
}

// ---- random documents ----------------------------------------------------------------------------

// DocCfg configures random trees.
type DocCfg struct {
	MaxNodes int
	MaxDepth int
	Unique   bool // siblings have different labels (record mode)
	JSONLike bool // numbers answer to several accessors
	Typed    bool // labels of all types, bytes and so on
}

var labelPool = []string{"a", "b", "c", "d", "ab", "e", "x", "y", "z", "w", "Aa", "BB"}
var stringPool = []string{"a", "b", "ab", "abc", "", "s", "xyz", "hello", "Aa", "BB", "\u00e9\u4e16", "a b", "a`b", "b\ra", "`,`", "\"\\", "\xff"}
var intPool = []int64{0, 1, 2, 5, -1, -5, 100, math.MaxInt64, math.MinInt64}
var uintPool = []uint64{0, 1, 2, 5, 100, math.MaxUint64}
var dblPool = []float64{0, 1, 2, 5, 0.5, -1.5, 1e10, 1e-7, 2e-7, 0.1, 1e300, -3e38}

func jsonNumber(i int64) Val {
	v := Val{HasI: true, I: i, HasD: true, D: float64(i)}
	if i >= 0 {
		v.HasU, v.U = true, uint64(i)
	}
	return v
}

func (r *Run) genScalar(cfg *DocCfg) Val {
	switch r.Int(8) {
	case 0, 1:
		return vS(r.poolText())
	case 2, 3:
		i := intPool[r.Int(len(intPool))]
		if cfg.JSONLike {
			return jsonNumber(i)
		}
		return vI(i)
	case 4:
		if cfg.JSONLike {
			return Val{HasD: true, D: dblPool[r.Int(len(dblPool))]}
		}
		return vD(dblPool[r.Int(len(dblPool))])
	case 5:
		return vB(r.Int(2) == 1)
	case 6:
		if cfg.JSONLike {
			return Val{} // null
		}
		return vU(uintPool[r.Int(len(uintPool))])
	default:
		if cfg.JSONLike {
			return vS(r.poolText())
		}
		return vY(r.poolText())
	}
}

func (r *Run) genLabel(cfg *DocCfg) Val {
	if cfg.Typed && r.Int(6) == 5 {
		return r.genScalar(cfg)
	}
	return vS(r.genLabelText())
}

// genLabelText gives one of a few labels, of which the last two have the same hash.
func (r *Run) genLabelText() string {
	if s, ok := r.twinText(); ok {
		return s
	}
	if k := r.Int(7); k < 6 {
		return labelPool[k]
	}
	return []string{"Aa", "BB"}[r.Int(2)]
}

// genForest makes a random forest. budget is decremented per node.
func (r *Run) genForest(cfg *DocCfg, depth int, budget *int) []*Node {
	var ns []*Node
	used := map[string]bool{}
	n := r.many(5)
	if isMany(n) {
		*budget += n
	}
	for i := 0; i < n && *budget > 0; i++ {
		*budget--
		if depth >= 1 && r.Int(3) == 0 && (!cfg.Unique || n == 1) {
			ns = append(ns, leaf(r.genScalar(cfg)))
			continue
		}
		l := r.genLabel(cfg)
		if cfg.Unique {
			if used[l.String()] {
				l = vS(labelPool[r.Int(len(labelPool))])
			}
			if used[l.String()] {
				continue
			}
			used[l.String()] = true
		}
		nd := inner(l)
		if depth+1 < cfg.MaxDepth {
			if r.Int(2) == 0 {
				nd.Kids = r.genForest(cfg, depth+1, budget)
			} else {
				*budget--
				nd.Kids = []*Node{leaf(r.genScalar(cfg))}
			}
		}
		ns = append(ns, nd)
	}
	return ns
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
