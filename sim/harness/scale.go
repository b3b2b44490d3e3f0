package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Few runs make documents that are out of the ordinary in one dimension: long texts, long lists, or deep
// nesting. Code that grows a stack, spills a buffer or writes a length in one more byte does so there.

const (
	scaleText = 1 + iota
	scaleList
	scaleDeep
	scaleStates // grammars only
)

var scaleNames = []string{"", "long-texts", "long-lists", "deep-documents", "many-states"}

// drawScale makes about one run in n one of those.
func (r *Run) drawScale(n int) {
	if r.scale != 0 || r.Int(n) != n-1 {
		return
	}
	r.scale = 1 + r.Int(3)
	r.scaleLeft = 1 + r.Int(3)
	r.Probe("scale:" + scaleNames[r.scale])
}

// spend says whether to go out of the ordinary here.
func (r *Run) spend(kind, one int) bool {
	if r.scale != kind || r.scaleLeft <= 0 || r.Int(one) != one-1 {
		return false
	}
	r.scaleLeft--
	return true
}

// many draws a number of elements in [0,n), or many.
func (r *Run) many(n int) int {
	if r.spend(scaleList, 3) {
		return []int{9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 256, 257}[r.Int(15)]
	}
	return r.Int(n)
}

// isMany says that n came from the rare case of many.
func isMany(n int) bool { return n > 8 }

// deepness is the number of containers to nest in each other at once.
func (r *Run) deepness() int {
	if r.spend(scaleDeep, 2) {
		return []int{8, 10, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 128, 130, 255, 257, 300, 520}[r.Int(19)]
	}
	return 0
}

var longLens = []int{16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 16383, 16384, 16385, 20000}

// longText is a long string over an alphabet, in a run that makes long texts.
func (r *Run) longText(alphabet []string) (string, bool) {
	if !r.spend(scaleText, 3) {
		return "", false
	}
	n := longLens[r.Int(len(longLens))]
	if r.Int(3) > 0 && n > 600 {
		n = longLens[r.Int(15)]
	}
	var unit []string
	for i := 1 + r.Int(4); i > 0; i-- {
		unit = append(unit, alphabet[r.Int(len(alphabet))])
	}
	mark := r.Int(2) == 1 // every part of it is different
	var sb strings.Builder
	for i := r.Int(4); i > 0; i-- {
		sb.WriteString(alphabet[r.Int(len(alphabet))])
	}
	for i := 0; sb.Len() < n; i++ {
		sb.WriteString(unit[i%len(unit)])
		if mark && i%8 == 7 {
			fmt.Fprintf(&sb, "%d", i)
		}
	}
	s := sb.String()
	for n > 0 && n < len(s) && !utf8.RuneStart(s[n]) {
		n--
	}
	return s[:n], true
}

var wordAlphabet = []string{"a", "b", "c", "x", "0", "_"}

// longLit is a long string of the grammar, or one that almost equals it.
func (r *Run) longLit() string {
	s := r.long
	switch r.Int(4) {
	case 2:
		return s[:len(s)-1]
	case 3:
		return s + "a"
	}
	return s
}

// width and depth bound the documents of validators.
func (r *Run) width() int {
	switch r.scale {
	case scaleList:
		return 70
	case scaleStates:
		return 3000
	}
	return 8
}

func (r *Run) depth() int {
	if r.scale == scaleDeep {
		return 140
	}
	return 8
}

// steps raises a limit in runs that make validators of many states.
func (r *Run) steps(e *engine, limit uint64) uint64 {
	if r.scale == scaleStates {
		if e.stateful && !strings.HasPrefix(e.name, "auto") {
			return limit * 20
		}
		return limit * 3
	}
	return limit
}

// manyPat makes a pattern that takes a validator through many different states.
func (r *Run) manyPat(cfg *GramCfg) *Pat {
	n := []int{100, 150, 300, 600, 1100}[r.Int(5)]
	if r.narrow {
		n = 100
	}
	labels := 1 + r.Int(3)
	mod := []int{1, 7, 50, n}[r.Int(4)]
	odd := 0
	if r.Int(2) == 1 {
		odd = 20
	}
	rest := &Pat{Op: '0'}
	if r.Int(3) == 2 {
		rest = r.genPat(cfg, 2, nil, nil, true)
	}
	for i := n - 1; i >= 0; i-- {
		l := &Pat{Op: 'l', Ex: &Ex{Op: "eq", Lit: vI(int64(i % mod)), Sugg: true}}
		p := &Pat{Op: 'n', Name: &NameE{Op: '=', Lit: vS(labelPool[r.Int(labels)])}, L: l}
		if odd > 0 && r.Int(odd) == odd-1 {
			switch r.Int(4) {
			case 0:
				p = &Pat{Op: '?', L: p}
			case 1:
				p = &Pat{Op: '+', L: p}
			case 2:
				p.L = &Pat{Op: '*'}
			default:
				p = &Pat{Op: 'n', Name: p.Name, L: p}
			}
		}
		rest = &Pat{Op: ',', L: p, R: rest}
	}
	if r.Int(4) == 3 {
		rest = &Pat{Op: '+', L: rest}
	}
	return rest
}

// manyDoc samples a document that goes through many of them.
func (r *Run) manyDoc(g *Gram, cfg *DocCfg) []*Node {
	b := 3000
	ns := r.sample(g, g.Main, cfg, 0, &b)
	switch r.Int(6) {
	case 3:
		return ns[:r.Int(len(ns)+1)]
	case 4:
		return r.mutateForest(ns, cfg)
	case 5:
		i := r.Int(len(ns) + 1)
		return append(append(append([]*Node{}, ns[:i]...), inner(r.genLabel(cfg))), ns[i:]...)
	}
	return ns
}

// nestGram makes a grammar whose documents may be deep.
func (r *Run) nestGram(g *Gram, cfg *GramCfg) {
	g.Names = append(g.Names, "rc")
	g.Decls["rc"] = &Pat{Op: 'n', Name: r.genName(cfg, 1), L: &Pat{Op: '|', L: &Pat{Op: '@', Ref: "rc"}, R: r.genPat(cfg, 1, nil, nil, true)}}
	rc := &Pat{Op: '@', Ref: "rc"}
	switch r.Int(4) {
	case 0:
		g.Main = rc
	case 1:
		g.Main = &Pat{Op: '|', L: g.Main, R: rc}
	case 2:
		g.Main = &Pat{Op: '.', L: rc}
	default:
		g.Main = &Pat{Op: '!', L: &Pat{Op: '|', L: rc, R: g.Main}}
	}
}

// nestedDoc samples such a document.
func (r *Run) nestedDoc(g *Gram, cfg *DocCfg) []*Node {
	p := g.Decls["rc"]
	b := 8
	ns := r.sample(g, p.L.R, cfg, 0, &b)
	k := r.deepness()
	if k > 140 {
		k = 140
	}
	for ; k > 0; k-- {
		ns = []*Node{inner(r.sampleName(p.Name, cfg), ns...)}
	}
	return ns
}

// poolText is a string of the pool, or a long one.
func (r *Run) poolText() string {
	if s, ok := r.longText(textAlphabet); ok {
		return s
	}
	if r.long != "" && r.Int(2) == 1 {
		return r.longLit()
	}
	return stringPool[r.Int(len(stringPool))]
}
