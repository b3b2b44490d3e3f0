// Command instr rewrites the library packages of /repo for simulation and emits a go build overlay.
//
// It never writes into /repo. For every non-test file of every library package it produces a copy in
// which
//
//   - every statement is preceded by a yield point, simrt.Y(site);
//   - iteration over a map is replaced by iteration in an order chosen by the simulator;
//   - time, sync and global math/rand are redirected to the simulator;
//   - go statements start simulated tasks.
//
// The rewriting is text insertion at positions found by go/parser and go/types, so whatever the
// source looks like (including after refactorings or planted changes) it is the code of the working
// tree that runs.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
}

type edit struct {
	pos  int
	end  int
	text string
	seq  int
}

const rtPath = "github.com/katydid/katydid/zzsimrt"

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "output directory")
	rtDir   = flag.String("rt", "", "simrt sources")
	harness = flag.String("harness", "", "harness sources")
	goMod   = flag.String("gomod", "", "go.mod to present")
	goSum   = flag.String("gosum", "", "go.sum to present")
	plain   = flag.Bool("plain", false, "do not instrument (overlay only adds the harness)")
)

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
}

func main() {
	flag.Parse()
	overlay := map[string]string{}
	overlay[filepath.Join(*repo, "go.mod")] = *goMod
	overlay[filepath.Join(*repo, "go.sum")] = *goSum
	for _, d := range []struct{ src, dst string }{{*rtDir, "zzsimrt"}, {*harness, "zzsim"}} {
		fs, err := filepath.Glob(filepath.Join(d.src, "*.go"))
		if err != nil || len(fs) == 0 {
			fail("no sources in %s", d.src)
		}
		for _, f := range fs {
			overlay[filepath.Join(*repo, d.dst, filepath.Base(f))] = f
		}
	}
	ovPath := filepath.Join(*out, "overlay.json")
	writeOverlay := func() {
		b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
		if err := os.WriteFile(ovPath, b, 0644); err != nil {
			fail("%v", err)
		}
	}
	writeOverlay()

	// packages of the repository
	args := []string{"list", "-overlay", ovPath, "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Error", "./..."}
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	outb, err := cmd.Output()
	if err != nil {
		fail("go list: %v\n%s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(outb))
	exports := map[string]string{}
	var pkgs []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Standard || !strings.HasPrefix(p.ImportPath, "github.com/katydid/katydid/") {
			continue
		}
		rel := strings.TrimPrefix(p.ImportPath, "github.com/katydid/katydid/")
		if p.Name == "main" || rel == "zzsimrt" || rel == "zzsim" || strings.HasSuffix(rel, "testsuite") || strings.HasSuffix(rel, "prototests") {
			continue
		}
		pp := p
		pkgs = append(pkgs, &pp)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	var sites []site
	stats := map[string]int{}
	if !*plain {
		for _, p := range pkgs {
			if p.Error != nil {
				fail("%s: %s", p.ImportPath, p.Error.Err)
			}
			instrumentPkg(fset, imp, p, overlay, &sites, stats)
		}
	}
	writeOverlay()
	b, _ := json.Marshal(map[string]interface{}{"sites": sites, "stats": stats})
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0644); err != nil {
		fail("%v", err)
	}
	fmt.Printf("instrumented %d packages, %d sites, %v\n", len(pkgs), len(sites), stats)
}

func instrumentPkg(fset *token.FileSet, imp types.Importer, p *listPkg, overlay map[string]string, sites *[]site, stats map[string]int) {
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			fail("%v", err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fail("%v", err)
		}
		files = append(files, af)
		names = append(names, path)
		srcs[path] = src
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fail("typecheck %s: %v", p.ImportPath, err)
	}
	for i, af := range files {
		path := names[i]
		if strings.HasSuffix(path, ".pb.go") {
			continue
		}
		in := &instrumenter{fset: fset, file: af, src: srcs[path], info: info, sites: sites, stats: stats, path: path}
		res, changed := in.run()
		if !changed {
			continue
		}
		rel, _ := filepath.Rel(*repo, path)
		dst := filepath.Join(*out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
			fail("%v", err)
		}
		if err := os.WriteFile(dst, res, 0644); err != nil {
			fail("%v", err)
		}
		overlay[path] = dst
	}
}

type instrumenter struct {
	fset   *token.FileSet
	file   *ast.File
	src    []byte
	info   *types.Info
	edits  []edit
	sites  *[]site
	stats  map[string]int
	path   string
	guards map[string]bool
	uid    int
}

// realOff ignores //line directives.
func (in *instrumenter) realOff(p token.Pos) int { return in.fset.PositionFor(p, false).Offset }

func (in *instrumenter) insert(p token.Pos, text string) {
	o := in.realOff(p)
	in.edits = append(in.edits, edit{o, o, text, len(in.edits)})
}

func (in *instrumenter) replace(from, to token.Pos, text string) {
	in.edits = append(in.edits, edit{in.realOff(from), in.realOff(to), text, len(in.edits)})
}

func (in *instrumenter) text(n ast.Node) string {
	return string(in.src[in.realOff(n.Pos()):in.realOff(n.End())])
}

func (in *instrumenter) site(p token.Pos) int {
	pos := in.fset.PositionFor(p, false)
	rel, _ := filepath.Rel(*repo, in.path)
	*in.sites = append(*in.sites, site{rel, pos.Line})
	return len(*in.sites) // ids start at 1
}

func (in *instrumenter) yield(p token.Pos) string {
	in.stats["yields"]++
	return fmt.Sprintf("zzsimrt.Y(%d);", in.site(p))
}

func (in *instrumenter) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
			continue
		}
		in.insert(s.Pos(), in.yield(s.Pos()))
	}
}

var timeFuncs = map[string]string{"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep"}
var syncTypes = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Pool": true, "Map": true, "WaitGroup": true, "Locker": true}
var randFuncs = map[string]bool{"Int": true, "Intn": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true, "Uint32": true, "Uint64": true, "Float32": true, "Float64": true, "ExpFloat64": true, "NormFloat64": true, "Perm": true, "Shuffle": true, "Seed": true, "Read": true}

func (in *instrumenter) run() ([]byte, bool) {
	in.guards = map[string]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				in.insert(x.Body.Lbrace+1, in.yield(x.Body.Lbrace))
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				in.insert(x.Body.Lbrace+1, in.yield(x.Body.Lbrace))
			}
			in.rangeStmt(x)
		case *ast.GoStmt:
			if in.goStmt(x) {
				return false
			}
		case *ast.SelectorExpr:
			in.selector(x)
		}
		return true
	})
	globals := in.globals()
	if len(in.edits) == 0 && globals == "" {
		return nil, false
	}
	// import: same line as the package clause, so that line numbers stay the same
	in.insert(in.file.Name.End(), "; import zzsimrt \""+rtPath+"\"")
	sort.SliceStable(in.edits, func(i, j int) bool {
		if in.edits[i].pos != in.edits[j].pos {
			return in.edits[i].pos < in.edits[j].pos
		}
		return in.edits[i].seq < in.edits[j].seq
	})
	var buf bytes.Buffer
	last := 0
	for _, e := range in.edits {
		if e.pos < last {
			fail("%s: overlapping edits at offset %d (%q)", in.path, e.pos, e.text)
		}
		buf.Write(in.src[last:e.pos])
		buf.WriteString(e.text)
		last = e.end
	}
	buf.Write(in.src[last:])
	buf.WriteString("\n")
	var gs []string
	for g := range in.guards {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		buf.WriteString(g + "\n")
	}
	buf.WriteString("var _ = zzsimrt.Y\n" + globals)
	return buf.Bytes(), true
}

// globals makes the variables of the package known to the simulator, which measures what they hold.
func (in *instrumenter) globals() string {
	var sb strings.Builder
	for _, d := range in.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			for _, id := range sp.(*ast.ValueSpec).Names {
				if id.Name == "_" {
					continue
				}
				rel, _ := filepath.Rel(*repo, filepath.Dir(in.path))
				fmt.Fprintf(&sb, "func init() { zzsimrt.Global(%q, &%s) }\n", rel+"."+id.Name, id.Name)
				in.stats["globals"]++
			}
		}
	}
	return sb.String()
}

func (in *instrumenter) rangeStmt(x *ast.RangeStmt) {
	tv, ok := in.info.Types[x.X]
	if !ok || tv.Type == nil {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	in.stats["map_ranges"]++
	in.uid++
	e := fmt.Sprintf("zzE%d", in.uid)
	tok := ":="
	if x.Tok == token.ASSIGN {
		tok = "="
	}
	isBlank := func(ex ast.Expr) bool {
		if ex == nil {
			return true
		}
		id, ok := ex.(*ast.Ident)
		return ok && id.Name == "_"
	}
	pre := fmt.Sprintf("if !%s.Live() { continue };", e)
	if !isBlank(x.Key) {
		pre += fmt.Sprintf("%s %s %s.K;", in.text(x.Key), tok, e)
	}
	if !isBlank(x.Value) {
		pre += fmt.Sprintf("%s %s %s.V();", in.text(x.Value), tok, e)
	}
	// "for" ... "range": replace everything between "for" and the range expression
	in.replace(x.For, x.X.Pos(), fmt.Sprintf("for _, %s := range zzsimrt.MapEntries(", e))
	in.insert(x.X.End(), ")")
	in.insert(x.Body.Lbrace+1, pre)
}

// goStmt reports whether the whole statement was replaced.
func (in *instrumenter) goStmt(x *ast.GoStmt) bool {
	in.stats["go_stmts"]++
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok && len(x.Call.Args) == 0 {
		in.replace(x.Go, fl.Pos(), "zzsimrt.Go(")
		in.replace(fl.End(), x.Call.End(), ")")
		return false
	}
	// go f(a, b): evaluate f and the arguments now
	var names, vals []string
	in.uid++
	names = append(names, fmt.Sprintf("zzF%d", in.uid))
	vals = append(vals, in.text(x.Call.Fun))
	var use []string
	for i, a := range x.Call.Args {
		n := fmt.Sprintf("zzA%d_%d", in.uid, i)
		names = append(names, n)
		vals = append(vals, in.text(a))
		use = append(use, n)
	}
	ell := ""
	if x.Call.Ellipsis != token.NoPos {
		ell = "..."
	}
	in.replace(x.Pos(), x.End(), fmt.Sprintf("{ %s := %s; zzsimrt.Go(func(){ %s(%s%s) }) }", strings.Join(names, ", "), strings.Join(vals, ", "), names[0], strings.Join(use, ", "), ell))
	return true
}

func (in *instrumenter) selector(x *ast.SelectorExpr) {
	id, ok := x.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	name := x.Sel.Name
	switch pn.Imported().Path() {
	case "time":
		if r, ok := timeFuncs[name]; ok {
			in.stats["time"]++
			in.replace(x.Pos(), x.End(), "zzsimrt."+r)
			in.guards["var _ = "+id.Name+".Now"] = true
		}
	case "sync":
		if syncTypes[name] {
			in.stats["sync"]++
			in.replace(x.Pos(), x.End(), "zzsimrt."+name)
			in.guards["var _ "+id.Name+".Locker"] = true
		}
	case "math/rand":
		if randFuncs[name] {
			in.stats["rand"]++
			in.replace(x.Pos(), x.End(), "zzsimrt.Rand()."+name)
			in.guards["var _ = "+id.Name+".Intn"] = true
		}
	case "runtime":
		if name == "Gosched" {
			in.replace(x.Pos(), x.End(), "zzsimrt.Gosched")
			in.guards["var _ = "+id.Name+".Gosched"] = true
		}
	}
}
