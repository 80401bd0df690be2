// Command instr copies the non-test Go sources of the repository under test
// into an output directory and rewrites them so that randomness (both
// variants) and scheduling (variant "sched") are decided by package vshim.
//
//	instr -src /repo -dst DIR -shim /verif/shim -variant plain|sched [-level N]
//
// level 2: everything; level 1: no select/go rewriting (fallback used only
// when the level 2 output does not compile, see check.sh).
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/mmadfox/go-gpsgen"
const shimPath = modPath + "/vshim"

// import path -> selector -> replacement in vshim
var randTable = map[string]map[string]string{
	"math/rand": {
		"New": "NewRand", "Rand": "Rand",
		"Float64": "RandFloat64", "Float32": "RandFloat32", "Intn": "RandIntn", "Int": "RandInt",
		"Int63": "RandInt63", "Int63n": "RandInt63n", "Int31": "RandInt31", "Int31n": "RandInt31n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "ExpFloat64": "RandExpFloat64", "NormFloat64": "RandNormFloat64",
		"Perm": "RandPerm", "Shuffle": "RandShuffle",
	},
	"math/rand/v2": {
		"Float64": "RandFloat64", "Float32": "RandFloat32", "IntN": "RandIntn", "Int": "RandInt",
		"Int64": "RandInt63", "Int64N": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Uint32N": "FastUint32n",
		"ExpFloat64": "RandExpFloat64", "NormFloat64": "RandNormFloat64",
	},
	"github.com/valyala/fastrand":       {"RNG": "FastRNG", "Uint32": "FastUint32", "Uint32n": "FastUint32n"},
	"github.com/google/uuid":            {"NewString": "UUIDString", "New": "UUIDNew", "NewRandom": "UUIDNewRandom"},
	"github.com/lucasb-eyer/go-colorful": {"FastHappyColor": "FastHappyColor", "HappyColor": "FastHappyColor", "FastWarmColor": "FastHappyColor", "WarmColor": "FastHappyColor"},
}

var schedTable = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues", "WaitGroup": "WaitGroup"},
}

// packages (relative dirs) whose statements become scheduling points
var pointDirs = map[string]int{".": 0, "navigator": 2, "types": 3, "random": 4, "curve": 5, "properties": 6}

var (
	variant string
	level   int
	nextID  int
	sites   []string
)

func main() {
	src := flag.String("src", "/repo", "")
	dst := flag.String("dst", "", "")
	shim := flag.String("shim", "", "")
	flag.StringVar(&variant, "variant", "plain", "")
	flag.IntVar(&level, "level", 2, "")
	flag.Parse()
	if *dst == "" {
		die("no -dst")
	}
	os.RemoveAll(*dst)
	must(os.MkdirAll(*dst, 0o755))
	err := filepath.Walk(*src, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, path)
		if info.IsDir() {
			base := info.Name()
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "examples" || base == "testdata" || base == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		name := info.Name()
		if rel == "go.mod" || rel == "go.sum" {
			copyFile(path, filepath.Join(*dst, rel))
			return nil
		}
		if !strings.HasSuffix(name, ".go") || strings.HasSuffix(name, "_test.go") {
			return nil
		}
		out := filepath.Join(*dst, rel)
		must(os.MkdirAll(filepath.Dir(out), 0o755))
		if strings.HasSuffix(name, ".pb.go") {
			copyFile(path, out)
			return nil
		}
		return rewrite(path, filepath.Dir(rel), rel, out)
	})
	must(err)
	must(os.MkdirAll(filepath.Join(*dst, "vshim"), 0o755))
	ents, err := os.ReadDir(*shim)
	must(err)
	for _, e := range ents {
		if !e.IsDir() {
			copyFile(filepath.Join(*shim, e.Name()), filepath.Join(*dst, "vshim", e.Name()))
		}
	}
	var b bytes.Buffer
	b.WriteString("package vshim\n\nfunc init() {\n\tsiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	must(os.WriteFile(filepath.Join(*dst, "vshim", "sites_gen.go"), b.Bytes(), 0o644))
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}
func must(err error) {
	if err != nil {
		die("%v", err)
	}
}
func copyFile(a, b string) {
	data, err := os.ReadFile(a)
	must(err)
	must(os.WriteFile(b, data, 0o644))
}

type rw struct {
	fset    *token.FileSet
	file    string
	imports map[string]string // local name -> path
	used    bool
	points  bool
	class   int
}

func rewrite(path, dir, rel, out string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		return err
	}
	r := &rw{fset: fset, file: rel, imports: map[string]string{}}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := pkgName(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		r.imports[name] = p
	}
	var class int
	class, r.points = pointDirs[dir]
	r.points = r.points && variant == "sched"

	// 1. selector replacement
	keep := map[string]string{} // local import name -> a selector proving use
	ast.Inspect(f, func(n ast.Node) bool {
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := r.imports[id.Name]
		if !ok {
			return true
		}
		rep := randTable[p][sel.Sel.Name]
		if rep == "" && variant == "sched" {
			rep = schedTable[p][sel.Sel.Name]
		}
		if rep != "" {
			keep[id.Name] = p
			id.Name = "vshim"
			sel.Sel = ast.NewIdent(rep)
			r.used = true
		}
		return true
	})

	// 2. scheduling points, go, select
	if r.points {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				// func literals in var decls
				r.class = class
				r.walkLits(d)
				continue
			}
			if fd.Body == nil {
				continue
			}
			r.class = class
			if dir == "." && fd.Recv != nil && len(fd.Recv.List) == 1 && strings.Contains(typeString(fd.Recv.List[0].Type), "Device") {
				r.class = 1
			}
			fd.Body = r.block(fd.Body)
		}
	}
	if r.used {
		addImport(f, shimPath)
	}
	var buf bytes.Buffer
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
	if err := cfg.Fprint(&buf, fset, f); err != nil {
		return err
	}
	names := make([]string, 0, len(keep))
	for name := range keep {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		fmt.Fprintf(&buf, "\nvar _ %s.%s\n", name, keepType(keep[name]))
	}
	return os.WriteFile(out, fixKeeps(buf.Bytes()), 0o644)
}

// keepType names a type exported by the package, so that the import stays used.
func keepType(p string) string {
	switch p {
	case "math/rand", "math/rand/v2":
		return "Source"
	case "sync":
		return "Locker"
	case "github.com/valyala/fastrand":
		return "RNG"
	case "github.com/google/uuid":
		return "UUID"
	case "github.com/lucasb-eyer/go-colorful":
		return "Color"
	}
	return ""
}
func fixKeeps(b []byte) []byte { return b }

func pkgName(p string) string {
	if p == "math/rand/v2" {
		return "rand"
	}
	b := p[strings.LastIndex(p, "/")+1:]
	if b == "go-colorful" {
		return "colorful"
	}
	return b
}

func typeString(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.StarExpr:
		return typeString(x.X)
	case *ast.Ident:
		return x.Name
	case *ast.IndexExpr:
		return typeString(x.X)
	}
	return ""
}

func addImport(f *ast.File, path string) {
	spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	d := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
	f.Decls = append([]ast.Decl{d}, f.Decls...)
	f.Imports = append(f.Imports, spec)
}

func (r *rw) site(n ast.Node) int {
	pos := r.fset.Position(n.Pos())
	sites = append(sites, fmt.Sprintf("%d:%s:%d", r.class, r.file, pos.Line))
	r.used = true
	return len(sites) - 1
}

func (r *rw) point(n ast.Node) ast.Stmt {
	return &ast.ExprStmt{X: vcall("P", intLit(r.site(n)))}
}

func vcall(fn string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vshim"), Sel: ast.NewIdent(fn)}, Args: args}
}
func intLit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: intLit(-i)}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}
func (r *rw) tmp(s string) string { nextID++; return fmt.Sprintf("v_%s%d", s, nextID) }

func (r *rw) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = r.stmts(b.List)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.point(b)}
	}
	return b
}

func (r *rw) stmts(in []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(in))
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			out = append(out, s)
			continue
		}
		out = append(out, r.point(s))
		if blocks(s) {
			r.used = true
			out = append(out, &ast.ExprStmt{X: vcall("Blocking")})
		}
		out = append(out, r.stmt(s, ""))
	}
	return out
}

// blocks reports whether a simple statement contains a channel operation or a Wait call.
func blocks(s ast.Stmt) (yes bool) {
	switch s.(type) {
	case *ast.SendStmt:
		return true
	case *ast.SelectStmt:
		return level < 2
	case *ast.ExprStmt, *ast.AssignStmt, *ast.DeclStmt, *ast.ReturnStmt:
	default:
		return false
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.UnaryExpr:
			yes = yes || x.Op == token.ARROW
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Wait" {
				yes = true
			}
		}
		return true
	})
	return
}

// walkLits instruments function literals nested in expressions.
func (r *rw) walkLits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			fl.Body = r.block(fl.Body)
			return false
		}
		return true
	})
}

func (r *rw) stmt(s ast.Stmt, label string) ast.Stmt {
	switch x := s.(type) {
	case *ast.BlockStmt:
		return r.block(x)
	case *ast.IfStmt:
		if x.Init != nil {
			r.walkLits(x.Init)
		}
		r.walkLits(x.Cond)
		x.Body = r.block(x.Body)
		if x.Else != nil {
			x.Else = r.stmt(x.Else, "")
		}
		return x
	case *ast.ForStmt:
		if x.Init != nil {
			r.walkLits(x.Init)
		}
		if x.Cond != nil {
			r.walkLits(x.Cond)
		}
		if x.Post != nil {
			r.walkLits(x.Post)
		}
		x.Body = r.block(x.Body)
		return x
	case *ast.RangeStmt:
		r.walkLits(x.X)
		x.Body = r.block(x.Body)
		return x
	case *ast.SwitchStmt:
		if x.Init != nil {
			r.walkLits(x.Init)
		}
		if x.Tag != nil {
			r.walkLits(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.walkLits(e)
			}
			cc.Body = r.stmts(cc.Body)
		}
		return x
	case *ast.TypeSwitchStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = r.stmts(cc.Body)
		}
		return x
	case *ast.SelectStmt:
		if level < 2 || len(x.Body.List) == 0 {
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				cc.Body = r.stmts(cc.Body)
			}
			return x
		}
		return r.selectStmt(x, label)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok && level >= 2 && len(sel.Body.List) > 0 {
			return r.selectStmt(sel, x.Label.Name)
		}
		x.Stmt = r.stmt(x.Stmt, x.Label.Name)
		return x
	case *ast.GoStmt:
		return r.goStmt(x)
	default:
		r.walkLits(s)
		return s
	}
}

var builtins = map[string]bool{"close": true, "panic": true, "print": true, "println": true, "delete": true, "copy": true, "clear": true}

func (r *rw) goStmt(x *ast.GoStmt) ast.Stmt {
	r.walkLits(x.Call)
	r.used = true
	call := x.Call
	wrap := func(c *ast.CallExpr) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	}
	if id, ok := call.Fun.(*ast.Ident); (ok && builtins[id.Name]) || level < 2 {
		return &ast.ExprStmt{X: vcall("Go", wrap(call))}
	}
	var list []ast.Stmt
	fn := r.tmp("f")
	list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(fn)}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
	nc := &ast.CallExpr{Fun: ast.NewIdent(fn), Ellipsis: call.Ellipsis}
	for _, a := range call.Args {
		switch a.(type) {
		case *ast.BasicLit, *ast.FuncLit:
			nc.Args = append(nc.Args, a)
			continue
		}
		if id, ok := a.(*ast.Ident); ok && (id.Name == "nil" || id.Name == "true" || id.Name == "false") {
			nc.Args = append(nc.Args, a)
			continue
		}
		t := r.tmp("a")
		list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		nc.Args = append(nc.Args, ast.NewIdent(t))
	}
	list = append(list, &ast.ExprStmt{X: vcall("Go", wrap(nc))})
	return &ast.BlockStmt{List: list}
}

func def(names []string, rhs ast.Expr) ast.Stmt {
	return asg(names, token.DEFINE, rhs)
}
func asg(names []string, tok token.Token, rhs ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, ast.NewIdent(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: tok, Rhs: []ast.Expr{rhs}}
}

func (r *rw) selectStmt(x *ast.SelectStmt, label string) ast.Stmt {
	site := r.site(x)
	var list []ast.Stmt
	type cs struct {
		send     bool
		ch       string
		val, ok  string
		sendVal  ast.Expr
		clause   *ast.CommClause
		lhs      []ast.Expr
		tok      token.Token
	}
	var cases []*cs
	var deflt *ast.CommClause
	unparen := func(e ast.Expr) ast.Expr {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				return e
			}
			e = p.X
		}
	}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			deflt = cc
			continue
		}
		k := &cs{clause: cc, ch: r.tmp("c")}
		var chExpr ast.Expr
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			k.send = true
			chExpr = m.Chan
			k.sendVal = m.Value
			switch m.Value.(type) {
			case *ast.BasicLit, *ast.Ident, *ast.CompositeLit, *ast.SelectorExpr:
			default:
				t := r.tmp("s")
				r.walkLits(m.Value)
				k.sendVal = ast.NewIdent(t)
				list = append(list, def([]string{t}, m.Value))
			}
		case *ast.ExprStmt:
			chExpr = unparen(m.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			chExpr = unparen(m.Rhs[0]).(*ast.UnaryExpr).X
			k.lhs, k.tok = m.Lhs, m.Tok
		}
		r.walkLits(chExpr)
		list = append(list, def([]string{k.ch}, chExpr))
		if !k.send {
			k.val, k.ok = r.tmp("v"), r.tmp("o")
			list = append(list, def([]string{k.val, k.ok}, vcall("ZeroOf", ast.NewIdent(k.ch))))
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(k.val), ast.NewIdent(k.ok)}})
		}
		cases = append(cases, k)
	}
	n := len(cases)
	vk, vi, vg := r.tmp("k"), r.tmp("i"), r.tmp("g")
	list = append(list, def([]string{vk}, intLit(-1)))
	// try loop
	sw := &ast.SwitchStmt{Tag: ast.NewIdent(vi), Body: &ast.BlockStmt{}}
	for i, k := range cases {
		var body []ast.Stmt
		set := &ast.BlockStmt{List: []ast.Stmt{asg([]string{vk}, token.ASSIGN, intLit(i))}}
		if k.send {
			body = append(body, &ast.IfStmt{Cond: vcall("TrySend", ast.NewIdent(k.ch), k.sendVal), Body: set})
		} else {
			body = append(body,
				&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(vg)}, Type: ast.NewIdent("bool")}}}},
				asg([]string{k.val, k.ok, vg}, token.ASSIGN, vcall("TryRecv", ast.NewIdent(k.ch))),
				&ast.IfStmt{Cond: ast.NewIdent(vg), Body: set})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(i)}, Body: body})
	}
	list = append(list, &ast.RangeStmt{Key: ast.NewIdent("_"), Value: ast.NewIdent(vi), Tok: token.DEFINE,
		X: vcall("Order", intLit(site), intLit(n)),
		Body: &ast.BlockStmt{List: []ast.Stmt{sw,
			&ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(vk), Op: token.GEQ, Y: intLit(0)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}}})
	if deflt == nil {
		fs := &ast.SelectStmt{Body: &ast.BlockStmt{}}
		for i, k := range cases {
			var comm ast.Stmt
			if k.send {
				comm = &ast.SendStmt{Chan: ast.NewIdent(k.ch), Value: k.sendVal}
			} else {
				comm = asg([]string{k.val, k.ok}, token.ASSIGN, &ast.UnaryExpr{Op: token.ARROW, X: ast.NewIdent(k.ch)})
			}
			fs.Body.List = append(fs.Body.List, &ast.CommClause{Comm: comm, Body: []ast.Stmt{asg([]string{vk}, token.ASSIGN, intLit(i))}})
		}
		list = append(list, &ast.IfStmt{Cond: &ast.BinaryExpr{X: ast.NewIdent(vk), Op: token.LSS, Y: intLit(0)}, Body: &ast.BlockStmt{List: []ast.Stmt{fs, &ast.ExprStmt{X: vcall("Woke", intLit(site))}}}})
	}
	list = append(list, &ast.ExprStmt{X: vcall("Chosen", intLit(site), ast.NewIdent(vk))})
	body := &ast.SwitchStmt{Tag: ast.NewIdent(vk), Body: &ast.BlockStmt{}}
	for i, k := range cases {
		var b []ast.Stmt
		if len(k.lhs) > 0 {
			for j, l := range k.lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					continue
				}
				src := k.val
				if j == 1 {
					src = k.ok
				}
				b = append(b, &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: k.tok, Rhs: []ast.Expr{ast.NewIdent(src)}})
			}
		}
		b = append(b, r.stmts(k.clause.Body)...)
		cc := &ast.CaseClause{List: []ast.Expr{intLit(i)}, Body: b}
		if deflt == nil && i == n-1 {
			cc.List = nil
		}
		body.Body.List = append(body.Body.List, cc)
	}
	if deflt != nil {
		body.Body.List = append(body.Body.List, &ast.CaseClause{Body: r.stmts(deflt.Body)})
	}
	var last ast.Stmt = body
	if label != "" {
		last = &ast.LabeledStmt{Label: ast.NewIdent(label), Stmt: body}
	}
	list = append(list, last)
	return &ast.BlockStmt{List: list}
}
