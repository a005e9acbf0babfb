// Command instrument writes a copy of a module's non-test code in which every
// source of nondeterminism goes through the simulator: a yield point before
// every statement, and the simulator's goroutines, channels, select, locks,
// contexts, timers and map order in place of the runtime's.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const simPkg = "verifsim"
const alias = "zz_sim"

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Module     *struct{ Path string }
}

func main() {
	src := flag.String("src", "", "module to copy")
	out := flag.String("out", "", "where to write it")
	simDir := flag.String("sim", "", "directory of the simulator module")
	sites := flag.String("sites", "", "where to write the table of yield points")
	flag.Parse()
	log.SetFlags(0)
	log.SetPrefix("instrument: ")

	modPath, goVer := copyModule(*src, *out)

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Module", "./...")
	cmd.Dir = *out
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	var pkgs []*pkgInfo
	for dec := json.NewDecoder(bytes.NewReader(data)); ; {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		pkgs = append(pkgs, p)
	}

	fset := token.NewFileSet()
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	own := map[string]*types.Package{}
	imp := importerFunc(func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		if p := own[path]; p != nil {
			return p, nil
		}
		return gc.Import(path)
	})

	x := &inst{fset: fset}
	for _, p := range pkgs {
		if p.Module == nil || p.Module.Path != modPath {
			continue
		}
		x.pkg(p, imp, own, goVer)
	}
	if err := os.WriteFile(filepath.Join(*out, "go.mod"),
		[]byte(fmt.Sprintf("module %s\n\ngo %s\n\nrequire %s v0.0.0\n\nreplace %s => %s\n", modPath, goVer, simPkg, simPkg, *simDir)), 0o644); err != nil {
		log.Fatal(err)
	}
	if *sites != "" {
		if err := os.WriteFile(*sites, []byte(strings.Join(x.sites, "\n")+"\n"), 0o644); err != nil {
			log.Fatal(err)
		}
	}
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func copyModule(src, out string) (modPath, goVer string) {
	goVer = "1.19"
	f, err := os.Open(filepath.Join(src, "go.mod"))
	if err != nil {
		log.Fatal(err)
	}
	for sc := bufio.NewScanner(f); sc.Scan(); {
		w := strings.Fields(sc.Text())
		if len(w) >= 2 && w[0] == "module" {
			modPath = strings.Trim(w[1], `"`)
		}
		if len(w) == 2 && w[0] == "go" {
			goVer = w[1]
		}
	}
	f.Close()
	ctx := build.Default
	err = filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if fi.IsDir() {
			n := fi.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		if ok, err := ctx.MatchFile(filepath.Dir(path), filepath.Base(path)); err != nil || !ok {
			return err
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		// the old name of the standard library's package
		data = bytes.ReplaceAll(data, []byte(`"golang.org/x/net/context"`), []byte(`"context"`))
		dst := filepath.Join(out, rel)
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		return os.WriteFile(dst, data, 0o644)
	})
	if err != nil {
		log.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), []byte("module "+modPath+"\n\ngo "+goVer+"\n"), 0o644); err != nil {
		log.Fatal(err)
	}
	return
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	sites []string
	n     int

	file     *ast.File
	used     bool
	replaced map[string]int // uses of a package name taken away in this file
	rel      string
}

func (x *inst) pkg(p *pkgInfo, imp types.Importer, own map[string]*types.Package, goVer string) {
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(x.fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			log.Fatal(err)
		}
		files = append(files, f)
	}
	x.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go" + goVer}
	tp, err := conf.Check(p.ImportPath, x.fset, files, x.info)
	if err != nil {
		log.Fatal(err)
	}
	own[p.ImportPath] = tp
	for i, f := range files {
		x.rel = strings.TrimPrefix(p.ImportPath+"/"+p.GoFiles[i], "github.com/rossmerr/graphblas/")
		x.rewriteFile(f)
		var b bytes.Buffer
		if err := format.Node(&b, x.fset, f); err != nil {
			log.Fatalf("%s: %v", x.rel, err)
		}
		if err := os.WriteFile(filepath.Join(p.Dir, p.GoFiles[i]), b.Bytes(), 0o644); err != nil {
			log.Fatal(err)
		}
	}
}

func (x *inst) rewriteFile(f *ast.File) {
	x.file, x.used, x.replaced = f, false, map[string]int{}
	uses := map[string]int{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := x.info.Uses[id].(*types.PkgName); ok {
				uses[pn.Imported().Path()]++
			}
		}
		return true
	})
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			x.children(reflect.ValueOf(d.Type))
			if d.Recv != nil {
				x.children(reflect.ValueOf(d.Recv))
			}
			if d.Body != nil {
				d.Body.List = x.list(d.Body.List)
			}
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				x.genDecl(d)
			}
		}
	}
	// imports
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		var keep []ast.Spec
		for _, s := range g.Specs {
			path, _ := strconv.Unquote(s.(*ast.ImportSpec).Path.Value)
			if x.replaced[path] > 0 && x.replaced[path] >= uses[path] {
				continue
			}
			keep = append(keep, s)
		}
		g.Specs = keep
		if len(keep) > 1 && !g.Lparen.IsValid() {
			g.Lparen = g.TokPos
		}
	}
	if x.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(alias), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPkg)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT && len(g.Specs) == 0 {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}

func (x *inst) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					s.Values[0] = x.call("Recv2", x.expr(u.X))
				}
			}
			if s.Type != nil {
				s.Type = x.expr(s.Type)
			}
			for i := range s.Values {
				s.Values[i] = x.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			x.children(reflect.ValueOf(s))
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *inst) sim(name string) ast.Expr {
	x.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(alias), Sel: ast.NewIdent(name)}
}

func (x *inst) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: x.sim(name), Args: args}
}

func (x *inst) fresh(p string) *ast.Ident {
	x.n++
	return ast.NewIdent(fmt.Sprintf("zz_%s%d", p, x.n))
}

func method(recv ast.Expr, name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: recv, Sel: ast.NewIdent(name)}, Args: args}
}

func define(lhs, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func (x *inst) yield(pos token.Pos) ast.Stmt {
	p := x.fset.Position(pos)
	x.sites = append(x.sites, fmt.Sprintf("%s:%d", x.rel, p.Line))
	return &ast.ExprStmt{X: x.call("Y", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(x.sites) - 1)})}
}

// list instruments a list of statements.
func (x *inst) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			out = append(out, x.yield(s.Pos()))
		}
		out = append(out, x.stmt(s, nil))
	}
	return out
}

func (x *inst) body(b *ast.BlockStmt) {
	b.List = x.list(b.List)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{x.yield(b.Pos())}
	}
}

func (x *inst) under(e ast.Expr) types.Type {
	t := x.info.TypeOf(e)
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func labeled(label *ast.Ident, s ast.Stmt) ast.Stmt {
	if label == nil {
		return s
	}
	return &ast.LabeledStmt{Label: label, Stmt: s}
}

func (x *inst) stmt(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.LabeledStmt:
		return x.stmt(s.Stmt, s.Label)
	case *ast.BlockStmt:
		s.List = x.list(s.List)
	case *ast.IfStmt:
		s.Init = x.stmt0(s.Init)
		s.Cond = x.expr(s.Cond)
		s.Body.List = x.list(s.Body.List)
		s.Else = x.stmt0(s.Else)
	case *ast.ForStmt:
		s.Init = x.stmt0(s.Init)
		if s.Cond != nil {
			s.Cond = x.expr(s.Cond)
		}
		s.Post = x.stmt0(s.Post)
		x.body(s.Body)
	case *ast.RangeStmt:
		return x.rangeStmt(s, label)
	case *ast.SwitchStmt:
		s.Init = x.stmt0(s.Init)
		if s.Tag != nil {
			s.Tag = x.expr(s.Tag)
		}
		x.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = x.stmt0(s.Init)
		s.Assign = x.stmt0(s.Assign)
		x.clauses(s.Body)
	case *ast.SelectStmt:
		return x.selectStmt(s, label)
	case *ast.GoStmt:
		return labeled(label, x.goStmt(s))
	case *ast.SendStmt:
		return labeled(label, &ast.ExprStmt{X: &ast.CallExpr{Fun: x.call("SendTo", x.expr(s.Chan)), Args: []ast.Expr{x.expr(s.Value)}}})
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Rhs[0] = x.call("Recv2", x.expr(u.X))
				for i := range s.Lhs {
					s.Lhs[i] = x.expr(s.Lhs[i])
				}
				break
			}
		}
		x.children(reflect.ValueOf(s))
	case *ast.DeclStmt:
		x.genDecl(s.Decl.(*ast.GenDecl))
	default:
		x.children(reflect.ValueOf(s))
	}
	return labeled(label, s)
}

func (x *inst) stmt0(s ast.Stmt) ast.Stmt {
	if s == nil || reflect.ValueOf(s).IsNil() {
		return nil
	}
	return x.stmt(s, nil)
}

func (x *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			cc.List[i] = x.expr(cc.List[i])
		}
		cc.Body = x.list(cc.Body)
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func (x *inst) rangeStmt(s *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	switch x.under(s.X).(type) {
	case *types.Chan:
		it := x.fresh("r")
		b := &ast.BlockStmt{List: []ast.Stmt{define(it, x.call("NewRange", x.expr(s.X)))}}
		cond := method(it, "Skip")
		if !isBlank(s.Key) {
			k := x.expr(s.Key)
			if s.Tok == token.DEFINE {
				b.List = append(b.List, define(k, method(it, "Zero")))
			}
			cond = method(it, "Next", addr(k))
		}
		x.body(s.Body)
		b.List = append(b.List, labeled(label, &ast.ForStmt{Cond: cond, Body: s.Body}))
		return b
	case *types.Map:
		it := x.fresh("m")
		b := &ast.BlockStmt{List: []ast.Stmt{define(it, x.call("NewMapIter", x.expr(s.X)))}}
		var k, v ast.Expr = ast.NewIdent("nil"), ast.NewIdent("nil")
		if !isBlank(s.Key) {
			k = x.expr(s.Key)
			if s.Tok == token.DEFINE {
				b.List = append(b.List, define(k, method(it, "ZeroKey")))
			}
			k = addr(k)
		}
		if !isBlank(s.Value) {
			v = x.expr(s.Value)
			if s.Tok == token.DEFINE {
				b.List = append(b.List, define(v, method(it, "ZeroVal")))
			}
			v = addr(v)
		}
		x.body(s.Body)
		b.List = append(b.List, labeled(label, &ast.ForStmt{Cond: method(it, "Next", k, v), Body: s.Body}))
		return b
	}
	if s.Key != nil {
		s.Key = x.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = x.expr(s.Value)
	}
	s.X = x.expr(s.X)
	x.body(s.Body)
	return labeled(label, s)
}

func (x *inst) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	sel := x.fresh("s")
	b := &ast.BlockStmt{List: []ast.Stmt{define(sel, x.call("NewSel"))}}
	sw := &ast.SwitchStmt{Tag: method(sel, "Do"), Body: &ast.BlockStmt{}}
	n := 0
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		cl := &ast.CaseClause{}
		var first []ast.Stmt
		if cc.Comm == nil {
			hasDefault = true
			b.List = append(b.List, &ast.ExprStmt{X: method(sel, "Default")})
		} else {
			cl.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
			n++
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				b.List = append(b.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: x.call("SelSend", sel, x.expr(cm.Chan)), Args: []ast.Expr{x.expr(cm.Value)}}})
			case *ast.ExprStmt:
				u := unparen(cm.X).(*ast.UnaryExpr)
				b.List = append(b.List, &ast.ExprStmt{X: x.call("SelRecv", sel, x.expr(u.X))})
			case *ast.AssignStmt:
				u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
				rc := x.fresh("c")
				b.List = append(b.List, define(rc, x.call("SelRecv", sel, x.expr(u.X))))
				get := "V"
				if len(cm.Lhs) == 2 {
					get = "Get"
				}
				for i := range cm.Lhs {
					cm.Lhs[i] = x.expr(cm.Lhs[i])
				}
				allBlank := true
				for _, l := range cm.Lhs {
					allBlank = allBlank && isBlank(l)
				}
				tok := cm.Tok
				if allBlank {
					tok = token.ASSIGN
				}
				first = []ast.Stmt{&ast.AssignStmt{Lhs: cm.Lhs, Tok: tok, Rhs: []ast.Expr{method(rc, get)}}}
			}
		}
		cl.Body = append(first, x.list(cc.Body)...)
		sw.Body.List = append(sw.Body.List, cl)
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"verifsim: no case"`}}}}}})
	}
	b.List = append(b.List, labeled(label, sw))
	return b
}

func (x *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	b := &ast.BlockStmt{}
	isConst := func(e ast.Expr) bool {
		tv := x.info.Types[e]
		return tv.Value != nil || tv.IsNil() || tv.IsType()
	}
	builtin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		_, builtin = x.info.Uses[id].(*types.Builtin)
	}
	multi := false
	if len(c.Args) == 1 {
		if t, ok := x.info.TypeOf(c.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			multi = true
			var lhs []ast.Expr
			for i := 0; i < t.Len(); i++ {
				lhs = append(lhs, x.fresh("a"))
			}
			b.List = append(b.List, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{x.expr(c.Args[0])}})
			c.Args = lhs
		}
	}
	// the function value
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		c.Fun = x.expr(f)
	case *ast.SelectorExpr:
		_, isPkg := x.info.Uses[identOf(f.X)].(*types.PkgName)
		if !isPkg && !x.info.Types[f.X].IsType() {
			v := x.fresh("f")
			b.List = append(b.List, define(v, x.expr(f)))
			c.Fun = v
		} else {
			c.Fun = x.expr(f)
		}
	case *ast.Ident:
		if v, ok := x.info.Uses[f].(*types.Var); ok && v != nil {
			n := x.fresh("f")
			b.List = append(b.List, define(n, f))
			c.Fun = n
		}
	default:
		if x.info.Types[c.Fun].IsValue() && !isGenericFunc(x, c.Fun) {
			n := x.fresh("f")
			b.List = append(b.List, define(n, x.expr(c.Fun)))
			c.Fun = n
		} else {
			c.Fun = x.expr(c.Fun)
		}
	}
	if !multi {
		for i, a := range c.Args {
			if isConst(a) {
				continue
			}
			if _, lit := unparen(a).(*ast.FuncLit); lit {
				c.Args[i] = x.expr(a)
				continue
			}
			v := x.fresh("a")
			b.List = append(b.List, define(v, x.expr(a)))
			c.Args[i] = v
		}
	}
	var call ast.Expr = c
	if builtin {
		call = x.builtinCall(c, x.info.TypeOf(s.Call))
	}
	b.List = append(b.List, &ast.ExprStmt{X: x.call("Go", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}})})
	return b
}

func identOf(e ast.Expr) *ast.Ident {
	id, _ := e.(*ast.Ident)
	return id
}

func isGenericFunc(x *inst, e ast.Expr) bool {
	switch i := e.(type) {
	case *ast.IndexExpr:
		return isFuncName(x, i.X)
	case *ast.IndexListExpr:
		return isFuncName(x, i.X)
	}
	return false
}

func isFuncName(x *inst, e ast.Expr) bool {
	switch f := e.(type) {
	case *ast.Ident:
		_, ok := x.info.Uses[f].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		_, ok := x.info.Uses[f.Sel].(*types.Func)
		return ok
	}
	return false
}

func (x *inst) builtinCall(c *ast.CallExpr, _ types.Type) ast.Expr {
	if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "close" {
		return x.call("Close", c.Args[0])
	}
	return c
}

var replace = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Sleep": "Sleep", "After": "After", "Now": "TimeNow", "Since": "Since", "Until": "Until", "NewTimer": "NewTimer",
		"Timer": "Timer", "AfterFunc": "TimeAfterFunc", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick"},
	"context": {"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithDeadline": "WithDeadline",
		"WithTimeout": "WithTimeout", "WithDeadlineCause": "WithDeadlineCause", "WithTimeoutCause": "WithTimeoutCause", "Cause": "Cause", "AfterFunc": "AfterFunc"},
	"runtime": {"Gosched": "Yield", "NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS"},
}

func (x *inst) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	switch e := e.(type) {
	case *ast.FuncLit:
		x.children(reflect.ValueOf(e.Type))
		e.Body.List = x.list(e.Body.List)
		return e
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return x.call("Recv", x.expr(e.X))
		}
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok && len(e.Args) == 1 {
			if _, ok := x.info.Uses[id].(*types.Builtin); ok {
				ch, isChan := x.under(e.Args[0]).(*types.Chan)
				switch {
				case id.Name == "close":
					return x.call("Close", x.expr(e.Args[0]))
				case id.Name == "len" && isChan && ch.Dir() == types.SendOnly:
					return x.call("LenSend", x.expr(e.Args[0]))
				case id.Name == "len" && isChan:
					return x.call("Len", x.expr(e.Args[0]))
				}
			}
		}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := x.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if n := replace[path][e.Sel.Name]; n != "" {
					x.replaced[path]++
					return x.sim(n)
				}
				if path == "math/rand" {
					if f, ok := x.info.Uses[e.Sel].(*types.Func); ok && !strings.HasPrefix(f.Name(), "New") {
						x.replaced[path]++
						return &ast.SelectorExpr{X: x.call("Rand"), Sel: ast.NewIdent(e.Sel.Name)}
					}
				}
				return e
			}
		}
	}
	x.children(reflect.ValueOf(e))
	return e
}

var (
	exprType  = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType  = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType  = reflect.TypeOf((*ast.Node)(nil)).Elem()
	identType = reflect.TypeOf((*ast.Ident)(nil))
	blockType = reflect.TypeOf((*ast.BlockStmt)(nil))
)

// children rewrites the expressions below a node.
func (x *inst) children(v reflect.Value) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == identType:
		case f.Type() == blockType:
			if !f.IsNil() {
				b := f.Interface().(*ast.BlockStmt)
				b.List = x.list(b.List)
			}
		case f.Type() == exprType:
			if !f.IsNil() {
				f.Set(reflect.ValueOf(x.expr(f.Interface().(ast.Expr))))
			}
		case f.Kind() == reflect.Slice && f.Type().Elem() == exprType:
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					f.Index(j).Set(reflect.ValueOf(x.expr(f.Index(j).Interface().(ast.Expr))))
				}
			}
		case f.Kind() == reflect.Slice && f.Type().Elem().Implements(nodeType) && f.Type().Elem().Kind() == reflect.Ptr && f.Type().Elem() != identType:
			for j := 0; j < f.Len(); j++ {
				x.children(f.Index(j))
			}
		case f.Kind() == reflect.Ptr && f.Type().Implements(nodeType):
			if !f.IsNil() {
				if e, ok := f.Interface().(ast.Expr); ok {
					n := x.expr(e)
					if reflect.TypeOf(n) == f.Type() {
						f.Set(reflect.ValueOf(n))
					} else {
						log.Fatalf("cannot place %T in a %s field", n, f.Type())
					}
				} else {
					x.children(f)
				}
			}
		}
	}
}

var _ = sort.Strings
