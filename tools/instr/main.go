// instr writes instrumented copies of the packages of the code under test: scheduling points before
// every statement, reads and writes of one assignment kept apart, go statements, locks and atomics
// under the controlled scheduler. Its output goes into a build overlay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
}

var (
	info  *types.Info
	fset  *token.FileSet
	sched = "verifSched"
)

func main() {
	repo := flag.String("repo", "", "")
	mod := flag.String("mod", "", "")
	mode := flag.String("mode", "full", "comma separated packages below mod, or import paths with a dot")
	out := flag.String("out", "", "")
	flag.Parse()
	log.SetFlags(0)

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		log.Fatal("go list: ", err)
	}
	pkgs := map[string]*pkg{}
	d := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &pkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		pkgs[p.ImportPath] = p
	}
	fset = token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(p.Export)
	})
	if err := os.MkdirAll(*out, 0o755); err != nil {
		log.Fatal(err)
	}
	var lines []string
	for _, name := range strings.Split(*mode, ",") {
		path := name
		if !strings.Contains(strings.Split(name, "/")[0], ".") {
			path = *mod + "/" + name
		}
		p := pkgs[path]
		if p == nil {
			continue // the package is gone
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				log.Fatal(err)
			}
			files = append(files, a)
		}
		info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}, FakeImportC: true}
		if _, err := conf.Check(path, fset, files, info); err != nil {
			log.Printf("%s: %v", path, err)
		}
		for i, a := range files {
			rewrite(a, *mod)
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fset, a); err != nil {
				log.Fatal(err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(path, "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				log.Fatal(err)
			}
			lines = append(lines, filepath.Join(p.Dir, p.GoFiles[i])+"\t"+dst)
		}
	}
	if err := os.WriteFile(filepath.Join(*out, "map.txt"), []byte(strings.Join(lines, "\n")+"\n"), 0o644); err != nil {
		log.Fatal(err)
	}
}

func rewrite(f *ast.File, mod string) {
	f.Comments = nil
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		var to, name string
		switch p {
		case "sync":
			to, name = "vsync", "sync"
		case "sync/atomic":
			to, name = "vatomic", "atomic"
		default:
			continue
		}
		im.Path.Value = strconv.Quote(mod + "/verifmc/" + to)
		im.EndPos = 0
		if im.Name == nil {
			im.Name = ast.NewIdent(name)
		}
	}
	used := false
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fd.Doc = nil
			if fd.Name.Name == "init" && fd.Recv == nil {
				continue
			}
			block(fd.Body)
			used = true
		} else if gd, ok := d.(*ast.GenDecl); ok {
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					block(fl.Body)
					used = true
					return false
				}
				return true
			})
		}
	}
	if used {
		spec := &ast.ImportSpec{Name: ast.NewIdent(sched), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(mod + "/verifmc/vsched")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(sched), Sel: ast.NewIdent(name)}, Args: args}
}

func point() ast.Stmt { return &ast.ExprStmt{X: call("Point")} }

func block(b *ast.BlockStmt) {
	if b != nil {
		b.List = list(b.List)
	}
}

func list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	skip := false
	for _, s := range in {
		// taking a lock is a point of its own, giving it back and having taken it are not worth one
		l := lockOp(s)
		if l == "" && !skip {
			out = append(out, point())
		}
		skip = l == "Lock" || l == "RLock" || (l == "defer" && skip)
		blocking := isBlocking(s)
		out = append(out, stmt(s)...)
		if blocking {
			out = append(out, point())
		}
	}
	return out
}

func lockOp(s ast.Stmt) string {
	var c *ast.CallExpr
	d := false
	switch s := s.(type) {
	case *ast.ExprStmt:
		c, _ = s.X.(*ast.CallExpr)
	case *ast.DeferStmt:
		c, d = s.Call, true
	}
	if c == nil || len(c.Args) != 0 {
		return ""
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	t := typeOf(sel.X)
	if t == nil || !strings.Contains(t.String(), "sync.Mutex") && !strings.Contains(t.String(), "sync.RWMutex") {
		return ""
	}
	switch n := sel.Sel.Name; n {
	case "Lock", "RLock", "Unlock", "RUnlock":
		if d {
			return "defer"
		}
		return n
	}
	return ""
}

// isBlocking: the statement itself is a channel operation.
func isBlocking(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.SendStmt, *ast.SelectStmt:
		return !terminates(s)
	case *ast.ExprStmt:
		u, ok := s.X.(*ast.UnaryExpr)
		return ok && u.Op == token.ARROW
	case *ast.AssignStmt:
		if len(s.Rhs) == 1 {
			u, ok := s.Rhs[0].(*ast.UnaryExpr)
			return ok && u.Op == token.ARROW
		}
	}
	return false
}

// terminates says (conservatively) that nothing may follow: a select may be the last statement of a
// function with results.
func terminates(s ast.Stmt) bool {
	_, ok := s.(*ast.SelectStmt)
	return ok
}

// lits instruments function literals inside an expression or statement.
func lits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			block(fl.Body)
			return false
		}
		return true
	})
}

func typeOf(e ast.Expr) types.Type {
	if tv, ok := info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

// shared says that a place may be seen by other goroutines (anything but a plain local variable).
func shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		o := info.Uses[e]
		if o == nil {
			return false
		}
		return true // may be captured by a closure
	case *ast.ParenExpr:
		return shared(e.X)
	}
	return true
}

// pure: evaluating it twice is the same.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// splittable: e can be wrapped in Split without a change of types.
func splittable(lhs, e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsVoid() {
		return false
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return false
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return false
	}
	lt := typeOf(lhs)
	return lt != nil && types.Identical(lt, tv.Type)
}

func stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			lits(e)
		}
		for _, e := range s.Lhs {
			lits(e)
		}
		switch s.Tok {
		case token.DEFINE:
		case token.ASSIGN:
			if len(s.Lhs) == 1 && len(s.Rhs) == 1 && shared(s.Lhs[0]) && splittable(s.Lhs[0], s.Rhs[0]) {
				if _, isBlank := s.Lhs[0].(*ast.Ident); !isBlank || s.Lhs[0].(*ast.Ident).Name != "_" {
					s.Rhs[0] = call("Split", s.Rhs[0])
				}
			}
		default: // op=
			if pure(s.Lhs[0]) && shared(s.Lhs[0]) && typeOf(s.Lhs[0]) != nil {
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
					token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL,
					token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[s.Tok]
				return []ast.Stmt{&ast.AssignStmt{Lhs: s.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{
					call("Split", &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}})}}}
			}
		}
		return []ast.Stmt{s}
	case *ast.IncDecStmt:
		if pure(s.X) && shared(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{
				call("Split", &ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}}}
		}
		return []ast.Stmt{s}
	case *ast.GoStmt:
		lits(s.Call)
		return goStmt(s)
	case *ast.BlockStmt:
		block(s)
	case *ast.IfStmt:
		ifStmt(s)
	case *ast.ForStmt:
		lits(s.Init)
		if s.Cond != nil {
			lits(s.Cond)
		}
		lits(s.Post)
		block(s.Body)
	case *ast.RangeStmt:
		lits(s.X)
		block(s.Body)
	case *ast.SwitchStmt:
		lits(s.Init)
		if s.Tag != nil {
			lits(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				lits(e)
			}
			cc.Body = list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		lits(s.Init)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = list(cc.Body)
		}
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			lits(cc.Comm)
			cc.Body = list(cc.Body)
			if len(cc.Body) == 0 {
				cc.Body = []ast.Stmt{point()}
			}
		}
	case *ast.LabeledStmt:
		in := stmt(s.Stmt)
		if len(in) == 1 {
			s.Stmt = in[0]
			return []ast.Stmt{s}
		}
		s.Stmt = &ast.BlockStmt{List: in}
	case nil:
	default:
		lits(s)
	}
	return []ast.Stmt{s}
}

func ifStmt(s *ast.IfStmt) {
	lits(s.Init)
	lits(s.Cond)
	block(s.Body)
	switch e := s.Else.(type) {
	case *ast.IfStmt:
		ifStmt(e)
	case *ast.BlockStmt:
		block(e)
	}
}

var tmp int

func goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		tv, ok := info.Types[e]
		if ok && (tv.Value != nil || tv.IsNil()) {
			return e
		}
		tmp++
		id := ast.NewIdent(fmt.Sprintf("verifArg%d", tmp))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(id.Name)
	}
	if _, ok := c.Fun.(*ast.FuncLit); !ok {
		tv := info.Types[c.Fun]
		if !tv.IsBuiltin() && !tv.IsType() {
			c.Fun = bind(c.Fun)
		}
	}
	for i, a := range c.Args {
		c.Args[i] = bind(a)
	}
	g := &ast.ExprStmt{X: call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
	if len(pre) == 0 {
		return []ast.Stmt{g}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, g)}}
}
