// Command instr writes an instrumented copy of a Go module: goroutines,
// channels, maps, sync, os, time, log and math/rand go through the simulator,
// and every statement is a possible preemption point.
//
//	instr SRC DST
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const simBase = "github.com/rmera/boo/zsim/"

var swaps = map[string]struct{ path, name string }{
	"sync":         {"simsync", "sync"},
	"os":           {"simos", "os"},
	"math/rand/v2": {"simrand", "rand"},
	"math/rand":    {"simrand1", "rand"},
	"time":         {"simtime", "time"},
	"log":          {"simlog", "log"},
}

// hooked functions: wrapped so that the harness can watch or steer calls.
// key: import path suffix + "." + receiver + "." + name
var hooked = map[string]bool{
	"boo..NewMultiClass":                true,
	"boo.MultiClass.Accuracy":           true,
	"boo..SubSample":                    true,
	"boo/utils..CrossValidationSamples": true,
	"boo/cv..GradStep":                  true,
	"boo/cv..ParamaterGradStep":         true,
}

var hookFiles = map[string]string{
	"boo": `package boo

import "github.com/rmera/boo/utils"

var (
	SimTrain     func(D *utils.DataBunch, opts []*Options, impl func(opts ...*Options) *MultiClass) *MultiClass
	SimAccuracy  func(M *MultiClass, D *utils.DataBunch, impl func() float64) float64
	SimSubSample func(tot int, p float64, impl func() []int) []int
)

func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
	if SimTrain != nil {
		return SimTrain(D, opts, func(o ...*Options) *MultiClass { return NewMultiClass__impl(D, o...) })
	}
	return NewMultiClass__impl(D, opts...)
}

func (M *MultiClass) Accuracy(D *utils.DataBunch, classes ...int) float64 {
	if SimAccuracy != nil {
		return SimAccuracy(M, D, func() float64 { return M.Accuracy__impl(D, classes...) })
	}
	return M.Accuracy__impl(D, classes...)
}

func SubSample(totdata int, subsample float64) []int {
	if SimSubSample != nil {
		return SimSubSample(totdata, subsample, func() []int { return SubSample__impl(totdata, subsample) })
	}
	return SubSample__impl(totdata, subsample)
}
`,
	// the work done for a gradient step, and for a probe of it, is marked, also
	// in the tasks it spawns
	"boo/cv": `package cv

import (
	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"github.com/rmera/boo/zsim/simrt"
)

func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, fractiondelta float64, nfold int, central bool, out chan *boo.Options) *boo.Options {
	defer simrt.Mark(1)()
	return GradStep__impl(Ori, CVO, D, step, fractiondelta, nfold, central, out)
}

func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, param string, step, fractiondelta, currentAccuracy float64, nfold int, central bool, out chan *boo.Options) {
	defer simrt.Mark(2)()
	ParamaterGradStep__impl(D, Op, CVO, param, step, fractiondelta, currentAccuracy, nfold, central, out)
}
`,
	"boo/utils": `package utils

var SimCVSamples func(data *DataBunch, nfold int, impl func() (int, func() (*DataBunch, *DataBunch), error)) (int, func() (*DataBunch, *DataBunch), error)

func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int, func() (*DataBunch, *DataBunch), error) {
	if SimCVSamples != nil {
		return SimCVSamples(data, nfold, func() (int, func() (*DataBunch, *DataBunch), error) {
			return CrossValidationSamples__impl(data, nfold, usecopies...)
		})
	}
	return CrossValidationSamples__impl(data, nfold, usecopies...)
}
`,
}

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Main bool }
	Error      *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		die("usage: instr SRC DST")
	}
	src, dst := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var mine []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && p.Name != "main" {
			mine = append(mine, p)
		}
	}
	for _, p := range mine {
		instrument(p, exports, src, dst)
	}
}

type rewriter struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	n        int
	used     bool
	captured map[types.Object]bool
	key      string
	hooks    map[string]bool
}

func instrument(p *pkgInfo, exports map[string]string, src, dst string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, GoVersion: ""}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	key := strings.TrimPrefix(p.ImportPath, "github.com/rmera/")
	rel, err := filepath.Rel(src, p.Dir)
	if err != nil {
		die("%v", err)
	}
	outdir := filepath.Join(dst, rel)
	if err := os.MkdirAll(outdir, 0o755); err != nil {
		die("%v", err)
	}
	hooks := map[string]bool{}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, pkg: tp, key: key, hooks: hooks, captured: map[types.Object]bool{}}
		r.file(f)
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), f); err != nil {
			die("print %s: %v", names[i], err)
		}
		if err := os.WriteFile(filepath.Join(outdir, names[i]), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	if h := hookFiles[key]; h != "" {
		for k := range hooked {
			if strings.HasPrefix(k, key+".") && strings.Count(k, "/") == strings.Count(key, "/") && !hooks[k] {
				die("function %s not found", k)
			}
		}
		if err := os.WriteFile(filepath.Join(outdir, "zz_sim_hooks.go"), []byte(h), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func (r *rewriter) file(f *ast.File) {
	// captured variables: used inside a function literal but declared outside it
	for _, d := range f.Decls {
		ast.Inspect(d, func(n ast.Node) bool {
			fl, ok := n.(*ast.FuncLit)
			if !ok {
				return true
			}
			ast.Inspect(fl.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if o, ok := r.info.Uses[id].(*types.Var); ok && !o.IsField() && (o.Pos() < fl.Pos() || o.Pos() > fl.End()) {
						r.captured[o] = true
					}
				}
				return true
			})
			return true
		})
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			recv := ""
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					recv = id.Name
				}
			}
			k := r.key + "." + recv + "." + fd.Name.Name
			if hooked[k] {
				r.hooks[k] = true
				fd.Name = ast.NewIdent(fd.Name.Name + "__impl")
			}
		}
	}
	r.walk(reflect.ValueOf(f.Decls))
	// imports
	for _, s := range f.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		if sw, ok := swaps[path]; ok {
			s.Path.Value = strconv.Quote(simBase + sw.path)
			s.Path.ValuePos = token.NoPos
			if s.Name == nil {
				s.Name = ast.NewIdent(sw.name)
			}
			s.EndPos = token.NoPos
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("zs__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simBase + "simrt")}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	clearPos(reflect.ValueOf(f))
}

// clearPos drops positions so that the printer lays the file out afresh.
func clearPos(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Pointer {
			switch v.Interface().(type) {
			case *ast.Object, *ast.Scope:
				return
			}
		}
		clearPos(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearPos(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Type() == reflect.TypeOf(token.NoPos) && f.CanSet() {
				n := v.Type().Field(i).Name
				// these positions carry meaning (presence), keep them non-zero
				switch n {
				case "Lparen", "Rparen", "Assign", "Ellipsis", "Arrow", "Opening", "Closing":
					if f.Int() != 0 {
						f.SetInt(1)
					}
				default:
					f.SetInt(0)
				}
				continue
			}
			if v.Type().Field(i).PkgPath == "" {
				clearPos(f)
			}
		}
	}
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Type() == exprT && v.CanSet() {
			e := v.Interface().(ast.Expr)
			post := r.exprPre(e)
			r.walk(v.Elem())
			if post != nil {
				v.Set(reflect.ValueOf(post()))
			}
			return
		}
		if v.Type() == stmtT && v.CanSet() {
			// a lone statement (init, post, else, labelled)
			s := v.Interface().(ast.Stmt)
			post := r.stmtPre(s, false)
			r.walk(v.Elem())
			if post != nil {
				v.Set(reflect.ValueOf(post()))
			}
			return
		}
		r.walk(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch x := v.Interface().(type) {
		case *ast.Object, *ast.Scope:
			return
		case *ast.FuncDecl:
			if x.Body != nil {
				r.walk(reflect.ValueOf(x.Body).Elem())
			}
			return
		case *ast.ImportSpec:
			return
		}
		r.walk(v.Elem())
	case reflect.Slice:
		if v.Type().Elem() == stmtT {
			return // handled by the owner
		}
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() == reflect.Slice && f.Type().Elem() == stmtT {
				if v.Type().Name() == "BlockStmt" && f.Len() > 0 {
					switch f.Index(0).Interface().(type) {
					case *ast.CaseClause, *ast.CommClause:
						for j := 0; j < f.Len(); j++ {
							r.walk(f.Index(j).Elem())
						}
						continue
					}
				}
				f.Set(reflect.ValueOf(r.list(f.Interface().([]ast.Stmt))))
				continue
			}
			r.walk(f)
		}
	}
}

func (r *rewriter) list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		post := r.stmtPre(s, true)
		r.walk(reflect.ValueOf(s))
		if post != nil {
			s = post()
		}
		if _, ok := s.(*ast.EmptyStmt); !ok {
			out = append(out, &ast.ExprStmt{X: r.call("Y")})
		}
		out = append(out, s)
	}
	if len(out) == 0 { // empty bodies of loops must still yield
		out = append(out, &ast.ExprStmt{X: r.call("Y")})
	}
	return out
}

func (r *rewriter) sel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("zs__"), Sel: ast.NewIdent(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.sel(name), Args: args}
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("z%s%d__", s, r.n))
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok && t.Type != nil {
		return t.Type.Underlying()
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type().Underlying()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type().Underlying()
		}
	}
	return nil
}

func (r *rewriter) builtin(c *ast.CallExpr) string {
	f := c.Fun
	for {
		p, ok := f.(*ast.ParenExpr)
		if !ok {
			break
		}
		f = p.X
	}
	if id, ok := f.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			return id.Name
		}
	}
	return ""
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u, true
	}
	return nil, false
}

var two = map[*ast.UnaryExpr]bool{}

// exprPre looks at an expression before its children are rewritten and
// returns what to put in its place afterwards, if anything.
func (r *rewriter) exprPre(e ast.Expr) func() ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			name := "Recv"
			if two[x] {
				name = "Recv2"
			}
			return func() ast.Expr { return r.call(name, x.X) }
		}
	case *ast.CallExpr:
		switch r.builtin(x) {
		case "close":
			return func() ast.Expr { return r.call("Close", x.Args...) }
		case "len":
			if ch, ok := r.typeOf(x.Args[0]).(*types.Chan); ok {
				n := "Len"
				switch ch.Dir() {
				case types.RecvOnly:
					n = "LenR"
				case types.SendOnly:
					n = "LenS"
				}
				return func() ast.Expr { return r.call(n, x.Args...) }
			}
		}
	}
	return nil
}

func (r *rewriter) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[x]; s != nil {
			return s.Kind() == types.FieldVal
		}
		o, ok := r.info.Uses[x.Sel].(*types.Var)
		return ok && !o.IsField()
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := r.typeOf(x.X)
		switch t.(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return r.shared(x.X)
		}
		return false
	case *ast.Ident:
		o, ok := r.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		return r.captured[o] || o.Parent() == r.pkg.Scope()
	}
	return false
}

// addressable: taking &e is legal (struct fields of map elements or of call
// results are not).
func (r *rewriter) addressable(e ast.Expr) bool {
	tv, ok := r.info.Types[unparen(e)]
	if id, isID := unparen(e).(*ast.Ident); isID {
		_, v := r.info.Uses[id].(*types.Var)
		return v
	}
	return ok && tv.Addressable()
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr:
			found = true
		case *ast.UnaryExpr:
			if n.(*ast.UnaryExpr).Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func define(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}}
}

func set(lhs ast.Expr, rhs ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}
}

func ident(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name != "_" }

func (r *rewriter) stmtPre(s ast.Stmt, inList bool) func() ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return func() ast.Stmt {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.call("SendTo", x.Chan), Args: []ast.Expr{x.Value}}}
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := isRecv(x.Rhs[0]); ok {
				two[u] = true
				x.Rhs[0] = u
			}
			return nil
		}
		if !inList || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return nil
		}
		lhs, rhs := x.Lhs[0], x.Rhs[0]
		if op, ok := opOf[x.Tok]; ok && r.shared(lhs) && r.addressable(lhs) {
			isConst := r.info.Types[rhs].Value != nil
			callFirst := !isConst && hasCall(rhs)
			return func() ast.Stmt {
				p, t := r.tmp("p"), r.tmp("t")
				var l []ast.Stmt
				val := x.Rhs[0]
				if callFirst {
					v := r.tmp("v")
					l = append(l, define(v, val))
					val = v
				}
				l = append(l, define(p, &ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: x.Lhs[0]}}),
					define(t, &ast.StarExpr{X: p}),
					&ast.ExprStmt{X: r.call("Y")},
					set(&ast.StarExpr{X: p}, &ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: val}}))
				return &ast.BlockStmt{List: l}
			}
		}
		if x.Tok == token.ASSIGN && r.shared(lhs) {
			if c, ok := unparen(rhs).(*ast.CallExpr); ok && r.builtin(c) == "append" {
				return func() ast.Stmt {
					t := r.tmp("t")
					return &ast.BlockStmt{List: []ast.Stmt{define(t, x.Rhs[0]), &ast.ExprStmt{X: r.call("Y")}, set(x.Lhs[0], t)}}
				}
			}
		}
	case *ast.IncDecStmt:
		if inList && r.shared(x.X) && r.addressable(x.X) {
			return func() ast.Stmt {
				p, t := r.tmp("p"), r.tmp("t")
				op := token.ADD
				if x.Tok == token.DEC {
					op = token.SUB
				}
				return &ast.BlockStmt{List: []ast.Stmt{define(p, &ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: x.X}}),
					define(t, &ast.StarExpr{X: p}),
					&ast.ExprStmt{X: r.call("Y")},
					set(&ast.StarExpr{X: p}, &ast.BinaryExpr{X: t, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}}
			}
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u, ok := isRecv(vs.Values[0]); ok {
						two[u] = true
						vs.Values[0] = u
					}
				}
			}
		}
	case *ast.GoStmt:
		c := x.Call
		bi := r.builtin(c)
		_, isLit := unparen(c.Fun).(*ast.FuncLit)
		return func() ast.Stmt {
			if bi != "" {
				return &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}})}
			}
			if isLit && len(c.Args) == 0 && unparen(c.Fun).(*ast.FuncLit).Type.Results == nil {
				return &ast.ExprStmt{X: r.call("Go", c.Fun)}
			}
			el := "false"
			if c.Ellipsis.IsValid() {
				el = "true"
			}
			return &ast.ExprStmt{X: r.call("GoCall", append([]ast.Expr{c.Fun, ast.NewIdent(el)}, c.Args...)...)}
		}
	case *ast.RangeStmt:
		switch r.typeOf(x.X).(type) {
		case *types.Chan:
			return func() ast.Stmt {
				c, v, ok := r.tmp("c"), r.tmp("v"), r.tmp("o")
				val := ast.Expr(ast.NewIdent("_"))
				var pre []ast.Stmt
				if x.Key != nil && !(isBlank(x.Key)) {
					val = v
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{v}})
					if x.Tok == token.DEFINE {
						pre = append(pre, set(ast.NewIdent("_"), x.Key))
					}
				}
				l := []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{val, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", c)}},
					&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
				}
				l = append(append(l, pre...), x.Body.List...)
				return &ast.ForStmt{Init: define(c, x.X), Body: &ast.BlockStmt{List: l}}
			}
		case *types.Map:
			return func() ast.Stmt {
				e := r.tmp("e")
				l := []ast.Stmt{&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("Live")}}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}}
				if x.Key != nil && !isBlank(x.Key) {
					l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: e, Sel: ast.NewIdent("K")}}})
					if x.Tok == token.DEFINE {
						l = append(l, set(ast.NewIdent("_"), x.Key))
					}
				}
				if x.Value != nil && !isBlank(x.Value) {
					l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: x.Tok, Rhs: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: e, Sel: ast.NewIdent("V")}}}})
					if x.Tok == token.DEFINE {
						l = append(l, set(ast.NewIdent("_"), x.Value))
					}
				}
				return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: e, Tok: token.DEFINE, X: r.call("MapIter", x.X), Body: &ast.BlockStmt{List: append(l, x.Body.List...)}}
			}
		}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	}
	return nil
}

func isBlank(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }

func (r *rewriter) selectStmt(x *ast.SelectStmt) func() ast.Stmt {
	// The communications are taken out before the generic walk sees them.
	type comm struct {
		send     *ast.SendStmt
		ch       ast.Expr
		lhs      []ast.Expr
		tok      token.Token
		cl       *ast.CommClause
		dflt     bool
		chIdent  *ast.Ident
		hasValue bool
	}
	var cs []*comm
	for _, c := range x.Body.List {
		cl := c.(*ast.CommClause)
		k := &comm{cl: cl}
		switch s := cl.Comm.(type) {
		case nil:
			k.dflt = true
		case *ast.SendStmt:
			k.send = s
		case *ast.ExprStmt:
			u, _ := isRecv(s.X)
			k.ch = u.X
		case *ast.AssignStmt:
			u, _ := isRecv(s.Rhs[0])
			k.ch, k.lhs, k.tok = u.X, s.Lhs, s.Tok
		}
		cl.Comm = nil
		cs = append(cs, k)
	}
	fix := func(e *ast.Expr) { r.walk(reflect.ValueOf(e).Elem()) }
	return func() ast.Stmt {
		if len(cs) == 0 {
			return &ast.ExprStmt{X: r.call("BlockForever")}
		}
		init := &ast.AssignStmt{Tok: token.DEFINE}
		args := []ast.Expr{ast.NewIdent("false")}
		sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
		idx := 0
		for _, k := range cs {
			cc := &ast.CaseClause{Body: k.cl.Body}
			if k.dflt {
				args[0] = ast.NewIdent("true")
				cc.List = []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
				sw.Body.List = append(sw.Body.List, cc)
				continue
			}
			k.chIdent = r.tmp("c")
			init.Lhs = append(init.Lhs, k.chIdent)
			if k.send != nil {
				fix(&k.send.Chan)
				fix(&k.send.Value)
				init.Rhs = append(init.Rhs, k.send.Chan)
				args = append(args, &ast.CallExpr{Fun: r.call("CS", k.chIdent), Args: []ast.Expr{k.send.Value}})
			} else {
				fix(&k.ch)
				init.Rhs = append(init.Rhs, k.ch)
				args = append(args, r.call("CR", k.chIdent))
				if len(k.lhs) > 0 {
					g := "Got"
					if len(k.lhs) == 2 {
						g = "Got2"
					}
					as := &ast.AssignStmt{Lhs: k.lhs, Tok: k.tok, Rhs: []ast.Expr{r.call(g, k.chIdent)}}
					pre := []ast.Stmt{as}
					if k.tok == token.DEFINE {
						for _, l := range k.lhs {
							if ident(l) {
								pre = append(pre, set(ast.NewIdent("_"), l))
							}
						}
					}
					cc.Body = append(pre, cc.Body...)
				}
			}
			cc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
			sw.Body.List = append(sw.Body.List, cc)
		}
		last := sw.Body.List[len(sw.Body.List)-1].(*ast.CaseClause)
		last.List = nil
		if len(init.Lhs) > 0 {
			sw.Init = init
		}
		sw.Tag = r.call("Select", args...)
		return sw
	}
}
