// Command instrument rewrites Go packages for schedule exploration (see ../harness/vsched).
//
//	instrument -out DIR -base OVERLAY.json -overlay OUT.json [-points=false] [-maps=false] PKG...
//
// It loads the packages with "go list -export" (in the current GOWORK/GOFLAGS environment), rewrites their
// non-test files into DIR and writes an overlay file that contains the entries of -base plus the rewritten files.
// The rewrite is syntax directed and keeps the behaviour of the code; what it cannot handle it leaves alone:
//   - sync, sync/atomic and math/rand imports become the controlled versions
//   - a scheduling point before every statement that touches possibly shared memory and around channel operations
//   - x op= e and x++ on shared x are split into read, scheduling point, write
//   - multi-way select, go statements and map iteration are routed through the explorer
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

const H = "verif.local/h/"

var swaps = map[string]string{"sync": "vsync", "sync/atomic": "vatomic", "math/rand": "vrand", "golang.org/x/exp/rand": "vxrand"}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Name       string
	ImportMap  map[string]string
}

func main() {
	out := flag.String("out", "", "")
	base := flag.String("base", "", "")
	ovl := flag.String("overlay", "", "")
	points := flag.Bool("points", true, "")
	maps := flag.Bool("maps", true, "")
	onlyMaps := flag.Bool("only-maps", false, "only rewrite map iteration (for determinism checks)")
	flag.Parse()
	repl := map[string]string{}
	if *base != "" {
		var o struct{ Replace map[string]string }
		b, err := os.ReadFile(*base)
		die(err)
		die(json.Unmarshal(b, &o))
		repl = o.Replace
	}
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Name,ImportMap"}, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	die(err)
	pkgs := map[string]*listPkg{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			die(err)
		}
		pkgs[p.ImportPath] = p
	}
	n := 0
	for _, path := range flag.Args() {
		p := pkgs[path]
		if p == nil {
			die(fmt.Errorf("package %s not found", path))
		}
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(ip string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[ip]; ok {
				ip = m
			}
			q := pkgs[ip]
			if q == nil || q.Export == "" {
				return nil, fmt.Errorf("no export data for %s", ip)
			}
			return os.Open(q.Export)
		})
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			full := f
			if !filepath.IsAbs(f) {
				full = filepath.Join(p.Dir, f)
			}
			src := full
			if r, ok := repl[full]; ok {
				src = r
			}
			data, err := os.ReadFile(src)
			die(err)
			af, err := parser.ParseFile(fset, full, data, parser.SkipObjectResolution)
			die(err)
			files = append(files, af)
			names = append(names, full)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instrument:", err) }}
		tp, _ := conf.Check(path, fset, files, info)
		cf := constFields(tp, info, files)
		for i, af := range files {
			in := &inst{fset: fset, info: info, pkg: tp, file: af, base: filepath.Base(names[i]), points: *points && !*onlyMaps, maps: *maps, onlyMaps: *onlyMaps, constFields: cf}
			in.run()
			var buf bytes.Buffer
			die((&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), strip(af)))
			src, err := format.Source(buf.Bytes())
			if err != nil {
				fmt.Fprintf(os.Stderr, "instrument: %s: %v (left alone)\n", names[i], err)
				continue
			}
			dst := filepath.Join(*out, fmt.Sprintf("%d_%s", n, filepath.Base(names[i])))
			n++
			die(os.WriteFile(dst, src, 0644))
			repl[names[i]] = dst
		}
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	die(os.WriteFile(*ovl, ob, 0644))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(3)
	}
}

// strip drops positions so that the printer lays the file out afresh.
func strip(f *ast.File) *ast.File { f.Comments = nil; return f }

type inst struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	file     *ast.File
	base     string
	points   bool
	maps     bool
	onlyMaps bool
	used     bool
	n        int
	// variables captured by function literals (declared outside, used inside)
	captured map[types.Object]bool
	gotos    map[string]bool
	// unexported struct fields of the package that are only ever set in composite literals
	constFields map[*types.Var]bool
}

// constFields finds the fields that no statement of the package assigns or takes the address of.
func constFields(pkg *types.Package, info *types.Info, files []*ast.File) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for id, o := range info.Defs {
		if v, ok := o.(*types.Var); ok && v.IsField() && !v.Exported() && v.Pkg() == pkg && !v.Embedded() {
			out[v] = true
		}
		_ = id
	}
	drop := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if s := info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
					if v, ok := s.Obj().(*types.Var); ok {
						delete(out, v)
						delete(out, v.Origin())
					}
				}
				e = x.X
				continue
			case *ast.IndexExpr:
				if tv := info.Types[x.X]; tv.Type != nil {
					if _, arr := tv.Type.Underlying().(*types.Array); arr {
						e = x.X
						continue
					}
				}
			}
			return
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					drop(l)
				}
			case *ast.IncDecStmt:
				drop(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					drop(x.X)
				}
			case *ast.RangeStmt:
				if x.Key != nil {
					drop(x.Key)
				}
				if x.Value != nil {
					drop(x.Value)
				}
			case *ast.StarExpr: // *p = T{...} could overwrite any field: be safe
			}
			return true
		})
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			if a, ok := n.(*ast.AssignStmt); ok {
				for _, l := range a.Lhs {
					if _, ok := unparen(l).(*ast.StarExpr); ok {
						for k := range out {
							delete(out, k)
						}
					}
				}
			}
			return true
		})
	}
	return out
}

func (in *inst) tmp(s string) *ast.Ident {
	in.n++
	return ast.NewIdent(fmt.Sprintf("vsch_%s%d", s, in.n))
}

func vs(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsch"), Sel: ast.NewIdent(name)}
}

func (in *inst) point(pos token.Pos) ast.Stmt {
	in.used = true
	p := in.fset.Position(pos)
	loc := fmt.Sprintf("%s:%d", in.base, p.Line)
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: vs("Point"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(loc)}}}}
}

func (in *inst) run() {
	in.captured = map[types.Object]bool{}
	in.gotos = map[string]bool{}
	ast.Inspect(in.file, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO && b.Label != nil {
			in.gotos[b.Label.Name] = true
		}
		return true
	})
	ast.Inspect(in.file, func(n ast.Node) bool {
		fl, ok := n.(*ast.FuncLit)
		if !ok {
			return true
		}
		ast.Inspect(fl.Body, func(m ast.Node) bool {
			if id, ok := m.(*ast.Ident); ok {
				if v, ok := in.info.Uses[id].(*types.Var); ok && !v.IsField() {
					if v.Pos() < fl.Pos() || v.Pos() > fl.End() {
						in.captured[v] = true
					}
				}
			}
			return true
		})
		return true
	})
	for _, d := range in.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				in.block(d.Body)
			}
		case *ast.GenDecl:
			in.exprs(d)
		}
	}
	if !in.onlyMaps {
		for _, is := range in.file.Imports {
			p, _ := strconv.Unquote(is.Path.Value)
			if to, ok := swaps[p]; ok {
				name := filepath.Base(p)
				if is.Name != nil {
					name = is.Name.Name
				}
				is.Path.Value = strconv.Quote(H + to)
				if name != "_" {
					is.Name = ast.NewIdent(name)
				}
			}
		}
	}
	if in.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vsch"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(H + "vsched")}}
		in.file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, in.file.Decls...)
	}
}

// exprs instruments the function literals inside n.
func (in *inst) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if fl, ok := m.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		return true
	})
}

func (in *inst) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *inst) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		out = append(out, in.stmt(s)...)
	}
	return out
}

// stmt returns the replacement of s.
func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	pos := s.Pos()
	var pre, post []ast.Stmt
	if in.points && in.shared(s) {
		pre = append(pre, in.point(pos))
	}
	if in.points && in.chanOp(s) {
		switch s.(type) {
		case *ast.ReturnStmt:
		case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.DeclStmt:
			w := in.point(pos).(*ast.ExprStmt)
			w.X.(*ast.CallExpr).Fun = vs("Woken")
			post = append(post, w)
		}
	}
	switch x := s.(type) {
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		in.ifStmt(x)
	case *ast.ForStmt:
		in.exprs(x.Init)
		in.exprs(x.Cond)
		in.exprs(x.Post)
		in.block(x.Body)
		if in.points && (in.sharedExpr(x.Cond) || in.chanOpIn(x.Cond)) {
			x.Body.List = append([]ast.Stmt{in.point(pos)}, x.Body.List...)
		}
	case *ast.RangeStmt:
		return append(pre, in.rangeStmt(x)...)
	case *ast.SwitchStmt:
		in.exprs(x.Init)
		in.exprs(x.Tag)
		in.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		in.exprs(x.Init)
		in.exprs(x.Assign)
		in.clauses(x.Body)
	case *ast.SelectStmt:
		if !in.onlyMaps {
			return append(pre, in.selectStmt(x, nil)...)
		}
		in.clauses(x.Body)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok && !in.onlyMaps {
			return append(pre, in.selectStmt(sel, x.Label)...)
		}
		if r, ok := x.Stmt.(*ast.RangeStmt); ok {
			rs := in.rangeStmt(r)
			x.Stmt = rs[len(rs)-1]
			return append(append(pre, rs[:len(rs)-1]...), x)
		}
		inner := in.stmt(x.Stmt)
		// points go before the label
		for i, st := range inner {
			if st == x.Stmt {
				return append(append(append(pre, inner[:i]...), x), inner[i+1:]...)
			}
		}
		x.Stmt = &ast.BlockStmt{List: inner}
		return append(pre, x)
	case *ast.GoStmt:
		if !in.onlyMaps {
			return append(pre, in.goStmt(x)...)
		}
		in.exprs(x.Call)
	case *ast.IncDecStmt:
		in.exprs(x)
		if in.points && in.sharedLHS(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			t := in.tmp("t")
			return append(pre,
				&ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
					in.point(pos),
					&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
				}})
		}
	case *ast.AssignStmt:
		in.exprs(x)
		if in.points && len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE && in.sharedLHS(x.Lhs[0]) && !hasCallOrLit(x.Lhs[0]) {
			if op, ok := assignOps[x.Tok]; ok {
				t := in.tmp("t")
				return append(append(pre,
					&ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.Lhs[0], Op: op, Y: &ast.ParenExpr{X: x.Rhs[0]}}}},
						in.point(pos),
						&ast.AssignStmt{Lhs: []ast.Expr{x.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
					}}), post...)
			}
			if x.Tok == token.ASSIGN && (in.sharedExpr(x.Rhs[0]) || in.hasCall(x.Rhs[0])) && in.sameType(x.Lhs[0], x.Rhs[0]) {
				t := in.tmp("t")
				return append(append(pre,
					&ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Rhs[0]}},
						in.point(pos),
						&ast.AssignStmt{Lhs: []ast.Expr{x.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
					}}), post...)
			}
		}
	default:
		in.exprs(s)
	}
	return append(append(pre, s), post...)
}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR}

func hasCallOrLit(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			r = true
		}
		return true
	})
	return r
}

func (in *inst) hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if tv, ok := in.info.Types[c.Fun]; !ok || !tv.IsType() {
				r = true
			}
		}
		return true
	})
	return r
}

func (in *inst) sameType(a, b ast.Expr) bool {
	ta, tb := in.info.Types[a], in.info.Types[b]
	if ta.Type == nil || tb.Type == nil || tb.IsNil() {
		return false
	}
	if _, ok := tb.Type.(*types.Tuple); ok {
		return false
	}
	return types.Identical(ta.Type, tb.Type)
}

func (in *inst) ifStmt(x *ast.IfStmt) {
	in.exprs(x.Init)
	in.exprs(x.Cond)
	in.block(x.Body)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		in.block(e)
	case *ast.IfStmt:
		if in.points && in.shared(e) {
			// else { point; if ... }
			in.ifStmt(e)
			x.Else = &ast.BlockStmt{List: []ast.Stmt{in.point(e.Pos()), e}}
		} else {
			in.ifStmt(e)
		}
	}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, e := range c.List {
				in.exprs(e)
			}
			c.Body = in.stmts(c.Body)
		case *ast.CommClause:
			c.Body = in.stmts(c.Body)
		}
	}
}

func (in *inst) goStmt(x *ast.GoStmt) []ast.Stmt {
	in.exprs(x.Call)
	in.used = true
	call := x.Call
	fun := call.Fun
	var pre []ast.Stmt
	if fl, ok := fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: vs("Go"), Args: []ast.Expr{fl}}}}
	}
	if call.Ellipsis.IsValid() {
		return []ast.Stmt{x}
	}
	if _, ok := fun.(*ast.FuncLit); !ok {
		if tv := in.info.Types[fun]; tv.IsBuiltin() {
			return []ast.Stmt{x}
		}
		f := in.tmp("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{fun}})
		fun = f
	}
	var args []ast.Expr
	for _, a := range call.Args {
		tv := in.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			args = append(args, a)
			continue
		}
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			return []ast.Stmt{x}
		}
		v := in.tmp("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, v)
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: fun, Args: args}}}}}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: &ast.CallExpr{Fun: vs("Go"), Args: []ast.Expr{body}}})}}
}

func (in *inst) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	pos := x.Pos()
	in.exprs(x.X)
	tv := in.info.Types[x.X]
	in.block(x.Body)
	if tv.Type == nil {
		return []ast.Stmt{x}
	}
	switch u := tv.Type.Underlying().(type) {
	case *types.Map:
		if !in.maps || x.Tok == token.ASSIGN {
			break
		}
		k, kok := x.Key.(*ast.Ident)
		v, vok := x.Value.(*ast.Ident)
		if (x.Key != nil && !kok) || (x.Value != nil && !vok) {
			break
		}
		in.used = true
		m := in.tmp("m")
		kk := in.tmp("k")
		var head []ast.Stmt
		if vok && v.Name != "_" {
			ok := in.tmp("ok")
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: kk}}},
				&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		} else {
			ok := in.tmp("ok")
			head = append(head, &ast.IfStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: kk}}},
				Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
		}
		if kok && k.Name != "_" {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{k}, Tok: token.DEFINE, Rhs: []ast.Expr{kk}})
		}
		x.Key, x.Value, x.Tok = ast.NewIdent("_"), kk, token.DEFINE
		mx := x.X
		x.X = &ast.CallExpr{Fun: vs("Keys"), Args: []ast.Expr{m}}
		x.Body.List = append(head, x.Body.List...)
		return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{mx}}, x}
	case *types.Chan:
		_ = u
		if in.points {
			x.Body.List = append([]ast.Stmt{in.point(pos)}, x.Body.List...)
			return []ast.Stmt{x}
		}
	}
	return []ast.Stmt{x}
}

func (in *inst) selectStmt(x *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	type kase struct {
		clause *ast.CommClause
		ch     *ast.Ident
		recv   bool
	}
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	hasDefault := "false"
	idx := in.tmp("i")
	val := in.tmp("v")
	okv := in.tmp("ok")
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		body := in.stmts(cc.Body)
		if cc.Comm == nil {
			hasDefault = "true"
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: &ast.BasicLit{Kind: token.INT, Value: "1"}}}, Body: body})
			continue
		}
		ch := in.tmp("c")
		lit := &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
		i++
		switch comm := cc.Comm.(type) {
		case *ast.SendStmt:
			in.exprs(comm)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{comm.Chan}})
			cases = append(cases, &ast.CallExpr{Fun: vs("Send"), Args: []ast.Expr{ch, comm.Value}})
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{lit}, Body: body})
		case *ast.ExprStmt:
			u := unparen(comm.X).(*ast.UnaryExpr)
			in.exprs(u)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{u.X}})
			cases = append(cases, &ast.CallExpr{Fun: vs("Recv"), Args: []ast.Expr{ch}})
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{lit}, Body: body})
		case *ast.AssignStmt:
			u := unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			in.exprs(u)
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{u.X}})
			cases = append(cases, &ast.CallExpr{Fun: vs("Recv"), Args: []ast.Expr{ch}})
			rhs := []ast.Expr{&ast.CallExpr{Fun: vs("As"), Args: []ast.Expr{ch, val}}}
			if len(comm.Lhs) == 2 {
				rhs = append(rhs, okv)
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: comm.Lhs, Tok: comm.Tok, Rhs: rhs}}, body...)
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{lit}, Body: body})
		}
	}
	in.used = true
	args := append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)
	asg := &ast.AssignStmt{Lhs: []ast.Expr{idx, val, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: vs("Select"), Args: args}}}
	use := &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{val, okv}}
	if hasDefault == "false" {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	} else {
		// keep the statement terminating if the select was: turn "case -1" into default
		for _, c := range clauses {
			cc := c.(*ast.CaseClause)
			if u, ok := cc.List[0].(*ast.UnaryExpr); ok && u.Op == token.SUB {
				cc.List = nil
			}
		}
	}
	var sw ast.Stmt = &ast.SwitchStmt{Tag: idx, Body: &ast.BlockStmt{List: clauses}}
	if label != nil && in.gotos[label.Name] {
		return []ast.Stmt{&ast.LabeledStmt{Label: label, Stmt: &ast.BlockStmt{List: append(append(pre, asg, use), sw)}}}
	}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	// A select that ends a function must stay a terminating statement: a block ending in the switch is one.
	return []ast.Stmt{&ast.BlockStmt{List: append(append(pre, asg, use), sw)}}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// shared reports whether evaluating the head of s may touch memory shared between goroutines.
func (in *inst) shared(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.BlockStmt, *ast.SelectStmt, *ast.LabeledStmt, *ast.BranchStmt, *ast.EmptyStmt:
		return false
	case *ast.IfStmt:
		return (x.Init != nil && in.sharedNode(x.Init)) || in.sharedExpr(x.Cond)
	case *ast.ForStmt:
		return (x.Init != nil && in.sharedNode(x.Init)) || in.sharedExpr(x.Cond)
	case *ast.RangeStmt:
		return in.sharedExpr(x.X) || in.isRef(x.X)
	case *ast.SwitchStmt:
		return (x.Init != nil && in.sharedNode(x.Init)) || in.sharedExpr(x.Tag)
	case *ast.TypeSwitchStmt:
		return (x.Init != nil && in.sharedNode(x.Init)) || in.sharedNode(x.Assign)
	case *ast.GoStmt:
		return false
	case *ast.DeferStmt:
		return false
	}
	return in.sharedNode(s)
}

func (in *inst) isRef(e ast.Expr) bool {
	tv := in.info.Types[e]
	if tv.Type == nil {
		return false
	}
	switch tv.Type.Underlying().(type) {
	case *types.Map, *types.Chan:
		return true
	}
	return false
}

func (in *inst) sharedExpr(e ast.Expr) bool {
	if e == nil {
		return false
	}
	return in.sharedNode(e)
}

func (in *inst) sharedNode(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.SelectorExpr:
			if s := in.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				if f, ok := s.Obj().(*types.Var); in.throughPointer(x) && !(ok && (in.constFields[f] || in.constFields[f.Origin()])) {
					r = true
				}
			}
			if s := in.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				// implicit field path or shim type: the callee has its own points
				return true
			}
			if v, ok := in.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() {
				r = true // package-level variable of another package
			}
		case *ast.IndexExpr:
			if tv := in.info.Types[x.X]; tv.Type != nil && tv.IsValue() {
				switch tv.Type.Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
					r = true
				}
			}
		case *ast.StarExpr:
			if tv := in.info.Types[x]; tv.IsValue() {
				r = true
			}
		case *ast.SendStmt:
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				if tv := in.info.Types[id]; tv.IsBuiltin() {
					switch id.Name {
					case "close", "delete", "clear", "copy":
						r = true
					case "len", "cap":
						if len(x.Args) == 1 && in.isRef(x.Args[0]) {
							r = true
						}
					}
				}
			}
		case *ast.Ident:
			if v, ok := in.info.Uses[x].(*types.Var); ok && !v.IsField() {
				if in.captured[v] {
					r = true
				} else if in.pkg != nil && v.Parent() == in.pkg.Scope() {
					r = true
				}
			}
		}
		return true
	})
	return r
}

func (in *inst) throughPointer(x *ast.SelectorExpr) bool {
	s := in.info.Selections[x]
	if s.Indirect() {
		return true
	}
	switch b := unparen(x.X).(type) {
	case *ast.Ident:
		if v, ok := in.info.Uses[b].(*types.Var); ok {
			if in.captured[v] || (in.pkg != nil && v.Parent() == in.pkg.Scope()) {
				return true
			}
		}
		return false
	case *ast.SelectorExpr:
		if in.info.Selections[b] != nil {
			return in.throughPointer(b)
		}
		return true
	}
	return true
}

// sharedLHS reports whether assigning to e writes possibly shared memory.
func (in *inst) sharedLHS(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v, ok := in.info.Uses[x].(*types.Var)
		return ok && (in.captured[v] || (in.pkg != nil && v.Parent() == in.pkg.Scope()))
	case *ast.SelectorExpr:
		return in.sharedNode(x)
	case *ast.IndexExpr, *ast.StarExpr:
		return in.sharedNode(x)
	}
	return false
}

func (in *inst) chanOp(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.DeclStmt, *ast.ReturnStmt:
		return in.chanOpIn(s)
	}
	return false
}

func (in *inst) chanOpIn(n ast.Node) bool {
	if n == nil {
		return false
	}
	if e, ok := n.(ast.Expr); ok && e == nil {
		return false
	}
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch x := m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt:
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		}
		return true
	})
	return r
}

var _ = strings.Contains
