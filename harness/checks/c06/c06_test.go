// Package c06 checks that the parser of workflow modules reports the declarations that the Go type checker sees.
package c06

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/golang/goparser"
	"verif.local/h/rep"
)

// root is the module name of every generated module: one that exists, as the parser asks the go command about others.
const root = "verif.local/h"

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	expressions(r)
	imports(r)
	declarations(r)
	shadows(r)
	layouts(r)
}

// module is the sources of a module by path.
type module map[string]string

var std = map[string]string{
	"context": "package context\ntype Context interface{ Done() }\ntype CancelFunc func()\n",
	"time":    "package time\ntype Duration int64\ntype Time struct{ w int }\n",
}

// loader type-checks the packages of a module, and of others that are given by their sources.
type loader struct {
	m    module
	done map[string]*types.Package
	errs []string
	fset *token.FileSet
}

func (l *loader) Import(path string) (*types.Package, error) {
	if p, ok := l.done[path]; ok {
		return p, nil
	}
	var srcs []string
	if s, ok := std[path]; ok {
		srcs = []string{s}
	} else {
		srcs = l.files(strings.TrimPrefix(strings.TrimPrefix(path, root), "/"))
	}
	var fs []*ast.File
	for i, s := range srcs {
		f, err := parser.ParseFile(l.fset, fmt.Sprint(path, i, ".go"), s, 0)
		if err != nil {
			l.errs = append(l.errs, err.Error())
			return nil, err
		}
		fs = append(fs, f)
	}
	if len(fs) == 0 {
		return nil, fmt.Errorf("no package %s", path)
	}
	conf := types.Config{Importer: l, Error: func(err error) { l.errs = append(l.errs, err.Error()) }}
	p, _ := conf.Check(path, l.fset, fs, nil)
	l.done[path] = p
	return p, nil
}

// files are the sources that the go command compiles for the package in a directory.
func (l *loader) files(dir string) (srcs []string) {
	var names []string
	for n := range l.m {
		if filepath.Dir(n) == filepath.Clean("./"+dir) && strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, "_windows.go") || strings.HasPrefix(l.m[n], "//go:build") {
			continue
		}
		srcs = append(srcs, l.m[n])
	}
	return
}

// compare parses the module and compares the packages; mayErr tells that the parser may refuse it.
func compare(c *rep.Case, m module, mayErr bool, pkgs ...string) {
	bad := func(f string, args ...any) {
		if len(c.Msgs) < 4 {
			c.Msgs = append(c.Msgs, fmt.Sprintf(f, args...))
		}
	}
	l := &loader{m: m, done: map[string]*types.Package{}, fset: token.NewFileSet()}
	for _, p := range pkgs {
		l.Import(root + "/" + p)
	}
	if len(l.errs) > 0 {
		c.Outcome = "not valid Go"
		return
	}
	dir, err := os.MkdirTemp("", "c06")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	m["go.mod"] = "module " + root + "\n\ngo 1.20\n"
	for n, s := range m {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0644); err != nil {
			panic(err)
		}
	}
	var mod *goparser.ParsedModule
	set := goparser.New(nil)
	if e := rep.Guard(func() { mod, err = set.AddModule(dir) }); e != "" {
		bad("the parser panics: %s", e)
		return
	}
	if err != nil {
		c.Outcome = "refused"
		if !mayErr {
			bad("the module cannot be parsed: %.600v", err)
		}
		return
	}
	c.Outcome = "parsed"
	for _, p := range pkgs {
		comparePackage(c, bad, l.done[root+"/"+p], mod.Packages[root+"/"+p])
	}
}

func comparePackage(c *rep.Case, bad func(string, ...any), want *types.Package, got *goparser.ParsedPackage) {
	if got == nil {
		bad("the package %s is not reported", want.Path())
		return
	}
	if got.ShortName != want.Name() || got.Name != want.Path() {
		bad("the package %s named %s is reported as %s named %s", want.Path(), want.Name(), got.Name, got.ShortName)
	}
	scope := want.Scope()
	seen := map[string]bool{}
	for _, name := range scope.Names() {
		switch o := scope.Lookup(name).(type) {
		case *types.Func:
			c.Steps++
			f := got.Funcs[name]
			if f == nil {
				bad("the function %s is not reported", name)
				continue
			}
			signature(bad, "function "+name, o.Type().(*types.Signature), f)
			seen["func "+name] = true
		case *types.TypeName:
			if _, ok := got.DeclaredTypes[name]; !ok {
				bad("the type %s is not reported", name)
			}
			if o.IsAlias() {
				continue // an alias of a struct literal is not a struct
			}
			named := o.Type().(*types.Named)
			switch u := named.Underlying().(type) {
			case *types.Interface:
				i := got.Interfaces[name]
				if i == nil {
					// an embedded or derived interface or a constraint may be left out
					if isLiteral(got, name) && u.NumEmbeddeds() == 0 {
						bad("the interface %s is not reported", name)
					}
					continue
				}
				seen["interface "+name] = true
				if i.Type().Package != want.Path() || i.Type().Name != name {
					bad("the interface %s is reported as %s.%s", name, i.Type().Package, i.Type().Name)
				}
				if len(i.Methods) != u.NumMethods() {
					bad("the interface %s has %d methods rather than %d", name, len(i.Methods), u.NumMethods())
				}
				for k := 0; k < u.NumMethods(); k++ {
					c.Steps++
					m := u.Method(k)
					f := i.Methods[m.Name()]
					if f == nil {
						bad("the method %s.%s is not reported", name, m.Name())
						continue
					}
					signature(bad, "method "+name+"."+m.Name(), m.Type().(*types.Signature), f)
				}
			case *types.Struct:
				s := got.Structs[name]
				if s == nil {
					if isLiteral(got, name) {
						bad("the struct %s is not reported", name)
					}
					continue
				}
				seen["struct "+name] = true
				if s.Type().Package != want.Path() || s.Type().Name != name {
					bad("the struct %s is reported as %s.%s", name, s.Type().Package, s.Type().Name)
				}
				structure(c, bad, name, u, s)
				for k := 0; k < named.NumMethods(); k++ {
					c.Steps++
					m := named.Method(k)
					f := s.Methods[m.Name()]
					if f == nil {
						if named.TypeParams().Len() == 0 {
							bad("the method %s.%s is not reported", name, m.Name())
						}
						continue
					}
					signature(bad, "method "+name+"."+m.Name(), m.Type().(*types.Signature), f)
				}
				for n := range s.Methods {
					if !hasMethod(named, n) {
						bad("the struct %s has no method %s", name, n)
					}
				}
			}
		}
	}
	for n := range got.Interfaces {
		if !seen["interface "+n] {
			bad("there is no interface %s", n)
		}
	}
	for n := range got.Structs {
		if !seen["struct "+n] {
			bad("there is no struct %s", n)
		}
	}
	for n := range got.Funcs {
		if !seen["func "+n] && n != "_" && n != "init" {
			bad("there is no function %s", n)
		}
	}
	for n := range got.DeclaredTypes {
		if _, ok := scope.Lookup(n).(*types.TypeName); !ok && n != "_" {
			bad("there is no type %s", n)
		}
	}
}

func hasMethod(n *types.Named, m string) bool {
	for k := 0; k < n.NumMethods(); k++ {
		if n.Method(k).Name() == m {
			return true
		}
	}
	return false
}

// isLiteral tells whether the type is declared by an interface or struct type rather than as another type.
func isLiteral(p *goparser.ParsedPackage, name string) (is bool) {
	for _, f := range p.Ast.Files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range g.Specs {
				if t, ok := s.(*ast.TypeSpec); ok && t.Name.Name == name {
					switch t.Type.(type) {
					case *ast.InterfaceType, *ast.StructType:
						is = true
					}
				}
			}
		}
	}
	return
}

func structure(c *rep.Case, bad func(string, ...any), name string, u *types.Struct, s *goparser.ParsedStruct) {
	if len(s.FieldsList) != u.NumFields() {
		bad("the struct %s has %d fields rather than %d", name, len(s.FieldsList), u.NumFields())
		return
	}
	embedded := 0
	for k := 0; k < u.NumFields(); k++ {
		c.Steps++
		w, g := u.Field(k), s.FieldsList[k]
		if g.Position != k || g.Struct != s {
			bad("field %d of %s has position %d", k, name, g.Position)
		}
		if w.Embedded() {
			if g.Name != "" {
				bad("the embedded field %s of %s is named %q", w.Name(), name, g.Name)
			}
			if embedded == 0 && s.PromotedField != g || embedded > 0 && (embedded > len(s.AnonymousFields) || s.AnonymousFields[embedded-1] != g) {
				bad("the embedded field %s of %s is not among its anonymous fields", w.Name(), name)
			}
			embedded++
		} else if g.Name != w.Name() || s.Fields[g.Name] != g && w.Name() != "_" {
			bad("field %d of %s is named %q rather than %q", k, name, g.Name, w.Name())
		}
		if x, y := show(w.Type()), reported(g.Type); x != y {
			bad("the field %s.%s has type %s but is reported with %s", name, w.Name(), x, y)
		}
	}
	if embedded == 0 && s.PromotedField != nil || embedded > 0 && len(s.AnonymousFields) != embedded-1 {
		bad("%s has %d embedded fields, but %d further ones are reported", name, embedded, len(s.AnonymousFields))
	}
}

func signature(bad func(string, ...any), what string, s *types.Signature, f *goparser.ParsedFunc) {
	if len(f.Arguments) != s.Params().Len() || len(f.Returns) != s.Results().Len() {
		bad("the %s has %d parameters and %d results but is reported with %d and %d", what, s.Params().Len(), s.Results().Len(), len(f.Arguments), len(f.Returns))
		return
	}
	for k := range f.Arguments {
		p := s.Params().At(k)
		want := show(p.Type())
		if s.Variadic() && k == len(f.Arguments)-1 {
			want = "..." + strings.TrimPrefix(want, "[]")
		}
		if got := reported(f.Arguments[k].Type); got != want || f.Arguments[k].Name != p.Name() {
			bad("parameter %d of the %s is %q of type %s but is reported as %q of type %s", k, what, p.Name(), want, f.Arguments[k].Name, got)
		}
	}
	for k := range f.Returns {
		p := s.Results().At(k)
		if got, want := reported(f.Returns[k].Type), show(p.Type()); got != want || f.Returns[k].Name != p.Name() {
			bad("result %d of the %s is %q of type %s but is reported as %q of type %s", k, what, p.Name(), want, f.Returns[k].Name, got)
		}
	}
}

// show writes a type as the type checker sees it; interfaces, structs and functions are only named by their kind.
func show(t types.Type) string {
	args := func(l *types.TypeList) (s string) {
		if l.Len() == 0 {
			return ""
		}
		var as []string
		for k := 0; k < l.Len(); k++ {
			as = append(as, show(l.At(k)))
		}
		return "{" + strings.Join(as, ",") + "}"
	}
	switch t := t.(type) {
	case *types.Basic:
		return map[string]string{"byte": "uint8", "rune": "int32"}[t.Name()] + strings.NewReplacer("byte", "", "rune", "").Replace(t.Name())
	case *types.Alias:
		if t.Obj().Pkg() == nil {
			return show(types.Unalias(t))
		}
		return t.Obj().Pkg().Path() + "#" + t.Obj().Name() + args(t.TypeArgs())
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return t.Obj().Pkg().Path() + "#" + t.Obj().Name() + args(t.TypeArgs())
	case *types.Pointer:
		return "*" + show(t.Elem())
	case *types.Slice:
		return "[]" + show(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]", t.Len()) + show(t.Elem())
	case *types.Map:
		return "map[" + show(t.Key()) + "]" + show(t.Elem())
	case *types.Chan:
		return map[types.ChanDir]string{types.SendRecv: "chan", types.SendOnly: "send", types.RecvOnly: "recv"}[t.Dir()] + "(" + show(t.Elem()) + ")"
	case *types.Signature:
		return "func"
	case *types.Struct:
		return "struct"
	case *types.Interface:
		if t.NumMethods() == 0 && t.NumEmbeddeds() == 0 {
			return "any"
		}
		return "interface"
	case *types.TypeParam:
		return "$" + t.Obj().Name()
	}
	return fmt.Sprintf("?%T", t)
}

// reported writes a type of the parser in the same way.
func reported(t gocode.TypeName) string {
	switch t := t.(type) {
	case *gocode.BasicType:
		switch t.Name {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		}
		return t.Name
	case *gocode.AnyType:
		return "any"
	case *gocode.UserType:
		return t.Package + "#" + t.Name
	case *gocode.Pointer:
		return "*" + reported(t.PointerTo)
	case *gocode.Slice:
		return "[]" + reported(t.SliceOf)
	case *gocode.Ellipsis:
		return "..." + reported(t.EllipsisOf)
	case *gocode.Array:
		n := t.Len // as written
		if v, err := types.Eval(token.NewFileSet(), nil, token.NoPos, n); err == nil && v.Value != nil {
			n = v.Value.ExactString()
		}
		return "[" + n + "]" + reported(t.ArrayOf)
	case *gocode.Map:
		return "map[" + reported(t.KeyType) + "]" + reported(t.ValueType)
	case *gocode.Chan:
		return "chan(" + reported(t.ChanOf) + ")"
	case *gocode.SendChan:
		return "send(" + reported(t.SendType) + ")"
	case *gocode.ReceiveChan:
		return "recv(" + reported(t.ReceiveType) + ")"
	case *gocode.FuncType:
		return "func"
	case *gocode.StructType:
		return "struct"
	case *gocode.InterfaceType:
		return "interface"
	case *gocode.GenericTypeParam:
		return "$" + t.ParamName
	case *gocode.GenericType:
		as := []string{reported(t.TypeParam)}
		for _, a := range t.MoreTypeParams {
			as = append(as, reported(a))
		}
		return reported(t.BaseType) + "{" + strings.Join(as, ",") + "}"
	}
	return fmt.Sprintf("?%T", t)
}

// The packages that types come from: two of the same name, one that is usually imported into the name space of the file.
func deps() module {
	return module{
		"a/store/s.go": "package store\ntype T struct{ X int }\ntype G[P any] struct{ X P }\ntype I interface{ M() }\n",
		"b/store/s.go": "package store\ntype T struct{ X string }\ntype U int\n",
		"dot/d.go":     "package dot\ntype D struct{ X int }\n",
	}
}

var atoms = []string{"bool", "string", "int", "uint16", "byte", "rune", "float64", "complex128", "uintptr", "error", "any", "interface{}",
	"L", "LI", "LA", "store.T", "store.I", "b.T", "b.U", "D", "context.Context", "time.Duration", "K", "V"}

var shapes = []string{"*%", "[]%", "[3]%", "map[string]%", "map[L]%", "chan %", "<-chan %", "chan<- %", "func(%) %", "struct{ F % }", "interface{ M(%) }",
	"store.G[%]", "LG[string, %]", "(%)", "map[[2]int]map[b.U]%"}

func exprs(depth int) (es []string) {
	es = atoms
	last := es
	for d := 0; d < depth; d++ {
		var next []string
		for _, s := range shapes {
			for _, e := range last {
				if strings.HasPrefix(s, "chan ") && strings.HasPrefix(e, "<-chan") {
					e = "(" + e + ")"
				}
				next = append(next, strings.ReplaceAll(s, "%", e))
			}
		}
		es = append(es[:len(es):len(es)], next...)
		last = next
	}
	return
}

const head = "package p\n\nimport (\n\t\"context\"\n\t\"time\"\n\t\"" + root + "/a/store\"\n\tb \"" + root + "/b/store\"\n\t. \"" + root + "/dot\"\n)\n\n" +
	"var _ context.Context\nvar _ time.Duration\nvar _ store.T\nvar _ b.T\nvar _ D\n\n"

// expressions puts every type expression into every position.
func expressions(r *rep.R) {
	es := exprs(rep.Pick(r, 3, 4))
	const per = 200
	r.EnumN("type expressions", (len(es)+per-1)/per, 0, 1, func(i int) (c rep.Case) {
		part := es[i*per:]
		if len(part) > per {
			part = part[:per]
		}
		var s strings.Builder
		s.WriteString(head)
		for k, e := range part {
			generic := false
			for _, p := range []string{"K", "V"} {
				for _, w := range strings.FieldsFunc(e, func(r rune) bool { return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') }) {
					generic = generic || w == p
				}
			}
			w := func(f string) {
				s.WriteString(strings.NewReplacer("@", fmt.Sprint(k), "%", e).Replace(f))
			}
			if !generic {
				w("type I@ interface {\n\tM(ctx context.Context, a %, b, c %) (%, error)\n\tN(%, ...%) (x, y %, err error)\n\tO()\n}\n")
				w("type S@ struct {\n\tF %\n\tG, H % `json:\"x\"`\n\t_ %\n}\n")
				w("func F@(a, b %, _ int, c ...%) (%, error) { panic(0) }\n")
				w("func (s *S@) M(a %) (r %) { panic(0) }\nfunc (S@) N(%, map[string]%) % { panic(0) }\n")
			}
			w("type GI@[K comparable, V any] interface { M(k K, a %) (v V, r %) }\n")
			w("type GS@[K comparable, V any] struct { A K; F %; B []V }\n")
			w("func GF@[K comparable, V any](k K, a ...%) (% , V) { panic(0) }\n")
		}
		m := deps()
		m["p/p.go"] = s.String()
		m["p/local.go"] = "package p\n\ntype L struct{ X int }\ntype LI interface{ M(l L) *L }\ntype LA = []L\ntype LG[K comparable, V any] struct { K K; V map[K]V }\n"
		c.Input = fmt.Sprintf("%s to %s", part[0], part[len(part)-1])
		c.Sig = "expression"
		compare(&c, m, false, "p")
		if c.Outcome == "not valid Go" {
			l := &loader{m: m, done: map[string]*types.Package{}, fset: token.NewFileSet()}
			l.Import(root + "/p")
			panic(strings.Join(l.errs, "\n"))
		}
		return
	})
}

// imports imports three packages into two files of a package in all styles.
func imports(r *rep.R) {
	type pk struct {
		path, typ, name string
	}
	pks := []pk{{"a/store", "T", "store"}, {"b/store", "U", "store"}, {"odd-dir", "O", "odd"}, {"store", "W", "other"}}
	styles := []string{"", "store", "x", ".", "other", "-"}
	n := 1
	rx := make([]int, 8)
	for k := range rx {
		rx[k] = len(styles)
		if k >= 4 && !r.Thorough {
			rx[k] = 1 // the second file has the order of the first reversed
		}
		n *= rx[k]
	}
	r.EnumN("import styles", n, 0, 1, func(i int) (c rep.Case) {
		d := rep.Digits(i, rx...)
		m := deps()
		m["odd-dir/o.go"] = "package odd\ntype O struct{}\n"
		m["store/o.go"] = "package other\ntype W struct{}\n"
		dots, guesses := 0, 0
		for f := 0; f < 2; f++ {
			imps, decl := "package p\n\nimport (\n\t\"context\"\n", fmt.Sprintf("type I%d interface {\n\tM(ctx context.Context", f)
			dotted := 0
			for k := range pks {
				if f == 1 {
					k = len(pks) - 1 - k
				}
				j := d[k]
				if f == 1 {
					j = d[4+k]
					if !r.Thorough {
						j = d[(k+1)%4]
					}
				}
				st := styles[j]
				if st == "-" {
					continue
				}
				imps += "\t" + st + " \"" + root + "/" + pks[k].path + "\"\n"
				q := st + "."
				switch st {
				case "":
					q = pks[k].name + "."
					if pks[k].name != filepath.Base(pks[k].path) {
						guesses++
					}
				case ".":
					q = ""
					dotted++
				}
				decl += fmt.Sprintf(", a%d %s%s, b%d []*%s%s", k, q, pks[k].typ, k, q, pks[k].typ)
			}
			if dotted > 1 {
				dots++
			}
			m[fmt.Sprintf("p/f%d.go", f)] = imps + ")\n\n" + decl + ") error\n}\n"
		}
		c.Sig = "import-styles"
		c.Input = fmt.Sprintf("%q %q", m["p/f0.go"], m["p/f1.go"])
		compare(&c, m, dots > 0 || guesses > 0, "p")
		return
	})
}

// declarations combines declaration styles: every pair of them in the two orders and in one or two files.
func declarations(r *rep.R) {
	n := len(decls) * len(decls) * 3
	r.EnumN("declaration styles", n, 0, 1, func(i int) (c rep.Case) {
		d := rep.Digits(i, len(decls), len(decls), 3)
		m := deps()
		a, b := strings.ReplaceAll(decls[d[0]], "@", "A"), strings.ReplaceAll(decls[d[1]], "@", "B")
		hd := head
		local := "package p\n\ntype L struct{ X int }\ntype LI interface{ M(l L) *L }\ntype LG[K comparable, V any] struct { K K; V map[K]V }\n"
		switch d[2] {
		case 0:
			m["p/p.go"] = hd + a + "\n" + b
		case 1:
			m["p/p.go"] = hd + a
			m["p/a.go"] = strings.Replace(hd, "package p", "// Package p is a package.\npackage p", 1) + b
		case 2: // methods are in another file than the types
			var x, y []string
			for _, s := range []string{a, b} {
				i := strings.Index(s, "\nfunc (")
				if i < 0 {
					i = len(s)
				}
				x, y = append(x, s[:i]), append(y, s[i:])
			}
			m["p/z.go"] = hd + strings.Join(x, "\n")
			m["p/b.go"] = hd + strings.Join(y, "\n")
		}
		m["p/local.go"] = local
		c.Input = fmt.Sprintf("%d: %q %q", d[2], a, b)
		c.Sig = "declaration-styles"
		compare(&c, m, false, "p", "a/store")
		return
	})
}

var decls = []string{
	"type @I interface{}\n",
	"type @I interface {\n\t// doc\n\tM(context.Context) error // after\n\tN(ctx context.Context, a, b int, c string) (x, y int, err error)\n\tm()\n}\n",
	"type (\n\t@I interface{ M(ctx context.Context, i @J) (@J, error) }\n\t@J interface{ M(ctx context.Context, i @I) (*@S, error) }\n\t@S struct{ I @I; J *@J; S *@S }\n)\n",
	"type @I interface{ store.I; N() }\ntype @J interface{ @I }\ntype @K interface{ M(@I, @J) }\n",
	"type @C interface{ ~int | ~string }\ntype @D interface{ int; M() }\ntype @G[P @C] struct { P P }\nfunc @F[P @C, Q any](p P, q ...Q) (r map[P]Q) { panic(0) }\n",
	"type @S struct{}\nfunc (s *@S) M() {}\nfunc (*@S) N(int) {}\nfunc (_ @S) O(a, b int) (c, d string) { return }\n",
	"type @S struct {\n\tL\n\t*store.T\n\tLI\n\tb.U\n\tA, B int\n\tLG[string, int]\n}\n",
	"type @S struct {\n\tA int\n\t*L\n\tB, _, C *L `tag:\"x\"`\n\t_ int\n}\n",
	"type @S struct{ *LG[int, *store.T] }\nfunc (s @S) M(x LG[b.U, L]) (y *LG[string, LG[int, store.G[D]]]) { return }\n",
	"type @E int\nconst (\n\t@X @E = iota\n\t@Y\n)\nfunc (e @E) String() string { return \"\" }\ntype @T struct{ E @E }\nfunc @F(e @E) @T { panic(0) }\n",
	"type @D L\ntype @F func(a int) string\ntype @M map[string]L\nfunc (d @D) M() {}\nfunc (f @F) M() {}\nfunc @G(d @D, f @F, m @M) {}\n",
	"type @A = L\ntype @B = store.T\nfunc @F(a @A, b *@B) {}\ntype @S struct { A @A; @B }\n",
	"type @P[T any] struct{ X T; Y []T; Z *@P[T] }\nfunc (p *@P[T]) Get() T { panic(0) }\nfunc (p @P[U]) Set(u U) {}\nfunc @F(p @P[int]) @P[@P[L]] { panic(0) }\n",
	"type @Q[K comparable, V, W any] struct { M map[K]V; W W }\nfunc @F[X, Y any, Z comparable](x X, q @Q[Z, X, Y]) (y Y, z func(Z) X) { panic(0) }\n",
	"func init() {}\nfunc init() {}\nfunc _() {}\nvar @V, @W = 1, 2\nfunc @F() {}\n",
	"func @F(int, string, ...any) (error) { return nil }\nfunc @G(_ int, _, x string) (_ int, err error) { return }\nfunc @H(f func(a, b int) (c, d string), i interface{ M(x int) }) struct{ A, B int } { panic(0) }\n",
	"func @F() {\n\ttype L struct{ Y string }\n\ttype @Local interface{ Z() }\n\tvar x L\n\t_ = x\n}\nfunc @G(l L) {}\n",
	"type @S struct { A struct { B, C L; D []struct{ E int } }; F [2 + 1][0x10]int; G [5]*[6]L }\n",
	"type @I interface{ M(a []chan<- <-chan int, b chan (<-chan L)) <-chan (chan<- string); N(f ...func(...int)) }\n",
	"type @context struct{}\ntype @S struct { context context.Context; store store.T; b b.U }\nfunc (s @S) M(context context.Context, store *store.T) (b b.U) { return }\n",
	"type @S struct {\n\tA,\n\tB int /* c */\n\t// comment\n\n\tC (map[string](*(L)))\n}\nfunc (s *@S) M() {}\nfunc (s @S) N() {}\n",
	"type @I interface { M(ctx context.Context, a struct{}, b interface{}, c any, d interface{ any }, e comparable2) error }\ntype comparable2 interface{ M() }\n",
}

// shadows declares types named like predeclared types, packages and type parameters.
func shadows(r *rep.R) {
	names := []string{"string", "error", "any", "int", "byte", "comparable", "D", "K", "nothing", "context"}
	kinds := []string{"type % struct{ X float64 }", "type % = []float64", "type % interface{ Y() }", "type % float64"}
	n := len(names) * len(kinds) * 4
	r.EnumN("shadowed names", n, 0, 1, func(i int) (c rep.Case) {
		d := rep.Digits(i, len(names), len(kinds), 4)
		m := deps()
		m["q/q.go"] = "package q\n\n" + strings.ReplaceAll(kinds[d[1]], "%", names[d[0]]) + "\n"
		use := "var _ context.Context\n"
		imp := "import (\n\t\"context\"\n\t. \"" + root + "/dot\"\n)\n"
		if d[2]&1 == 1 {
			imp = "import (\n\tcontext \"" + root + "/a/store\"\n\t. \"" + root + "/dot\"\n)\n"
			use = "var _ context.T\n"
		}
		if d[2]&2 != 0 {
			imp = strings.Replace(imp, "\t. \""+root+"/dot\"\n", "", 1)
		} else {
			use += "var _ Dot\n"
		}
		m["dot/e.go"] = "package dot\ntype Dot int\n"
		m["q/r.go"] = "package q\n\n" + imp + "\n" + use + `
type I interface { M(a string, b error, c any, d int, e byte, f []K) (*string, map[int]error) }
type S struct { A string; B error; C any; D []int; E [4]byte; F nothing }
type K2[K any, string any] struct { A K; B string; C map[int]error }
func F[error any, int any](a error, b int, c string, k K, x any) (n nothing) { panic(0) }
func (s S) M(a string, b ...error) (c any) { return }
`
		for _, x := range []string{"K", "nothing"} {
			if names[d[0]] != x {
				m["q/extra"+x+".go"] = "package q\ntype " + x + " struct{ Z int }\n"
			}
		}
		c.Sig = "shadowed-names"
		c.Input = fmt.Sprintf("%q %q", m["q/q.go"], imp)
		compare(&c, m, false, "q")
		return
	})
}

// layouts adds files that the go command does not compile into the package.
func layouts(r *rep.R) {
	iface := func(sig string) string {
		return "type I interface{ M(" + sig + ") error }\ntype S struct { X " + sig + " }\nfunc F(" + sig + ") {}\nfunc (s S) N(" + sig + ") {}\n"
	}
	extras := []struct{ path, src string }{
		{"p/x_test.go", "package p\n" + "type Tested struct{}\nfunc TestX(t int) {}\n"},
		{"p/y_test.go", "package p_test\n" + iface("int")},
		{"p/p_windows.go", "package p\n" + iface("string")},
		{"p/a_tag.go", "//go:build never\n\npackage p\n" + iface("[]byte")},
		{"p/gen.go", "//go:build ignore\n\npackage main\nfunc main() {}\ntype I interface{ Wrong() }\n"},
		{"p/testdata/x.go", "package broken\nfunc {"},
		{"p/_old/x.go", "package old\n" + iface("int")},
		{"p/sub/p.go", "package p\n" + iface("float64")},
		{"p/doc.go", "// Package p is documented.\npackage p\n"},
		{"p/q/main.go", "package main\nfunc main() {}\n"},
		{"p/nested/go.mod", "module other.local/nested\n"},
	}
	n := rep.Power(2, len(extras))
	r.EnumN("files of a package", n, 0, 1, func(i int) (c rep.Case) {
		m := module{"p/p.go": "package p\n" + iface("bool")}
		if i>>10&1 == 1 {
			m["p/nested/n.go"] = "package nested\n" + iface("rune")
			m["p/nested/n2.go"] = "package nested\nfunc init( {"
		}
		for k, e := range extras {
			if i>>k&1 == 1 {
				m[e.path] = e.src
				c.Input += e.path + " "
			}
		}
		c.Sig = "files-of-a-package"
		compare(&c, m, i>>5&1 == 1, "p")
		return
	})
}
