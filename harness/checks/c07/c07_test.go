// Package c07 checks that generated files hold exactly the output of their template and that the parts of a generated
// workspace do not replace each other.
package c07

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/plugins/dockercompose/dockergen"
	"github.com/blueprint-uservices/blueprint/plugins/golang/gocode"
	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes/kubetemplate"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer/linuxgen"
	"golang.org/x/mod/modfile"
	"verif.local/h/rep"
)

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	files(r)
	imports(r)
	workspaces(r)
}

type helper struct {
	name string
	file func(name, body string, args any, filename string) error
	str  func(name, body string, args any) (string, error)
}

var helpers = []helper{
	{"gogen", gogen.ExecuteTemplateToFile, gogen.ExecuteTemplate},
	{"linuxgen", linuxgen.ExecuteTemplateToFile, linuxgen.ExecuteTemplate},
	{"dockergen", dockergen.ExecuteTemplateToFile, dockergen.ExecuteTemplate},
	{"kubetemplate", kubetemplate.ExecuteTemplateToFile, kubetemplate.ExecuteTemplate},
}

// bodies are templates; the last ones fail.
var bodies = []string{"", "x", "line\n", "{{.A}}", "a {{range .L}}{{.}}\n{{end}}", "{{if .A}}{{end}}", "{{.Missing}}", "a{{"}

type args struct {
	A string
	L []int
}

// files writes every template twice in a row over every earlier content of the file.
func files(r *rep.R) {
	rx := []int{len(helpers), len(bodies), len(bodies), 7, 4}
	n := 1
	for _, x := range rx {
		n *= x
	}
	r.Enum("files over earlier contents", n, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, rx...)
		h := helpers[d[0]]
		as := []args{{}, {A: "value", L: []int{1, 2, 3}}, {A: strings.Repeat("long ", 2000)}, {A: "é\x00\"$"}}[d[4]]
		c.Sig = "generated-file-" + h.name
		c.Input = fmt.Sprintf("%s: template %q then %q, earlier content %d, arguments %d", h.name, bodies[d[1]], bodies[d[2]], d[3], d[4])
		dir, err := os.MkdirTemp("", "c07")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "out.txt")
		want, _ := h.str("t", bodies[d[1]], as)
		if d[3] > 0 {
			ls := []int{0, 0, len(want) - 1, len(want), len(want) + 1, len(want) + 100, 20000}
			if ls[d[3]] < 0 {
				ls[d[3]] = 0
			}
			os.WriteFile(f, []byte(strings.Repeat("#", ls[d[3]])), 0644)
		}
		for _, b := range []string{bodies[d[1]], bodies[d[2]]} {
			c.Steps++
			want, werr := h.str("t", b, as)
			var gerr error
			if e := rep.Guard(func() { gerr = h.file("t", b, as, f) }); e != "" {
				c.Msgs = append(c.Msgs, "panic: "+e)
				return
			}
			if (gerr != nil) != (werr != nil) {
				c.Msgs = append(c.Msgs, fmt.Sprintf("writing %q: error %v, but the template gives %v", b, gerr, werr))
				return
			}
			if werr != nil {
				c.Outcome += "error "
				continue
			}
			c.Outcome += "written "
			got, err := os.ReadFile(f)
			if err != nil || string(got) != want {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the file has %d bytes %.60q instead of the output's %d bytes %.60q", len(got), got, len(want), want))
				return
			}
		}
		return
	})
}

// pk is a package that types are taken from: its path and its real name.
type pk struct{ path, name string }

var pks = []pk{
	{"a.com/x/foo", "foo"}, {"a.com/y/foo", "foo"}, {"foo", "foo"}, {"a.com/foo2", "foo2"}, {"a.com/go-foo", "foo"},
	{"a.com/foo/v2", "foo"}, {"a.com/bar/v12", "bar"}, {"a.com/foo.v3", "foo"}, {"a.com/z/foo-bar", "foobar"}, {"a.com/string", "string"},
	{"a.com/v1", "v1"}, {"a.com/type", "typ"}, {"a.com/9p", "p"}, {"context", "context"}, {"b.com/context", "context"}, {"own.com/m/own", "own"},
}

const own = "own.com/m/own"

// shapes are the type constructors, over two types.
var shapes = []struct {
	name string
	mk   func(a, b gocode.TypeName) gocode.TypeName
	str  string
}{
	{"T", func(a, b gocode.TypeName) gocode.TypeName { return a }, "%[1]s"},
	{"*T", func(a, b gocode.TypeName) gocode.TypeName { return &gocode.Pointer{PointerTo: a} }, "*%[1]s"},
	{"[]T", func(a, b gocode.TypeName) gocode.TypeName { return &gocode.Slice{SliceOf: a} }, "[]%[1]s"},
	{"[3]T", func(a, b gocode.TypeName) gocode.TypeName { return &gocode.Array{Len: "3", ArrayOf: a} }, "[3]%[1]s"},
	{"map", func(a, b gocode.TypeName) gocode.TypeName {
		return &gocode.Map{KeyType: &gocode.Pointer{PointerTo: a}, ValueType: b}
	}, "map[*%[1]s]%[2]s"},
	{"chan", func(a, b gocode.TypeName) gocode.TypeName { return &gocode.Chan{ChanOf: a} }, "chan %[1]s"},
	{"<-chan", func(a, b gocode.TypeName) gocode.TypeName { return &gocode.ReceiveChan{ReceiveType: a} }, "<-chan %[1]s"},
	{"chan<-", func(a, b gocode.TypeName) gocode.TypeName { return &gocode.SendChan{SendType: a} }, "chan<- %[1]s"},
	{"Gen", func(a, b gocode.TypeName) gocode.TypeName {
		return &gocode.GenericType{BaseType: &gocode.UserType{Package: "a.com/gen", Name: "G"}, TypeParam: a, MoreTypeParams: []gocode.TypeName{b}}
	}, "a.com/gen.G[%[1]s, %[2]s]"},
}

type fake map[string]*types.Package

func (f fake) Import(path string) (*types.Package, error) {
	if p, ok := f[path]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("package %s is not imported by any type", path)
}

func newFake() fake {
	f := fake{}
	for _, p := range append(pks, pk{"a.com/gen", "gen"}) {
		pkg := types.NewPackage(p.path, p.name)
		tn := types.NewTypeName(token.NoPos, pkg, "T", nil)
		types.NewNamed(tn, types.Typ[types.Int], nil)
		pkg.Scope().Insert(tn)
		if p.name == "gen" {
			g := types.NewTypeName(token.NoPos, pkg, "G", nil)
			any := types.Universe.Lookup("any").Type()
			n := types.NewNamed(g, types.NewStruct(nil, nil), nil)
			n.SetTypeParams([]*types.TypeParam{types.NewTypeParam(types.NewTypeName(token.NoPos, pkg, "A", nil), any), types.NewTypeParam(types.NewTypeName(token.NoPos, pkg, "B", nil), any)})
			pkg.Scope().Insert(g)
		}
		pkg.MarkComplete()
		f[p.path] = pkg
	}
	return f
}

// imports prints two types over all lists of three packages and lets the Go type checker read the result.
func imports(r *rep.R) {
	_ = importer.Default
	rx := []int{len(pks), len(pks), len(pks), len(shapes), len(shapes), rep.Pick(r, 1, len(shapes))}
	n := 1
	for _, x := range rx {
		n *= x
	}
	r.Enum("imports and types", n, 0, func(i int) (c rep.Case) {
		d := rep.Digits(i, rx...)
		ps := []pk{pks[d[0]], pks[d[1]], pks[d[2]]}
		ut := func(p pk) gocode.TypeName { return &gocode.UserType{Package: p.path, Name: "T"} }
		full := func(p pk) string { return p.path + ".T" }
		// t1 = shape(p0, p1), t2 = shape(shape'(p2, p0), p1)
		inner := shapes[d[5]]
		t := []gocode.TypeName{shapes[d[3]].mk(ut(ps[0]), ut(ps[1])), shapes[d[4]].mk(inner.mk(shapes[d[3]].mk(ut(ps[2]), ut(ps[0])), ut(ps[0])), ut(ps[1]))}
		paren := func(sh, s string) string {
			if sh == "chan" && strings.HasPrefix(s, "<-chan") {
				return "(" + s + ")"
			}
			return s
		}
		s3 := sprintf(shapes[d[3]].str, full(ps[2]), full(ps[0]))
		in := sprintf(inner.str, paren(inner.name, s3), full(ps[0]))
		want := []string{sprintf(shapes[d[3]].str, full(ps[0]), full(ps[1])), sprintf(shapes[d[4]].str, paren(shapes[d[4]].name, in), full(ps[1]))}
		c.Sig = "imports"
		c.Input = fmt.Sprintf("types %s over %s, %s, %s", shapes[d[3]].name+" and "+shapes[d[4]].name+" of "+inner.name, ps[0].path, ps[1].path, ps[2].path)
		im := gogen.NewImports(own)
		src := ""
		var names [2]string
		for k := range t {
			names[k] = im.NameOf(t[k])
		}
		if again := im.NameOf(t[0]); again != names[0] {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the name of a type changes from %s to %s", names[0], again))
		}
		// templates print the imports before they use the types that have been added
		early := gogen.NewImports(own)
		for k := range t {
			early.AddType(t[k])
		}
		before := early.String()
		for k := range t {
			early.NameOf(t[k])
		}
		if after := early.String(); before != after {
			c.Msgs = append(c.Msgs, fmt.Sprintf("types were added, and their names need further imports:\n%s\n%s", before, after))
		}
		decl := im.String()
		if decl != im.String() {
			c.Msgs = append(c.Msgs, "printing the imports twice gives different texts")
		}
		src = "package own\n\n" + decl + "\n\ntype T int\nvar v0 " + names[0] + "\nvar v1 " + names[1] + "\n"
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "x.go", src, 0)
		if err != nil {
			c.Msgs = append(c.Msgs, fmt.Sprintf("does not parse: %v\n%s", err, src))
			return
		}
		paths := map[string]bool{}
		for _, s := range f.Imports {
			if paths[s.Path.Value] {
				c.Msgs = append(c.Msgs, "a package is imported twice\n"+src)
			}
			paths[s.Path.Value] = true
		}
		conf := types.Config{Importer: newFake()}
		pkg, err := conf.Check(own, fset, []*ast.File{f}, nil)
		if err != nil {
			c.Msgs = append(c.Msgs, fmt.Sprintf("does not compile: %v\n%s", err, src))
			return
		}
		for k := range t {
			c.Steps++
			if got := types.TypeString(pkg.Scope().Lookup(fmt.Sprint("v", k)).Type(), nil); strings.ReplaceAll(got, " ", "") != strings.ReplaceAll(want[k], " ", "") {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the type %s is printed so that it means %s\n%s", want[k], got, src))
			}
		}
		c.Outcome = "compiles"
		return
	})
}

func sprintf(f, a, b string) string {
	return strings.ReplaceAll(strings.ReplaceAll(f, "%[1]s", a), "%[2]s", b)
}

// workspaces performs all sequences of operations on a workspace builder.
func workspaces(r *rep.R) {
	ops := []struct {
		create string // generated module
		short  string // local module
		src    string
	}{
		{create: "x.com/p/mod"}, {create: "x.com/q/mod"}, {create: "mod"}, {create: "mod0"},
		{short: "mod", src: "one"}, {short: "mod", src: "two"}, {short: "other", src: "one"}, {short: "mod0", src: "three"},
	}
	length := rep.Pick(r, 3, 4)
	n := rep.Power(len(ops), length)
	r.EnumN("workspaces", n, 0, 4, func(i int) (c rep.Case) {
		rx := make([]int, length)
		for k := range rx {
			rx[k] = len(ops)
		}
		d := rep.Digits(i, rx...)
		dir, err := os.MkdirTemp("", "c07w")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for _, s := range []string{"one", "two", "three"} {
			os.MkdirAll(filepath.Join(dir, "src", s), 0755)
			os.WriteFile(filepath.Join(dir, "src", s, "go.mod"), []byte("module local.com/"+s+"\n\ngo 1.20\n"), 0644)
			os.WriteFile(filepath.Join(dir, "src", s, s+".go"), []byte("package "+s+"\n"), 0644)
		}
		ws, err := gogen.NewWorkspaceBuilder(filepath.Join(dir, "ws"))
		if err != nil {
			panic(err)
		}
		c.Sig = "workspace"
		at := map[string]string{} // module -> directory
		for _, k := range d {
			o := ops[k]
			c.Steps++
			if o.create != "" {
				c.Input += "create " + o.create + "; "
				p, err := ws.CreateModule(o.create, "v0.0.0")
				if _, dup := at[o.create]; dup != (err != nil) {
					c.Msgs = append(c.Msgs, fmt.Sprintf("creating the module %s: error %v, although its presence is %v", o.create, err, dup))
				}
				if err == nil {
					at[o.create] = p
					os.WriteFile(filepath.Join(p, "mark.txt"), []byte(o.create), 0644)
				}
			} else {
				c.Input += "add " + o.src + " as " + o.short + "; "
				p, err := ws.AddLocalModule(o.short, filepath.Join(dir, "src", o.src))
				if err != nil {
					c.Msgs = append(c.Msgs, fmt.Sprintf("adding the module %s as %s: %v", o.src, o.short, err))
				} else {
					at["local.com/"+o.src] = p
				}
			}
		}
		if err := ws.Finish(); err != nil {
			c.Msgs = append(c.Msgs, fmt.Sprintf("finishing: %v", err))
			return
		}
		b, _ := os.ReadFile(filepath.Join(dir, "ws", "go.work"))
		work, err := modfile.ParseWork("go.work", b, nil)
		if err != nil {
			c.Msgs = append(c.Msgs, err.Error())
			return
		}
		used := map[string]bool{}
		for _, u := range work.Use {
			used[filepath.Join(dir, "ws", u.Path)] = true
		}
		seen := map[string]string{}
		var mods []string
		for m := range at {
			mods = append(mods, m)
		}
		sort.Strings(mods)
		for _, m := range mods {
			p := at[m]
			if o, dup := seen[p]; dup {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the modules %s and %s are in the same directory", o, m))
			}
			seen[p] = m
			if !used[p] {
				c.Msgs = append(c.Msgs, "the go.work file does not use "+m)
			}
			b, _ := os.ReadFile(filepath.Join(p, "go.mod"))
			mf, err := modfile.Parse("go.mod", b, nil)
			if err != nil || mf.Module.Mod.Path != m {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the go.mod file of %s is %.80q, %v", m, b, err))
				continue
			}
			repl := map[string]string{}
			for _, x := range mf.Replace {
				repl[x.Old.Path] = x.New.Path
			}
			for _, o := range mods {
				if o != m && filepath.Join(p, repl[o]) != at[o] {
					c.Msgs = append(c.Msgs, fmt.Sprintf("the go.mod file of %s replaces %s by %q", m, o, repl[o]))
				}
			}
			if strings.HasPrefix(m, "local.com/") {
				if _, err := os.Stat(filepath.Join(p, strings.TrimPrefix(m, "local.com/")+".go")); err != nil {
					c.Msgs = append(c.Msgs, "the files of "+m+" are not there")
				}
			} else if b, _ := os.ReadFile(filepath.Join(p, "mark.txt")); string(b) != m {
				c.Msgs = append(c.Msgs, "the files of "+m+" are not there")
			}
		}
		if len(used) != len(seen) {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the go.work file uses %d directories for %d modules", len(used), len(seen)))
		}
		c.Outcome = fmt.Sprint(len(mods), " modules")
		return
	})
}
