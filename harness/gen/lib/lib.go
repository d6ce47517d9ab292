// Package lib generates the code of processes for the checks of generated code. A generator (gen/<name>) calls Main
// with the processes to generate; each becomes a package of its own that the check imports:
// blueprint/goproc/<name>, whose New function is the generated constructor of the process's namespace.
package lib

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io"
	stdslog "log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"golang.org/x/exp/slog"
)

type Out struct {
	dir    string
	shard  int
	count  int
	Failed map[string]string // processes that could not be generated
	Names  []string
}

// Main runs a generator: its argument is the output directory.
func Main(f func(o *Out)) {
	logging.DisableCompilerLogging()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	stdslog.SetDefault(stdslog.New(stdslog.NewTextHandler(io.Discard, nil)))
	o := &Out{dir: os.Args[1], Failed: map[string]string{}}
	if s := os.Getenv("VERIF_GEN_SHARD"); s != "" {
		o.shard, _ = strconv.Atoi(s)
	} else if o.fork() {
		return
	}
	f(o)
	b, _ := json.MarshalIndent(o, "", " ")
	if err := os.WriteFile(filepath.Join(o.dir, "gen.json"), b, 0644); err != nil {
		panic(err)
	}
}

const shards = 8

// fork runs the generator in several processes, each with a part of the work; the compiler is single-threaded.
func (o *Out) fork() bool {
	dirs := make([]string, shards)
	errs := make(chan error, shards)
	for i := range dirs {
		dirs[i] = filepath.Join(o.dir, fmt.Sprint("shard", i))
		go func() {
			os.MkdirAll(dirs[i], 0755)
			c := exec.Command(os.Args[0], append([]string{dirs[i]}, os.Args[2:]...)...)
			c.Env = append(os.Environ(), "VERIF_GEN_SHARD="+strconv.Itoa(i))
			out, err := c.CombinedOutput()
			if err != nil {
				err = fmt.Errorf("%v: %.4000s", err, out)
			}
			errs <- err
		}()
	}
	for range dirs {
		if err := <-errs; err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
	}
	for _, d := range dirs {
		var p Out
		b, err := os.ReadFile(filepath.Join(d, "gen.json"))
		if err == nil {
			err = json.Unmarshal(b, &p)
		}
		if err != nil {
			panic(err)
		}
		for k, v := range p.Failed {
			o.Failed[k] = v
		}
		for _, n := range p.Names {
			o.Names = append(o.Names, n)
			if _, bad := p.Failed[n]; !bad {
				os.MkdirAll(filepath.Join(o.dir, "mods"), 0755)
				if err := os.Rename(filepath.Join(d, "mods", n), filepath.Join(o.dir, "mods", n)); err != nil {
					panic(err)
				}
			}
		}
	}
	sort.Strings(o.Names)
	b, _ := json.MarshalIndent(o, "", " ")
	if err := os.WriteFile(filepath.Join(o.dir, "gen.json"), b, 0644); err != nil {
		panic(err)
	}
	return true
}

// mine counts the applications and tells whether the next one is this process's.
func (o *Out) mine() bool {
	o.count++
	return o.count%shards == o.shard
}

var modName = regexp.MustCompile(`(?m)^module\s+(\S+)`)

// Proc generates a process with the nodes that define returns.
func (o *Out) Proc(name string, define func(spec wiring.WiringSpec) []string) {
	if !o.mine() {
		return
	}
	o.Names = append(o.Names, name)
	if err := o.proc(name, define); err != nil {
		o.Failed[name] = fmt.Sprintf("%.3000v", err)
	}
}

func (o *Out) proc(name string, define func(spec wiring.WiringSpec) []string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	spec := wiring.NewWiringSpec(name)
	p := goproc.CreateClientProcess(spec, name, define(spec)...)
	app, err := spec.BuildIR(p)
	if err != nil {
		return err
	}
	tmp := filepath.Join(o.dir, "full", name)
	if err := app.GenerateArtifacts(tmp); err != nil {
		return err
	}
	return o.Adopt(tmp, name)
}

// App generates an application of several processes; define returns the nodes to instantiate.
func (o *Out) App(name string, procs []string, define func(spec wiring.WiringSpec) []string) {
	if !o.mine() {
		return
	}
	o.Names = append(o.Names, procs...)
	if err := o.app(name, procs, define); err != nil {
		for _, p := range procs {
			o.Failed[p] = fmt.Sprintf("%.3000v", err)
		}
	}
}

func (o *Out) app(name string, procs []string, define func(spec wiring.WiringSpec) []string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	spec := wiring.NewWiringSpec(name)
	app, err := spec.BuildIR(define(spec)...)
	if err != nil {
		return err
	}
	tmp := filepath.Join(o.dir, "full", name)
	if err := app.GenerateArtifacts(tmp); err != nil {
		return err
	}
	for _, p := range procs {
		if err := o.Adopt(tmp, p); err != nil {
			return err
		}
	}
	return nil
}

// Adopt finds the generated module of a process below dir and turns it into the package that checks import.
func (o *Out) Adopt(dir, name string) error {
	found := ""
	want := "blueprint/goproc/" + name
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.Name() == "go.mod" {
			b, _ := os.ReadFile(p)
			if m := modName.FindSubmatch(b); m != nil && string(m[1]) == want {
				found = filepath.Dir(p)
			}
		}
		return nil
	})
	if found == "" {
		return fmt.Errorf("no module %s was generated", want)
	}
	dst := filepath.Join(o.dir, "mods", name)
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	construct := ""
	err := filepath.Walk(found, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(found, p)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, perr := parser.ParseFile(fset, p, src, parser.ParseComments)
		if perr == nil && f.Name.Name == "main" && !strings.Contains(rel, "/") {
			f.Name.Name = "proc"
			for _, d := range f.Decls {
				if fn, ok := d.(*ast.FuncDecl); ok && fn.Recv == nil && returnsBuilder(fn) {
					construct = fn.Name.Name
				}
			}
			var b strings.Builder
			if err := format.Node(&b, fset, f); err != nil {
				return err
			}
			src = []byte(b.String())
		}
		out := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(out), 0755); err != nil {
			return err
		}
		return os.WriteFile(out, src, 0644)
	})
	if err != nil {
		return err
	}
	if construct == "" {
		return fmt.Errorf("the process %s has no constructor", name)
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_verif.go"), []byte("package proc\n\nvar New = "+construct+"\n"), 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+want+"\n\ngo 1.25\n"), 0644)
}

func returnsBuilder(fn *ast.FuncDecl) bool {
	if fn.Type.Results == nil || len(fn.Type.Results.List) != 1 {
		return false
	}
	star, ok := fn.Type.Results.List[0].Type.(*ast.StarExpr)
	if !ok {
		return false
	}
	sel, ok := star.X.(*ast.SelectorExpr)
	return ok && sel.Sel.Name == "NamespaceBuilder"
}
