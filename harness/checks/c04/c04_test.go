package c04

import (
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/environment"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/workflow/workflowspec"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

// orders are the orders that a map of n keys is iterated in; the first one is sorted.
func orders(n int, all bool) (out [][]int) {
	if n <= 3 && all {
		var rec func(pre []int)
		rec = func(pre []int) {
			if len(pre) == n {
				out = append(out, append([]int{}, pre...))
				return
			}
		next:
			for i := 0; i < n; i++ {
				for _, p := range pre {
					if p == i {
						continue next
					}
				}
				rec(append(pre, i))
			}
		}
		rec(nil)
		return
	}
	id, rev, rot, swap := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	for i := range id {
		id[i], rev[i], rot[i], swap[i] = i, n-1-i, (i+1)%n, i
	}
	if n > 1 {
		swap[0], swap[1] = 1, 0
	}
	return [][]int{id, rev, rot, swap}
}

const policies = 5 // besides sorted order

func orderFor(n, policy int) []int {
	os := orders(n, true)
	return os[policy%len(os)]
}

// built is what a compilation yields: the description of the nodes, and the files.
type built struct {
	ir    string
	err   bool
	files map[string]string
	n     int            // map iterations over more than one key
	sites map[string]int // the most keys that the maps at a place have
}

// compile builds the spec with a map order for every iteration, numbered in the order they happen in.
func compile(s specOf, fresh bool, order func(i int, site string, n int) []int) (b built, why string) {
	b.sites, b.files = map[string]int{}, map[string]string{}
	if fresh {
		*workflowspec.Get() = *workflowspec.New()
	}
	vsched.MapOrder = func(n int) []int {
		pc := make([]uintptr, 4)
		frames := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
		f, _ := frames.Next()
		for strings.Contains(f.Function, "vsched.Keys") {
			f, _ = frames.Next()
		}
		site := fmt.Sprintf("%s:%d", f.Function[strings.LastIndex(f.Function, "/")+1:], f.Line)
		b.n++
		if n > b.sites[site] {
			b.sites[site] = n
		}
		return order(b.n-1, site, n)
	}
	defer func() { vsched.MapOrder = nil }()
	dir, err := os.MkdirTemp("", "c04")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	why = rep.Guard(func() {
		spec := wiring.NewWiringSpec("app")
		var roots []string
		if roots, err = s.define(spec); err != nil {
			return
		}
		app, e := spec.BuildIR(roots...)
		if err = e; err != nil {
			return
		}
		b.ir = app.String()
		if !s.irOnly {
			err = app.GenerateArtifacts(out)
		}
	})
	if err != nil {
		b.err = true
		b.ir += "\nerror"
		why += fmt.Sprintf("%.1500v", err)
	}
	filepath.WalkDir(out, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			data, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(out, p)
			b.files[rel] = strings.ReplaceAll(string(data), dir, "$DIR")
		}
		return nil
	})
	return
}

func (b built) differs(o built) string {
	if b.ir != o.ir {
		return "the nodes differ: " + diff(b.ir, o.ir)
	}
	var names []string
	for f := range b.files {
		names = append(names, f)
	}
	for f := range o.files {
		if _, ok := b.files[f]; !ok {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	for _, f := range names {
		x, ok := b.files[f]
		y, ok2 := o.files[f]
		if ok != ok2 {
			return fmt.Sprintf("file %s is there: %v, otherwise: %v", f, ok2, ok)
		}
		if x != y {
			return "file " + f + " differs: " + diff(x, y)
		}
	}
	return ""
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			o := "(end)"
			if i < len(y) {
				o = y[i]
			}
			return fmt.Sprintf("line %d is %.300q, in sorted order %.300q", i+1, o, x[i])
		}
	}
	return fmt.Sprintf("%d more lines", len(y)-len(x))
}

func (b built) hash() string {
	h := sha256.New()
	var names []string
	for f := range b.files {
		names = append(names, f)
	}
	sort.Strings(names)
	fmt.Fprintf(h, "%q", b.ir)
	for _, f := range names {
		fmt.Fprintf(h, "%q%q", f, b.files[f])
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	goproc.RegisterAsDefaultBuilder()
	linuxcontainer.RegisterAsDefaultBuilder()
	dockercompose.RegisterAsDefaultBuilder()
	environment.AssignPorts(12345)
	for _, s := range specs {
		if s.thorough && !r.Thorough {
			continue
		}
		s := s
		var base built
		var why string
		sorted := func(i int, site string, n int) []int { return orderFor(n, 0) }
		base, why = compile(s, true, sorted)
		if why != "" && !s.irOnly {
			r.Fail(rep.Violation{Sig: "not-built", Scenario: s.name, Messages: []string{why}})
			continue
		}
		type deviation struct {
			site   string
			policy int
		}
		var devs []deviation
		for site, n := range base.sites {
			most := map[bool]int{true: 5, false: 3}[r.Thorough]
			if n == 2 {
				most = 1
			}
			for p := 1; p <= most; p++ {
				devs = append(devs, deviation{site, p})
			}
		}
		sort.Slice(devs, func(i, j int) bool {
			return devs[i].site < devs[j].site || devs[i].site == devs[j].site && devs[i].policy < devs[j].policy
		})
		run := func(name, sig string, order func(i int, site string, n int) []int, fresh bool) (c rep.Case) {
			c.Sig, c.Input = sig, s.name+": "+name
			got, _ := compile(s, fresh, order)
			c.Steps = got.n + 1
			c.Outcome = got.hash()
			if d := base.differs(got); d != "" {
				c.Msgs = append(c.Msgs, d)
			}
			return
		}
		r.EnumN(s.name+": sorted, repeated, reversed, rotated, swapped", policies+2, 0, 1, func(i int) rep.Case {
			if i == policies+1 { // whatever order the maps really have
				vsched.MapOrder = nil
				return run("once more", "repeated", sorted, false)
			}
			return run(fmt.Sprint("all maps in order ", i), "all-maps", func(_ int, _ string, n int) []int { return orderFor(n, i) }, true)
		})
		at := func(ds ...deviation) func(int, string, int) []int {
			return func(_ int, site string, n int) []int {
				for _, d := range ds {
					if d.site == site {
						return orderFor(n, d.policy)
					}
				}
				return orderFor(n, 0)
			}
		}
		// parsing is only repeated where its own order is explored
		parsing := func(d deviation) bool { return strings.HasPrefix(d.site, "goparser.") }
		r.EnumN(s.name+": every place that iterates over maps, in every order", len(devs), 1, 1, func(i int) rep.Case {
			d := devs[i]
			return run(fmt.Sprintf("the maps at %s in order %d", d.site, d.policy), "maps-at-"+strings.Split(d.site, ":")[0], at(d), parsing(d))
		})
		if r.Thorough {
			var revs []deviation
			for _, d := range devs {
				if d.policy == 1 && !parsing(d) {
					revs = append(revs, d)
				}
			}
			n := len(revs)
			r.EnumN(s.name+": every two places, reversed", n*n, 2, 1, func(i int) (c rep.Case) {
				d, e := revs[i/n], revs[i%n]
				if d.site >= e.site {
					return
				}
				return run(fmt.Sprintf("the maps at %s and %s reversed", d.site, e.site), "maps-at-"+strings.Split(d.site, ":")[0], at(d, e), false)
			})
		}
	}
}
