package r04

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

// Containers are named R (built directly), P (child of R), C (child of P), D (second child of P).
// A definition string such as "Pa=d,Pb=p,Cb=r" says which container defines which node and of which kind:
//
//	p plain   r runs until cancelled   q run loop ends by itself   e run loop ends with an error
//	f first build fails, then plain    F every build fails         d plain, depends on node b    D runs, depends on b
var parentOf = map[string]string{"P": "R", "C": "P", "D": "P"}

func chain(c string) (out []string) { // c and its ancestors
	for ; c != ""; c = parentOf[c] {
		out = append(out, c)
	}
	return
}

func within(c, anc string) bool {
	for _, a := range chain(c) {
		if a == anc {
			return true
		}
	}
	return false
}

type node struct {
	container, name string
	serial          int
	dep             any
	w               *world
}

type runner struct{ *node }

func (r *runner) Run(ctx context.Context) error { return r.w.run(r.node, ctx) }

var errBuild, errRun = errors.New("build failed"), errors.New("run loop failed")

type ev struct {
	t    int
	kind string
	key  string // container+name
}

type world struct {
	mu     sync.Mutex
	x      *vsched.Exec
	kinds  map[string]byte // container+name -> kind
	ns     map[string]*golang.Namespace
	builds map[string]int
	good   map[string]int
	inst   map[string]any
	busy   map[string]int
	starts map[string]int
	ends   map[string]int
	events []ev
	msgs   []string
	clock  int
}

func newWorld(defs string) *world {
	w := &world{kinds: map[string]byte{}, ns: map[string]*golang.Namespace{}, builds: map[string]int{}, good: map[string]int{}, inst: map[string]any{}, busy: map[string]int{}, starts: map[string]int{}, ends: map[string]int{}}
	for _, d := range strings.Split(defs, ",") {
		if d != "" {
			w.kinds[d[:2]] = d[3]
		}
	}
	return w
}

func (w *world) fail(f string, a ...any) { w.msgs = append(w.msgs, fmt.Sprintf(f, a...)) }

func (w *world) note(kind, key string) {
	w.clock++
	w.events = append(w.events, ev{w.clock, kind, key})
}

func (w *world) ghost(f func()) {
	vsched.Ghost(func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		f()
	})
}

func (w *world) run(n *node, ctx context.Context) error {
	key := n.container + n.name
	w.ghost(func() { w.starts[key]++; w.note("run", key) })
	kind := w.kinds[key]
	var err error
	switch kind {
	case 'q':
		vsched.Point("loop")
	case 'e':
		vsched.Point("loop")
		err = errRun
	default:
		if !vsched.Block("run loop", func() bool { return ctx.Err() != nil }) {
			<-ctx.Done()
		}
	}
	w.ghost(func() { w.ends[key]++; w.note("ended", key) })
	return err
}

func (w *world) builder(c string) *golang.NamespaceBuilder {
	b := golang.NewNamespaceBuilder(c)
	for _, name := range []string{"a", "b"} {
		key := c + name
		kind, ok := w.kinds[key]
		if !ok {
			continue
		}
		b.Define(name, func(n *golang.Namespace) (any, error) {
			var serial int
			w.ghost(func() {
				w.builds[key]++
				serial = w.builds[key]
				w.note("build", key)
				w.busy[key]++
				if w.busy[key] > 1 {
					w.fail("node %s is being built twice at the same time", key)
				}
				if w.ns[c] != nil && n != w.ns[c] {
					w.fail("build function of %s called with another container", key)
				}
			})
			vsched.Point("building " + key)
			nd := &node{container: c, name: name, serial: serial, w: w}
			var err error
			if kind == 'F' || (kind == 'f' && (serial == 1 || vsched.RaceEnabled && vsched.Choose(2) == 1)) {
				err = errBuild
			} else if kind == 'd' || kind == 'D' {
				err = n.Get("b", &nd.dep)
				w.ghost(func() {
					if err == nil {
						if k := w.owner(c, "b"); k == "" || w.inst[k] != nd.dep {
							w.fail("%s was given %v as its dependency b", key, nd.dep)
						}
					}
				})
			}
			var out any = nd
			if strings.IndexByte("rqeD", kind) >= 0 {
				out = &runner{nd}
			}
			w.ghost(func() {
				w.busy[key]--
				if err != nil {
					w.note("failed", key)
					return
				}
				w.good[key]++
				w.inst[key] = out
				w.note("built", key)
				if w.good[key] > 1 {
					w.fail("node %s built %d times", key, w.good[key])
				}
			})
			if err != nil {
				return nil, err
			}
			return out, nil
		})
	}
	return b
}

// owner is the definition that name resolves to in container c.
func (w *world) owner(c, name string) string {
	for _, a := range chain(c) {
		if _, ok := w.kinds[a+name]; ok {
			return a + name
		}
	}
	return ""
}

// ---------------------------------------------------------------- sequential histories

// expected outcome of Get(c, name); updates the model's build counters.
type seqModel struct {
	w     *world
	built map[string]bool
	tries map[string]int
}

func (m *seqModel) get(c, name string) bool {
	key := m.w.owner(c, name)
	if key == "" {
		return false
	}
	if m.built[key] {
		return true
	}
	m.tries[key]++
	switch m.w.kinds[key] {
	case 'F':
		return false
	case 'f':
		if m.tries[key] == 1 {
			return false
		}
	case 'd', 'D':
		if !m.get(key[:1], "b") {
			return false
		}
	}
	m.built[key] = true
	return true
}

func seqRun(root *golang.Namespace, defs string, hist []string) (msgs []string) {
	w := newWorld(defs)
	m := &seqModel{w: w, built: map[string]bool{}, tries: map[string]int{}}
	var err error
	if root == nil {
		w.ns["R"], err = w.builder("R").Build(context.Background())
	} else {
		w.ns["R"], err = w.builder("R").BuildWithParent(root)
	}
	for _, c := range []string{"P", "C"} {
		if err == nil {
			w.ns[c], err = w.builder(c).BuildWithParent(w.ns[parentOf[c]])
		}
	}
	if err != nil {
		return []string{"construction failed: " + err.Error()}
	}
	for i, h := range hist {
		c, name := h[:1], h[1:]
		want := m.get(c, name)
		var got any
		err := w.ns[c].Get(name, &got)
		key := w.owner(c, name)
		switch {
		case want && err != nil:
			msgs = append(msgs, fmt.Sprintf("step %d: get %s from %s failed: %v", i, name, c, err))
		case !want && err == nil:
			msgs = append(msgs, fmt.Sprintf("step %d: get %s from %s succeeded", i, name, c))
		case want && got != w.inst[key]:
			msgs = append(msgs, fmt.Sprintf("step %d: get %s from %s returned %v, not the instance of %s", i, name, c, got, key))
		}
	}
	for key := range w.kinds {
		w.mu.Lock()
		if w.builds[key] != m.tries[key] {
			msgs = append(msgs, fmt.Sprintf("%s: build function called %d times, expected %d", key, w.builds[key], m.tries[key]))
		}
		w.mu.Unlock()
	}
	down := make(chan struct{})
	go func() {
		w.ns["R"].Shutdown(true)
		close(down)
	}()
	select {
	case <-down:
	case <-time.After(30 * time.Second):
		return append(msgs, "shutting down the outermost container does not end")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for key, k := range w.kinds {
		want := 0
		if m.built[key] && strings.IndexByte("rqeD", k) >= 0 {
			want = 1
		}
		if w.starts[key] != want || w.ends[key] != want {
			msgs = append(msgs, fmt.Sprintf("%s: run loop started %d times and ended %d times by the end of a shutdown of its container, expected %d", key, w.starts[key], w.ends[key], want))
		}
	}
	return append(msgs, w.msgs...)
}

func sequential(r *rep.R) {
	root, err := golang.NewNamespaceBuilder("root").Build(context.Background())
	if err != nil {
		r.T.Fatal(err)
	}
	depth := rep.Pick(r, 3, 4)
	sp := &rep.Space{Name: "sequential histories", Exhaustive: true, Bound: depth}
	var gets []string
	for _, c := range "RPC" {
		for _, n := range "ab" {
			gets = append(gets, string(c)+string(n))
		}
	}
	var hists [][]string
	var rec func(h []string)
	rec = func(h []string) {
		if len(h) == depth {
			hists = append(hists, append([]string{}, h...))
			return
		}
		for _, g := range gets {
			rec(append(h, g))
		}
	}
	rec(nil)
	var defsets []string
	for _, ra := range "-prdfD" {
		for _, rb := range "-pfr" {
			for _, pa := range "-pdD" {
				for _, pb := range rep.Pick(r, "-F", "-pF") {
					for _, ca := range "-dr" {
						for _, cb := range "-pf" {
							var d []string
							for k, v := range map[string]rune{"Ra": ra, "Rb": rb, "Pa": pa, "Pb": pb, "Ca": ca, "Cb": cb} {
								if v != '-' {
									d = append(d, k+"="+string(v))
								}
							}
							sort.Strings(d)
							defsets = append(defsets, strings.Join(d, ","))
						}
					}
				}
			}
		}
	}
	work := make(chan string)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for defs := range work {
				for j, h := range hists {
					var msgs []string
					use := root
					if j == 0 {
						use = nil
					}
					if p := rep.Guard(func() { msgs = seqRun(use, defs, h) }); p != "" {
						msgs = []string{p}
					}
					mu.Lock()
					sp.Executions++
					sp.Transitions += len(h)
					if len(msgs) > 0 {
						r.Fail(rep.Violation{Sig: "seq/" + defs + "/" + strings.Join(h, ","), Scenario: "sequential", Input: fmt.Sprintf("%s: %v", defs, h), Messages: msgs})
					}
					mu.Unlock()
					if len(msgs) > 0 {
						break
					}
				}
			}
		}()
	}
	for _, d := range defsets {
		if r.Expired() || r.Failed() > 6 {
			sp.Exhaustive = false
			break
		}
		work <- d
	}
	close(work)
	wg.Wait()
	sp.States = len(defsets)
	sp.Outcomes = len(defsets)
	r.Add(sp)
}

// ---------------------------------------------------------------- argument sources

func arguments(r *rep.R) {
	type arg struct {
		decl, set, flag, env, parent bool
		optional                     bool
	}
	var opts []arg
	for i := 0; i < 32; i++ {
		for _, o := range []bool{false, true} {
			a := arg{i&1 > 0, i&2 > 0, i&4 > 0, i&8 > 0, i&16 > 0, o}
			if !a.decl && (o || a.flag) { // an undeclared argument has no flag
				continue
			}
			opts = append(opts, a)
		}
	}
	names := [2][2]string{{"a.grpc_addr", "A_GRPC_ADDR"}, {"9b.http.dial-addr", "B_HTTP_DIAL_ADDR"}}
	sp := &rep.Space{Name: "argument sources", Exhaustive: true}
	outcomes := map[string]bool{}
	for _, n := range names {
		if got := golang.EnvVar(n[0]); got != n[1] {
			r.Fail(rep.Violation{Sig: "envvar/" + n[0], Scenario: "arguments", Messages: []string{fmt.Sprintf("environment variable of %s is %s, want %s", n[0], got, n[1])}})
		}
	}
	args0, fl0 := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = args0, fl0 }()
	// 0: no parent; 1: the parent has the values; 2: the grandparent; 3: the grandparent, already built
	for lvl := 0; lvl < 4; lvl++ {
		child := lvl > 0
		for _, x := range opts {
			for _, y := range opts {
				if !child && (x.parent || y.parent) || lvl > 1 && !x.parent && !y.parent {
					continue
				}
				as := [2]arg{x, y}
				fs := flag.NewFlagSet("x", flag.PanicOnError)
				flag.CommandLine = fs
				os.Args = []string{"prog"}
				rb := golang.NewNamespaceBuilder("root")
				pb := golang.NewNamespaceBuilder("parent")
				holder := pb
				if lvl > 1 {
					holder = rb
				}
				b := golang.NewNamespaceBuilder("it")
				wantOK, judge := true, true
				var want [2]string
				for i, a := range as {
					n := names[i]
					os.Unsetenv(n[1])
					if a.env {
						os.Setenv(n[1], "env"+n[0])
					}
					if a.flag {
						os.Args = append(os.Args, "-"+n[0]+"=flag"+n[0])
					}
					if a.parent {
						holder.Set(n[0], "parent"+n[0])
						if lvl == 3 {
							holder.Instantiate(n[0])
						}
					}
					if a.set && i == 0 {
						b.Set(n[0], "set"+n[0])
					}
					if a.decl && !a.optional {
						b.Required(n[0], "required")
					}
					if a.decl && a.optional {
						b.Optional(n[0], "optional")
					}
					if a.set && i == 1 {
						b.Set(n[0], "set"+n[0])
					}
					switch {
					case a.set:
						want[i] = "set" + n[0]
					case !child && a.decl && a.flag:
						want[i] = "flag" + n[0]
					case !child && a.decl && a.env:
						want[i] = "env" + n[0]
					case a.parent:
						want[i] = "parent" + n[0]
					case a.decl && !a.optional:
						wantOK = false
						judge = judge && (!child || !a.flag && !a.env)
					}
				}
				var err error
				var n *golang.Namespace
				p := rep.Guard(func() {
					if child {
						var pn *golang.Namespace
						pn, err = rb.Build(context.Background())
						if err == nil {
							if pn, err = pb.BuildWithParent(pn); err != nil {
								panic(err)
							}
							n, err = b.BuildWithParent(pn)
						}
					} else {
						n, err = b.Build(context.Background())
					}
				})
				sp.Executions++
				var msgs []string
				if p != "" {
					msgs = append(msgs, p)
				} else if judge && wantOK != (err == nil) {
					msgs = append(msgs, fmt.Sprintf("construction: %v, want success=%v", err, wantOK))
				} else if err == nil && wantOK {
					for i := range as {
						for k := 0; k < 2; k++ {
							var got string
							err := n.Get(names[i][0], &got)
							if want[i] == "" && err == nil || want[i] != "" && (err != nil || got != want[i]) {
								msgs = append(msgs, fmt.Sprintf("argument %s is %q (%v), want %q", names[i][0], got, err, want[i]))
							}
						}
					}
				}
				outcomes[fmt.Sprint(want, wantOK)] = true
				if len(msgs) > 0 {
					in := fmt.Sprintf("child=%v/%d %+v", child, lvl, as)
					r.Fail(rep.Violation{Sig: "args/" + strings.ReplaceAll(in, " ", "_"), Scenario: "arguments", Input: in, Messages: append([]string{in}, msgs...)})
				}
			}
		}
	}
	sp.States, sp.Transitions, sp.Outcomes = sp.Executions, sp.Executions*2, len(outcomes)
	r.Add(sp)
}

// ---------------------------------------------------------------- schedules

// operations: gXn get n from X; nXn construct a container X that eagerly instantiates n, then get n; wX wait on X;
// sX shut X down; SX shut X down and wait.
func scenario(defs string, progs ...string) *vsched.Scenario {
	sc := &vsched.Scenario{Name: "[" + defs + "] " + strings.Join(progs, " | "), AllowStuck: true}
	var w *world
	type op struct {
		task, op string
		inv, res int
		err      error
		got      any
	}
	var ops []*op
	var root *golang.Namespace
	sc.Before = func(x *vsched.Exec) {
		if root == nil { // an empty container around R: directly built ones live forever
			var err error
			if root, err = golang.NewNamespaceBuilder("root").Build(context.Background()); err != nil {
				panic(err)
			}
			root.Context().Done() // created here, outside the bubbles
		}
	}
	sc.Setup = func(x *vsched.Exec) {
		w, ops = newWorld(defs), nil
		w.x = x
		for _, c := range []string{"R", "P", "C", "D"} {
			parent := root
			if c != "R" {
				parent = w.ns[parentOf[c]]
			}
			n, err := w.builder(c).BuildWithParent(parent)
			if err != nil {
				panic(err)
			}
			w.ns[c] = n
		}
		for i, p := range progs {
			name := fmt.Sprint("t", i)
			x.Go(name, func() {
				for _, s := range strings.Fields(p) {
					vsched.Point("call " + s)
					o := &op{task: name, op: s}
					w.ghost(func() { w.note("call", s); o.inv = w.clock; o.res = -1; ops = append(ops, o) })
					n := w.ns[s[1:2]]
					var got any
					var err error
					switch s[0] {
					case 'g':
						err = n.Get(s[2:], &got)
					case 'w':
						n.Await()
					case 's':
						n.Shutdown(false)
					case 'S':
						n.Shutdown(true)
					}
					w.ghost(func() { w.note("ret", s); o.res = w.clock; o.err = err; o.got = got })
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		defer func() { w.ns["R"].Shutdown(false) }()
		if vsched.RaceEnabled {
			return
		}
		msgs = append(msgs, w.msgs...)
		at := func(kind, key string) int {
			for _, e := range w.events {
				if e.kind == kind && e.key == key {
					return e.t
				}
			}
			return -1
		}
		// which containers have been cancelled
		cancelled := func(c string) bool {
			for _, a := range chain(c) {
				for _, o := range ops {
					if (o.op[0] == 's' || o.op[0] == 'S') && o.op[1:2] == a {
						return true
					}
				}
				for k, v := range w.kinds {
					if v == 'e' && k[:1] == a && w.ends[k] > 0 {
						return true
					}
				}
			}
			return false
		}
		for _, c := range []string{"R", "P", "C", "D"} {
			if got := w.ns[c].Context().Err() != nil; got != cancelled(c) {
				msgs = append(msgs, fmt.Sprintf("container %s: cancelled=%v, expected %v", c, got, cancelled(c)))
			}
		}
		for k, v := range w.kinds {
			runs := strings.IndexByte("rqeD", v) >= 0
			if runs && w.good[k] > 0 && w.starts[k] != 1 || !runs && w.starts[k] > 0 {
				msgs = append(msgs, fmt.Sprintf("%s: run loop started %d times", k, w.starts[k]))
			}
			if w.starts[k] > 0 && w.ends[k] == 0 && (v == 'q' || v == 'e' || cancelled(k[:1])) {
				msgs = append(msgs, fmt.Sprintf("%s: run loop has not ended although it should", k))
			}
			if w.builds[k] != w.good[k]+count(w.events, "failed", k) {
				msgs = append(msgs, k+": a build never ended")
			}
		}
		failsReported := 0
		for _, o := range ops {
			c, name := o.op[1:2], o.op[2:]
			switch o.op[0] {
			case 'g':
				key := w.owner(c, name)
				switch {
				case o.res < 0:
					msgs = append(msgs, fmt.Sprintf("%s %s never returned", o.task, o.op))
				case o.err != nil:
					failsReported++
					ok := key == ""
					for _, e := range w.events {
						ok = ok || e.kind == "failed" && e.t > o.inv && e.t < o.res
					}
					if !ok {
						msgs = append(msgs, fmt.Sprintf("%s %s failed with %v although no build failed meanwhile", o.task, o.op, o.err))
					}
				case key == "" || o.got == nil || o.got != w.inst[key]:
					msgs = append(msgs, fmt.Sprintf("%s %s returned %v, not the instance %v of %s", o.task, o.op, o.got, w.inst[key], key))
				}
				x.Outcome("%s%s %v", o.task, o.op, o.err)
			case 'w', 'S':
				running := false
				for k := range w.kinds {
					if w.starts[k] == 0 || !within(k[:1], c) {
						continue
					}
					if w.ends[k] == 0 {
						running = true
					}
					// had the request that built it returned before the wait began?
					for _, q := range ops {
						if q.op[0] == 'g' && q.res >= 0 && q.res < o.inv && w.owner(q.op[1:2], q.op[2:]) == k && q.err == nil {
							if o.res >= 0 && (w.ends[k] == 0 || at("ended", k) > o.res) {
								msgs = append(msgs, fmt.Sprintf("%s %s returned although the run loop of %s had not ended", o.task, o.op, k))
							}
							break
						}
					}
				}
				if o.res < 0 && !running {
					msgs = append(msgs, fmt.Sprintf("%s %s never returned although no run loop is left", o.task, o.op))
				}
				x.Outcome("%s%s %v", o.task, o.op, o.res >= 0)
			}
		}
		for k := range w.kinds {
			if count(w.events, "failed", k) > 0 && failsReported == 0 {
				msgs = append(msgs, "a build of "+k+" failed and nobody was told")
			}
		}
		sort.Strings(msgs)
		return
	}
	return sc
}

func count(evs []ev, kind, key string) (n int) {
	for _, e := range evs {
		if e.kind == kind && e.key == key {
			n++
		}
	}
	return
}

func scenarios() (small, big []*vsched.Scenario) {
	add := func(defs string, p []string) {
		ops := len(strings.Fields(strings.Join(p, " ")))
		if len(p) > 2 || ops > 2 && strings.ContainsAny(defs, "rqe") || strings.Contains(defs, "D") {
			big = append(big, scenario(defs, p...))
		} else {
			small = append(small, scenario(defs, p...))
		}
	}
	// concurrent requests
	for _, defs := range []string{"Ra=p", "Ra=d,Rb=p", "Ra=r", "Ra=D,Rb=r", "Ra=f", "Ra=d,Rb=f", "Ra=F", "Pa=d,Rb=p", "Ra=d,Rb=p,Cb=p", "Pa=D,Rb=r,Cb=p", "Ra=q", "Ra=e"} {
		for _, p := range [][]string{{"gRa", "gRa"}, {"gCa", "gPa"}, {"gCa", "gDa"}, {"gCb", "gCa"}, {"gPa gPb", "gCb gCa"}, {"gCa gCa", "gDa gDa"}, {"gRa", "gPa", "gCa"}, {"gCb", "gDa", "gPb"}} {
			add(defs, p)
		}
	}
	// run loops, waiting and shutting down
	for _, defs := range []string{"Ra=r,Pb=r", "Pa=r,Cb=r", "Ca=r,Db=r", "Ca=q,Db=r", "Ca=e,Pb=r", "Pa=e,Cb=r", "Ca=e,Db=r", "Ra=e,Cb=r", "Pa=q,Cb=q", "Ra=q,Cb=q", "Ca=D,Pb=r"} {
		for _, p := range [][]string{{"gCa gCb gDb sP wP"}, {"gCa gCb gDb SC", "wP"}, {"gCa gCb SP"}, {"gCa gDb sD wC"}, {"gCa gCb wR"}, {"gCa gDa gDb sC wC wD"}, {"gCa", "gDb sP wP"}, {"gCa", "gCb", "sR"}, {"gCa gCb", "sC", "wC"}, {"sP gCa gCb wP"}, {"gCa gCb gDb SR"}} {
			add(defs, p)
		}
	}
	return
}

// interrupt: SIGINT shuts directly built containers down gracefully, and their descendants with them
func interrupt(r *rep.R) {
	sp := &rep.Space{Name: "interrupt", Exhaustive: true, Executions: 1, States: 1, Transitions: 1, Outcomes: 1}
	signal.Reset(os.Interrupt) // forget the containers of earlier executions
	w := newWorld("Ra=r,Ca=r")
	w.ns["R"], _ = w.builder("R").Build(context.Background())
	w.ns["P"], _ = w.builder("P").BuildWithParent(w.ns["R"])
	w.ns["C"], _ = w.builder("C").BuildWithParent(w.ns["P"])
	var x any
	w.ns["R"].Get("a", &x)
	w.ns["C"].Get("a", &x)
	syscall.Kill(os.Getpid(), syscall.SIGINT)
	done := make(chan struct{})
	go func() { w.ns["R"].Await(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		r.Fail(rep.Violation{Sig: "interrupt", Scenario: "interrupt", Messages: []string{"an interrupt did not shut the container and its descendants down"}})
	}
	r.Add(sp)
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	arguments(r)
	small, big := scenarios()
	r.ExploreAll(small, rep.Pick(r, 2, 3))
	r.ExploreAll(big, rep.Pick(r, 1, 2))
	sequential(r)
	interrupt(r)
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	small, big := scenarios()
	r.ExploreAll(small, rep.Pick(r, 1, 2))
	r.ExploreAll(big, rep.Pick(r, 0, 1))
}
