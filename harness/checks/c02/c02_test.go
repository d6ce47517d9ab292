package c02

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/namespaceutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"verif.local/h/rep"
)

// ---------------------------------------------------------------- programs

// The tree of namespaces: root contains P and S; P contains Q. P and S build nodes of kind p, Q builds nodes of kind q.
var parent = map[string]string{"P": "root", "S": "root", "Q": "P"}
var accepts = map[string]string{"P": "p", "S": "p", "Q": "q"}

type dep struct {
	to    int
	inst  bool // Instantiate instead of Get
	alias bool // through an alias of the name
	twice bool
	opt   bool // errors are ignored, and it is tried twice
}

type nodeDef struct {
	kind string // r, p or q
	flag string // "", fail, nil, proxy, meta, putR, putP, putQ, undef
	deps []dep
}

type request struct {
	ns   string
	node int
}

type program struct {
	nodes  []nodeDef
	reqs   []request
	reject string   // "N:ns:node" or "E:ns:node": the handler refuses this node or edge
	all    bool     // build everything (BuildIR without names)
	unique bool     // pointers only: services must not be reachable from two namespaces
	ptr    []string // all nodes are pointers to services that are placed in these namespaces
}

func (p program) String() string {
	var b strings.Builder
	for i, n := range p.nodes {
		fmt.Fprintf(&b, "%s kind=%s", nm(i), n.kind)
		if n.flag != "" {
			b.WriteString(" " + n.flag)
		}
		for _, d := range n.deps {
			op := "get"
			if d.inst {
				op = "instantiate"
			}
			if d.alias {
				op += "-by-alias"
			}
			if d.twice {
				op += "-twice"
			}
			if d.opt {
				op += "-optional-twice"
			}
			fmt.Fprintf(&b, " %s(%s)", op, nm(d.to))
		}
		b.WriteString("; ")
	}
	for _, r := range p.reqs {
		fmt.Fprintf(&b, "request %s in %s; ", nm(r.node), r.ns)
	}
	if p.reject != "" {
		b.WriteString("reject " + p.reject)
	}
	if p.all {
		b.WriteString("build all")
	}
	if p.ptr != nil {
		fmt.Fprintf(&b, "pointers, placed in %v, unique=%v", p.ptr, p.unique)
	}
	return b.String()
}

func nm(i int) string { return fmt.Sprintf("n%d", i) }

// ---------------------------------------------------------------- reference

type outcome struct {
	nodes, edges map[string][]string // per namespace
	builds       map[string]int      // ns/name
	got          []string            // "ns/name got dep@ns"
	errs         map[string]bool     // texts one of which the error has to mention
	fails        bool
}

type ref struct {
	p     program
	o     *outcome
	state map[string]int // ns/name: 1 building, 2 built
	made  map[string]string
	extra map[string]bool
	edged map[string]bool
	nsup  map[string]bool
}

type failure struct{}

func (r *ref) fail(msg string) {
	r.o.fails = true
	r.o.errs[msg] = true
	panic(failure{})
}

func takes(ns, kind string) bool { return ns == "root" || accepts[ns] == kind }

func (r *ref) addNode(ns, name string) {
	if r.p.reject == "N:"+ns+":"+name {
		r.fail("refused " + r.p.reject)
	}
	r.o.nodes[ns] = append(r.o.nodes[ns], name)
}

func (r *ref) addEdge(ns, name string) {
	if r.edged[ns+"/"+name] {
		return
	}
	if r.p.reject == "E:"+ns+":"+name {
		r.fail("refused " + r.p.reject)
	}
	r.edged[ns+"/"+name] = true
	r.o.edges[ns] = append(r.o.edges[ns], name)
}

// need returns the identity (name@namespace) of the node that ns gets for node i.
func (r *ref) need(ns string, i int, edge bool) string {
	d := r.p.nodes[i]
	if d.flag == "undef" {
		r.fail(nm(i))
	}
	if !takes(ns, d.kind) {
		id := r.need(parent[ns], i, edge)
		if edge && d.flag != "meta" && d.flag != "proxy" {
			r.addEdge(ns, nm(i))
		}
		return id
	}
	k := ns + "/" + nm(i)
	switch r.state[k] {
	case 1:
		r.fail(nm(i))
	case 2:
		return r.made[k]
	}
	r.state[k] = 1
	defer func() {
		if r.state[k] == 1 {
			delete(r.state, k)
		}
	}()
	r.o.builds[k]++
	id := nm(i) + "@" + ns
	for j, dd := range d.deps {
		for t := 0; t < dd.times(); t++ {
			if dd.opt && !r.possible(ns, dd.to, !dd.inst) {
				continue
			}
			x := r.need(ns, dd.to, !dd.inst)
			r.o.got = append(r.o.got, fmt.Sprintf("%s got %s", k, x))
			if j == 0 && d.flag == "proxy" {
				id = x
			}
		}
	}
	switch d.flag {
	case "fail":
		r.fail("boom-" + nm(i) + ".")
	case "nil":
		r.fail(nm(i))
	case "putR", "putP", "putQ":
		r.put(ns, strings.ToLower(d.flag[3:]), "put-"+nm(i)+"-"+ns)
	}
	if d.flag != "proxy" {
		r.addNode(ns, nm(i))
	}
	r.state[k] = 2
	r.made[k] = id
	return id
}

func (d dep) times() int {
	if d.twice || d.opt {
		return 2
	}
	return 1
}

// possible tries whether need succeeds; what happened until a failure stays.
func (r *ref) possible(ns string, i int, edge bool) (ok bool) {
	fails, errs := r.o.fails, map[string]bool{}
	for e := range r.o.errs {
		errs[e] = true
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(failure); !is {
				panic(e)
			}
			r.o.fails, r.o.errs = fails, errs
		}
	}()
	r.need(ns, i, edge)
	return true
}

func (r *ref) put(ns, kind, name string) {
	if takes(ns, kind) {
		r.addNode(ns, name)
		return
	}
	r.put(parent[ns], kind, name)
	r.addEdge(ns, name)
}

func reference(p program) (o *outcome) {
	o = &outcome{map[string][]string{}, map[string][]string{}, map[string]int{}, nil, map[string]bool{}, false}
	r := &ref{p: p, o: o, state: map[string]int{}, made: map[string]string{}, edged: map[string]bool{}}
	// every failure that can be reached is a legitimate one to report: the order of requests is not specified
	try := func(f func()) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failure); !ok {
					panic(e)
				}
			}
		}()
		f()
	}
	if p.ptr != nil {
		for i, at := range p.ptr {
			o.builds[at+"/"+nm(i)] = 1
			r.addNode(at, nm(i))
			for _, d := range p.nodes[i].deps {
				o.got = append(o.got, fmt.Sprintf("%s/%s got %s@%s", at, nm(i), nm(d.to), p.ptr[d.to]))
				if p.ptr[d.to] != at {
					if p.unique {
						o.fails = true
						for k := d.to; k < len(p.nodes); k++ { // or any service that it reaches
							o.errs[nm(k)] = true
						}
					}
					r.addEdge(at, nm(d.to))
				}
			}
		}
	}
	used := map[string]bool{}
	for _, q := range p.reqs {
		for ns := q.ns; ns != "root"; ns = parent[ns] {
			used[ns] = true
		}
	}
	if p.all {
		for ns := range parent {
			used[ns] = true
		}
		for i, d := range p.nodes {
			if d.flag != "undef" {
				try(func() { r.need("root", i, true) })
			}
		}
	}
	for ns := range used {
		in := parent[ns]
		if p.all {
			in = "root" // nothing places Q in P
		}
		o.nodes[in] = append(o.nodes[in], ns)
	}
	for _, q := range p.reqs {
		if p.ptr != nil {
			continue
		}
		try(func() { r.need(q.ns, q.node, true) })
		if o.fails {
			// continue from a clean slate so that later requests' own failures are known as well
			r.state, r.made, r.edged = map[string]int{}, map[string]string{}, map[string]bool{}
		}
	}
	return o
}

// ---------------------------------------------------------------- the real thing

type base struct{ name, at, kind string }

func (n *base) Name() string   { return n.name }
func (n *base) String() string { return n.name }

type plain struct{ base }
type meta struct{ base }

func (*meta) ImplementsIRMetadata() {}

type kindT struct{ kind string }
type client struct{} // what a pointer to a service of kind p is for its clients
type container struct {
	base
	w *world
}

type world struct {
	p   program
	mu  sync.Mutex
	o   outcome
	bad []string
}

func (c *container) Accepts(t any) bool {
	switch x := t.(type) {
	case *kindT:
		return x.kind == accepts[c.name]
	case client:
		return accepts[c.name] == "p"
	case *plain:
		return x.kind == accepts[c.name]
	case *meta:
		return x.kind == accepts[c.name]
	}
	return false
}

func (c *container) record(m map[string][]string, tag, name string, n ir.IRNode) error {
	if n == nil {
		c.w.bad = append(c.w.bad, "a nil node is added to "+c.name)
		return nil
	}
	if n.Name() != name && c.w.p.ptr == nil {
		c.w.bad = append(c.w.bad, fmt.Sprintf("node %s is added to %s under the name %s", n.Name(), c.name, name))
	}
	if c.w.p.reject == tag+":"+c.name+":"+name {
		return errors.New("refused " + c.w.p.reject)
	}
	m[c.name] = append(m[c.name], n.Name())
	return nil
}
func (c *container) AddNode(name string, n ir.IRNode) error {
	return c.record(c.w.o.nodes, "N", name, n)
}
func (c *container) AddEdge(name string, n ir.IRNode) error {
	return c.record(c.w.o.edges, "E", name, n)
}

func (w *world) build(i int, ns wiring.Namespace) (ir.IRNode, error) {
	d := w.p.nodes[i]
	w.o.builds[ns.Name()+"/"+nm(i)]++
	var first ir.IRNode
	for _, dd := range d.deps {
		name := nm(dd.to)
		if dd.alias {
			name = "alias-of-" + name
		}
		for t := 0; t < dd.times(); t++ {
			var x ir.IRNode
			var err error
			if dd.inst {
				err = ns.Instantiate(name, &x)
			} else {
				err = ns.Get(name, &x)
			}
			if err != nil && dd.opt {
				continue
			}
			if err != nil {
				return nil, err
			}
			if x == nil {
				w.bad = append(w.bad, fmt.Sprintf("%s obtains a nil node for %s", nm(i), name))
				return nil, errors.New("nil node")
			}
			w.o.got = append(w.o.got, fmt.Sprintf("%s/%s got %s", ns.Name(), nm(i), identity(x)))
			if first == nil {
				first = x
			}
		}
	}
	b := base{nm(i), ns.Name(), d.kind}
	switch d.flag {
	case "fail":
		return nil, errors.New("boom-" + nm(i) + ".")
	case "nil":
		return nil, nil
	case "proxy":
		return first, nil
	case "meta":
		return &meta{b}, nil
	case "putR", "putP", "putQ":
		x := &plain{base{"put-" + nm(i) + "-" + ns.Name(), ns.Name(), strings.ToLower(d.flag[3:])}}
		if err := ns.Put(x.Name(), x); err != nil {
			return nil, err
		}
		for _, get := range []func(string, any) error{ns.Get, ns.Instantiate, ns.Get} {
			var y ir.IRNode
			if err := get(x.Name(), &y); err != nil || y != ir.IRNode(x) {
				w.bad = append(w.bad, fmt.Sprintf("%s puts %s in its namespace, where it then gets %v (%v)", nm(i), x.Name(), y, err))
			}
		}
	}
	return &plain{b}, nil
}

func identity(n ir.IRNode) string {
	switch x := n.(type) {
	case *plain:
		return x.name + "@" + x.at
	case *meta:
		return x.name + "@" + x.at
	}
	return fmt.Sprint(n)
}

func execute(p program) (w *world, err error, panicked string) {
	w = &world{p: p, o: outcome{nodes: map[string][]string{}, edges: map[string][]string{}, builds: map[string]int{}}}
	spec := wiring.NewWiringSpec("root")
	for i, d := range p.nodes {
		if p.ptr != nil {
			spec.Define(nm(i)+".impl", &kindT{d.kind}, func(ns wiring.Namespace) (ir.IRNode, error) { return w.build(i, ns) })
			if p.unique {
				pointer.CreatePointer[client](spec, nm(i), nm(i)+".impl")
			} else {
				pointer.CreatePointer[client](spec, nm(i), nm(i)+".impl", pointer.PointerOpts{})
			}
		} else if d.flag != "undef" {
			spec.Define(nm(i), &kindT{d.kind}, func(ns wiring.Namespace) (ir.IRNode, error) { return w.build(i, ns) }, wiring.WiringOpts{ProxyNode: d.flag == "proxy"})
		}
		spec.Alias("alias-of-"+nm(i), nm(i))
	}
	kinds := map[string]string{"P": "r", "S": "r", "Q": "p"}
	for _, c := range []string{"P", "S", "Q"} {
		spec.Define(c, &kindT{kinds[c]}, func(ns wiring.Namespace) (ir.IRNode, error) {
			n := &container{base: base{c, ns.Name(), kinds[c]}, w: w}
			_, err := namespaceutil.InstantiateNamespace(ns, n)
			return n, err
		})
	}
	var names []string
	nested := false
	seen := map[string]bool{}
	for _, q := range p.reqs {
		if q.ns == "root" {
			names = append(names, nm(q.node))
			continue
		}
		if q.ns == "Q" && !nested {
			nested = true
			namespaceutil.AddNodeTo[container](spec, "P", "Q")
		}
		namespaceutil.AddNodeTo[container](spec, q.ns, nm(q.node))
		top := q.ns
		if top == "Q" {
			top = "P"
		}
		if !seen[top] {
			seen[top] = true
			names = append(names, top)
		}
	}
	if p.all {
		names = nil
	}
	var app *ir.ApplicationNode
	panicked = rep.Guard(func() { app, err = spec.BuildIR(names...) })
	if panicked == "" && err == nil {
		for _, c := range app.Children {
			if c == nil {
				w.bad = append(w.bad, "the application contains a nil node")
				continue
			}
			if p.ptr != nil && strings.HasSuffix(c.Name(), ".impl.visibility") {
				continue
			}
			w.o.nodes["root"] = append(w.o.nodes["root"], c.Name())
		}
	}
	return w, err, panicked
}

func sorted(m map[string][]string) map[string][]string {
	out := map[string][]string{}
	for k, v := range m {
		if len(v) > 0 {
			s := append([]string{}, v...)
			sort.Strings(s)
			out[k] = s
		}
	}
	return out
}

func judge(p program) []string {
	want := reference(p)
	w, err, panicked := execute(p)
	msgs := append([]string{}, w.bad...)
	if panicked != "" {
		return append(msgs, "building panics: "+panicked)
	}
	if want.fails {
		if err == nil {
			return append(msgs, fmt.Sprintf("the build succeeds although it has to fail with one of %v", keysOf(want.errs)))
		}
		for e := range want.errs {
			if strings.Contains(err.Error(), e) {
				return msgs
			}
		}
		return append(msgs, fmt.Sprintf("the build fails with %.300q, which mentions none of %v", err, keysOf(want.errs)))
	}
	if err != nil {
		return append(msgs, fmt.Sprintf("the build fails with %.300q", err))
	}
	cmp := func(what string, a, b any) {
		if !reflect.DeepEqual(a, b) {
			msgs = append(msgs, fmt.Sprintf("%s: expected %v, got %v", what, a, b))
		}
	}
	cmp("nodes per namespace", sorted(want.nodes), sorted(w.o.nodes))
	cmp("edges per namespace", sorted(want.edges), sorted(w.o.edges))
	cmp("builds", want.builds, w.o.builds)
	cmp("instances seen by dependents", sorted(map[string][]string{"": want.got}), sorted(map[string][]string{"": w.o.got}))
	return msgs
}

func keysOf(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- spaces

var kindsOf = []string{"r", "p", "q"}
var places = []string{"root", "P", "Q", "S"}

func requests(n int, pairs bool) (out [][]request) {
	for _, a := range places {
		out = append(out, []request{{a, 0}})
		if !pairs {
			continue
		}
		for _, b := range places {
			for k := 0; k < n; k++ {
				if a == b && k == 0 {
					continue
				}
				out = append(out, []request{{a, 0}, {b, k}})
			}
		}
	}
	return out
}

// product calls f with every vector v, 0 <= v[i] < sizes[i].
func product(sizes []int, f func([]int)) {
	v := make([]int, len(sizes))
	for {
		f(v)
		i := len(v) - 1
		for ; i >= 0; i-- {
			if v[i]++; v[i] < sizes[i] {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

func rep3(n, k int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = k
	}
	return s
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()

	// A: every dependency graph (cyclic ones too) over three nodes, every mode, every kind, pairs of requests.
	run(r, "graphs of three nodes", func(emit func(program)) {
		pairs := [][2]int{{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}}
		reqs := requests(3, true)
		product(rep3(6, 3), func(g []int) {
			cyclic := 0
			for i, x := range g {
				if x > 0 && pairs[i][0] > pairs[i][1] {
					cyclic++
				}
			}
			product(rep3(3, 3), func(k []int) {
				nodes := make([]nodeDef, 3)
				for i := range nodes {
					nodes[i].kind = kindsOf[k[i]]
				}
				for i, x := range g {
					if x > 0 {
						nodes[pairs[i][0]].deps = append(nodes[pairs[i][0]].deps, dep{to: pairs[i][1], inst: x == 2})
					}
				}
				rs := reqs
				if cyclic > 0 && !r.Thorough {
					rs = requests(3, false)
				}
				for _, q := range rs {
					emit(program{nodes: nodes, reqs: q})
				}
			})
		})
	})

	// B: all flags on acyclic graphs.
	flags := []string{"", "fail", "nil", "proxy", "meta", "undef", "putR", "putP", "putQ"}
	run(r, "flags on acyclic graphs", func(emit func(program)) {
		reqs := requests(3, r.Thorough)
		if !r.Thorough {
			reqs = append(reqs, []request{{"P", 0}, {"P", 1}}, []request{{"P", 0}, {"Q", 1}}, []request{{"Q", 0}, {"P", 2}}, []request{{"P", 0}, {"S", 0}})
		}
		product([]int{3, 3, 3}, func(g []int) {
			product(rep3(3, 3), func(k []int) {
				product(rep3(3, len(flags)), func(f []int) {
					nodes := make([]nodeDef, 3)
					nf := 0
					for i := range nodes {
						nodes[i].kind, nodes[i].flag = kindsOf[k[i]], flags[f[i]]
						if f[i] == 1 || f[i] == 2 || f[i] == 5 {
							nf++
						}
						if f[i] > 0 {
							nf++
						}
					}
					if nf > 2 && !r.Thorough {
						return
					}
					for i, e := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
						if g[i] > 0 {
							nodes[e[0]].deps = append(nodes[e[0]].deps, dep{to: e[1], alias: g[i] == 2})
						}
					}
					for i := range nodes {
						if nodes[i].flag == "proxy" && len(nodes[i].deps) == 0 {
							return
						}
					}
					for _, q := range reqs {
						emit(program{nodes: nodes, reqs: q})
					}
				})
			})
		})
	})

	// C: handlers that refuse.
	run(r, "handlers that refuse a node or an edge", func(emit func(program)) {
		product([]int{3, 3, 3}, func(g []int) {
			product(rep3(3, 3), func(k []int) {
				nodes := make([]nodeDef, 3)
				for i := range nodes {
					nodes[i].kind = kindsOf[k[i]]
				}
				for i, e := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
					if g[i] > 0 {
						nodes[e[0]].deps = append(nodes[e[0]].deps, dep{to: e[1], inst: g[i] == 2, twice: true})
					}
				}
				for _, q := range requests(3, false) {
					for _, what := range []string{"N", "E"} {
						for _, ns := range []string{"P", "Q"} {
							for i := range nodes {
								emit(program{nodes: nodes, reqs: q, reject: what + ":" + ns + ":" + nm(i)})
							}
						}
					}
				}
			})
		})
	})

	// F: optional dependencies that fail, and are asked for again.
	run(r, "optional dependencies", func(emit func(program)) {
		product([]int{4, 4, 4}, func(g []int) {
			product(rep3(3, 3), func(k []int) {
				product(rep3(2, 4), func(f []int) {
					nodes := make([]nodeDef, 3)
					for i := range nodes {
						nodes[i].kind = kindsOf[k[i]]
						if i > 0 {
							nodes[i].flag = []string{"", "fail", "nil", "undef"}[f[i-1]]
						}
					}
					for i, e := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
						if g[i] > 0 {
							nodes[e[0]].deps = append(nodes[e[0]].deps, dep{to: e[1], opt: g[i] < 3, alias: g[i] == 2})
						}
					}
					for _, q := range requests(3, false) {
						emit(program{nodes: nodes, reqs: q})
					}
				})
			})
		})
	})

	// D: four nodes, get only, to reach diamonds across two levels.
	if true {
		run(r, "acyclic graphs of four nodes", func(emit func(program)) {
			edges := [][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}
			product(rep3(6, 2), func(g []int) {
				product(rep3(4, 3), func(k []int) {
					nodes := make([]nodeDef, 4)
					for i := range nodes {
						nodes[i].kind = kindsOf[k[i]]
					}
					for i, e := range edges {
						if g[i] > 0 {
							nodes[e[0]].deps = append(nodes[e[0]].deps, dep{to: e[1]})
						}
					}
					for _, q := range requests(4, r.Thorough) {
						emit(program{nodes: nodes, reqs: q})
					}
				})
			})
		})
	}

	// G: one node asks for another one again and again, in all ways.
	run(r, "one dependency asked for in several ways", func(emit func(program)) {
		product(rep3(3, 5), func(g []int) {
			product(rep3(3, 3), func(k []int) {
				for _, fl := range []string{"", "meta", "proxy"} {
					for other := 0; other < 5; other++ {
						nodes := make([]nodeDef, 3)
						for i := range nodes {
							nodes[i].kind = kindsOf[k[i]]
						}
						for _, m := range g {
							if m < 4 {
								nodes[0].deps = append(nodes[0].deps, dep{to: 1, inst: m&1 > 0, alias: m&2 > 0})
							}
						}
						nodes[1].flag = fl
						if other < 4 {
							nodes[1].deps = append(nodes[1].deps, dep{to: 2, inst: other&1 > 0, alias: other&2 > 0})
						} else if fl == "proxy" {
							continue
						}
						for _, q := range requests(3, false) {
							emit(program{nodes: nodes, reqs: q})
						}
					}
				}
			})
		})
	})

	// P: pointers to services, each of which is placed in a namespace, with calls between them.
	run(r, "placed services that call each other", func(emit func(program)) {
		product([]int{2, 2, 2, 2, 2, 2}, func(g []int) {
			product(rep3(4, 2), func(at []int) {
				for _, order := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 0, 3, 2}} {
					nodes := make([]nodeDef, 4)
					p := program{ptr: make([]string, 4)}
					for i := range nodes {
						nodes[i].kind = "p"
						p.ptr[i] = []string{"P", "S"}[at[i]]
					}
					for i, e := range [][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}} {
						if g[i] > 0 {
							nodes[e[0]].deps = append(nodes[e[0]].deps, dep{to: e[1]})
						}
					}
					p.nodes = nodes
					for _, i := range order {
						p.reqs = append(p.reqs, request{p.ptr[i], i})
					}
					// without uniqueness, every namespace may have an instance of its own
					p.unique = true
					emit(p)
				}
			})
		})
	})

	// E: build everything that is defined.
	run(r, "building all definitions", func(emit func(program)) {
		product(rep3(6, 2), func(g []int) {
			product(rep3(3, 3), func(k []int) {
				for _, fl := range []string{"", "fail", "undef"} {
					nodes := make([]nodeDef, 3)
					for i := range nodes {
						nodes[i].kind = kindsOf[k[i]]
					}
					nodes[2].flag = fl
					for i, e := range [][2]int{{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}} {
						if g[i] > 0 {
							nodes[e[0]].deps = append(nodes[e[0]].deps, dep{to: e[1]})
						}
					}
					emit(program{nodes: nodes, all: true})
				}
			})
		})
	})
}

func run(r *rep.R, name string, gen func(emit func(program))) {
	if r.NumViolations() > 0 {
		return
	}
	var n, fails int64
	var mu sync.Mutex
	outs := map[string]bool{}
	ch := make(chan []program, 16)
	var wg sync.WaitGroup
	for i := 0; i < r.Workers(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for batch := range ch {
				for _, p := range batch {
					if atomic.LoadInt64(&fails) > 0 {
						continue
					}
					atomic.AddInt64(&n, 1)
					if msgs := judge(p); len(msgs) > 0 {
						mu.Lock()
						atomic.AddInt64(&fails, 1)
						r.Fail(rep.Violation{Sig: "build", Scenario: name, Input: p.String(), Messages: append([]string{p.String()}, msgs...)})
						mu.Unlock()
					}
				}
				o := reference(batch[0])
				mu.Lock()
				outs[fmt.Sprint(sorted(o.nodes), sorted(o.edges), o.fails)] = true
				mu.Unlock()
			}
		}()
	}
	var batch []program
	part := 0
	skipped := false
	gen(func(p program) {
		if r.Expired() || atomic.LoadInt64(&fails) > 0 {
			skipped = true
			return
		}
		batch = append(batch, p)
		if len(batch) == 64 {
			if part++; r.Mine(part) {
				ch <- batch
			}
			batch = nil
		}
	})
	if len(batch) > 0 && r.Shard == 0 {
		ch <- batch
	}
	close(ch)
	wg.Wait()
	r.Add(&rep.Space{Keys: r.Keys(outs), Name: name, Executions: int(n), States: int(n), Transitions: int(n), Outcomes: len(outs), Exhaustive: !skipped})
	r.Sample(map[string]any{"space": name, "programs": n})
}
