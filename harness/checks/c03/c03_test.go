// Package c03 decides C03: modifiers compose in the declared order around a service.
package c03

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unsafe"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/blueprint/logging"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/service"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/circuitbreaker"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/govector"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/jaeger"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"
	"github.com/blueprint-uservices/blueprint/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/h/rep"
	wf "verif.local/workflows/chain/chain"
)

type modifier struct {
	name     string
	src, dst bool
	apply    func(spec wiring.WiringSpec, service string)
}

var modifiers = []modifier{
	{"retries", true, false, func(s wiring.WiringSpec, n string) { retries.AddRetries(s, n, 3) }},
	{"timeout", true, false, func(s wiring.WiringSpec, n string) { timeouts.Add(s, n, "1s") }},
	{"breaker", true, false, func(s wiring.WiringSpec, n string) { circuitbreaker.AddCircuitBreaker(s, n, 10, 0.1, "1s") }},
	{"pool", true, false, func(s wiring.WiringSpec, n string) { clientpool.Create(s, n, 3) }},
	{"health", false, true, func(s wiring.WiringSpec, n string) { healthchecker.AddHealthCheckAPI(s, n) }},
	{"latency", false, true, func(s wiring.WiringSpec, n string) { latency.AddFixed(s, n, "1ms") }},
	{"govector", true, true, func(s wiring.WiringSpec, n string) { govector.Instrument(s, n) }},
	{"opentelemetry", true, true, func(s wiring.WiringSpec, n string) { opentelemetry.Instrument(s, n, "jaeger") }},
	{"retries-fixed", true, false, func(s wiring.WiringSpec, n string) { retries.AddRetriesWithFixedDelay(s, n, 3, "1ms") }},
	{"retries-backoff", true, false, func(s wiring.WiringSpec, n string) {
		retries.AddRetriesWithExponentialBackoff(s, n, "1ms", "1s", true)
	}},
	{"retries-rate", true, false, func(s wiring.WiringSpec, n string) { retries.AddRetriesRetryRateLimit(s, n, 3, 100) }},
	{"retries-tokens", true, false, func(s wiring.WiringSpec, n string) { retries.AddRetriesTokenBucket(s, n, 10, 1, 0.1) }},
	{"delay", false, true, func(s wiring.WiringSpec, n string) { faultinjector.AddRandomDelay(s, n, 3) }},
	{"failures", false, true, func(s wiring.WiringSpec, n string) { faultinjector.AddProbabilisticFailures(s, n, 3) }},
}

// how many modifiers take part in the longest sequences (quick)
const core = 8

type transport struct {
	name  string
	apply func(spec wiring.WiringSpec, service string)
}

var transports = []transport{{"none", nil}, {"http", http.Deploy}, {"grpc", grpc.Deploy}}

var placements = []string{"no processes", "one process", "own processes", "own processes and containers"}

// fields lists the values of the fields of a struct, also of embedded structs, exported or not.
func fields(v reflect.Value) (out []reflect.Value) {
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || !v.CanAddr() {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if v.Type().Field(i).Anonymous && f.Kind() == reflect.Struct {
			out = append(out, fields(f)...)
			continue
		}
		out = append(out, f)
	}
	return
}

func asNode(v reflect.Value) ir.IRNode {
	if v.Kind() != reflect.Pointer && v.Kind() != reflect.Interface || v.IsNil() {
		return nil
	}
	n, _ := v.Interface().(ir.IRNode)
	if n == nil || reflect.ValueOf(n).Kind() == reflect.Pointer && reflect.ValueOf(n).IsNil() {
		return nil
	}
	return n
}

// next lists the services and addresses of the named service that a node refers to directly (or, for a workflow
// service, takes as arguments).
func next(n ir.IRNode, service string) (out []ir.IRNode) {
	if a, ok := n.(address.Node); ok {
		if d := a.GetDestination(); d != nil {
			return []ir.IRNode{d}
		}
		return nil
	}
	seen := map[ir.IRNode]bool{}
	add := func(v reflect.Value) {
		c := asNode(v)
		if c == nil || seen[c] || c.Name() != service && !strings.HasPrefix(c.Name(), service+".") {
			return
		}
		if _, ok := c.(ir.IRConfig); ok {
			return
		}
		_, isAddr := c.(address.Node)
		_, isService := c.(serviceNode)
		if isAddr || isService {
			seen[c] = true
			out = append(out, c)
		}
	}
	_, isPool := n.(*clientpool.ClientPool) // its other fields list what the pool contains
	for _, f := range fields(reflect.ValueOf(n)) {
		if f.Kind() == reflect.Slice && !isPool {
			for i := 0; i < f.Len(); i++ {
				add(f.Index(i))
			}
			continue
		}
		add(f)
	}
	return
}

type serviceNode interface {
	ir.IRNode
	GetInterface(ctx ir.BuildContext) (service.ServiceInterface, error)
}

// chain follows the wrappers of a service from the client to the service.
func chain(from ir.IRNode, service string) (nodes []ir.IRNode, problem string) {
	seen := map[ir.IRNode]bool{}
	for n := from; ; {
		ns := next(n, service)
		if len(ns) == 0 {
			return nodes, ""
		}
		if len(ns) > 1 {
			return nodes, fmt.Sprintf("%s refers to several nodes of %s: %v", n.Name(), service, ns)
		}
		n = ns[0]
		if seen[n] {
			return nodes, fmt.Sprint("cycle at ", n.Name())
		}
		seen[n] = true
		nodes = append(nodes, n)
	}
}

func find(app *ir.ApplicationNode, name string) (out []ir.IRNode) {
	seen := map[ir.IRNode]bool{}
	var walk func(n ir.IRNode)
	walk = func(n ir.IRNode) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.Name() == name {
			if _, ok := n.(serviceNode); ok {
				out = append(out, n)
			}
		}
		for _, f := range fields(reflect.ValueOf(n)) {
			if f.Kind() == reflect.Slice {
				for i := 0; i < f.Len(); i++ {
					if c := asNode(f.Index(i)); c != nil {
						walk(c)
					}
				}
			} else if c := asNode(f); c != nil {
				walk(c)
			}
		}
	}
	walk(app)
	return
}

type build struct {
	mods      []int // applied to leaf, in this order
	after     []int // applied to leaf after the transport
	others    []int // applied to the other leaf
	transport int
	placement int
	clients   int
	instances []string // leaf services; leaf2 is never modified unless others says so
}

func (b build) String() string {
	var s []string
	for _, m := range b.mods {
		s = append(s, modifiers[m].name)
	}
	s = append(s, transports[b.transport].name)
	for _, m := range b.after {
		s = append(s, modifiers[m].name)
	}
	var o []string
	for _, m := range b.others {
		o = append(o, modifiers[m].name)
	}
	return fmt.Sprintf("%s, %d client(s), %s, other service: [%s]", strings.Join(s, " "), b.clients, placements[b.placement], strings.Join(o, " "))
}

func (b build) run() (app *ir.ApplicationNode, err error) {
	spec := wiring.NewWiringSpec("app")
	leaf := workflow.Service[*wf.LeafImpl](spec, "leaf")
	other := workflow.Service[*wf.LeafImpl](spec, "other")
	jaeger.Collector(spec, "jaeger")
	var clients []string
	for i := 0; i < b.clients; i++ {
		clients = append(clients, workflow.Service[*wf.ClientImpl](spec, fmt.Sprint("client", i), leaf))
	}
	clients = append(clients, workflow.Service[*wf.ClientImpl](spec, "otherclient", other))
	for _, m := range b.mods {
		modifiers[m].apply(spec, leaf)
	}
	for _, m := range b.others {
		modifiers[m].apply(spec, other)
	}
	if f := transports[b.transport].apply; f != nil {
		f(spec, leaf)
		f(spec, other)
		for _, c := range clients {
			f(spec, c)
		}
	}
	for _, m := range b.after {
		modifiers[m].apply(spec, leaf)
	}
	all := append([]string{leaf, other}, clients...)
	var roots []string
	switch b.placement {
	case 0:
		roots = all
	case 1:
		roots = []string{goproc.CreateProcess(spec, "proc", all...)}
	default:
		for _, s := range all {
			p := goproc.Deploy(spec, s)
			if b.placement == 3 {
				p = linuxcontainer.Deploy(spec, p)
			}
			roots = append(roots, p)
		}
	}
	return spec.BuildIR(roots...)
}

type kinds struct{ src, dst map[int]string } // node types by modifier, calibrated

func kind(n ir.IRNode) string { return reflect.TypeOf(n).String() }

func typesOf(nodes []ir.IRNode) (out []string) {
	for _, n := range nodes {
		if _, ok := n.(address.Node); ok {
			out = append(out, "address")
			continue
		}
		out = append(out, kind(n))
	}
	return
}

// calibrate learns the node types: each modifier alone around a service that is deployed over HTTP adds one node
// to the client side if it is a client modifier, and one to the server side if it is a server modifier.
func calibrate(r *rep.R) (k kinds, tr map[int][2]string) {
	k = kinds{map[int]string{}, map[int]string{}}
	tr = map[int][2]string{}
	var pre []string // what every client of a workflow service has
	var cases []rep.Case
	for i := 0; i < len(modifiers)+3; i++ {
		cases = append(cases, k.learn(i, tr, &pre))
	}
	r.EnumN("each modifier alone", len(cases), 1, 1, func(i int) rep.Case { return cases[i] })
	return
}

func (k kinds) learn(i int, tr map[int][2]string, base *[]string) rep.Case {
	pre := *base
	{
		c := rep.Case{Sig: "alone"}
		b := build{transport: 1, clients: 1}
		m := i - 3
		if m < 0 {
			b.transport = i
		} else {
			b.mods = []int{m}
		}
		c.Input = b.String()
		app, err := b.run()
		if err != nil {
			c.Msgs = append(c.Msgs, fmt.Sprint("does not build: ", err))
			return c
		}
		nodes, p := chain(find(app, "client0")[0], "leaf")
		ts := typesOf(nodes)
		c.Outcome = strings.Join(ts, " ")
		at := -1
		for j, t := range ts {
			if t == "address" && at < 0 {
				at = j
			}
		}
		bad := func() rep.Case {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the chain from a client to the service is %v %s", ts, p))
			return c
		}
		if p != "" || len(ts) < 1 || b.transport > 0 && (at < 0 || len(ts) < len(pre)+1 || strings.Join(ts[:len(pre)], " ") != strings.Join(pre, " ")) {
			return bad()
		}
		if b.transport == 0 {
			*base = ts[:len(ts)-1]
			pre = *base
			tr[0] = [2]string{strings.Join(pre, " ")}
			return c
		}
		src, dst := ts[len(pre):at], ts[at+1:]
		if m < 0 {
			if len(src) != 1 || len(dst) != 2 {
				return bad()
			}
			tr[b.transport] = [2]string{src[0], dst[0]}
			return c
		}
		ns, nd := 1, 2
		if modifiers[m].src {
			ns = 2
			k.src[m] = src[0]
		}
		if modifiers[m].dst {
			nd = 3
		}
		if len(src) != ns || len(dst) != nd {
			return bad()
		}
		if modifiers[m].dst {
			k.dst[m] = dst[1]
		}
		return c
	}
}

func TestCheck(t *testing.T) {
	logging.DisableCompilerLogging()
	r := rep.New(t)
	defer r.Done()
	k, tr := calibrate(r)
	if r.Failed() > 0 {
		return
	}
	cl := &checker{k, tr}
	n := len(modifiers)
	space := func(name string, f func(yield func(build))) {
		var bs []build
		f(func(b build) { bs = append(bs, b) })
		r.EnumN(name, len(bs), 3, 1, func(i int) rep.Case { return cl.check(strings.ReplaceAll(name, " ", "-"), bs[i]) })
	}
	perms := func(n, length int, f func([]int)) {
		var rec func(p []int)
		rec = func(p []int) {
			if len(p) == length {
				f(append([]int{}, p...))
				return
			}
			for i := 0; i < n; i++ {
				used := false
				for _, q := range p {
					used = used || q == i
				}
				if !used {
					rec(append(p, i))
				}
			}
		}
		rec(nil)
	}
	space("all sequences of up to two modifiers", func(yield func(build)) {
		for l := 0; l <= 2; l++ {
			perms(n, l, func(p []int) {
				for tr := range transports {
					for pl := range placements {
						yield(build{mods: p, transport: tr, placement: pl, clients: 1})
						if l < 2 || pl == 1 || r.Thorough {
							yield(build{mods: p, transport: tr, placement: pl, clients: 2})
						}
					}
				}
			})
		}
	})
	space("all sequences of three modifiers", func(yield func(build)) {
		perms(rep.Pick(r, core, n), 3, func(p []int) {
			yield(build{mods: p, transport: 1, placement: 2, clients: 1})
			yield(build{mods: p, transport: 2, placement: 3, clients: 2})
			yield(build{mods: p, transport: 0, placement: 1, clients: 2})
		})
	})
	space("long sequences", func(yield func(build)) {
		for shift := 0; shift < n; shift++ {
			for _, dir := range []int{1, n - 1, 3, 5} {
				var p []int
				for j := 0; j < n; j++ {
					p = append(p, (shift+j*dir)%n)
				}
				for tr := range transports {
					yield(build{mods: p, transport: tr, placement: tr, clients: 1})
				}
			}
		}
	})
	space("two modified services", func(yield func(build)) {
		for l := 0; l <= 1; l++ {
			perms(n, l, func(p []int) {
				perms(n, 1, func(q []int) {
					for tr := range transports {
						yield(build{mods: p, others: q, transport: tr, placement: tr, clients: 1})
					}
				})
			})
		}
		perms(rep.Pick(r, core, n), 2, func(p []int) {
			yield(build{mods: p, others: []int{p[1], p[0]}, transport: 1, placement: 2, clients: 1})
		})
	})
	space("modifiers after the transport", func(yield func(build)) {
		perms(n, 2, func(p []int) {
			for tr := range transports {
				yield(build{mods: p[:1], after: p[1:], transport: tr, placement: 2, clients: 1})
				yield(build{after: p, transport: tr, clients: 1})
			}
		})
		perms(n, 1, func(p []int) {
			for tr := range transports {
				yield(build{after: p, transport: tr, clients: 1})
			}
		})
	})
	notPointers(r)
	balancers(r, cl)
}

type checker struct {
	k  kinds
	tr map[int][2]string
}

func (cl *checker) want(mods []int, transport int) (out []string) {
	if cl.tr[0][0] != "" {
		out = append(out, cl.tr[0][0])
	}
	for _, m := range mods {
		if modifiers[m].src {
			out = append(out, cl.k.src[m])
		}
	}
	if transport > 0 {
		out = append(out, cl.tr[transport][0], "address", cl.tr[transport][1])
	}
	for i := len(mods) - 1; i >= 0; i-- {
		if modifiers[mods[i]].dst {
			out = append(out, cl.k.dst[mods[i]])
		}
	}
	return
}

func (cl *checker) check(sig string, b build) rep.Case {
	c := rep.Case{Sig: sig, Input: b.String()}
	bad := func(f string, a ...any) { c.Msgs = append(c.Msgs, fmt.Sprintf(f, a...)) }
	var app *ir.ApplicationNode
	var err error
	if p := rep.Guard(func() { app, err = b.run() }); p != "" {
		bad("the compiler panics: %s", p)
		return c
	}
	// A service without a transport cannot be called from another process; a pool of clients to it would hold a copy
	// of it each; and what is behind a transport cannot be wrapped in the client's or server's own terms.
	local := b.transport == 0
	mustFail := local && b.placement >= 2 || !local && len(b.after) > 0
	if mustFail {
		if err == nil {
			bad("this is not refused")
		}
		c.Outcome = "refused"
		return c
	}
	pool := false
	for _, l := range [][]int{b.mods, b.after, b.others} {
		for _, m := range l {
			pool = pool || modifiers[m].name == "pool"
		}
	}
	if err != nil && local && pool {
		c.Outcome = "refused"
		return c
	}
	if err != nil {
		bad("does not build: %.400v", err)
		return c
	}
	c.Outcome = "builds"
	consumers := map[string][]string{"leaf": nil, "other": {"otherclient"}}
	for i := 0; i < b.clients; i++ {
		consumers["leaf"] = append(consumers["leaf"], fmt.Sprint("client", i))
	}
	for _, svc := range []string{"leaf", "other"} {
		mods := append(append([]int{}, b.mods...), b.after...)
		if svc == "other" {
			mods = b.others
		}
		want := cl.want(mods, b.transport)
		inst := find(app, svc)
		if len(inst) != 1 {
			bad("there are %d instances of %s", len(inst), svc)
			return c
		}
		for _, consumer := range consumers[svc] {
			cs := find(app, consumer)
			if len(cs) != 1 {
				bad("there are %d instances of %s", len(cs), consumer)
				return c
			}
			nodes, p := chain(cs[0], svc)
			if p != "" {
				bad("%s", p)
				return c
			}
			ts := typesOf(nodes)
			if len(nodes) == 0 || nodes[len(nodes)-1] != inst[0] {
				bad("the wrappers of %s for %s are %v, which do not end at the service", svc, consumer, ts)
				return c
			}
			if got := ts[:len(ts)-1]; strings.Join(got, " ") != strings.Join(want, " ") {
				bad("the wrappers of %s for %s are %v, want %v", svc, consumer, got, want)
			}
		}
	}
	if p := copies(app); p != "" {
		bad("%s", p)
	}
	return c
}

// copies looks for services that are instantiated inside a client pool.
func copies(app *ir.ApplicationNode) string {
	var msgs []string
	for _, svc := range []string{"leaf", "other"} {
		for _, p := range find(app, svc+".clientpool") {
			pool, ok := p.(*clientpool.ClientPool)
			if !ok {
				continue
			}
			for _, n := range pool.Nodes {
				if n.Name() == svc {
					msgs = append(msgs, fmt.Sprintf("every client of the pool has its own copy of %s", svc))
				}
			}
		}
	}
	sort.Strings(msgs)
	return strings.Join(msgs, "; ")
}

// notPointers applies every modifier and transport to names that are not services with a pointer.
func notPointers(r *rep.R) {
	targets := []string{"nothing", "leaf.handler", "aliased"}
	n := len(modifiers) + len(transports) - 1
	r.EnumN("modifiers of things that are not services", n*len(targets), 2, 1, func(i int) rep.Case {
		c := rep.Case{Sig: "not-a-service"}
		target := targets[i/n]
		m := i % n
		name := ""
		var f func(wiring.WiringSpec, string)
		if m < len(modifiers) {
			name, f = modifiers[m].name, modifiers[m].apply
		} else {
			name, f = transports[m-len(modifiers)+1].name, transports[m-len(modifiers)+1].apply
		}
		c.Input = name + " applied to " + target
		var err error
		if p := rep.Guard(func() {
			spec := wiring.NewWiringSpec("app")
			jaeger.Collector(spec, "jaeger")
			leaf := workflow.Service[*wf.LeafImpl](spec, "leaf")
			spec.Alias("aliased", "leaf.handler")
			f(spec, target)
			_, err = spec.BuildIR(leaf)
		}); p != "" {
			c.Msgs = append(c.Msgs, fmt.Sprint("the compiler panics: ", p))
		} else if err == nil {
			c.Msgs = append(c.Msgs, "the modifier is not applied to anything and no error is reported")
		}
		c.Outcome = "refused"
		return c
	})
}

// balancers puts a load balancer in front of one to three instances, each with its own modifier.
func balancers(r *rep.R, cl *checker) {
	type balancer struct {
		mods   []int // 0: none, i: modifier i-1
		tr, pl int
	}
	var cases []balancer
	add := func(mods []int) {
		for tr := range transports {
			for _, pl := range []int{0, 2} {
				pool := false
				for _, x := range mods {
					pool = pool || x > 0 && modifiers[x-1].name == "pool"
				}
				if tr > 0 || pl == 0 && !pool { // a service without a transport cannot be elsewhere, or in a pool
					cases = append(cases, balancer{mods, tr, pl})
				}
			}
		}
	}
	n := core + 1
	for x := 0; x < n; x++ {
		add([]int{x})
		for y := 0; y < n; y++ {
			add([]int{x, y})
			if m := rep.Pick(r, 3, n); x < m && y < m {
				for z := 0; z < m; z++ {
					add([]int{x, y, z})
				}
			}
		}
	}
	r.EnumN("load balancers", len(cases), 3, 1, func(i int) rep.Case {
		c := rep.Case{Sig: "balancer"}
		d, tr, pl := cases[i].mods, cases[i].tr, cases[i].pl
		inst := len(d)
		c.Input = fmt.Sprint(inst, " instances with modifiers ", d, " transport ", transports[tr].name, " ", placements[pl])
		spec := wiring.NewWiringSpec("app")
		jaeger.Collector(spec, "jaeger")
		var names []string
		for j := 0; j < inst; j++ {
			l := workflow.Service[*wf.LeafImpl](spec, fmt.Sprint("leaf", j))
			names = append(names, l)
			if d[j] > 0 {
				modifiers[d[j]-1].apply(spec, l)
			}
			if tr > 0 {
				transports[tr].apply(spec, l)
			}
		}
		lb := loadbalancer.CreateLoadBalancer[*wf.LeafImpl](spec, "lb", names)
		client := workflow.Service[*wf.ClientImpl](spec, "client", lb)
		roots := append([]string{}, client)
		if pl == 2 {
			for j := range names {
				roots = append(roots, goproc.Deploy(spec, names[j]))
			}
			roots[0] = goproc.Deploy(spec, client)
		}
		app, err := spec.BuildIR(roots...)
		if err != nil {
			c.Msgs = append(c.Msgs, fmt.Sprint("does not build: ", err))
			return c
		}
		var handlers []ir.IRNode
		for _, h := range find(app, "lb_lb") {
			if len(next(h, names[0])) > 0 {
				handlers = append(handlers, h)
			}
		}
		if len(handlers) != 1 {
			c.Msgs = append(c.Msgs, fmt.Sprintf("there are %d load balancers", len(handlers)))
			return c
		}
		for j, l := range names {
			nodes, p := chain(handlers[0], l)
			ts := typesOf(nodes)
			var mods []int
			if d[j] > 0 {
				mods = []int{d[j] - 1}
			}
			want := cl.want(mods, tr)
			if p != "" || len(ts) == 0 || strings.Join(ts[:len(ts)-1], " ") != strings.Join(want, " ") || nodes[len(nodes)-1].Name() != l {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the wrappers of %s in the load balancer are %v %s, want %v", l, ts, p, want))
			}
		}
		c.Outcome = "builds"
		return c
	})
}
