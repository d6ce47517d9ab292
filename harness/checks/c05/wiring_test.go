package c05

import (
	"fmt"
	"sort"
	"strings"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/namespaceutil"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/pointer"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"verif.local/h/rep"
)

type svc interface {
	ir.IRNode
	IsSvc()
}

type server struct {
	name string
	bind *address.BindConfig
	next ir.IRNode
}

func (s *server) Name() string   { return s.name }
func (s *server) String() string { return s.name }
func (s *server) IsSvc()         {}

type other struct{ server }

type client struct {
	name  string
	addrs []*address.Address[*server]
	dials []*address.DialConfig
	next  []ir.IRNode
}

func (s *client) Name() string   { return s.name }
func (s *client) String() string { return s.name }
func (s *client) IsSvc()         {}

type box struct {
	name         string
	nodes, edges map[string]ir.IRNode
}

func (b *box) Name() string       { return b.name }
func (b *box) String() string     { return b.name }
func (b *box) Accepts(n any) bool { _, ok := n.(svc); return ok }
func (b *box) AddNode(name string, n ir.IRNode) error {
	b.nodes[n.Name()] = n
	return nil
}
func (b *box) AddEdge(name string, n ir.IRNode) error {
	b.edges[n.Name()] = n
	return nil
}

// wirings: services reached over addresses, servers and callers placed in boxes, built by the real wiring package.
// Every service is a pointer with the client-side node dialling its address and the server-side node binding it.
func wirings(r *rep.R) {
	const svcs = 3
	// per service: box of the server (none, A, B), kind (normal, binding nothing, undefined server, server of another type, failing server),
	// and which of the services before it it calls (each: no/yes); which services are requested at the top
	kinds := []string{"normal", "no bind", "undefined", "other type", "fails"}
	per := 3 * len(kinds)
	n := per * per * per * 2 * 4 * 7
	r.Enum("servers and callers in boxes", n, svcs, func(i int) rep.Case {
		d := rep.Digits(i, 3, len(kinds), 3, len(kinds), 3, len(kinds), 2, 4, 7)
		place := []int{d[0], d[2], d[4]}
		kind := []int{d[1], d[3], d[5]}
		calls := [][]int{{}, nil, nil}
		if d[6] == 1 {
			calls[1] = []int{0}
		}
		for b := 0; b < 2; b++ {
			if d[7]>>b&1 == 1 {
				calls[2] = append(calls[2], b)
			}
		}
		top := []int{}
		for b := 0; b < 3; b++ {
			if (d[8]+1)>>b&1 == 1 {
				top = append(top, b)
			}
		}
		in := fmt.Sprintf("boxes %v kinds %v calls %v requested %v", place, kind, calls, top)
		c := rep.Case{Sig: "wiring", Input: in}
		bad := func(f string, a ...any) { c.Msgs = append(c.Msgs, fmt.Sprintf(f, a...)) }

		boxes := map[string]*box{}
		built := map[string]int{}
		spec := wiring.NewWiringSpec("app")
		for _, bn := range []string{"A", "B"} {
			bn := bn
			spec.Define(bn, &box{}, func(ns wiring.Namespace) (ir.IRNode, error) {
				b := &box{name: bn, nodes: map[string]ir.IRNode{}, edges: map[string]ir.IRNode{}}
				boxes[bn] = b
				_, err := namespaceutil.InstantiateNamespace(ns, b)
				return b, err
			})
		}
		sname := func(k int) string { return fmt.Sprintf("s%d", k) }
		servers := map[string]*server{}
		clients := map[string][]*client{}
		for k := 0; k < svcs; k++ {
			k := k
			n := sname(k)
			spec.Define(n+".impl", &server{}, func(ns wiring.Namespace) (ir.IRNode, error) {
				impl := &client{name: n + ".impl"}
				for _, cl := range calls[k] {
					var dep ir.IRNode
					if err := ns.Get(sname(cl), &dep); err != nil {
						return nil, err
					}
					impl.next = append(impl.next, dep)
				}
				return impl, nil
			})
			ptr := pointer.CreatePointer[*client](spec, n, n+".impl")
			addr := n + ".http.addr"
			address.Define[*server](spec, addr, n+".server")
			next := ptr.AddSrcModifier(spec, n+".client")
			spec.Define(n+".client", &client{}, func(ns wiring.Namespace) (ir.IRNode, error) {
				a, err := address.Dial[*server](ns, next)
				if err != nil {
					return nil, err
				}
				cl := &client{name: n + ".client", addrs: []*address.Address[*server]{a}, dials: []*address.DialConfig{a.Dial}}
				clients[n] = append(clients[n], cl)
				return cl, nil
			})
			serverNext := ptr.AddAddrModifier(spec, addr)
			if kinds[kind[k]] != "undefined" {
				spec.Define(n+".server", &server{}, func(ns wiring.Namespace) (ir.IRNode, error) {
					if kinds[kind[k]] == "fails" {
						return nil, fmt.Errorf("broken server %s", n)
					}
					built[n]++
					s := &server{name: n + ".server"}
					if err := ns.Get(serverNext, &s.next); err != nil {
						return nil, err
					}
					if kinds[kind[k]] == "other type" {
						o := &other{server: *s}
						var bc *address.BindConfig
						err := address.Bind[*other](ns, addr, o, &bc)
						return o, err
					}
					if kinds[kind[k]] == "normal" {
						servers[n] = s
						if err := address.Bind[*server](ns, addr, s, &s.bind); err != nil {
							return nil, err
						}
					}
					return s, nil
				})
			}
			if place[k] > 0 {
				namespaceutil.AddNodeTo[box](spec, []string{"", "A", "B"}[place[k]], n)
			}
		}
		var names []string
		for _, k := range top {
			names = append(names, sname(k))
		}
		app, err := spec.BuildIR(names...)

		// reference: which services get reached, and whether any of them cannot be built
		reach, dialled := map[int]bool{}, map[int]bool{}
		var visit func(k int, dial bool)
		visit = func(k int, dial bool) {
			dialled[k] = dialled[k] || dial
			if reach[k] {
				return
			}
			reach[k] = true
			if kinds[kind[k]] == "normal" || kinds[kind[k]] == "no bind" {
				for _, cl := range calls[k] {
					visit(cl, true)
				}
			}
			if place[k] > 0 {
				// everything placed in the same box is built along with it
				for o := 0; o < svcs; o++ {
					if place[o] == place[k] {
						visit(o, false)
					}
				}
			}
		}
		for _, k := range top {
			visit(k, true)
		}
		fails := false
		for k := range reach {
			// a server that nobody dials may do without its address
			fails = fails || kinds[kind[k]] != "normal" && !(kinds[kind[k]] == "no bind" && !dialled[k])
		}
		if fails {
			c.Outcome = "error"
			if err == nil {
				bad("the build succeeds although an address it uses has no (proper) server")
			}
			return c
		}
		if err != nil {
			bad("the build fails: %v", err)
			return c
		}
		// a box that contains a called service uses the address's dial configuration
		contents := func(where string) (nodes, edges map[string]ir.IRNode) {
			if where == "" {
				nodes = map[string]ir.IRNode{}
				for _, ch := range app.Children {
					nodes[ch.Name()] = ch
				}
				return nodes, nodes
			}
			return boxes[where].nodes, boxes[where].edges
		}
		var out []string
		home := map[int]string{}
		rootBinds := map[string]*address.BindConfig{}
		for _, ch := range app.Children {
			if b, ok := ch.(*address.BindConfig); ok {
				if rootBinds[b.AddressName] != nil {
					bad("two bind configurations of %s in the application", b.AddressName)
				}
				rootBinds[b.AddressName] = b
			}
		}
		for k := 0; k < svcs; k++ {
			n := sname(k)
			if !reach[k] {
				if built[n] > 0 {
					bad("the server of %s, which nothing uses, is built", n)
				}
				continue
			}
			if built[n] != 1 {
				bad("the server of %s is built %d times", n, built[n])
				continue
			}
			if kinds[kind[k]] == "no bind" {
				continue
			}
			s := servers[n]
			// a server that was not placed in a box is built in the namespace of whoever needed it first
			var homes []string
			for _, w := range []string{"", "A", "B"} {
				if w != "" && boxes[w] == nil {
					continue
				}
				if nodes, _ := contents(w); nodes[n+".server"] == ir.IRNode(s) {
					homes = append(homes, w)
				}
			}
			where := []string{"", "A", "B"}[place[k]]
			if len(homes) != 1 || place[k] > 0 && homes[0] != where {
				bad("the server of %s is a node of the namespaces %q, want %q", n, homes, where)
				continue
			}
			where = homes[0]
			home[k] = where
			_, edges := contents(where)
			if s.bind == nil || s.bind.AddressName != n+".http.addr" {
				bad("the server of %s binds %v", n, s.bind)
				continue
			}
			if edges[s.bind.Name()] != ir.IRNode(s.bind) {
				bad("the bind address of %s is not visible in the server's namespace", n)
			}
			if rootBinds[s.bind.AddressName] != s.bind {
				bad("the application's bind configuration of %s is not the server's", n)
			}
			out = append(out, fmt.Sprintf("%s in %q", n, where))
			for _, cl := range clients[n] {
				a := cl.addrs[0]
				if a.Server != s || a.GetDestination() != ir.IRNode(s) {
					bad("a caller of %s is given an address whose server is %v", n, a.Server)
				}
				if a.Bind != s.bind {
					bad("the address a caller of %s holds has another bind configuration than the server", n)
				}
				if cl.dials[0] == nil || cl.dials[0].AddressName != s.bind.AddressName || a.Dial != cl.dials[0] {
					bad("a caller of %s dials %v", n, cl.dials[0])
				}
			}
		}
		// every caller's namespace holds the dial configuration
		for k := range reach {
			where, ok := home[k]
			if !ok {
				continue
			}
			_, edges := contents(where)
			for _, cl := range calls[k] {
				key := sname(cl) + ".http.dial_addr"
				if _, ok := edges[key].(*address.DialConfig); !ok {
					bad("%s, which calls %s, is built in %q, which does not have the dial address", sname(k), sname(cl), where)
				}
			}
		}
		sort.Strings(out)
		c.Outcome = strings.Join(out, ", ")
		return c
	})
}
