package r05

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/registry"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

type client interface{ Name() string }
type impl struct{ name string }

func (i *impl) Name() string { return i.name }

var errBuild = errors.New("construction failed")

// operations: a, b, c register that client (c's construction fails); A, B, C, Z select it as default (Z is never
// registered); g gets.
type model struct {
	first, def string
	regs       map[string]bool
	got        bool   // some client has been constructed or its construction has failed
	name       string // its name
	fuzzy      bool   // a selection error has been followed by a change
	selErr     bool
}

func history(h string) (msgs []string) {
	bg := context.Background()
	r := registry.NewServiceRegistry[client]("svc")
	m := &model{regs: map[string]bool{}}
	built := map[string]int{}
	var instance client
	for i, o := range h {
		k := strings.ToLower(string(o))
		switch o {
		case 'a', 'b', 'c':
			if m.first == "" {
				m.first = k
			}
			m.regs[k] = true
			r.Register(k, func(ctx context.Context) (client, error) {
				built[k]++
				if ctx == nil {
					msgs = append(msgs, "constructor called with a nil context")
				}
				if k == "c" {
					return nil, errBuild
				}
				return &impl{k}, nil
			})
			m.fuzzy = m.fuzzy || m.selErr
		case 'A', 'B', 'C', 'Z':
			m.def = k
			r.SetDefault(k)
			m.fuzzy = m.fuzzy || m.selErr
		case 'g':
			c, err := r.Get(bg)
			if m.fuzzy {
				if err == nil && c == nil {
					msgs = append(msgs, fmt.Sprintf("step %d: unset client without an error", i))
				}
				continue
			}
			if !m.got {
				m.name = m.def
				if m.name == "" {
					m.name = m.first
				}
				if m.name == "" || !m.regs[m.name] {
					m.selErr = true
					if err == nil {
						msgs = append(msgs, fmt.Sprintf("step %d: got %v although no such client is registered", i, c))
					}
					continue
				}
				m.got = true
			}
			if m.name == "c" {
				if !errors.Is(err, errBuild) {
					msgs = append(msgs, fmt.Sprintf("step %d: got %v, %v instead of the construction error", i, c, err))
				}
				continue
			}
			if err != nil || c == nil || c.Name() != m.name {
				msgs = append(msgs, fmt.Sprintf("step %d: got %v, %v instead of client %s", i, c, err, m.name))
				continue
			}
			if instance != nil && instance != c {
				msgs = append(msgs, fmt.Sprintf("step %d: a different instance than before", i))
			}
			instance = c
		}
	}
	for k, n := range built {
		if n > 1 || (!m.fuzzy && k != m.name) {
			msgs = append(msgs, fmt.Sprintf("client %s constructed %d times (selected: %q)", k, n, m.name))
		}
	}
	return
}

func sequential(r *rep.R) {
	depth := rep.Pick(r, 6, 8)
	sp := &rep.Space{Name: "sequential histories", Exhaustive: true, Bound: depth}
	var rec func(h string)
	rec = func(h string) {
		if r.Expired() {
			sp.Exhaustive = false
			return
		}
		if strings.HasSuffix(h, "g") {
			var msgs []string
			if p := rep.Guard(func() { msgs = history(h) }); p != "" {
				msgs = append(msgs, p)
			}
			sp.Executions++
			sp.Transitions += len(h)
			if len(msgs) > 0 {
				for i := range msgs {
					msgs[i] = "history " + h + ": " + msgs[i]
				}
				r.Fail(rep.Violation{Sig: "seq/" + h, Scenario: "sequential", Input: h, Messages: msgs})
			}
		}
		sp.States++
		if len(h) == depth || r.Failed() > 6 {
			return
		}
		for _, o := range "abcABCZg" {
			if o >= 'a' && o <= 'c' && strings.ContainsRune(h, o) {
				continue
			}
			rec(h + string(o))
		}
	}
	rec("")
	sp.Outcomes = sp.Executions
	r.Add(sp)
}

func scenario(tasks, gets int, fail bool, late bool) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("%d tasks x %d gets fail=%v late=%v", tasks, gets, fail, late)}
	var builds int
	type res struct {
		c   client
		err error
	}
	var results []res
	var reg *registry.ServiceRegistry[client]
	sc.Setup = func(x *vsched.Exec) {
		builds, results = 0, nil
		reg = registry.NewServiceRegistry[client]("svc")
		reg.Register("other", func(ctx context.Context) (client, error) { x.Fail("unselected client constructed"); return nil, nil })
		reg.Register("a", func(ctx context.Context) (client, error) {
			vsched.Ghost(func() { builds++ })
			vsched.Point("constructing")
			if fail {
				return nil, errBuild
			}
			return &impl{"a"}, nil
		})
		reg.SetDefault("a")
		for i := 0; i < tasks; i++ {
			x.Go(fmt.Sprint("t", i), func() {
				ctx := context.Background()
				if late && i == 0 {
					c, cancel := context.WithCancel(ctx)
					cancel()
					ctx = c
				}
				for j := 0; j < gets; j++ {
					vsched.Point("get")
					c, err := reg.Get(ctx)
					vsched.Ghost(func() { results = append(results, res{c, err}); x.Outcome("%v %v", c != nil, err) })
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		if vsched.RaceEnabled {
			return
		}
		if builds != 1 {
			msgs = append(msgs, fmt.Sprintf("constructed %d times", builds))
		}
		c, err := reg.Get(context.Background())
		for _, q := range append(results, res{c, err}) {
			switch {
			case fail && !errors.Is(q.err, errBuild):
				msgs = append(msgs, fmt.Sprintf("got %v, %v instead of the construction error", q.c, q.err))
			case !fail && (q.err != nil || q.c == nil):
				msgs = append(msgs, fmt.Sprintf("got %v, %v instead of the client", q.c, q.err))
			case !fail && q.c != c:
				msgs = append(msgs, "different instances returned")
			}
		}
		return
	}
	return sc
}

func scenarios() (scs []*vsched.Scenario) {
	for _, fail := range []bool{false, true} {
		for _, late := range []bool{false, true} {
			scs = append(scs, scenario(2, 1, fail, late), scenario(2, 2, fail, late), scenario(3, 1, fail, late), scenario(3, 2, fail, late))
		}
	}
	return
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	sequential(r)
	r.ExploreAll(scenarios(), rep.Pick(r, 3, 5))
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	r.ExploreAll(scenarios(), rep.Pick(r, 1, 2))
}
