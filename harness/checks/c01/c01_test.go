package c01

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"verif.local/h/rep"
)

type node struct{ id string }

func (n *node) Name() string   { return n.id }
func (n *node) String() string { return n.id }

var names = []string{"a", "b", "c"}
var keys = []string{"x", "y"}

type op struct {
	kind string // define, proxy, alias, set, add, err
	n, m string
	key  string
	val  any
}

func (o op) String() string {
	switch o.kind {
	case "alias":
		return fmt.Sprintf("Alias(%s,%s)", o.n, o.m)
	case "set", "add":
		return fmt.Sprintf("%s(%s,%s,%#v)", o.kind, o.n, o.key, o.val)
	case "err":
		return "AddError"
	}
	return o.kind + "(" + o.n + ")"
}

// model is the reference: definitions, aliases, properties per definition, errors.
type def struct {
	stamp int // -1: has properties but was never defined
	proxy bool
	props map[string][]any
}
type model struct {
	defs    map[string]def
	aliases map[string]string
	errs    []string
}

func newModel() model { return model{map[string]def{}, map[string]string{}, nil} }

func (m model) resolve(n string) (string, bool) {
	seen := map[string]bool{}
	for {
		t, ok := m.aliases[n]
		if !ok {
			return n, true
		}
		if seen[n] {
			return "", false
		}
		seen[n] = true
		n = t
	}
}

// key identifies the state up to the instant at which something was defined.
func (m model) key() string {
	c := m.clone()
	for n, d := range c.defs {
		d.stamp = min(d.stamp, 0)
		c.defs[n] = d
	}
	for i := range c.errs {
		c.errs[i] = "e"
	}
	return fmt.Sprint(c)
}

func (m model) clone() model {
	c := newModel()
	for k, v := range m.defs {
		c.defs[k] = v
	}
	for k, v := range m.aliases {
		c.aliases[k] = v
	}
	c.errs = append([]string{}, m.errs...)
	return c
}

func withProp(d def, k string, vs []any) def {
	p := map[string][]any{}
	for a, b := range d.props {
		p[a] = b
	}
	p[k] = vs
	d.props = p
	return d
}

// apply returns the next model state; ok is false for a property operation on a cyclic alias, which is not specified.
func (m model) apply(o op, i int) (model, bool) {
	c := m.clone()
	switch o.kind {
	case "define", "proxy":
		delete(c.aliases, o.n)
		d := c.defs[o.n]
		d.stamp, d.proxy = i, o.kind == "proxy"
		c.defs[o.n] = d
	case "alias":
		delete(c.defs, o.n)
		c.aliases[o.n] = o.m
	case "set", "add":
		t, ok := c.resolve(o.n)
		if !ok {
			return c, false
		}
		d, exists := c.defs[t]
		if !exists {
			d = def{stamp: -1}
		}
		vs := []any{o.val}
		if o.kind == "add" {
			vs = append(append([]any{}, d.props[o.key]...), o.val)
		}
		c.defs[t] = withProp(d, o.key, vs)
	case "err":
		c.errs = append(c.errs, fmt.Sprintf("mistake-%d.", i))
	}
	return c, true
}

func run(spec wiring.WiringSpec, o op, i int) {
	switch o.kind {
	case "define", "proxy":
		n := &node{fmt.Sprintf("%s#%d", o.n, i)}
		b := func(wiring.Namespace) (ir.IRNode, error) { return n, nil }
		if o.kind == "proxy" {
			spec.Define(o.n, n, b, wiring.WiringOpts{ProxyNode: true})
		} else {
			spec.Define(o.n, n, b)
		}
	case "alias":
		spec.Alias(o.n, o.m)
	case "set":
		spec.SetProperty(o.n, o.key, o.val)
	case "add":
		spec.AddProperty(o.n, o.key, o.val)
	case "err":
		spec.AddError(errors.New(fmt.Sprintf("mistake-%d.", i)))
	}
}

type ints []int

// single gives the expected outcome of a single-valued read into a destination of type T that held before.
func single[T any](vs []any, before T) (T, bool) {
	var zero T
	switch len(vs) {
	case 0:
		return zero, true
	case 1:
		if vs[0] == nil {
			switch any(&zero).(type) {
			case *any, **node:
				return zero, true
			}
			return before, false
		}
		v, ok := vs[0].(T)
		return v, ok
	}
	return before, false
}

type getter func(name, key string, dst any) error

func checkSingle[T any](get getter, n, k string, vs []any, before T, out *[]string) {
	dst := before
	err := get(n, k, &dst)
	want, ok := single(vs, before)
	if ok && err != nil {
		*out = append(*out, fmt.Sprintf("GetProperty(%s,%s) into %T of values %v: unexpected error %v", n, k, dst, vs, err))
	} else if !ok && err == nil {
		*out = append(*out, fmt.Sprintf("GetProperty(%s,%s) into %T of values %v: no error, destination is %v", n, k, dst, vs, dst))
	} else if ok && !reflect.DeepEqual(want, dst) {
		*out = append(*out, fmt.Sprintf("GetProperty(%s,%s) into %T of values %v gives %v", n, k, dst, vs, dst))
	}
}

func checkMulti[T any](get getter, n, k string, vs []any, out *[]string) {
	var dst []T
	err := get(n, k, &dst)
	want, ok := []T{}, true
	for _, v := range vs {
		x, fits := single[T]([]any{v}, *new(T))
		ok = ok && fits
		want = append(want, x)
	}
	if ok && err != nil {
		*out = append(*out, fmt.Sprintf("GetProperties(%s,%s) into %T of values %v: unexpected error %v", n, k, dst, vs, err))
	} else if !ok && err == nil {
		*out = append(*out, fmt.Sprintf("GetProperties(%s,%s) into %T of values %v: no error, destination is %v", n, k, dst, vs, dst))
	} else if ok && !(len(want) == 0 && len(dst) == 0) && !reflect.DeepEqual(want, dst) {
		*out = append(*out, fmt.Sprintf("GetProperties(%s,%s) into %T of values %v gives %v", n, k, dst, vs, dst))
	}
}

func checkProps(get, gets getter, n string, props map[string][]any, full bool, out *[]string) {
	if !full {
		for _, k := range keys {
			checkMulti[any](gets, n, k, props[k], out)
		}
		return
	}
	for _, k := range keys {
		vs := props[k]
		checkSingle[int](get, n, k, vs, 77, out)
		checkSingle[string](get, n, k, vs, "before", out)
		checkSingle[any](get, n, k, vs, "before", out)
		checkMulti[int](gets, n, k, vs, out)
		checkMulti[any](gets, n, k, vs, out)
		if len(vs) > 0 {
			var i int
			if err := gets(n, k, &i); err == nil {
				*out = append(*out, fmt.Sprintf("GetProperties(%s,%s) of %v into an int succeeds", n, k, vs))
			}
		}
		if err := get(n, k, 5); err == nil {
			*out = append(*out, "GetProperty into something that is not a pointer succeeds")
		}
	}
}

// observe compares everything visible of spec with m.
// Wrong destination types are tried only when full is set (creating their errors is slow).
func observe(spec wiring.WiringSpec, m model, full bool) (out []string) {
	for _, n := range names {
		if t, ok := m.aliases[n]; true {
			got, gok := spec.GetAlias(n)
			if ok != gok || got != t {
				out = append(out, fmt.Sprintf("GetAlias(%s) = %q %v, expected %q %v", n, got, gok, t, ok))
			}
		}
		t, acyclic := m.resolve(n)
		d, exists := m.defs[t]
		exists = exists && acyclic
		g := spec.GetDef(n)
		if (g != nil) != exists && !(exists && d.stamp < 0) {
			out = append(out, fmt.Sprintf("GetDef(%s) = %v, expected to exist: %v", n, g, exists))
			continue
		}
		if !exists || g == nil {
			continue
		}
		if d.stamp >= 0 {
			id := fmt.Sprintf("%s#%d", t, d.stamp)
			if g.Name != t {
				out = append(out, fmt.Sprintf("GetDef(%s).Name = %s, expected %s", n, g.Name, t))
			}
			if x, ok := g.NodeType.(*node); !ok || x.id != id {
				out = append(out, fmt.Sprintf("GetDef(%s).NodeType = %v, expected %s", n, g.NodeType, id))
			}
			if x, ok := g.Options.ReturnType.(*node); !ok || x.id != id {
				out = append(out, fmt.Sprintf("GetDef(%s).Options.ReturnType = %v, expected %s", n, g.Options.ReturnType, id))
			}
			if g.Options.ProxyNode != d.proxy {
				out = append(out, fmt.Sprintf("GetDef(%s).Options.ProxyNode = %v, expected %v", n, g.Options.ProxyNode, d.proxy))
			}
			if g.Build == nil {
				out = append(out, fmt.Sprintf("GetDef(%s) has no build function", n))
			} else if x, err := g.Build(nil); err != nil || x.Name() != id {
				out = append(out, fmt.Sprintf("GetDef(%s).Build builds %v, expected %s", n, x, id))
			}
		}
		checkProps(spec.GetProperty, spec.GetProperties, n, d.props, full, &out)
	}
	// Definitions
	var want, got []string
	for n, d := range m.defs {
		if d.stamp >= 0 {
			want = append(want, n)
		}
	}
	for _, n := range spec.Defs() {
		if d, ok := m.defs[n]; !ok || d.stamp >= 0 {
			got = append(got, n)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, ",") != strings.Join(got, ",") {
		out = append(out, fmt.Sprintf("Defs() = %v, expected %v", got, want))
	}
	// Errors
	err := spec.Err()
	if (err != nil) != (len(m.errs) > 0) {
		out = append(out, fmt.Sprintf("Err() = %v after errors %v", err, m.errs))
	}
	if err != nil {
		for _, e := range m.errs {
			if !strings.Contains(err.Error(), e) {
				out = append(out, fmt.Sprintf("Err() = %v does not mention %v", err, e))
			}
		}
	}
	s := spec.String()
	for n := range m.aliases {
		if !strings.Contains(s, n) {
			out = append(out, fmt.Sprintf("String() does not mention %s: %s", n, s))
		}
	}
	return out
}

// build checks BuildIR of one name: the latest definition is what gets built, its properties are visible from within.
func build(seq []op, m model, n string) (out []string) {
	spec := wiring.NewWiringSpec("app")
	for i, o := range seq {
		run(spec, o, i)
	}
	t, acyclic := m.resolve(n)
	d, exists := m.defs[t]
	var inner []string
	spec.Define("root", &node{}, func(ns wiring.Namespace) (ir.IRNode, error) {
		if acyclic && exists && d.stamp >= 0 {
			checkProps(ns.GetProperty, ns.GetProperties, n, d.props, true, &inner)
		}
		var x *node
		if err := ns.Get(n, &x); err != nil {
			return nil, err
		}
		return &node{"root of " + x.id}, nil
	})
	app, err := spec.BuildIR("root")
	if len(m.errs) > 0 {
		if err == nil {
			return []string{fmt.Sprintf("BuildIR succeeds although wiring errors were recorded: %v", m.errs)}
		}
		for _, e := range m.errs {
			if !strings.Contains(err.Error(), e) {
				out = append(out, fmt.Sprintf("BuildIR = %v does not mention %v", err, e))
			}
		}
		return out
	}
	out = append(out, inner...)
	if !acyclic || !exists || d.stamp < 0 {
		if err == nil {
			out = append(out, fmt.Sprintf("BuildIR of a node that uses the undefined %s succeeds", n))
		}
		return out
	}
	if err != nil {
		return append(out, fmt.Sprintf("BuildIR of a node that uses %s fails: %v", n, err))
	}
	id := fmt.Sprintf("%s#%d", t, d.stamp)
	want := []string{id, "root of " + id}
	if d.proxy {
		want = want[1:]
	}
	var got []string
	for _, c := range app.Children {
		got = append(got, c.Name())
	}
	if !reflect.DeepEqual(want, got) {
		out = append(out, fmt.Sprintf("BuildIR of a node that uses %s has nodes %v, expected %v", n, got, want))
	}
	return out
}

func alphabet() (ops []op) {
	for i, n := range names {
		ops = append(ops, op{kind: "define", n: n}, op{kind: "proxy", n: n})
		for _, m := range names {
			ops = append(ops, op{kind: "alias", n: n, m: m})
		}
		ops = append(ops, op{kind: "set", n: n, key: "x", val: 10 + i}, op{kind: "add", n: n, key: "x", val: 20 + i})
	}
	return append(ops, op{kind: "err"})
}

// extra operations, used at one position of shorter histories only
func rich() (ops []op) {
	for _, n := range names {
		ops = append(ops, op{kind: "set", n: n, key: "y", val: "s"}, op{kind: "add", n: n, key: "x", val: "t"}, op{kind: "add", n: n, key: "y", val: nil},
			op{kind: "set", n: n, key: "x", val: nil}, op{kind: "set", n: n, key: "x", val: []int{1, 2}}, op{kind: "add", n: n, key: "x", val: true})
	}
	return ops
}

// first keeps histories in which the names appear in the order a, b, c: names are interchangeable.
func first(seq []op) bool {
	next := 0
	for _, o := range seq {
		for _, n := range []string{o.n, o.m} {
			if n == "" {
				continue
			}
			i := int(n[0] - 'a')
			if i > next {
				return false
			}
			if i == next {
				next++
			}
		}
	}
	return true
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	base, more := alphabet(), append(alphabet(), rich()...)
	space(r, "histories", base, rep.Pick(r, 5, 6))
	space(r, "histories with further property values", more, rep.Pick(r, 3, 4))
}

func space(r *rep.R, name string, ops []op, depth int) {
	var execs, trans int64
	var mu sync.Mutex
	states := map[string]bool{}
	var progress int64
	var stuck atomic.Value
	var stop atomic.Bool
	visit := func(seq []op, m model) {
		atomic.AddInt64(&execs, 1)
		key := m.key()
		var msgs []string
		if p := rep.Guard(func() {
			spec := wiring.NewWiringSpec("app")
			for i, o := range seq {
				run(spec, o, i)
			}
			mu.Lock()
			full := !states[key] || len(seq) <= 2
			states[key] = true
			mu.Unlock()
			msgs = observe(spec, m, full)
			if full {
				for _, n := range names {
					msgs = append(msgs, build(seq, m, n)...)
				}
			}
		}); p != "" {
			msgs = append(msgs, p)
		}
		atomic.AddInt64(&progress, 1)
		if len(msgs) > 0 {
			mu.Lock()
			r.Fail(rep.Violation{Sig: "history", Scenario: name, Input: fmt.Sprint(seq), Messages: append([]string{fmt.Sprintf("history %v", seq)}, msgs...)})
			mu.Unlock()
			stop.Store(true)
		}
	}
	var rec func(seq []op, m model)
	rec = func(seq []op, m model) {
		if stop.Load() || r.Expired() {
			return
		}
		stuck.Store(fmt.Sprint(seq))
		visit(seq, m)
		if len(seq) == depth {
			return
		}
		for _, o := range ops {
			next := append(append([]op{}, seq...), o)
			if !first(next) {
				continue
			}
			atomic.AddInt64(&trans, 1)
			if n, ok := m.apply(o, len(seq)); ok {
				rec(next, n)
			}
		}
	}
	type job struct {
		seq []op
		m   model
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < r.Workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				rec(j.seq, j.m)
			}
		}()
	}
	done := make(chan bool)
	go func() {
		if r.Shard == 0 {
			visit(nil, newModel())
		}
		part := 0
		for _, o := range ops {
			m1, ok := newModel().apply(o, 0)
			if !ok || !first([]op{o}) {
				continue
			}
			if r.Shard == 0 {
				visit([]op{o}, m1)
			}
			for _, o2 := range ops {
				if m2, ok := m1.apply(o2, 1); ok && first([]op{o, o2}) {
					if part++; r.Mine(part) {
						jobs <- job{[]op{o, o2}, m2}
					}
				}
			}
		}
		close(jobs)
		wg.Wait()
		close(done)
	}()
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-done:
			r.Add(&rep.Space{Keys: r.Keys(states), Name: name, Executions: int(execs), States: len(states), Transitions: int(trans), Outcomes: len(states), Exhaustive: !r.Expired(), Bound: depth})
			r.Sample(map[string]any{"space": name, "histories": execs, "reference states": len(states)})
			return
		case <-time.After(time.Second):
			if p := atomic.LoadInt64(&progress); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > 20*time.Second {
				mu.Lock()
				r.Fail(rep.Violation{Sig: "stuck", Scenario: name, Messages: []string{"an operation or lookup does not return; last history started: " + fmt.Sprint(stuck.Load())}})
				mu.Unlock()
				return
			}
		}
	}
}
