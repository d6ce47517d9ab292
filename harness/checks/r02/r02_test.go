package r02

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"verif.local/h/lin"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

var bg = context.Background()

// op is one cache operation. Multi-key operations carry two keys.
type op struct {
	name   string // put get mset mget del incr
	k1, k2 string
	v1, v2 any
	dst    string // destination type of get: "int" (int64), "str", "any"
	bad    bool   // mset/mget with mismatched lengths
}

func (o op) String() string {
	s := o.name + "(" + o.k1
	if o.k2 != "" {
		s += "," + o.k2
	}
	if o.v1 != nil || o.v2 != nil {
		s += fmt.Sprintf("=%#v,%#v", o.v1, o.v2)
	}
	if o.dst != "" {
		s += "->" + o.dst
	}
	if o.bad {
		s += ",bad"
	}
	return s + ")"
}

type ret struct {
	ok  bool
	v   any // value now in the destination (get), or counter
	v2  any
	err bool
}

const untouchedInt = int64(-77)
const untouchedStr = "untouched"

func newDst(kind string) any {
	switch kind {
	case "int":
		v := untouchedInt
		return &v
	case "str":
		v := untouchedStr
		return &v
	case "strs":
		v := []string{"untouched"}
		return &v
	}
	var v any = untouchedStr
	return &v
}

func deref(p any) any { return reflect.ValueOf(p).Elem().Interface() }

func apply(c *simplecache.SimpleCache, o op) ret {
	switch o.name {
	case "put":
		return ret{err: c.Put(bg, o.k1, o.v1) != nil}
	case "get":
		d := newDst(o.dst)
		ok, err := c.Get(bg, o.k1, d)
		return ret{ok: ok, v: deref(d), err: err != nil}
	case "del":
		return ret{err: c.Delete(bg, o.k1) != nil}
	case "incr":
		n, err := c.Incr(bg, o.k1)
		return ret{v: n, err: err != nil}
	case "mset":
		vals := []any{o.v1, o.v2}
		if o.bad {
			vals = vals[:1]
		}
		return ret{err: c.Mset(bg, []string{o.k1, o.k2}, vals) != nil}
	case "mget":
		d1, d2 := newDst(o.dst), newDst(o.dst)
		dst := []any{d1, d2}
		if o.bad {
			dst = append(dst, newDst(o.dst))
		}
		err := c.Mget(bg, []string{o.k1, o.k2}, dst)
		return ret{v: deref(d1), v2: deref(d2), err: err != nil}
	}
	panic(o.name)
}

type state map[string]any

func (s state) with(k string, v any) state {
	n := state{}
	for a, b := range s {
		n[a] = b
	}
	n[k] = v
	return n
}
func (s state) without(k string) state {
	n := state{}
	for a, b := range s {
		if a != k {
			n[a] = b
		}
	}
	return n
}
func (s state) key() string { return fmt.Sprintf("%#v", map[string]any(s)) }

// load is the reference semantics of reading k into a destination of the given kind.
func load(s state, k, kind string) ret {
	v, ok := s[k]
	def := deref(newDst(kind))
	if !ok {
		return ret{v: def}
	}
	switch kind {
	case "int":
		if n, is := v.(int64); is {
			return ret{ok: true, v: n}
		}
	case "str":
		if x, is := v.(string); is {
			return ret{ok: true, v: x}
		}
	case "strs":
		switch l := v.(type) {
		case []string:
			return ret{ok: true, v: l}
		case []any:
			var out = []string{}
			for _, e := range l {
				x, is := e.(string)
				if !is {
					return ret{ok: true, v: def, err: true}
				}
				out = append(out, x)
			}
			return ret{ok: true, v: out}
		}
	default:
		return ret{ok: true, v: v}
	}
	return ret{ok: true, v: def, err: true}
}

// step is the sequential reference model; it returns the expected result and the next state.
func step(s state, o op) (ret, state) {
	switch o.name {
	case "put":
		return ret{}, s.with(o.k1, o.v1)
	case "get":
		return load(s, o.k1, o.dst), s
	case "del":
		return ret{}, s.without(o.k1)
	case "incr":
		n := int64(0)
		if v, ok := s[o.k1]; ok {
			x, is := v.(int64)
			if !is {
				return ret{err: true}, s
			}
			n = x
		}
		return ret{v: n + 1}, s.with(o.k1, n+1)
	case "mset":
		if o.bad {
			return ret{err: true}, s
		}
		return ret{}, s.with(o.k1, o.v1).with(o.k2, o.v2)
	case "mget":
		d := deref(newDst(o.dst))
		if o.bad {
			return ret{err: true, v: d, v2: d}, s
		}
		a, b := load(s, o.k1, o.dst), load(s, o.k2, o.dst)
		return ret{v: a.v, v2: b.v, err: a.err || b.err}, s
	}
	panic(o.name)
}

func same(o op, want, got ret) bool {
	if want.err != got.err {
		return false
	}
	if o.name == "get" && want.ok != got.ok && !want.err {
		return false
	}
	if want.err && !o.bad {
		return true // destination contents are unspecified after an error
	}
	return reflect.DeepEqual(want.v, got.v) && reflect.DeepEqual(want.v2, got.v2)
}

// ---- sequential histories: breadth-first over reference states, every transition executed on the real cache

func sequential(r *rep.R) {
	var ops []op
	for _, k := range []string{"a", "b"} {
		for _, v := range []any{int64(5), "x", []any{"p", "q"}, []string{"r"}} {
			ops = append(ops, op{name: "put", k1: k, v1: v})
		}
		for _, d := range []string{"int", "str", "strs", "any"} {
			ops = append(ops, op{name: "get", k1: k, dst: d})
		}
		ops = append(ops, op{name: "del", k1: k}, op{name: "incr", k1: k})
	}
	ops = append(ops,
		op{name: "mset", k1: "a", k2: "b", v1: int64(1), v2: "y"}, op{name: "mset", k1: "a", k2: "a", v1: int64(1), v2: int64(2)},
		op{name: "mset", k1: "a", k2: "b", v1: int64(8), v2: int64(9), bad: true},
		op{name: "mget", k1: "a", k2: "b", dst: "any"}, op{name: "mget", k1: "b", k2: "a", dst: "int"}, op{name: "mget", k1: "a", k2: "b", dst: "any", bad: true})
	depth := rep.Pick(r, 4, 6)
	type node struct {
		hist []op
		st   state
	}
	seen := map[string]bool{state{}.key(): true}
	frontier := []node{{nil, state{}}}
	sp := &rep.Space{Name: "sequential histories", Exhaustive: true, Bound: depth}
	outcomes := map[string]bool{}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next []node
		for _, n := range frontier {
			for _, o := range ops {
				if r.Expired() {
					sp.Exhaustive = false
					break
				}
				var got ret
				hist := append(append([]op{}, n.hist...), o)
				var c *simplecache.SimpleCache
				p := rep.Guard(func() {
					c, _ = simplecache.NewSimpleCache(bg)
					for _, h := range n.hist {
						apply(c, h)
					}
					got = apply(c, o)
				})
				want, ns := step(n.st, o)
				sp.Executions++
				sp.Transitions++
				outcomes[fmt.Sprintf("%v %#v", o, got)] = true
				var msg string
				if p != "" {
					msg = p
				} else if !same(o, want, got) {
					msg = fmt.Sprintf("got %#v, want %#v", got, want)
				} else {
					// the resulting contents must be those of the model
					for _, k := range []string{"a", "b"} {
						var v any
						ok, err := c.Get(bg, k, &v)
						w, exists := ns[k]
						if ok != exists || err != nil || (ok && !reflect.DeepEqual(v, w)) {
							msg = fmt.Sprintf("key %s holds %#v (present=%v err=%v), want %#v (present=%v)", k, v, ok, err, w, exists)
						}
					}
				}
				if msg != "" {
					r.Fail(rep.Violation{Sig: "seq/" + o.String(), Scenario: "sequential", Messages: []string{fmt.Sprintf("history %v: %s", hist, msg)}})
				}
				if !seen[ns.key()] {
					seen[ns.key()] = true
					next = append(next, node{hist, ns})
				}
			}
		}
		frontier = next
	}
	sp.States = len(seen)
	sp.Outcomes = len(outcomes)
	r.Add(sp)
}

// ---- schedules

var model = lin.Model[state]{
	Init: func() state { return state{} },
	Key:  func(s state) string { return s.key() },
	Step: func(s state, c, rt any, done bool) []state {
		o := c.(op)
		if !done {
			return nil
		}
		want, ns := step(s, o)
		if !same(o, want, rt.(ret)) {
			return nil
		}
		return []state{ns}
	},
}

// split turns the multi-key operations of a history into single-key operations with the same interval.
func split(h []vsched.Op) []vsched.Op {
	var out []vsched.Op
	for _, x := range h {
		o := x.Call.(op)
		if o.bad || (o.name != "mset" && o.name != "mget") || x.Res < 0 {
			out = append(out, x)
			continue
		}
		rt := x.Ret.(ret)
		a, b := x, x
		if o.name == "mset" {
			a.Call, b.Call = op{name: "put", k1: o.k1, v1: o.v1}, op{name: "put", k1: o.k2, v1: o.v2}
			a.Ret, b.Ret = ret{err: rt.err}, ret{err: rt.err}
		} else {
			def := deref(newDst(o.dst))
			a.Call, b.Call = op{name: "get", k1: o.k1, dst: o.dst}, op{name: "get", k1: o.k2, dst: o.dst}
			a.Ret = ret{ok: !reflect.DeepEqual(rt.v, def), v: rt.v, err: rt.err}
			b.Ret = ret{ok: !reflect.DeepEqual(rt.v2, def), v: rt.v2, err: rt.err}
		}
		out = append(out, a, b)
	}
	return out
}

func scenario(init []op, progs [][]op) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("cache init=%v %v", init, progs)}
	var c *simplecache.SimpleCache
	sc.Setup = func(x *vsched.Exec) {
		c, _ = simplecache.NewSimpleCache(bg)
		for _, o := range init {
			apply(c, o)
		}
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() {
				for _, o := range p {
					x.Call(o, func() any { return apply(c, o) })
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) []string {
		var pre []vsched.Op
		st := state{}
		t := -1000
		for _, o := range init {
			var rt ret
			rt, st = step(st, o)
			pre = append(pre, vsched.Op{Task: "init", Call: o, Ret: rt, Inv: t, Res: t + 1})
			t += 2
		}
		for i := range pre { // all before the tasks
			pre[i].Inv += 0
			_ = i
		}
		h := append(pre, x.History()...)
		t = 1 << 20
		for _, k := range []string{"a", "b"} {
			g := op{name: "get", k1: k, dst: "any"}
			h = append(h, vsched.Op{Task: "final", Call: g, Ret: apply(c, g), Inv: t, Res: t + 1})
			t += 2
		}
		for _, o := range x.History() {
			x.Outcome("%v=%v", o.Call, o.Ret)
		}
		for i := range h {
			if h[i].Task == "init" {
				h[i].Inv, h[i].Res = -1000+2*i, -1000+2*i+1
			}
		}
		h2 := split(h)
		// negative times of initial operations would look pending: shift everything
		for i := range h2 {
			if h2[i].Task == "init" || h2[i].Res >= 0 {
				h2[i].Inv += 2000
				h2[i].Res += 2000
			} else {
				h2[i].Inv += 2000
			}
		}
		return lin.Check(h2, model)
	}
	return sc
}

func scenarios(thorough, race bool) []*vsched.Scenario {
	puta, putb := op{name: "put", k1: "a", v1: int64(5)}, op{name: "put", k1: "b", v1: int64(6)}
	puta2 := op{name: "put", k1: "a", v1: int64(7)}
	geta, getb := op{name: "get", k1: "a", dst: "any"}, op{name: "get", k1: "b", dst: "any"}
	dela := op{name: "del", k1: "a"}
	inca := op{name: "incr", k1: "a"}
	mset := op{name: "mset", k1: "a", k2: "b", v1: int64(1), v2: int64(2)}
	mget := op{name: "mget", k1: "a", k2: "b", dst: "any"}
	one := []op{puta, geta, dela, inca, mset, mget, putb, getb}
	two := [][]op{}
	for _, o := range one {
		two = append(two, []op{o})
	}
	var scs []*vsched.Scenario
	inits := [][]op{nil, {puta2, putb}}
	if race {
		inits = inits[1:]
	}
	for _, init := range inits {
		for i, a := range one {
			for _, b := range one[i:] {
				scs = append(scs, scenario(init, [][]op{{a}, {b}}))
			}
		}
		if race {
			continue
		}
		seqs := [][]op{}
		for _, a := range []op{puta, geta, dela, inca} {
			for _, b := range []op{puta2, geta, dela, inca} {
				seqs = append(seqs, []op{a, b})
			}
		}
		for i, a := range seqs {
			for _, b := range seqs[i:] {
				scs = append(scs, scenario(init, [][]op{a, b}))
			}
			for _, b := range []op{mset, mget} {
				scs = append(scs, scenario(init, [][]op{a, {b}}))
			}
		}
		for i, a := range one[:6] {
			for j, b := range one[i:6] {
				for _, c := range one[i+j : 6] {
					scs = append(scs, scenario(init, [][]op{{a}, {b}, {c}}))
				}
			}
		}
		scs = append(scs, scenario(init, [][]op{{inca, inca}, {inca, inca}, {geta, geta}}), scenario(init, [][]op{{inca, inca}, {inca, inca}, {inca}}))
	}
	_ = strings.Join
	return scs
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	sequential(r)
	r.ExploreAll(scenarios(r.Thorough, false), rep.Pick(r, 2, 4))
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	r.ExploreAll(scenarios(r.Thorough, true), rep.Pick(r, 1, 2))
}
