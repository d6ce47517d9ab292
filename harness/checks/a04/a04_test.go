// Package a04 decides A04: shopping carts.
package a04

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/cart"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"verif.local/h/faulty"
	"verif.local/h/rep"
)

type line struct {
	q     int
	price []float32 // any of these
}
type state map[string]map[string]line

func (s state) clone() state {
	o := state{}
	for c, m := range s {
		o[c] = map[string]line{}
		for i, l := range m {
			o[c][i] = l
		}
	}
	return o
}

func (s state) key() string {
	var out []string
	for c, m := range s {
		for i, l := range m {
			out = append(out, fmt.Sprintf("%s/%s=%d", c, i, l.q))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

type op struct {
	name, c, d, item string
	q                int
}

func (o op) String() string {
	switch o.name {
	case "add", "update":
		return fmt.Sprintf("%s(%q,%s x%d)", o.name, o.c, o.item, o.q)
	case "merge":
		return fmt.Sprintf("merge(%q<-%q)", o.c, o.d)
	case "remove":
		return fmt.Sprintf("remove(%q,%s)", o.c, o.item)
	}
	return fmt.Sprintf("%s(%q)", o.name, o.c)
}

func price(item string, q int) float32 { return float32(len(item))*10 + float32(q)/4 }

// apply is the reference: carts are multisets.
func (s state) apply(o op) state {
	n := s.clone()
	if n[o.c] == nil {
		n[o.c] = map[string]line{}
	}
	p := price(o.item, o.q)
	switch o.name {
	case "add":
		l := n[o.c][o.item]
		n[o.c][o.item] = line{l.q + o.q, append(append([]float32{}, l.price...), p)}
	case "update":
		if o.q <= 0 {
			delete(n[o.c], o.item)
		} else {
			n[o.c][o.item] = line{o.q, []float32{p}}
		}
	case "remove":
		delete(n[o.c], o.item)
	case "delete":
		delete(n, o.c)
	case "merge":
		if o.c == o.d {
			break
		}
		for i, l := range n[o.d] {
			m := n[o.c][i]
			n[o.c][i] = line{l.q + m.q, append(append([]float32{}, m.price...), l.price...)}
		}
		delete(n, o.d)
	}
	return n
}

func alphabet(carts, items []string, adds, updates []int) (ops []op) {
	for _, c := range carts {
		for _, i := range items {
			for _, q := range adds {
				ops = append(ops, op{"add", c, "", i, q})
			}
			for _, q := range updates {
				ops = append(ops, op{"update", c, "", i, q})
			}
			ops = append(ops, op{"remove", c, "", i, 0})
		}
		ops = append(ops, op{"delete", c, "", "", 0})
		for _, d := range carts {
			ops = append(ops, op{"merge", c, d, "", 0})
		}
	}
	return
}

var bg = context.Background()

type sys struct {
	svc  cart.CartService
	plan *faulty.Plan
}

func open() *sys {
	db, err := simplenosqldb.NewSimpleNoSQLDB(bg)
	if err != nil {
		panic(err)
	}
	p := &faulty.Plan{}
	svc, err := cart.NewCartService(bg, faulty.DB{P: p, D: db})
	if err != nil {
		panic(err)
	}
	return &sys{svc, p}
}

func (y *sys) do(o op) (item cart.Item, err error) {
	it := cart.Item{ID: o.item, Quantity: o.q, UnitPrice: price(o.item, o.q)}
	switch o.name {
	case "add":
		return y.svc.AddItem(bg, o.c, it)
	case "update":
		err = y.svc.UpdateItem(bg, o.c, it)
	case "remove":
		err = y.svc.RemoveItem(bg, o.c, o.item)
	case "delete":
		err = y.svc.DeleteCart(bg, o.c)
	case "merge":
		err = y.svc.MergeCarts(bg, o.c, o.d)
	}
	return
}

func priced(l line, p float32) bool {
	for _, x := range l.price {
		if x == p {
			return true
		}
	}
	return false
}

// cartMsgs compares one cart with the reference.
func (y *sys) cartMsgs(c string, want map[string]line, items []string) (msgs []string) {
	got, err := y.svc.GetCart(bg, c)
	if err != nil {
		return []string{fmt.Sprintf("reading cart %q: %v", c, err)}
	}
	seen := map[string]bool{}
	for _, it := range got {
		l, ok := want[it.ID]
		if !ok || seen[it.ID] || l.q != it.Quantity || !priced(l, it.UnitPrice) {
			msgs = append(msgs, fmt.Sprintf("cart %q lists %+v, want %+v", c, it, want))
		}
		seen[it.ID] = true
	}
	if len(seen) != len(want) {
		msgs = append(msgs, fmt.Sprintf("cart %q lists %v, want %v", c, got, want))
	}
	for _, i := range items {
		it, err := y.svc.GetItem(bg, c, i)
		l, ok := want[i]
		if err != nil || ok && (it.ID != i || it.Quantity != l.q || !priced(l, it.UnitPrice)) || !ok && it != (cart.Item{}) {
			msgs = append(msgs, fmt.Sprintf("item %s of cart %q is %+v, %v; want %+v", i, c, it, err, want[i]))
		}
	}
	return
}

func stepMsgs(y *sys, o op, s state, carts, items []string) (state, []string) {
	n := s.apply(o)
	it, err := y.do(o)
	var msgs []string
	if err != nil {
		msgs = append(msgs, fmt.Sprintf("%v fails: %v", o, err))
	}
	if o.name == "add" && err == nil {
		if l := n[o.c][o.item]; it.ID != o.item || it.Quantity != l.q || !priced(l, it.UnitPrice) {
			msgs = append(msgs, fmt.Sprintf("%v returns %+v, want %+v", o, it, l))
		}
	}
	for _, c := range carts {
		msgs = append(msgs, y.cartMsgs(c, n[c], items)...)
	}
	return n, msgs
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	carts, items := []string{"a", "ab"}, []string{"x", "yy"}
	ops := alphabet(carts, items, []int{1, 2}, []int{-1, 0, 3})
	histories(r, "histories", ops, carts, items, rep.Pick(r, 3, 4))
	states(r, "reachable carts", ops, carts, items, rep.Pick(r, 4, 5), rep.Pick(r, 3000, 40000))
	items3 := []string{"x", "yy", "z"}
	states(r, "reachable carts of three items", alphabet(carts, items3, []int{1}, []int{0, 2}), carts, items3, rep.Pick(r, 3, 4), rep.Pick(r, 5000, 40000))
	odd := []string{"", "$ne", "a.b"}
	histories(r, "histories with unusual cart names", alphabet(odd, []string{"", "$x"}, []int{1}, []int{0, 2}), odd, []string{"", "$x"}, rep.Pick(r, 2, 3))
	faults(r, ops, carts, items)
}

func histories(r *rep.R, name string, ops []op, carts, items []string, depth int) {
	for n := 1; n <= depth; n++ {
		radix := make([]int, n)
		for i := range radix {
			radix[i] = len(ops)
		}
		r.Enum(fmt.Sprintf("%s of length %d", name, n), rep.Power(len(ops), n), n, func(i int) rep.Case {
			y := open()
			s := state{}
			// a cart that no operation names stays as it is
			s, msgs := stepMsgs(y, op{"add", "other", "", items[0], 7}, s, nil, nil)
			c := rep.Case{Sig: "history", Steps: n}
			var in []string
			for k, d := range rep.Digits(i, radix...) {
				o := ops[d]
				in = append(in, o.String())
				if k == n-1 {
					var m []string
					s, m = stepMsgs(y, o, s, append([]string{"other"}, carts...), items)
					msgs = append(msgs, m...)
				} else {
					y.do(o) // shorter histories judge this step
					s = s.apply(o)
				}
			}
			c.Input, c.Outcome, c.Msgs = strings.Join(in, "; "), s.key(), msgs
			return c
		})
	}
}

// states applies every operation in every distinct reachable reference state, breadth first.
func states(r *rep.R, name string, ops []op, carts, items []string, cap, limit int) {
	type node struct {
		hist []op
		s    state
	}
	seen := map[string]bool{"": true}
	var all, level []node
	level = []node{{nil, state{}}}
	cut := false
	for len(level) > 0 {
		all = append(all, level...)
		var next []node
		for _, n := range level {
			for _, o := range ops {
				m := n.s.apply(o)
				big := false
				for _, c := range m {
					for _, l := range c {
						big = big || l.q > cap
					}
				}
				if big || seen[m.key()] {
					continue
				}
				if len(all)+len(next) >= limit {
					cut = true
					continue
				}
				seen[m.key()] = true
				next = append(next, node{append(append([]op{}, n.hist...), o), m})
			}
		}
		level = next
	}
	if cut {
		name += " (first states only)"
	}
	r.Enum(fmt.Sprintf("%s, %d states with quantities up to %d, every operation in each", name, len(all), cap), len(all)*len(ops), cap, func(i int) rep.Case {
		n, o := all[i/len(ops)], ops[i%len(ops)]
		y := open()
		for _, h := range n.hist {
			y.do(h)
		}
		s, msgs := stepMsgs(y, o, n.s, carts, items)
		return rep.Case{Sig: "state", Input: fmt.Sprint(n.hist, " then ", o), Outcome: s.key(), Steps: len(n.hist) + 1, Msgs: msgs}
	})
}

// faults fails every single backend call of an operation: it has to report that, and touches no other cart.
func faults(r *rep.R, ops []op, carts, items []string) {
	reads := []op{{"get", "a", "", "", 0}, {"item", "a", "", "x", 0}}
	last := append(append([]op{}, ops...), reads...)
	k := len(ops)
	r.Enum("failures of every backend call after histories of length 2", k*k*len(last)*2, 3, func(i int) rep.Case {
		d := rep.Digits(i, k, k, len(last), 2)
		var c rep.Case
		c.Sig, c.Steps = "fault", 3
		o := last[d[2]]
		c.Input = fmt.Sprintf("%v; %v; %v", ops[d[0]], ops[d[1]], o)
		for at := 1; ; at++ {
			y := open()
			s := state{}
			for _, h := range []op{{"add", "other", "", items[0], 7}, ops[d[0]], ops[d[1]]} {
				y.do(h)
				s = s.apply(h)
			}
			y.plan.Reset(at, d[3] == 1)
			var err error
			switch o.name {
			case "get":
				_, err = y.svc.GetCart(bg, o.c)
			case "item":
				_, err = y.svc.GetItem(bg, o.c, o.item)
			default:
				_, err = y.do(o)
			}
			if len(y.plan.Calls) < at {
				break
			}
			call := y.plan.Calls[at-1]
			y.plan.Reset(0, false)
			if err == nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("backend call %d (%s) fails and the operation does not report it", at, call))
			}
			n := s.apply(o)
			for _, ct := range append([]string{"other"}, carts...) {
				if len(y.cartMsgs(ct, s[ct], items)) > 0 && len(y.cartMsgs(ct, n[ct], items)) > 0 {
					c.Msgs = append(c.Msgs, fmt.Sprintf("backend call %d (%s) fails: cart %q is neither as before nor as after the operation: %v", at, call, ct, y.cartMsgs(ct, s[ct], items)))
				}
			}
			if o.name == "merge" && len(y.cartMsgs(o.c, n[o.c], items)) > 0 && len(y.cartMsgs(o.d, s[o.d], items)) > 0 {
				c.Msgs = append(c.Msgs, fmt.Sprintf("backend call %d (%s) fails: the items of cart %q are in neither cart: %v", at, call, o.d, y.cartMsgs(o.c, n[o.c], items)))
			}
			c.Outcome += call + " "
		}
		return c
	})
}
