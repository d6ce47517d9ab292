// Package g01 checks that generated applications behave as their workflow composed by hand: every stack of up to two
// transparent modifiers over every transport, each call compared with the direct composition.
package g01

import (
	"context"
	"flag"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"verif.local/gen"
	"verif.local/h/gen/stacks"
	"verif.local/h/rep"
	"verif.local/workflows/stack/other"
	"verif.local/workflows/stack/stack"
	"verif.local/workflows/stack/twin"
)

func TestCheck(t *testing.T) {
	other.Called = stack.Called
	r := rep.New(t)
	defer r.Done()
	apps := stacks.Apps()
	zip := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		io.Copy(io.Discard, q.Body)
		w.WriteHeader(202)
	}))
	defer zip.Close()
	r.EnumN("every stack of modifiers and transport", len(apps), 0, 1, func(i int) rep.Case {
		return check(apps[i], strings.TrimPrefix(zip.URL, "http://"))
	})
}

func free() string { return rep.FreeAddr() }

// freshFlags forgets the flags that an earlier process has defined: each process has flags of its own.
func freshFlags() {
	old := flag.CommandLine
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	old.VisitAll(func(f *flag.Flag) {
		if strings.HasPrefix(f.Name, "test.") {
			flag.CommandLine.Var(f.Value, f.Name, f.Usage)
		}
	})
}

type services struct {
	mid  stack.Mid
	a, b stack.Store
	o    other.Summer
	w    twin.Store
}

func direct(a stacks.App) (s services) {
	ctx := context.Background()
	store := func(l string) stack.Store {
		c, _ := simplecache.NewSimpleCache(ctx)
		x, _ := stack.NewStoreImpl(ctx, c, l)
		return x
	}
	s.a, s.b = store("labelA"+a.ID), store("labelB"+a.ID)
	s.o, _ = other.NewSummerImpl(ctx, "labelO"+a.ID)
	s.w, _ = twin.NewStoreImpl(ctx, "labelW"+a.ID)
	s.mid, _ = stack.NewMidImpl(ctx, s.a, s.b, s.o, "labelM"+a.ID)
	return
}

var items = [][]stack.Item{
	nil,
	{{}},
	{{Name: "x", Tags: []string{"", "t\n\"é"}, N: -1 << 63, M: map[string]int32{"": -1, "k": 1 << 30}, S: stack.Sub{F: 0.1, B: []byte{0, 255}, O: true}, L: []stack.Sub{{}, {F: -1e300}}}},
	{{Name: "1"}, {Name: "2", N: 1<<63 - 1}, {Name: "3", Tags: []string{"a"}}},
}

type result struct {
	What  string
	Rets  []any
	Err   string
	Count map[string]int
}

// script is the sequence of calls; retried tells that failing calls are repeated.
func script(s services, a stacks.App, exact bool) (rs []result, traces []map[string]bool) {
	ctx := context.Background()
	add := func(what string, f func() ([]any, error)) {
		var rets []any
		var err error
		if e := rep.Guard(func() { rets, err = f() }); e != "" {
			err = fmt.Errorf("panic: %v", e)
		}
		n, t := stack.Took()
		r := result{What: what, Rets: rets, Count: n}
		if err != nil {
			r.Err = err.Error()
			r.Rets = nil
			if r.Err == "" {
				r.Err = "(empty)"
			}
		}
		rs = append(rs, r)
		traces = append(traces, t)
	}
	for round := 0; round < 2; round++ {
		for i, it := range items {
			add(fmt.Sprint("Relay", i), func() ([]any, error) {
				x, m, err := s.mid.Relay(ctx, fmt.Sprint("k", i, round), it)
				return []any{x, m}, err
			})
		}
		for k := 0; k < 5; k++ {
			for _, msg := range []string{"boom", "100% \"é\"\n", ""} {
				if msg == "" && k != 1 {
					continue
				}
				add(fmt.Sprintf("Boom %d %q", k, msg), func() ([]any, error) {
					x, err := s.mid.Boom(ctx, msg, k)
					return []any{x}, err
				})
			}
		}
		for j, st := range []stack.Store{s.a, s.b} {
			add(fmt.Sprint("Put", j), func() ([]any, error) { n, err := st.Put(ctx, "z", items[2][0]); return []any{n}, err })
			add(fmt.Sprint("Get", j), func() ([]any, error) { x, ok, err := st.Get(ctx, "z"); return []any{x, ok}, err })
			add(fmt.Sprint("Get missing", j), func() ([]any, error) { x, ok, err := st.Get(ctx, "zz"); return []any{x, ok}, err })
			add(fmt.Sprint("Nothing", j), func() ([]any, error) { return nil, st.Nothing(ctx) })
			add(fmt.Sprint("Fail fine", j), func() ([]any, error) { x, err := st.Fail(ctx, "", -7); return []any{x}, err })
			add(fmt.Sprint("Fail", j), func() ([]any, error) { x, err := st.Fail(ctx, "m", 7); return []any{x}, err })
		}
		add("Sum", func() ([]any, error) { x, err := s.o.Sum(ctx, []int64{1, -5, 1 << 62}); return []any{x}, err })
		if a.Twin {
			add("Twice", func() ([]any, error) { x, err := s.w.Twice(ctx, "ab"); return []any{x}, err })
		}
	}
	return
}

func has(a stacks.App, m string) bool {
	for _, x := range a.Stack {
		if x == m {
			return true
		}
	}
	return false
}

func check(a stacks.App, zip string) (c rep.Case) {
	c.Input = a.String()
	c.Sig = "app-" + a.String()
	bad := func(f string, args ...any) {
		if len(c.Msgs) < 5 {
			c.Msgs = append(c.Msgs, fmt.Sprintf(f, args...))
		}
	}
	for _, p := range a.Procs() {
		if why, failed := gen.Failed[p]; failed {
			c.Outcome = "not usable"
			bad("process %s: %.1200s", p, why)
			return
		}
	}
	ctx := context.Background()
	addr := map[string]string{}
	svcs := []string{"a" + a.ID, "b" + a.ID, "o" + a.ID, "m" + a.ID + "svc"}
	if a.Twin {
		svcs = append(svcs, "w"+a.ID)
	}
	for _, s := range svcs {
		addr[s] = free()
	}
	procs := a.Procs()
	var client *golang.Namespace
	for i := len(procs) - 1; i >= 0; i-- {
		freshFlags()
		b := gen.Procs[procs[i]](procs[i])
		for _, s := range svcs {
			b.Set(s+"."+a.Transport+".dial_addr", addr[s])
			b.Set(s+"."+a.Transport+".bind_addr", addr[s])
		}
		b.Set("zip"+a.ID+".zipkin.dial_addr", zip)
		b.Set("zip"+a.ID+".dial_addr", zip)
		n, err := b.Build(ctx)
		if err != nil {
			bad("process %s cannot be built: %v", procs[i], err)
			return
		}
		defer n.Shutdown(false)
		client = n
	}
	if a.Transport != "" {
		for _, s := range svcs {
			if !up(addr[s]) {
				bad("nothing listens at the address of %s", s)
				return
			}
		}
	}
	var s services
	get := func(name string, dst any) {
		if err := client.Get(name+".client", dst); err != nil {
			bad("the client process has no client of %s: %v", name, err)
		}
	}
	get(svcs[0], &s.a)
	get(svcs[1], &s.b)
	get(svcs[2], &s.o)
	get(svcs[3], &s.mid)
	if a.Twin {
		get(svcs[4], &s.w)
	}
	if len(c.Msgs) > 0 {
		return
	}
	ready(s, a)
	stack.Took()
	got, traces := script(s, a, false)
	d := direct(a)
	ready(d, a)
	stack.Took()
	want, _ := script(d, a, true)
	c.Outcome = "equal"
	// over a network, the text of an error is not part of what is compared
	retried := has(a, "retries")
	for i, w := range want {
		g := got[i]
		c.Steps++
		if (g.Err != "") != (w.Err != "") {
			bad("call %s: error %q instead of %q", w.What, g.Err, w.Err)
			continue
		}
		if a.Transport == "" && g.Err != w.Err {
			bad("call %s: error %q instead of %q", w.What, g.Err, w.Err)
		}
		if !same(reflect.ValueOf(g.Rets), reflect.ValueOf(w.Rets)) {
			bad("call %s: returned %.300s instead of %.300s", w.What, fmt.Sprintf("%+v", g.Rets), fmt.Sprintf("%+v", w.Rets))
		}
		if !reflect.DeepEqual(keys(g.Count), keys(w.Count)) || (w.Err == "" || !retried) && !reflect.DeepEqual(g.Count, w.Count) {
			bad("call %s: executed %v instead of %v", w.What, g.Count, w.Count)
		}
		if has(a, "otel") && strings.HasPrefix(w.What, "Relay") && (len(without(traces[i], a.Split)) != 1 || !a.Split && traces[i]["none"]) {
			bad("call %s: its calls belong to the traces %v rather than to one", w.What, keys2(traces[i]))
		}
	}
	if has(a, "health") {
		for n, x := range map[string]any{"a": s.a, "mid": s.mid, "o": s.o} {
			h, ok := x.(interface {
				Health(context.Context) (string, error)
			})
			if !ok {
				bad("the client of %s has no health check", n)
				continue
			}
			var v string
			var err error
			if e := rep.Guard(func() { v, err = h.Health(ctx) }); e != "" || err != nil || v != "Healthy" {
				bad("the health check of %s returns %q, %v %s", n, v, err, e)
			}
		}
	}
	return
}

// ready waits until the connections are there: those made before a server listened are only retried after a while.
func ready(s services, a stacks.App) {
	ctx := context.Background()
	for i := 0; i < 6000; i++ {
		stack.Took()
		s.a.Nothing(ctx)
		s.b.Nothing(ctx)
		s.o.Sum(ctx, []int64{1})
		if a.Twin {
			s.w.Twice(ctx, "")
		}
		done, _ := stack.Took()
		s.mid.Relay(ctx, "warm", nil)
		s.mid.Boom(ctx, "warm", 2)
		inner, _ := stack.Took()
		if done["Nothing labelA"+a.ID] > 0 && done["Nothing labelB"+a.ID] > 0 && done["Sum labelO"+a.ID] > 0 && (!a.Twin || done["Twice labelW"+a.ID] > 0) &&
			inner["Nothing labelA"+a.ID] > 0 && inner["Fail labelB"+a.ID] > 0 && inner["Sum labelO"+a.ID] > 0 {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func up(addr string) bool {
	for i := 0; i < 600; i++ {
		if conn, err := net.Dial("tcp", addr); err == nil {
			conn.Close()
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func keys(m map[string]int) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func keys2(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// without removes the calls that belong to no trace, if some of the services are not traced.
func without(m map[string]bool, untraced bool) map[string]bool {
	w := map[string]bool{}
	for k := range m {
		if k != "none" || !untraced {
			w[k] = true
		}
	}
	return w
}

// same compares deeply; nil and empty slices and maps are equal.
func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !same(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Pointer:
		return same(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
