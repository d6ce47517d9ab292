package r09

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"verif.local/h/rep"
)

type S struct {
	A int
	B []string
}
type U struct{ S *S }
type MyInt int
type MyList []string
type Namer interface{ Name() string }

func (s *S) Name() string     { return "s" }
func (m MyInt) Name() string  { return "m" }
func (m MyList) Name() string { return "l" }

func typ[T any]() reflect.Type { return reflect.TypeFor[T]() }

var base = []reflect.Type{typ[int](), typ[int64](), typ[int32](), typ[uint8](), typ[float64](), typ[string](), typ[bool](), typ[S](), typ[*S](), typ[*U](), typ[MyInt](), typ[MyList](),
	typ[any](), typ[Namer](), typ[error](), typ[map[string]int](), typ[map[string]any](), typ[[2]int](), typ[*int](), typ[func()](), typ[chan int]()}

// values lists the values of type t that are tried (as reflect values of exactly that static type).
func values(t reflect.Type, depth int) []reflect.Value {
	out := []reflect.Value{reflect.Zero(t)}
	add := func(v any) {
		x := reflect.New(t).Elem()
		x.Set(reflect.ValueOf(v))
		out = append(out, x)
	}
	s := &S{A: 3, B: []string{"x"}}
	one := 1
	switch t {
	case typ[int]():
		add(7)
	case typ[int64]():
		add(int64(-1 << 63))
	case typ[int32]():
		add(int32(5))
	case typ[uint8]():
		add(uint8(255))
	case typ[float64]():
		add(2.5)
	case typ[string]():
		add("hello")
	case typ[bool]():
		add(true)
	case typ[S]():
		add(*s)
	case typ[*S]():
		add(s)
	case typ[*U]():
		add(&U{s})
	case typ[MyInt]():
		add(MyInt(4))
	case typ[MyList]():
		add(MyList{"p", "q"})
		add(MyList{})
	case typ[any]():
		add(9)
		add("z")
		add(s)
		add((*S)(nil))
		add([]int{1, 2})
		add([]any{1, nil})
		add([]any(nil))
	case typ[Namer]():
		add(s)
		add(MyInt(1))
		add(MyList{"k"})
	case typ[error]():
		add(errors.New("e"))
	case typ[map[string]int]():
		add(map[string]int{"a": 1})
	case typ[map[string]any]():
		add(map[string]any{"a": []int{1}})
	case typ[[2]int]():
		add([2]int{1, 2})
	case typ[*int]():
		add(&one)
	}
	if t.Kind() == reflect.Slice && t != typ[MyList]() {
		ev := values(t.Elem(), depth-1)
		mk := func(vs ...reflect.Value) {
			x := reflect.MakeSlice(t, 0, len(vs)+1)
			for _, v := range vs {
				x = reflect.Append(x, v)
			}
			out = append(out, x)
		}
		mk()
		for _, v := range ev {
			mk(v)
		}
		for i := range ev {
			for j := range ev {
				if depth < 2 || (i+j)%2 == 1 {
					mk(ev[i], ev[j])
				}
			}
		}
		if len(ev) > 2 {
			mk(ev[2], ev[0], ev[1])
		}
	}
	return out
}

// want is the reference semantics of copying the dynamic value src into a destination of type d.
func want(src reflect.Value, d reflect.Type) (reflect.Value, bool) {
	if src.IsValid() && src.Kind() == reflect.Interface {
		src = src.Elem() // dynamic value
	}
	if !src.IsValid() {
		switch d.Kind() {
		case reflect.Interface, reflect.Pointer, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func:
			return reflect.Zero(d), true
		}
		return reflect.Value{}, false
	}
	if src.Kind() == reflect.Slice && d.Kind() == reflect.Slice {
		out := reflect.MakeSlice(d, src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			e, ok := want(src.Index(i), d.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out.Index(i).Set(e)
		}
		return out, true
	}
	if !src.Type().AssignableTo(d) {
		return reflect.Value{}, false
	}
	return src, true
}

// equal is deep equality that does not distinguish a nil list from an empty one and compares functions by nilness.
func equal(a, b reflect.Value) bool {
	if a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	if b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Kind() != b.Kind() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan:
		return a.IsNil() == b.IsNil()
	case reflect.Pointer:
		return a.Pointer() == b.Pointer()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	depth := rep.Pick(r, 2, 3)
	types := append([]reflect.Type{}, base...)
	last := base
	for d := 0; d < depth; d++ {
		var next []reflect.Type
		for _, b := range last {
			if d < 2 || b == typ[[][]any]() || b == typ[[][]string]() || b == typ[[][]*S]() {
				next = append(next, reflect.SliceOf(b))
			}
		}
		types = append(types, next...)
		last = next
	}
	sp := &rep.Space{Name: "values x destination types", Exhaustive: true, Bound: depth}
	outcomes := map[string]bool{}
	cache, _ := simplecache.NewSimpleCache(context.Background())
	for _, st := range types {
		d := 0
		for x := st; x.Kind() == reflect.Slice; x = x.Elem() {
			d++
		}
		for vi, src := range values(st, d) {
			for _, dt := range types {
				if r.Expired() {
					sp.Exhaustive = false
					break
				}
				for fill, before := range fills(dt) {
					var kept, were []reflect.Value // what the caller kept of an earlier value
					if fill > 0 {
						for i := 0; i < before.Len(); i++ {
							kept = append(kept, before.Index(i))
							e := reflect.New(dt.Elem()).Elem()
							e.Set(before.Index(i))
							were = append(were, e)
						}
					}
					w, ok := want(src, dt)
					for _, via := range []string{"copy", "cache", "queue"} {
						dst := reflect.New(dt)
						dst.Elem().Set(before)
						var s any
						if src.Kind() != reflect.Interface || !src.IsNil() {
							s = src.Interface()
						}
						var err error
						found := true
						p := rep.Guard(func() {
							switch via {
							case "copy":
								err = backend.CopyResult(s, dst.Interface())
							case "cache":
								cache.Put(context.Background(), "k", s)
								found, err = cache.Get(context.Background(), "k", dst.Interface())
							case "queue":
								q, _ := simplequeue.NewSimpleQueue(context.Background())
								if found, err = q.Push(context.Background(), s); err == nil && found {
									found, err = q.Pop(context.Background(), dst.Interface())
								}
							}
						})
						sp.Executions++
						msg := ""
						switch {
						case p != "":
							msg = p
						case !ok && err == nil:
							msg = fmt.Sprintf("succeeded with %#v although the destination cannot hold the value", dst.Elem())
						case ok && err != nil:
							msg = fmt.Sprintf("failed with %v", err)
						case ok && (!found || !equal(dst.Elem(), w)):
							msg = fmt.Sprintf("destination is %#v, want %#v", dst.Elem(), w)
						}
						for i := range kept {
							if msg == "" && !equal(kept[i], were[i]) {
								msg = fmt.Sprintf("element %d of the list that the destination held before is now %#v instead of %#v", i, kept[i], were[i])
							}
						}
						outcomes[fmt.Sprint(st, dt, ok)] = true
						if msg != "" {
							r.Fail(rep.Violation{Sig: fmt.Sprintf("%s/%v#%d->%v", via, st, vi, dt), Scenario: "copy", Input: fmt.Sprintf("%s of %#v (%v) into *%v (fill %d)", via, s, st, dt, fill), Messages: []string{fmt.Sprintf("%s %#v (%v) into *%v: %s", via, s, st, dt, msg)}})
						}
					}
					// an arbitrary value handed over as the destination
					sp.Executions++
					var err error
					if p := rep.Guard(func() { err = backend.CopyResult("x", anyOf(src)) }); p != "" {
						r.Fail(rep.Violation{Sig: fmt.Sprintf("dst/%v#%d", st, vi), Scenario: "bad destination", Messages: []string{fmt.Sprintf("copying into %#v: %s", anyOf(src), p)}})
					} else if err == nil {
						r.Fail(rep.Violation{Sig: fmt.Sprintf("dst/%v#%d", st, vi), Scenario: "bad destination", Messages: []string{fmt.Sprintf("copying into %#v succeeded", anyOf(src))}})
					}
				}
			}
		}
		// the other helpers never panic either
		for _, v := range values(st, d) {
			var got any
			var err error
			p := rep.Guard(func() { got, err = backend.GetPointerValue(anyOf(v)) })
			isPtr := anyOf(v) != nil && reflect.TypeOf(anyOf(v)).Kind() == reflect.Pointer && !reflect.ValueOf(anyOf(v)).IsNil()
			if p != "" || isPtr != (err == nil) || isPtr && !reflect.DeepEqual(got, reflect.ValueOf(anyOf(v)).Elem().Interface()) {
				r.Fail(rep.Violation{Sig: "deref/" + st.String(), Scenario: "GetPointerValue", Messages: []string{fmt.Sprintf("GetPointerValue(%#v) = %#v, %v %s", anyOf(v), got, err, p)}})
			}
			z := reflect.New(st)
			z.Elem().Set(v)
			p = rep.Guard(func() { err = backend.SetZero(z.Interface()) })
			if p != "" || err != nil || !z.Elem().IsZero() {
				r.Fail(rep.Violation{Sig: "zero/" + st.String(), Scenario: "SetZero", Messages: []string{fmt.Sprintf("SetZero(*%v): %v %s", st, err, p)}})
			}
			sp.Executions += 2
		}
	}
	sp.States, sp.Transitions, sp.Outcomes = sp.Executions, sp.Executions, len(outcomes)
	r.Sample("nested lists, nil elements, typed nils and named types are copied through CopyResult, the cache and the queue")
	r.Add(sp)
}

// fills are the values that a destination holds before: its zero value, and a list that is longer than most.
func fills(t reflect.Type) []reflect.Value {
	out := []reflect.Value{reflect.Zero(t)}
	if t.Kind() == reflect.Slice {
		ev := values(t.Elem(), 0)
		l := reflect.MakeSlice(t, 0, 5)
		for i := 0; i < 4; i++ {
			l = reflect.Append(l, ev[len(ev)-1])
		}
		out = append(out, l)
	}
	return out
}

func anyOf(v reflect.Value) any {
	if v.Kind() == reflect.Interface && v.IsNil() {
		return nil
	}
	if x := v.Interface(); reflect.TypeOf(x).Kind() == reflect.Pointer && !reflect.ValueOf(x).IsNil() {
		return x
	}
	return v.Interface()
}
