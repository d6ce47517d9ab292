package r12

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/rabbitmq"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/redis"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	amqp "github.com/rabbitmq/amqp091-go"
	"verif.local/h/rep"
)

var ctx = context.Background()

type T struct {
	A int
	B []string
	C map[string]int
	D *T
}

// ---------------------------------------------------------------- caches

var kinds = []string{"memory", "redis", "memcached"}

func dial(kind string, s *server) backend.Cache {
	var c backend.Cache
	var err error
	switch kind {
	case "memory":
		c, err = simplecache.NewSimpleCache(ctx)
	case "redis":
		c, err = redis.NewRedisCacheClient(ctx, s.addr())
	case "memcached":
		c, err = memcached.NewMemcachedClient(ctx, s.addr())
	}
	if err != nil {
		panic(err)
	}
	return c
}

// pairs of servers and clients are used again and again
var pools = map[string]*sync.Pool{}

func init() {
	for _, k := range kinds {
		pools[k] = &sync.Pool{New: func() any {
			p := &pair{kind: k}
			if k != "memory" {
				p.s = listen(k)
				p.c = dial(k, p.s)
			}
			return p
		}}
	}
}

type pair struct {
	kind string
	s    *server
	c    backend.Cache
}

func (p *pair) reset() backend.Cache {
	if p.s == nil {
		return dial(p.kind, nil)
	}
	p.s.mu.Lock()
	p.s.data = map[string]string{}
	p.s.mu.Unlock()
	return p.c
}

type op struct {
	what string
	keys []string
	vals []any
	n    int // number of destinations of Mget
}

func (o op) String() string { return fmt.Sprintf("%s%q%v", o.what, o.keys, o.vals) }

type result struct {
	err bool
	ok  bool
	n   int64
	got []any
}

func (r result) String() string {
	return fmt.Sprintf("error=%v found=%v number=%d values=%#v", r.err, r.ok, r.n, r.got)
}

const untouched = "~"

// model is what the interface promises.
type model map[string]any

func (m model) do(o op) (r result) {
	switch o.what {
	case "put":
		m[o.keys[0]] = o.vals[0]
	case "get":
		v, ok := m[o.keys[0]]
		r.ok = ok
		if !ok {
			v = untouched
		}
		r.got = []any{v}
	case "delete":
		delete(m, o.keys[0])
	case "incr":
		v, ok := m[o.keys[0]]
		if !ok {
			v = int64(0)
		}
		n, isNum := v.(int64)
		if !isNum {
			r.err = true
			return
		}
		r.n = n + 1
		m[o.keys[0]] = r.n
	case "mset":
		if len(o.keys) != len(o.vals) {
			r.err = true
			return
		}
		for i, k := range o.keys {
			m[k] = o.vals[i]
		}
	case "mget":
		if len(o.keys) != o.n {
			r.err = true
			return
		}
		for _, k := range o.keys {
			v, ok := m[k]
			if !ok {
				v = untouched
			}
			r.got = append(r.got, v)
		}
	}
	return
}

// dest is a destination of the type of the value that the model has, filled with something else before.
func (m model) dest(k string) any {
	switch m[k].(type) {
	case int64:
		x := int64(-77)
		return &x
	case T:
		return &T{A: -1, B: []string{"old", "older"}, C: map[string]int{"old": 1}, D: &T{A: 9}}
	}
	x := untouched
	return &x
}

// run executes the operation on the real client.
func run(c backend.Cache, m model, o op) (r result) {
	var err error
	switch o.what {
	case "put":
		err = c.Put(ctx, o.keys[0], o.vals[0])
	case "get":
		d := m.dest(o.keys[0])
		r.ok, err = c.Get(ctx, o.keys[0], d)
		r.got = []any{reflect.ValueOf(d).Elem().Interface()}
	case "delete":
		err = c.Delete(ctx, o.keys[0])
	case "incr":
		r.n, err = c.Incr(ctx, o.keys[0])
	case "mset":
		err = c.Mset(ctx, o.keys, o.vals)
	case "mget":
		ds := make([]any, o.n)
		for i := range ds {
			k := "none"
			if i < len(o.keys) {
				k = o.keys[i]
			}
			ds[i] = m.dest(k)
		}
		err = c.Mget(ctx, o.keys, ds)
		for _, d := range ds {
			r.got = append(r.got, reflect.ValueOf(d).Elem().Interface())
		}
	}
	if err != nil {
		return result{err: true}
	}
	return r
}

func canon(r result) string {
	if r.err {
		return "an error"
	}
	b, _ := json.Marshal(r.got)
	return fmt.Sprintf("found=%v number=%d values=%s", r.ok, r.n, b)
}

var t1 = T{A: 1, B: []string{"x"}, C: map[string]int{"k": 2}}
var t2 = T{D: &T{A: 4}}

func ops() (out []op) {
	for _, k := range []string{"a", "b"} {
		for _, v := range []any{int64(7), "s", t1, t2} {
			if k == "b" && v == any("s") {
				continue
			}
			out = append(out, op{"put", []string{k}, []any{v}, 0})
		}
		out = append(out, op{"incr", []string{k}, nil, 0}, op{"delete", []string{k}, nil, 0}, op{"get", []string{k}, nil, 0})
	}
	ab := []string{"a", "b"}
	out = append(out,
		op{"mset", ab, []any{int64(1), t1}, 0}, op{"mset", ab, []any{"y", int64(2)}, 0}, op{"mset", []string{"a", "a"}, []any{int64(3), int64(4)}, 0},
		op{"mset", nil, nil, 0}, op{"mset", ab, []any{int64(1)}, 0}, op{"mset", []string{"a"}, []any{int64(1), int64(2)}, 0},
		op{"mget", ab, nil, 2}, op{"mget", []string{"b", "none", "a"}, nil, 3}, op{"mget", []string{"a", "a"}, nil, 2}, op{"mget", nil, nil, 0},
		op{"mget", ab, nil, 1}, op{"mget", []string{"a"}, nil, 2})
	return
}

func final() []op {
	return []op{{"get", []string{"a"}, nil, 0}, {"get", []string{"b"}, nil, 0}, {"mget", []string{"a", "none", "b"}, nil, 3}}
}

func histories(r *rep.R) {
	all := ops()
	for _, kind := range kinds {
		for n := 1; n <= rep.Pick(r, 3, 4); n++ {
			r.Enum(fmt.Sprintf("%s: histories of %d operations", kind, n), rep.Power(len(all), n), n, func(i int) (c rep.Case) {
				radix := make([]int, n)
				for j := range radix {
					radix[j] = len(all)
				}
				p := pools[kind].Get().(*pair)
				defer pools[kind].Put(p)
				cache := p.reset()
				m := model{}
				var hist []op
				for _, d := range rep.Digits(i, radix...) {
					hist = append(hist, all[d])
				}
				c.Input = fmt.Sprint(hist)
				c.Sig = kind + "-history"
				if pan := rep.Guard(func() {
					for _, o := range append(hist, final()...) {
						got := canon(run(cache, m, o))
						want := canon(m.do(o))
						c.Steps++
						if got != want {
							c.Msgs = append(c.Msgs, fmt.Sprintf("%v yields %s, want %s", o, got, want))
							return
						}
						c.Outcome = want
					}
				}); pan != "" {
					c.Msgs = append(c.Msgs, pan)
				}
				return
			})
		}
	}
}

// values of many types go in and come out again, into empty and into filled destinations.
func values(r *rep.R) {
	type deep struct {
		M map[string][]T
		P *[]*int64
		B []byte
		N time.Time
	}
	n := int64(5)
	vs := []any{"", "x", "é\"\\\n\x00日本", strings.Repeat("long ", 5000), int64(0), int64(math.MaxInt64), int64(math.MinInt64), int64(-1), uint64(math.MaxUint64), int32(-3), 1.5, -0.1, math.MaxFloat64,
		true, false, []string{}, []string{"a", ""}, []int64{}, []int64{1, 2, 3}, []T{}, []T{t1, t2, {}}, map[string]int{}, map[string]int{"a": 1}, map[string]T{"": t1}, map[int64]string{4: "d"},
		t1, t2, T{}, &n, &t1, []*T{&t1, nil}, deep{M: map[string][]T{"z": {t1}}, P: &[]*int64{&n}, B: []byte{0, 255}, N: time.Unix(5, 7).UTC()}, [2]string{"p", "q"}, []byte("\x00\xff"), time.Unix(1, 0).UTC()}
	for _, kind := range kinds[1:] {
		r.Enum(kind+": all values into destinations that hold other values of the same type", len(vs)*len(vs)*3, len(vs), func(i int) (c rep.Case) {
			d := rep.Digits(i, len(vs), len(vs), 3)
			v, old := vs[d[0]], vs[d[1]]
			dst := reflect.New(reflect.TypeOf(v))
			if reflect.TypeOf(v) == reflect.TypeOf(old) {
				dst.Elem().Set(reflect.ValueOf(clone(old)))
			} else if d[1] > 0 { // another type: once with an empty destination
				return
			}
			p := pools[kind].Get().(*pair)
			defer pools[kind].Put(p)
			cache := p.reset()
			c.Sig, c.Input = kind+"-value", fmt.Sprintf("%.60q of %T over %.60q, way %d", fmt.Sprint(v), v, fmt.Sprint(dst.Elem()), d[2])
			if pan := rep.Guard(func() {
				var err error
				ok := true
				if d[2] == 0 {
					err = cache.Put(ctx, "k", v)
				} else {
					err = cache.Mset(ctx, []string{"j", "k"}, []any{1, v})
				}
				if err == nil && d[2] < 2 {
					ok, err = cache.Get(ctx, "k", dst.Interface())
				} else if err == nil {
					var j int
					err = cache.Mget(ctx, []string{"k", "j"}, []any{dst.Interface(), &j})
				}
				if err != nil || !ok || !same(dst.Elem().Interface(), v) {
					c.Msgs = append(c.Msgs, fmt.Sprintf("comes back as %.100q, found=%v, error=%v", fmt.Sprintf("%+v", dst.Elem()), ok, err))
				}
			}); pan != "" {
				c.Msgs = append(c.Msgs, pan)
			}
			c.Steps, c.Outcome = 2, fmt.Sprintf("%T", v)
			return
		})
	}
}

func clone(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	x := reflect.New(reflect.TypeOf(v))
	if err := json.Unmarshal(b, x.Interface()); err != nil {
		panic(err)
	}
	return x.Elem().Interface()
}

func same(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y) && reflect.TypeOf(a) == reflect.TypeOf(b)
}

// faults: every operation while the server is down, refuses commands or has a malformed value.
func faults(r *rep.R) {
	all := ops()
	modes := []string{"close", "error", "garbage", "recovered", "unencodable"}
	for _, kind := range kinds[1:] {
		r.EnumN(kind+": every operation with every failure of the server", len(all)*len(modes), 1, 8, func(i int) (c rep.Case) {
			d := rep.Digits(i, len(all), len(modes))
			o, mode := all[d[0]], modes[d[1]]
			c.Sig, c.Input = kind+"-fault-"+mode, fmt.Sprintf("%v, server: %s", o, mode)
			c.Steps = 2
			if len(o.keys) == 0 || (o.what == "mset" || o.what == "mget") && len(o.keys) != max(len(o.vals), o.n) {
				return // no command is needed
			}
			s := listen(kind)
			defer s.close()
			cache := dial(kind, s)
			m := model{}
			for _, k := range []string{"a", "b"} {
				m.do(op{"put", []string{k}, []any{int64(7)}, 0})
			}
			wantErr := true
			switch mode {
			case "close", "error":
				if err := cache.Mset(ctx, []string{"a", "b"}, []any{int64(7), int64(7)}); err != nil {
					c.Msgs = append(c.Msgs, fmt.Sprint(err))
				}
				s.set(mode)
			case "recovered": // the server restarts, with its data
				if err := cache.Mset(ctx, []string{"a", "b"}, []any{int64(7), int64(7)}); err != nil {
					c.Msgs = append(c.Msgs, fmt.Sprint(err))
				}
				s.set("error")
				cache.Put(ctx, "a", 5)
				s.set("")
				wantErr = false
			case "garbage":
				s.data["a"], s.data["b"] = `{"A":`, `{"A":`
				wantErr = o.what == "get" || o.what == "mget" || o.what == "incr"
			case "unencodable":
				if o.what != "put" && o.what != "mset" {
					return
				}
				o.vals = append([]any{}, o.vals...)
				o.vals[len(o.vals)-1] = make(chan int)
			}
			type ended struct {
				res result
				pan string
			}
			ch := make(chan ended, 1)
			go func() {
				var e ended
				e.pan = rep.Guard(func() { e.res = run(cache, m, o) })
				ch <- e
			}()
			select {
			case e := <-ch:
				want := m.do(o)
				if e.pan != "" {
					c.Msgs = append(c.Msgs, e.pan)
				} else if e.res.err != wantErr {
					c.Msgs = append(c.Msgs, fmt.Sprintf("yields %s, want error=%v", canon(e.res), wantErr))
				} else if mode == "recovered" && canon(e.res) != canon(want) {
					c.Msgs = append(c.Msgs, fmt.Sprintf("yields %s, want %s", canon(e.res), canon(want)))
				}
				c.Outcome = fmt.Sprint(mode, e.res.err)
			case <-time.After(40 * time.Second):
				c.Msgs = append(c.Msgs, "does not return")
			}
			return
		})
	}
}

// interleavings: two clients of one server run two operations each, in every order of their commands.
func interleavings(r *rep.R) {
	k := []string{"a"}
	single := []op{{"incr", k, nil, 0}, {"delete", k, nil, 0}, {"put", k, []any{int64(40)}, 0}, {"get", k, nil, 0}}
	for _, kind := range kinds[1:] {
		n := rep.Power(len(single), 4) * 2
		r.Enum(kind+": all interleavings of the commands of two clients", n, 4, func(i int) (c rep.Case) {
			d := rep.Digits(i, len(single), len(single), len(single), len(single), 2)
			progs := [2][]op{{single[d[0]], single[d[1]]}, {single[d[2]], single[d[3]]}}
			c.Sig, c.Input = kind+"-interleaving", fmt.Sprintf("%v || %v, stored before: %v", progs[0], progs[1], d[4] == 1)
			if d[0]*4+d[1] > d[2]*4+d[3] {
				return // symmetric
			}
			s := listen(kind)
			defer s.close()
			// the two clients connect one after the other, so that the server can tell them apart
			var caches [2]backend.Cache
			for j := range caches {
				caches[j] = dial(kind, s)
				caches[j].Delete(ctx, "a")
			}
			var prefix []int
			for {
				s.mu.Lock()
				s.data = map[string]string{}
				if d[4] == 1 {
					s.data["a"] = "7"
				}
				s.mu.Unlock()
				taken, options, msg := schedule(s, caches, progs, prefix, d[4] == 1)
				c.Steps += len(taken)
				if msg != "" {
					c.Msgs = append(c.Msgs, fmt.Sprintf("order of commands %v: %s", taken, msg))
					return
				}
				c.Outcome = fmt.Sprint(len(taken))
				j := len(taken) - 1
				for ; j >= 0; j-- {
					if taken[j] == 0 && options[j] {
						break
					}
				}
				if j < 0 {
					return
				}
				prefix = append(append([]int{}, taken[:j]...), 1)
			}
		})
	}
}

// schedule runs the two programs with the commands of client prefix[0], prefix[1], ... taking effect in this order,
// and then those of client 0 first.
func schedule(s *server, caches [2]backend.Cache, progs [2][]op, prefix []int, stored bool) (taken []int, options []bool, msg string) {
	type event struct {
		client int
		done   bool
	}
	events := make(chan event, 16)
	var grant [2]chan struct{}
	grant[0], grant[1] = make(chan struct{}), make(chan struct{})
	s.gate = func(client int) {
		client %= 2
		events <- event{client, false}
		<-grant[client]
	}
	defer func() { s.gate = nil }()
	var results [2][]result
	for j := range progs {
		go func() {
			m := model{"a": int64(0)}
			rep.Guard(func() {
				for _, o := range progs[j] {
					results[j] = append(results[j], run(caches[j], m, o))
				}
			})
			events <- event{j, true}
		}()
	}
	waiting, done := [2]bool{}, [2]bool{}
	busy := 2
	for {
		for busy > 0 {
			select {
			case e := <-events:
				busy--
				if e.done {
					done[e.client] = true
				} else {
					waiting[e.client] = true
				}
			case <-time.After(30 * time.Second):
				return taken, options, "a client neither sends a command nor returns"
			}
		}
		if done[0] && done[1] {
			break
		}
		pick := 0
		if len(taken) < len(prefix) {
			pick = prefix[len(taken)]
		}
		if !waiting[pick] {
			pick = 1 - pick
		}
		options = append(options, waiting[0] && waiting[1])
		taken = append(taken, pick)
		waiting[pick] = false
		busy = 1
		grant[pick] <- struct{}{}
		if len(taken) > 100 {
			return taken, options, "the clients send commands forever"
		}
	}
	s.mu.Lock()
	last, exists := s.data["a"]
	s.mu.Unlock()
	// some order of the operations explains everything
	var search func(i, j int, m model) bool
	search = func(i, j int, m model) bool {
		if i == len(progs[0]) && j == len(progs[1]) {
			v, ok := m["a"]
			return ok == exists && (!ok || fmt.Sprint(v) == last)
		}
		for side, at := range [2]int{i, j} {
			if at == len(progs[side]) || at >= len(results[side]) {
				continue
			}
			m2 := model{}
			for k, v := range m {
				m2[k] = v
			}
			res := m2.do(progs[side][at])
			for x, g := range res.got {
				if g == any(untouched) { // the destination was a number
					res.got[x] = int64(-77)
				}
			}
			if canon(res) == canon(results[side][at]) && search(i+1-side, j+side, m2) {
				return true
			}
		}
		return false
	}
	m := model{}
	if stored {
		m["a"] = int64(7)
	}
	if !search(0, 0, m) {
		msg = fmt.Sprintf("no order of the operations explains the results %v and %v and the final value %q", results[0], results[1], last)
	}
	return
}

// ---------------------------------------------------------------- queues

func queues(r *rep.R) {
	vals := []any{int64(3), "s", "", t1, t2, []string{"a", "b"}, map[string]int{"k": 1}, 2.5, int64(math.MaxInt64 - 1), true, []T{t1, {}}}
	var seq int
	var mu sync.Mutex
	fresh := func(prefix string) string {
		mu.Lock()
		defer mu.Unlock()
		seq++
		return fmt.Sprintf("%s%d:1", prefix, seq)
	}
	// steps: push a value, pop into its type (empty or filled), pop with an ended context
	n := len(vals) + 2
	for _, kind := range []string{"memory", "rabbitmq"} {
		for l := 1; l <= rep.Pick(r, 3, 4); l++ {
			r.Enum(fmt.Sprintf("%s queue: all histories of %d pushes and pops", kind, l), rep.Power(n, l), l, func(i int) (c rep.Case) {
				radix := make([]int, l)
				for j := range radix {
					radix[j] = n
				}
				addr := fresh("q")
				defer amqp.Forget(addr)
				var q backend.Queue
				var err error
				if kind == "memory" {
					q, err = simplequeue.NewSimpleQueue(ctx)
				} else {
					q, err = rabbitmq.NewRabbitMQ(ctx, addr, "jobs")
					defer amqp.At(addr).Drop()
				}
				if err != nil {
					panic(err)
				}
				c.Sig = kind + "-queue-history"
				var model []any
				steps := append(rep.Digits(i, radix...), len(vals), len(vals), len(vals), len(vals), len(vals))
				pan := rep.Guard(func() {
					for at, d := range steps {
						switch {
						case d < len(vals):
							c.Input += fmt.Sprintf("push %v; ", vals[d])
							ok, err := q.Push(ctx, vals[d])
							if !ok || err != nil {
								c.Msgs = append(c.Msgs, fmt.Sprintf("pushing %v yields %v, %v", vals[d], ok, err))
								return
							}
							model = append(model, vals[d])
						default:
							if at < l {
								c.Input += "pop; "
							}
							c2, cancel := context.WithCancel(ctx)
							var dst reflect.Value
							if len(model) == 0 {
								time.AfterFunc(time.Millisecond, cancel)
								if d > len(vals) {
									cancel()
								}
								dst = reflect.New(reflect.TypeOf(""))
							} else {
								dst = reflect.New(reflect.TypeOf(model[0]))
								if d > len(vals) {
									if t, is := dst.Interface().(*T); is {
										*t = T{A: -1, B: []string{"old", "older"}, C: map[string]int{"old": 1}, D: &T{A: 9}}
									}
									if t, is := dst.Interface().(*map[string]int); is {
										*t = map[string]int{"old": 2}
									}
								}
								time.AfterFunc(20*time.Second, cancel)
							}
							ok, err := q.Pop(c2, dst.Interface())
							cancel()
							if len(model) == 0 {
								if ok || err != nil || dst.Elem().Interface() != any("") {
									c.Msgs = append(c.Msgs, fmt.Sprintf("popping from the empty queue until the context ends yields %v, %v, %v", ok, err, dst.Elem()))
									return
								}
								if at >= l {
									return
								}
							} else {
								if !ok || err != nil || !same(dst.Elem().Interface(), model[0]) {
									c.Msgs = append(c.Msgs, fmt.Sprintf("popping %v yields %v, %v, %+v", model[0], ok, err, dst.Elem()))
									return
								}
								model = model[1:]
							}
						}
						c.Steps++
					}
				})
				if pan != "" {
					c.Msgs = append(c.Msgs, pan)
				}
				c.Outcome = fmt.Sprint(kind, l, c.Steps)
				return
			})
		}
	}
	names := []string{"server down from the start", "connection lost: push", "connection lost: pop", "malformed message", "value that cannot be encoded", "wrong type", "two queues"}
	r.EnumN("rabbitmq queue: failures", len(names), 1, 1, func(i int) (c rep.Case) {
		c.Sig, c.Input, c.Outcome, c.Steps = "rabbitmq-queue-failure", names[i], names[i], 1
		addr := fresh("f")
		defer amqp.Forget(addr)
		if i == 0 {
			if q, err := rabbitmq.NewRabbitMQ(ctx, "down:1", "jobs"); err == nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("connecting yields %v and no error", q))
			}
			return
		}
		q, err := rabbitmq.NewRabbitMQ(ctx, addr, "jobs")
		if err != nil {
			panic(err)
		}
		defer amqp.At(addr).Drop()
		short, cancel := context.WithTimeout(ctx, 5*time.Second)
		defer cancel()
		var x int64
		var s string
		var ok bool
		if pan := rep.Guard(func() {
			wantErr := true
			switch i {
			case 1:
				amqp.At(addr).Drop()
				_, err = q.Push(ctx, 1)
			case 2:
				amqp.At(addr).Drop()
				_, err = q.Pop(short, &x)
			case 3:
				amqp.At(addr).Inject("jobs", []byte(`{"A":`))
				_, err = q.Pop(short, &x)
			case 4:
				ok, err = q.Push(ctx, make(chan int))
			case 5:
				q.Push(ctx, "text")
				_, err = q.Pop(short, &x)
			case 6:
				wantErr = false
				q2, e2 := rabbitmq.NewRabbitMQ(ctx, addr, "other")
				if e2 != nil {
					panic(e2)
				}
				q.Push(ctx, "one")
				q2.Push(ctx, "two")
				ok, err = q.Pop(short, &s)
				var s2 string
				ok2, err2 := q2.Pop(short, &s2)
				if !ok || !ok2 || err2 != nil || s != "one" || s2 != "two" {
					c.Msgs = append(c.Msgs, fmt.Sprintf("queue one delivers %q, queue two %q (%v)", s, s2, err2))
				}
			}
			if (err != nil) != wantErr {
				c.Msgs = append(c.Msgs, fmt.Sprintf("error is %v, want error=%v", err, wantErr))
			}
		}); pan != "" {
			c.Msgs = append(c.Msgs, pan)
		}
		return
	})
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	histories(r)
	values(r)
	interleavings(r)
	queues(r)
	faults(r)
}
