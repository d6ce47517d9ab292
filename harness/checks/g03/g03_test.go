// Package g03 checks the generated clients with timeouts: all schedules of calls whose service answers before, at or
// after the timeout, with or without regard to the context, on the generated code under virtual time.
package g03

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"testing"
	"time"

	"verif.local/gen"
	"verif.local/h/checks/g03/configs"
	"verif.local/h/genrun"
	"verif.local/h/rep"
	"verif.local/h/vsched"
	"verif.local/workflows/wraps/wraps"
)

const ms = time.Millisecond

// spec is one call.
type spec struct {
	which  int
	method string
	lat    time.Duration // when the service answers
	fail   bool
	heed   bool          // the service gives up when its context ends
	ctxEnd time.Duration // when the caller's context ends; < 0: never
	after  time.Duration // the call is made that much later
}

type call struct {
	spec
	start, end time.Duration
	ok         bool // returned
	res        string
	err        error
	calls      int
	bad        string
	inner      context.Context
	answered   time.Duration
	wantErr    error
}

type ckey struct{}

var errService = errors.New("failure of the service")
var errGaveUp = errors.New("the service gave up")

func values(method string, i int) []any {
	switch method {
	case "Ask":
		return []any{int64(i), fmt.Sprint("r", i)}
	case "Get":
		return []any{&wraps.Thing{A: int64(i), B: []string{"x"}}}
	}
	return nil
}

func show(method string, r ...any) string {
	if method == "Get" {
		t, _ := r[0].(*wraps.Thing)
		if t == nil {
			return "nil"
		}
		return fmt.Sprint(*t)
	}
	return fmt.Sprint(r...)
}

func scenario(proc string, specs ...spec) *vsched.Scenario {
	name := fmt.Sprintf("%s %v:", proc, configs.All[proc])
	for _, s := range specs {
		name += fmt.Sprintf(" %s on %d at %v answered at %v fail=%v heed=%v ctx=%v;", s.method, s.which, s.after, s.lat, s.fail, s.heed, s.ctxEnd)
	}
	sc := &vsched.Scenario{Name: name, Tick: 0}
	root := genrun.NewRoot()
	var cs []*call
	sc.Setup = func(x *vsched.Exec) {
		cs = nil
		t0 := time.Now()
		p := &wraps.Probe{Handle: func(ctx context.Context, instance, method string, args ...any) ([]any, error) {
			c, _ := ctx.Value(ckey{}).(*call)
			if c == nil {
				return nil, errors.New("the service does not have the values of the caller's context")
			}
			c.calls++
			c.inner = ctx
			if instance != fmt.Sprint("L", c.which) || method != c.method || (method == "Ask" && fmt.Sprint(args) != "[7 seven]") {
				c.bad = fmt.Sprintf("%s.%s%v", instance, method, args)
			}
			if c.heed {
				tm := time.NewTimer(c.lat)
				defer tm.Stop()
				select {
				case <-ctx.Done():
					return values(method, -1), errGaveUp
				case <-tm.C:
				}
			} else if c.lat > 0 {
				time.Sleep(c.lat)
			}
			c.answered = time.Since(t0)
			if c.fail {
				return values(method, -2), errService
			}
			return values(method, 5), nil
		}}
		_, _, err := root.Build(gen.Procs[proc](proc), wraps.With(context.Background(), p))
		if err != nil {
			x.Fail("the process could not be built: %v", err)
			return
		}
		for i, s := range specs {
			c := &call{spec: s}
			cs = append(cs, c)
			x.Go(fmt.Sprint("caller", i), func() {
				if c.after > 0 {
					time.Sleep(c.after)
				}
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ckey{}, c))
				if c.ctxEnd == 0 {
					cancel()
				} else if c.ctxEnd > 0 {
					tm := time.AfterFunc(c.ctxEnd, cancel)
					defer tm.Stop()
				}
				client := p.Client[fmt.Sprint("C", c.which)]
				c.start = time.Since(t0)
				switch c.method {
				case "Ping":
					c.err = client.Ping(ctx)
					c.res = show(c.method)
				case "Ask":
					a, b, err := client.Ask(ctx, 7, "seven")
					c.res, c.err = show(c.method, a, b), err
				case "Get":
					t, err := client.Get(ctx, &wraps.Thing{A: 1}, nil)
					c.res, c.err = show(c.method, t), err
				}
				c.end = time.Since(t0)
				c.ok = true
				defer cancel()
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		for i, c := range cs {
			bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf("call %d: ", i)+fmt.Sprintf(f, a...)) }
			if !c.ok {
				bad("did not return")
				continue
			}
			timeout, _ := time.ParseDuration(configs.All[proc][c.which])
			took := c.end - c.start
			limit := timeout
			if c.ctxEnd >= 0 && c.ctxEnd < limit {
				limit = c.ctxEnd
			}
			x.Outcome("%d %v %v %s", i, took, c.err, c.res)
			if c.bad != "" {
				bad("the service received %s", c.bad)
			}
			if c.calls > 1 || (c.calls == 0 && limit > 0) {
				bad("the service was called %d times", c.calls)
			}
			if took > limit {
				bad("returned after %v, with a timeout of %v and a context that ends at %v", took, timeout, c.ctxEnd)
			}
			own := show(c.method, values(c.method, 5)...)
			wantErr := error(nil)
			if c.fail {
				wantErr = errService
			}
			isOwn := c.err == wantErr && (c.fail || c.res == own)
			isTimeout := c.err != nil && c.err != errService
			switch {
			case c.lat < limit:
				if !isOwn {
					bad("the service answered in time with %v, and the call returned %q, %v", wantErr, c.res, c.err)
				}
				if took != c.lat {
					bad("the service answered after %v and the call returned after %v", c.lat, took)
				}
			case c.lat == limit:
				if !isOwn && !isTimeout {
					bad("the service answered at the last instant with %v, and the call returned %q, %v", wantErr, c.res, c.err)
				}
			default:
				if !isTimeout {
					bad("the service had not answered, and the call returned %q, %v", c.res, c.err)
				}
				if took != limit {
					bad("the time was over after %v and the call returned after %v", limit, took)
				}
			}
			if c.inner != nil && c.inner.Err() == nil {
				bad("the context of the service's call never ended")
			}
		}
		return msgs
	}
	return sc
}

func scenarios(pairs bool) (scs []*vsched.Scenario) {
	if gen.Procs["t1"] != nil {
		for _, m := range []string{"Ping", "Ask", "Get"} {
			for _, lat := range []time.Duration{0, 50 * ms, 100 * ms, 150 * ms} {
				for _, fail := range []bool{false, true} {
					for _, heed := range []bool{false, true} {
						for _, end := range []time.Duration{-1, 0, 50 * ms, 75 * ms, 100 * ms, 120 * ms} {
							if m != "Ask" && (end > 50*ms || heed) {
								continue
							}
							scs = append(scs, scenario("t1", spec{method: m, lat: lat, fail: fail, heed: heed, ctxEnd: end}))
						}
					}
				}
			}
		}
	}
	if pairs {
		for _, l := range [][2]time.Duration{{0, 0}, {50 * ms, 150 * ms}, {100 * ms, 100 * ms}, {150 * ms, 0}, {150 * ms, 150 * ms}} {
			for _, fail := range []bool{false, true} {
				for _, after := range []time.Duration{0, 100 * ms} {
					if gen.Procs["t1"] != nil {
						scs = append(scs, scenario("t1", spec{method: "Ask", lat: l[0], fail: fail, ctxEnd: -1}, spec{method: "Get", lat: l[1], ctxEnd: -1, after: after}))
					}
					for _, proc := range []string{"t2", "t4"} {
						if gen.Procs[proc] != nil {
							scs = append(scs, scenario(proc, spec{method: "Ask", lat: l[0], fail: fail, ctxEnd: -1}, spec{which: 1, method: "Ask", lat: l[1], ctxEnd: -1, after: after}))
						}
					}
				}
			}
		}
	}
	if gen.Procs["t3"] != nil {
		scs = append(scs, scenario("t3", spec{method: "Ask", ctxEnd: -1}), scenario("t3", spec{method: "Ask", lat: 10 * ms, ctxEnd: -1}))
	}
	return scs
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	var failed []string
	for n := range gen.Failed {
		failed = append(failed, n)
	}
	sort.Strings(failed)
	for _, n := range failed {
		r.Fail(rep.Violation{Sig: "generate/" + n, Scenario: "generation of " + n, Messages: []string{gen.Failed[n]}})
	}
	r.ExploreAll(scenarios(true), rep.Pick(r, 3, 4))
	r.Done()
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	r.ExploreAll(scenarios(false), 1)
	r.Done()
}
