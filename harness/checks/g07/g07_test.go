// Package g07 checks the generated injectors of failures and delays: every draw of the random generator is offered to
// the explorer, and what the calls do is counted, weighted by the probability of the draws.
package g07

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"testing"
	"time"

	"verif.local/gen"
	"verif.local/h/checks/g07/configs"
	"verif.local/h/genrun"
	"verif.local/h/rep"
	"verif.local/h/vrand"
	"verif.local/h/vsched"
	"verif.local/workflows/wraps/wraps"
)

const ms = time.Millisecond

var errService = errors.New("failure of the service")

type call struct {
	which      int
	method     string
	fail       bool
	done       bool
	start, end time.Duration
	reached    []time.Duration // when the service was called
	res        string
	err        error
	bad        string
}

type ckey struct{}

// stats accumulates over the executions of one scenario.
type stats struct {
	total, injected float64
	took            map[time.Duration]float64
	partial         bool
	execs           int
}

func values(method string, i int) []any {
	switch method {
	case "Ask":
		return []any{int64(i), fmt.Sprint("r", i)}
	case "Get":
		return []any{&wraps.Thing{A: int64(i), B: []string{"x"}}}
	}
	return nil
}

func show(method string, r ...any) string {
	if method == "Get" {
		t, _ := r[0].(*wraps.Thing)
		if t == nil {
			return "nil"
		}
		return fmt.Sprint(*t)
	}
	return fmt.Sprint(r...)
}

// lat is how long the service itself takes.
func scenario(st *stats, proc string, lat time.Duration, specs ...call) *vsched.Scenario {
	name := fmt.Sprintf("%s:", proc)
	for _, s := range specs {
		name += fmt.Sprintf(" %s on %+v failing=%v;", s.method, configs.All[proc][s.which], s.fail)
	}
	name += fmt.Sprintf(" the service takes %v", lat)
	sc := &vsched.Scenario{Name: name, Tick: 0}
	root := genrun.NewRoot()
	var cs []*call
	weight := 1.0
	sc.Setup = func(x *vsched.Exec) {
		cs = nil
		weight = 1
		vrand.Picked = nil
		if len(specs) == 1 {
			vrand.Picked = func(n int64, all bool) {
				if all {
					weight /= float64(n)
				} else {
					st.partial = true
				}
			}
		}
		t0 := time.Now()
		p := &wraps.Probe{Handle: func(ctx context.Context, instance, method string, args ...any) ([]any, error) {
			c, _ := ctx.Value(ckey{}).(*call)
			if c == nil {
				return nil, errors.New("the service does not have the values of the caller's context")
			}
			c.reached = append(c.reached, time.Since(t0))
			if instance != fmt.Sprint("L", c.which) || method != c.method || (method == "Ask" && fmt.Sprint(args) != "[7 seven]") {
				c.bad = fmt.Sprintf("%s.%s%v", instance, method, args)
			}
			if lat > 0 {
				time.Sleep(lat)
			}
			if c.fail {
				return values(method, -2), errService
			}
			return values(method, 5), nil
		}}
		_, _, err := root.Build(gen.Procs[proc](proc), wraps.With(context.Background(), p))
		if err != nil {
			x.Fail("the process could not be built: %v", err)
			return
		}
		for i, s := range specs {
			c := &call{}
			*c = s
			cs = append(cs, c)
			x.Go(fmt.Sprint("caller", i), func() {
				ctx := context.WithValue(context.Background(), ckey{}, c)
				client := p.Client[fmt.Sprint("C", c.which)]
				c.start = time.Since(t0)
				switch c.method {
				case "Ping":
					c.err = client.Ping(ctx)
					c.res = show(c.method)
				case "Ask":
					a, b, err := client.Ask(ctx, 7, "seven")
					c.res, c.err = show(c.method, a, b), err
				case "Get":
					t, err := client.Get(ctx, &wraps.Thing{A: 1}, nil)
					c.res, c.err = show(c.method, t), err
				}
				c.end = time.Since(t0)
				c.done = true
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		st.execs++
		for i, c := range cs {
			bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf("call %d: ", i)+fmt.Sprintf(f, a...)) }
			cf := configs.All[proc][c.which]
			if !c.done {
				bad("did not return")
				continue
			}
			took := c.end - c.start
			x.Outcome("%d %v %v %s", i, took, c.err, c.res)
			if c.bad != "" {
				bad("the service received %s", c.bad)
			}
			if len(c.reached) > 1 {
				bad("the service was called %d times", len(c.reached))
				continue
			}
			injected := len(c.reached) == 0
			max := cf.Fixed()
			if cf.Delay > 0 {
				max += time.Duration(cf.Delay) * ms
			}
			if injected {
				if c.err == nil {
					bad("the service was not called, but the call succeeded")
				}
				if cf.Fail <= 0 {
					bad("failed without reaching the service: %v", c.err)
				}
				if took > max {
					bad("a failure took %v, with delays of at most %v", took, max)
				}
				if len(specs) == 1 {
					st.injected += weight
				}
				continue
			}
			if cf.Fail >= 100 {
				bad("the service was reached")
			}
			wantErr, want := error(nil), show(c.method, values(c.method, 5)...)
			if c.fail {
				wantErr = errService
			}
			if !errors.Is(c.err, wantErr) || (wantErr == nil && c.err != nil) || (!c.fail && c.res != want) {
				bad("the service answered %q, %v, and the call returned %q, %v", want, wantErr, c.res, c.err)
			}
			delay := took - lat
			if delay < cf.Fixed() || delay > max {
				bad("was delayed by %v, outside of %v to %v", delay, cf.Fixed(), max)
			}
			if len(specs) == 1 {
				st.took[delay] += weight
			}
		}
		st.total += weight
		return msgs
	}
	return sc
}

// distribution compares the probabilities with the configuration.
func (st *stats) distribution(c configs.Service) (msgs []string) {
	if st.partial || math.Abs(st.total-1) > 1e-6 {
		return nil // not all draws are known
	}
	p := 0.0
	if c.Fail > 0 {
		p = float64(c.Fail) / 100
	}
	if math.Abs(st.injected-p) > 1e-6 {
		msgs = append(msgs, fmt.Sprintf("calls fail with probability %.4f, not %.4f", st.injected, p))
	}
	if c.Delay > 0 && p < 1 {
		n := float64(c.Delay + 1)
		for k := time.Duration(0); k <= time.Duration(c.Delay); k++ {
			got := st.took[c.Fixed()+k*ms] / (1 - p)
			if math.Abs(got-1/n) > 1e-6 {
				msgs = append(msgs, fmt.Sprintf("calls are delayed by %v with probability %.4f, not %.4f", c.Fixed()+k*ms, got, 1/n))
			}
		}
	}
	if len(msgs) > 5 {
		msgs = msgs[:5]
	}
	return msgs
}

func names() (ns []string) {
	for n := range gen.Procs {
		if n != "bad" {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	return ns
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	vrand.All = 120
	var failed []string
	for n := range gen.Failed {
		if n != "bad" {
			failed = append(failed, n)
		}
	}
	sort.Strings(failed)
	for _, n := range failed {
		r.Fail(rep.Violation{Sig: "generate/" + n, Scenario: "generation of " + n, Messages: []string{gen.Failed[n]}})
	}
	if gen.Procs["bad"] != nil {
		p := &wraps.Probe{}
		if _, _, err := genrun.NewRoot().Build(gen.Procs["bad"]("bad"), wraps.With(context.Background(), p)); err == nil {
			r.Fail(rep.Violation{Sig: "bad", Scenario: "a latency of \"fast\"", Messages: []string{"the process was built without the latency"}})
		}
	}
	type single struct {
		c    configs.Service
		st   *stats
		name string
	}
	var singles []single
	var scs []*vsched.Scenario
	for _, n := range names() {
		for i, c := range configs.All[n] {
			for _, m := range []string{"Ping", "Ask", "Get"} {
				for _, fail := range []bool{false, true} {
					for _, lat := range []time.Duration{0, 40 * ms} {
						st := &stats{took: map[time.Duration]float64{}}
						sc := scenario(st, n, lat, call{which: i, method: m, fail: fail})
						scs = append(scs, sc)
						singles = append(singles, single{c, st, sc.Name})
					}
				}
			}
		}
	}
	r.ExploreAll(scs, 1)
	{
		for _, s := range singles {
			if msgs := s.st.distribution(s.c); len(msgs) > 0 {
				r.Fail(rep.Violation{Sig: "distribution", Scenario: s.name, Messages: msgs})
			}
		}
	}
	vrand.All = 4
	vrand.Values = 2
	r.ExploreAll(pairs(), rep.Pick(r, 2, 3))
	r.Done()
}

// pairs are two calls at once, of one and of two services.
func pairs() (scs []*vsched.Scenario) {
	for _, n := range names() {
		for i := range configs.All[n] {
			for _, j := range []int{i, i + 1} {
				if j < len(configs.All[n]) {
					scs = append(scs, scenario(&stats{took: map[time.Duration]float64{}}, n, 40*ms, call{which: i, method: "Ask"}, call{which: j, method: "Ask", fail: true}))
				}
			}
		}
	}
	return scs
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	vrand.All = 1
	vrand.Values = 2
	r.ExploreAll(pairs(), 1)
	r.Done()
}
