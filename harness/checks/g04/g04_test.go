// Package g04 checks the generated circuit breakers (over a stand-in for the library that they use): all histories of
// calls and pauses, and all schedules of concurrent calls, on the generated code under virtual time.
package g04

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/gen"
	"verif.local/h/checks/g04/configs"
	"verif.local/h/genrun"
	"verif.local/h/lin"
	"verif.local/h/rep"
	"verif.local/h/vsched"
	"verif.local/workflows/wraps/wraps"
)

// breaker is a circuit breaker as its users know it. What the documentation leaves open is fixed by a variant.
type breaker struct {
	variant
	cfg    configs.CB
	iv     time.Duration
	mode   int // 0 closed, 1 open, 2 on probation after having been open
	s, f   int64
	begin  time.Duration // of the interval (closed), or when it opened (open)
	probes int64
}

type variant struct {
	needed int64 // successes that end the probation
	carry  bool  // they count in the first interval after it
	eager  bool  // a success can open the breaker if it completes the minimum
}

func variants() (l []variant) {
	for n := int64(1); n <= 6; n++ {
		for _, c := range []bool{false, true} {
			for _, e := range []bool{false, true} {
				l = append(l, variant{n, c, e})
			}
		}
	}
	return l
}

func start(cfg configs.CB, v variant) breaker {
	iv, err := time.ParseDuration(cfg.Interval)
	if err != nil {
		panic(err)
	}
	return breaker{variant: v, cfg: cfg, iv: iv}
}

func (b *breaker) advance(now time.Duration) {
	switch b.mode {
	case 0:
		if n := (now - b.begin) / b.iv; n > 0 {
			b.s, b.f, b.begin = 0, 0, b.begin+n*b.iv
		}
	case 1:
		if now >= b.begin+b.iv {
			b.mode, b.probes = 2, 0
		}
	}
}

func (b *breaker) admits(now time.Duration) bool {
	b.advance(now)
	return b.mode != 1
}

func (b *breaker) done(now time.Duration, failed bool) {
	b.advance(now)
	switch b.mode {
	case 0:
		if failed {
			b.f++
		} else {
			b.s++
		}
		if n := b.s + b.f; (failed || b.eager) && n >= b.cfg.Min && float64(b.f)/float64(n) >= b.cfg.Rate {
			b.mode, b.begin = 1, now
		}
	case 2:
		if failed {
			b.mode, b.begin = 1, now
			return
		}
		if b.probes++; b.probes >= b.needed {
			b.mode, b.begin, b.s, b.f = 0, now, 0, 0
			if b.carry {
				b.s = b.probes
			}
		}
	}
}

type ckey struct{}

var errService = errors.New("failure of the service")

// call is one call; the service notes what happens in it.
type call struct {
	id       int
	which    int
	method   string
	fail     bool
	hits     int
	bad      string
	err      error
	res      string
	returned bool
	lat      time.Duration
	ops      [2]vsched.Op // the breaker's decision on the call, and the end of a forwarded call
}

func values(method string, i int) []any {
	switch method {
	case "Ask":
		return []any{int64(i), fmt.Sprint("r", i)}
	case "Get":
		return []any{&wraps.Thing{A: int64(i), B: []string{"x"}}}
	}
	return nil
}

func show(method string, r ...any) string {
	if method == "Get" {
		t, _ := r[0].(*wraps.Thing)
		if t == nil {
			return "nil"
		}
		return fmt.Sprint(*t)
	}
	return fmt.Sprint(r...)
}

func handle(ctx context.Context, instance, method string, args ...any) ([]any, error) {
	c, _ := ctx.Value(ckey{}).(*call)
	if c == nil {
		return nil, errors.New("the service does not have the values of the caller's context")
	}
	c.hits++
	if instance != fmt.Sprint("L", c.which) || method != c.method || (method == "Ask" && fmt.Sprint(args) != "[7 seven]") {
		c.bad = fmt.Sprintf("%s.%s%v", instance, method, args)
	}
	if c.lat > 0 {
		time.Sleep(c.lat)
	} else {
		vsched.Point("service")
	}
	if c.fail {
		return values(method, -2-c.id), errService
	}
	return values(method, 5+c.id), nil
}

func (c *call) run(p *wraps.Probe, ctx context.Context) {
	ctx = context.WithValue(ctx, ckey{}, c)
	client := p.Client[fmt.Sprint("C", c.which)]
	switch c.method {
	case "Ping":
		c.err = client.Ping(ctx)
		c.res = show(c.method)
	case "Ask":
		a, b, err := client.Ask(ctx, 7, "seven")
		c.res, c.err = show(c.method, a, b), err
	case "Get":
		t, err := client.Get(ctx, &wraps.Thing{A: 1}, nil)
		c.res, c.err = show(c.method, t), err
	}
	c.returned = true
}

// judge checks what is due whatever the state of the breaker.
func (c *call) judge() (msgs []string) {
	bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf("call %d: ", c.id)+fmt.Sprintf(f, a...)) }
	switch {
	case c.bad != "":
		bad("the service received %s", c.bad)
	case c.hits > 1:
		bad("reached the service %d times", c.hits)
	case c.hits == 0 && (c.err == nil || c.err == errService):
		bad("did not reach the service and returned the error %v", c.err)
	case c.hits == 1 && c.fail && (c.err != errService || c.res != show(c.method, values(c.method, -2-c.id)...)):
		bad("the service failed and the call returned %s, %v", c.res, c.err)
	case c.hits == 1 && !c.fail && (c.err != nil || c.res != show(c.method, values(c.method, 5+c.id)...)):
		bad("the service succeeded and the call returned %s, %v", c.res, c.err)
	}
	return msgs
}

// step is a pause and a call.
type step struct {
	pause int // in tenths of the interval
	kind  int // 0 success, 1 failure, 2 failure as the context ends, 3 success though the context ended
	which int
}

var methods = []string{"Ask", "Ping", "Get"}

// play runs a history of calls made one after another.
func play(r *rep.R, proc string, steps []step) (msgs []string, outcome string) {
	cfgs := configs.All[proc]
	p := rep.Guard(func() {
		synctest.Test(r.T, func(t *testing.T) {
			probe := &wraps.Probe{Handle: handle}
			var models [][]breaker
			for _, c := range cfgs {
				var l []breaker
				for _, v := range variants() {
					l = append(l, start(c, v))
				}
				models = append(models, l)
			}
			t0 := time.Now()
			_, end, err := genrun.Build(gen.Procs[proc](proc), wraps.With(context.Background(), probe))
			defer end()
			if err != nil {
				msgs = append(msgs, fmt.Sprintf("the process could not be built: %v", err))
				return
			}
			iv0 := start(cfgs[0], variant{}).iv
			for i, s := range steps {
				time.Sleep(iv0 / 10 * time.Duration(s.pause))
				c := &call{id: i, which: s.which, method: methods[i%3], fail: s.kind == 1 || s.kind == 2}
				ctx, cancel := context.WithCancel(context.Background())
				switch {
				case s.kind == 2 && i%2 == 0:
					cancel()
				case s.kind >= 2:
					cancel()
					ctx, cancel = context.WithDeadline(context.Background(), time.Now())
				}
				done := make(chan bool)
				pn := ""
				go func() {
					defer close(done)
					pn = rep.Guard(func() { c.run(probe, ctx) })
				}()
				synctest.Wait()
				select {
				case <-done:
				case <-time.After(24 * time.Hour):
					msgs = append(msgs, fmt.Sprintf("call %d did not return within a day", i))
				}
				cancel()
				if pn != "" {
					msgs = append(msgs, fmt.Sprintf("call %d: panic: %s", i, pn))
				}
				if len(msgs) > 0 {
					return
				}
				msgs = append(msgs, c.judge()...)
				now := time.Since(t0)
				var left []breaker
				l := models[s.which]
				mode := 0
				for _, b := range l {
					mode = b.mode
					if b.admits(now) == (c.hits > 0) {
						if c.hits > 0 {
							b.done(now, c.fail)
						}
						left = append(left, b)
					}
				}
				if len(left) == 0 {
					state := []string{"closed", "open", "on probation"}[mode]
					msgs = append(msgs, fmt.Sprintf("call %d at %v reached the service %d times; it was %s since %v, with %d successes and %d failures", i, now, c.hits, state, l[0].begin, l[0].s, l[0].f))
					return
				}
				models[s.which] = left
				outcome += fmt.Sprint(c.hits)
			}
		})
	})
	if p != "" {
		msgs = append(msgs, "panic: "+p)
	}
	return msgs, outcome
}

var kindName = []string{"success", "failure", "failure/ended-context", "success/ended-context"}

func report(r *rep.R, proc string, steps []step) rep.Case {
	msgs, outcome := play(r, proc, steps)
	var in []string
	for _, s := range steps {
		in = append(in, fmt.Sprintf("+%d/10 %s(%d)", s.pause, kindName[s.kind], s.which))
	}
	return rep.Case{Sig: proc + "/history", Input: fmt.Sprintf("%+v: %s", configs.All[proc], strings.Join(in, ", ")), Outcome: outcome, Steps: len(steps), Msgs: msgs}
}

func repeat(n, times int) (l []int) {
	for ; times > 0; times-- {
		l = append(l, n)
	}
	return l
}

func histories(r *rep.R) {
	var procs []string
	for n := range configs.All {
		if gen.Procs[n] != nil {
			procs = append(procs, n)
		}
	}
	sort.Strings(procs)
	pauses := []int{0, 6, 11}
	for _, proc := range procs {
		if len(configs.All[proc]) > 1 {
			// two breakers of one interface: all sequences of calls of either
			d := rep.Pick(r, 7, 9)
			r.Enum(proc+": all sequences of successes and failures of two services", rep.Power(4, d), d, func(i int) rep.Case {
				var st []step
				for _, k := range rep.Digits(i, repeat(4, d)...) {
					st = append(st, step{kind: k % 2, which: k / 2})
				}
				return report(r, proc, st)
			})
			continue
		}
		d := rep.Pick(r, 4, 6)
		r.Enum(proc+": all sequences of steps from 3 pauses x 4 kinds of call", rep.Power(12, d), d, func(i int) rep.Case {
			var st []step
			for _, k := range rep.Digits(i, repeat(12, d)...) {
				st = append(st, step{pause: pauses[k/4], kind: k % 4})
			}
			return report(r, proc, st)
		})
		d2 := rep.Pick(r, 9, 12)
		r.Enum(proc+": all sequences of successes and failures, with a pause of an interval before each position", rep.Power(2, d2)*d2, d2, func(i int) rep.Case {
			at, bits := i%d2, i/d2
			var st []step
			for j := 0; j < d2; j++ {
				s := step{kind: bits >> j & 1}
				if j == at {
					s.pause = 11
				}
				st = append(st, s)
			}
			return report(r, proc, st)
		})
		d3 := rep.Pick(r, 6, 8)
		r.Enum(proc+": failures until open, then all sequences of successes and failures with and without a pause, in three phases", rep.Power(4, d3)*3, d3, func(i int) rep.Case {
			var st []step
			for j := 0; j < 5; j++ {
				st = append(st, step{kind: 1})
			}
			for _, k := range rep.Digits(i/3, repeat(4, d3)...) {
				st = append(st, step{pause: k / 2 * []int{4, 7, 13}[i%3], kind: k % 2})
			}
			return report(r, proc, st)
		})
	}
}

// op is an atomic step of a breaker.
type op struct {
	id     int
	at     time.Duration
	finish bool // the end of a forwarded call
	failed bool
}

// plan is one call of a scenario.
type plan struct {
	task  int
	after time.Duration
	lat   time.Duration
	fail  bool
	which int
}

func scenario(proc string, plans ...plan) *vsched.Scenario {
	name := fmt.Sprintf("%s %v:", proc, configs.All[proc])
	for _, p := range plans {
		name += fmt.Sprintf(" task %d +%v lasting %v fail=%v on %d;", p.task, p.after, p.lat, p.fail, p.which)
	}
	sc := &vsched.Scenario{Name: name}
	root := genrun.NewRoot()
	var cs []*call
	sc.Setup = func(x *vsched.Exec) {
		cs = nil
		t0 := time.Now()
		var probe *wraps.Probe
		probe = &wraps.Probe{Handle: func(ctx context.Context, instance, method string, args ...any) ([]any, error) {
			c, _ := ctx.Value(ckey{}).(*call)
			if c != nil && c.hits == 0 {
				c.ops[0].Ret, c.ops[0].Res = true, x.Now()
			}
			res, err := handle(ctx, instance, method, args...)
			if c != nil && c.hits == 1 {
				c.ops[1] = vsched.Op{Call: op{id: c.id, at: time.Since(t0), finish: true, failed: c.fail}, Inv: x.Now(), Res: -1}
			}
			return res, err
		}}
		_, _, err := root.Build(gen.Procs[proc](proc), wraps.With(context.Background(), probe))
		if err != nil {
			x.Fail("the process could not be built: %v", err)
			return
		}
		tasks := map[int][]*call{}
		waits := map[*call]time.Duration{}
		n := 0
		for i, p := range plans {
			c := &call{id: i, which: p.which, method: methods[i%3], fail: p.fail, lat: p.lat}
			cs = append(cs, c)
			c.ops[0].Res = -1
			tasks[p.task] = append(tasks[p.task], c)
			waits[c] = p.after
			n = max(n, p.task+1)
		}
		for t := 0; t < n; t++ {
			x.Go(fmt.Sprint("caller", t), func() {
				for _, c := range tasks[t] {
					if waits[c] > 0 {
						time.Sleep(waits[c])
					}
					c.ops[0].Call, c.ops[0].Inv = op{id: c.id, at: time.Since(t0)}, x.Now()
					c.run(probe, context.Background())
					if at := x.Now(); c.hits == 0 {
						c.ops[0].Ret, c.ops[0].Res = false, at
					} else {
						c.ops[1].Res = at
					}
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		for _, c := range cs {
			if !c.returned {
				msgs = append(msgs, fmt.Sprintf("call %d did not return", c.id))
				continue
			}
			msgs = append(msgs, c.judge()...)
			x.Outcome("%d:%d", c.id, c.hits)
		}
		if len(msgs) > 0 {
			return msgs
		}
		for w, cfg := range configs.All[proc] {
			var mine []vsched.Op
			for _, c := range cs {
				if c.which == w {
					mine = append(mine, c.ops[0])
					if c.hits > 0 {
						mine = append(mine, c.ops[1])
					}
				}
			}
			var last []string
			ok := false
			for _, v := range variants() {
				if v.needed != 4 && v.needed != 1 {
					continue
				}
				last = lin.Check(mine, lin.Model[breaker]{
					Init: func() breaker { return start(cfg, v) },
					Step: func(b breaker, call, ret any, done bool) []breaker {
						o := call.(op)
						if o.finish {
							b.done(o.at, o.failed)
							return []breaker{b}
						}
						if b.admits(o.at) != ret.(bool) {
							return nil
						}
						return []breaker{b}
					},
					Key: func(b breaker) string { return fmt.Sprint(b.mode, b.s, b.f, b.begin, b.probes) },
				})
				if len(last) == 0 {
					ok = true
					break
				}
			}
			if !ok {
				msgs = append(msgs, last...)
			}
		}
		return msgs
	}
	return sc
}

func scenarios(r *rep.R, race bool) (scs []*vsched.Scenario) {
	// two tasks, and a third whose call comes later, when the others have ended
	procs := []string{"k1", "k2", "k3", "k5"}
	if race {
		procs = []string{"k2"}
	}
	for _, p := range procs {
		if gen.Procs[p] == nil {
			continue
		}
		iv := start(configs.All[p][0], variant{}).iv
		last := plan{task: 3, after: iv / 2, fail: true}
		again := plan{task: 3, after: iv + iv/4}
		for m := 0; m < 8; m++ {
			v := []bool{m&1 != 0, m&2 != 0, m&4 != 0}
			if race {
				scs = append(scs, scenario(p, plan{fail: v[0]}, plan{task: 1, fail: v[1]}, last))
				if m == 0 || m == 3 {
					scs = append(scs, scenario(p, plan{fail: true}, plan{fail: true}, plan{fail: v[0], after: iv + iv/5}, plan{task: 1, after: iv + iv/5, fail: v[1]}))
				}
				continue
			}
			if m == 0 || m == 1 || m == 3 || m == 7 {
				scs = append(scs, scenario(p, plan{fail: v[0]}, plan{task: 1, fail: v[1]}, plan{task: 2, fail: v[2]}, last))
			}
			if rep.Pick(r, m == 3 || m == 7, true) {
				scs = append(scs, scenario(p, plan{fail: v[0], lat: iv / 10}, plan{task: 1, fail: v[1], lat: iv / 10}, plan{task: 2, fail: v[2], lat: iv / 10}, last, again))
			}
			scs = append(scs, scenario(p, plan{fail: v[0]}, plan{fail: v[1]}, plan{task: 1, fail: v[2]}, plan{task: 1, fail: true}, last))
			// opened beforehand; then concurrent calls when the interval is over
			pre := []plan{{fail: true}, {fail: true}, {fail: true}}
			if m == 0 || m == 1 || m == 3 || m == 7 {
				scs = append(scs, scenario(p, append(pre, plan{fail: v[0], after: iv + iv/5}, plan{task: 1, after: iv + iv/5, fail: v[1]}, plan{task: 3, after: iv + iv/2, fail: v[2]})...))
			}
		}
	}
	if gen.Procs["kp"] != nil {
		scs = append(scs, scenario("kp", plan{fail: true}, plan{fail: true}, plan{task: 1, which: 1, fail: true}, plan{task: 1, which: 1}, plan{task: 2, after: time.Second / 2}, plan{task: 3, which: 1, after: time.Second / 2}))
	}
	return scs
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	var failed []string
	for n := range gen.Failed {
		failed = append(failed, n)
	}
	sort.Strings(failed)
	for _, n := range failed {
		r.Fail(rep.Violation{Sig: "generate/" + n, Scenario: "generation of " + n, Messages: []string{gen.Failed[n]}})
	}
	histories(r)
	r.ExploreAll(scenarios(r, false), rep.Pick(r, 1, 2))
	r.Done()
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	r.ExploreAll(scenarios(r, true), 1)
	r.Done()
}
