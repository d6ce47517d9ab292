// Package g02 checks the generated retrying clients. Every configuration is generated, compiled and built by its own
// generated namespace; then every sequence of answers of the service (each at once or late, successful or failed) up to
// a bound is played under virtual time, with the caller's context ending never, beforehand or at several instants.
package g02

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/gen"
	"verif.local/h/checks/g02/configs"
	"verif.local/h/genrun"
	"verif.local/h/rep"
	"verif.local/h/vsched"
	"verif.local/workflows/wraps/wraps"
)

const ms = time.Millisecond

// An answer: 's' success, 'f' failure, 'S' late success, 'F' late failure.
func latency(a byte) time.Duration {
	if a == 'S' || a == 'F' {
		return 120 * ms
	}
	return 0
}
func fails(a byte) bool { return a == 'f' || a == 'F' }

// scripts are all answer sequences that end with their first success or consist of n failures.
func scripts(n int) (out []string) {
	var rec func(p string)
	rec = func(p string) {
		out = append(out, p+"s", p+"S")
		for _, a := range "fF" {
			if len(p)+1 == n {
				out = append(out, p+string(a))
			} else {
				rec(p + string(a))
			}
		}
	}
	rec("")
	return out
}

type attempt struct {
	start, end time.Duration
	err        error
	answer     byte
	done       bool
	ctxEnded   bool // the caller's context had ended when the attempt began
	bad        string
}

type call struct {
	start, end time.Duration
	attempts   []*attempt
	err        error
	res        string // what was returned
	returned   bool
}

type ckey struct{}

// A run is one built process with the calls made so far.
type run struct {
	t0  time.Time
	mu  sync.Mutex
	cur map[string]*call // the call under way, by the name in the context
}

func (r *run) now() time.Duration { return time.Since(r.t0) }

var methods = []string{"Ping", "Ask", "Get"}

type script struct {
	name   string
	answer string
	ctx    context.Context // the caller's
	c      *call
	arg    *wraps.Thing
}

// handle answers an attempt according to the script in its context.
func (r *run) handle(ctx context.Context, instance, method string, args ...any) ([]any, error) {
	s, _ := ctx.Value(ckey{}).(*script)
	if s == nil {
		return nil, errors.New("the attempt does not have the values of the caller's context")
	}
	r.mu.Lock()
	i := len(s.c.attempts)
	a := &attempt{start: r.now(), ctxEnded: s.ctx.Err() != nil, answer: s.answer[min(i, len(s.answer)-1)]}
	s.c.attempts = append(s.c.attempts, a)
	r.mu.Unlock()
	switch method {
	case "Ask":
		if args[0] != int64(7) || args[1] != "seven" {
			a.bad = fmt.Sprintf("arguments %v", args)
		}
	case "Get":
		if l := args[1].([]wraps.Thing); args[0] != s.arg || len(l) != 1 || l[0].A != 3 {
			a.bad = fmt.Sprintf("arguments %v", args)
		}
	}
	if d := latency(a.answer); d > 0 {
		time.Sleep(d)
	}
	a.end, a.done = r.now(), true
	if fails(a.answer) {
		a.err = fmt.Errorf("failure %d", i+1)
		return result(method, -1-i), a.err
	}
	return result(method, 100+i), nil
}

func result(method string, i int) []any {
	switch method {
	case "Ask":
		return []any{int64(i), fmt.Sprint("r", i)}
	case "Get":
		return []any{&wraps.Thing{A: int64(i), B: []string{"x"}}}
	}
	return nil
}

func show(method string, r []any) string {
	if method == "Get" {
		t, _ := r[0].(*wraps.Thing)
		if t == nil {
			return "nil"
		}
		return fmt.Sprint(*t)
	}
	return fmt.Sprint(r...)
}

// do makes one call of the client.
func (r *run) do(client wraps.Leaf, method, answer string, ctx context.Context) *call {
	c := &call{start: r.now()}
	s := &script{answer: answer, c: c, arg: &wraps.Thing{A: 1}, ctx: ctx}
	cc := context.WithValue(ctx, ckey{}, s)
	switch method {
	case "Ping":
		c.err = client.Ping(cc)
		c.res = show(method, nil)
	case "Ask":
		a, b, err := client.Ask(cc, 7, "seven")
		c.res, c.err = show(method, []any{a, b}), err
	case "Get":
		t, err := client.Get(cc, s.arg, []wraps.Thing{{A: 3}})
		c.res, c.err = show(method, []any{t}), err
	}
	c.end, c.returned = r.now(), true
	return c
}

func build(proc string, r *run) (*wraps.Probe, func(), error) {
	p := &wraps.Probe{Handle: r.handle}
	_, end, err := genrun.Build(gen.Procs[proc](proc), wraps.With(context.Background(), p))
	return p, end, err
}

// maxAttempts of a call without regard to tokens.
func maxAttempts(c configs.Config) int {
	switch c.Kind {
	case configs.Backoff:
		n := 1
		for d := c.Delay; d < c.Limit; n++ {
			if d *= 2; d > c.Limit {
				d = c.Limit
			}
		}
		return n
	case configs.Bucket:
		return 2
	}
	return int(max(1, c.Max))
}

// The state of the clients that share tokens between calls.
type state struct {
	tokens   float64 // rate: exact tokens; bucket: fewest possible tokens
	upper    float64 // bucket: most possible tokens
	last     time.Duration
	noMore   bool
	consumed []time.Duration
}

func newState(c configs.Config) *state {
	return &state{tokens: c.Cap, upper: c.Cap}
}

// judge compares one call with what its configuration promises. ctxEnd < 0: the context does not end.
func judge(c configs.Config, st *state, k *call, method string, ctxEnd time.Duration) (msgs []string) {
	bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf(f, a...)) }
	n := len(k.attempts)
	if !k.returned {
		return []string{"the call did not return"}
	}
	if c.Kind == configs.Timeout && ctxEnd >= 0 && ctxEnd <= k.start {
		if k.err == nil {
			bad("the context had ended before, and the call returned %q without an error", k.res)
		}
		if k.end != k.start {
			bad("the context had ended before, and the call returned after %v", k.end-k.start)
		}
		return msgs
	}
	if n == 0 {
		return []string{fmt.Sprintf("no attempt was made, and the call returned %q, %v", k.res, k.err)}
	}
	limit := maxAttempts(c)
	if n > limit {
		bad("%d attempts, where at most %d are allowed", n, limit)
	}
	ended := func(t time.Duration) bool { return ctxEnd >= 0 && t >= ctxEnd }
	// When an attempt was over for the retrying client, and whether it had succeeded.
	over := func(a *attempt) (time.Duration, bool, error) {
		end, ok, err := a.start+latency(a.answer), !fails(a.answer), a.err
		if c.Kind == configs.Timeout {
			if t := a.start + c.Delay; end > t {
				end, ok, err = t, false, nil
			}
			if ctxEnd >= 0 && end > max(ctxEnd, a.start) {
				end, ok, err = max(ctxEnd, a.start), false, nil
			}
		}
		return end, ok, err
	}
	delay := c.Delay
	at := k.start
	stopped := false // the context ended the call
	for i, a := range k.attempts {
		if a.bad != "" {
			bad("attempt %d received other %s", i+1, a.bad)
		}
		if i == 0 && a.start != at {
			bad("the first attempt began %v late", a.start-at)
		}
		if i > 0 {
			lo, hi := at, at
			switch c.Kind {
			case configs.Fixed:
				lo, hi = at+c.Delay, at+c.Delay
			case configs.Backoff:
				lo, hi = at+delay, at+delay
				if c.Jitter {
					lo = at + delay/2
				}
				if delay *= 2; delay > c.Limit {
					delay = c.Limit
				}
			case configs.Rate:
				if c.Rate > 0 {
					lo = st.take(c, at, a.start)
					hi = lo + 50*ms
				}
			case configs.Bucket:
				if st.upper < c.Cost-1e-9 {
					bad("a retry although at most %v tokens are left of %v and a retry costs %v", st.upper, c.Cap, c.Cost)
				}
				st.tokens, st.upper = st.tokens-c.Cost, st.upper-c.Cost
			}
			if a.start < lo || a.start > hi {
				bad("attempt %d began %v after the one before had failed, not between %v and %v", i+1, a.start-at, lo-at, hi-at)
			}
			if (c.Kind == configs.Fixed || c.Kind == configs.Backoff || c.Kind == configs.Rate || c.Kind == configs.Timeout) && ended(at) {
				bad("attempt %d although the caller's context had ended at %v, before the wait for it began", i+1, ctxEnd)
			} else if a.ctxEnded && c.Kind != configs.Plain && c.Kind != configs.Bucket {
				bad("attempt %d began at %v, after the caller's context had ended at %v", i+1, a.start, ctxEnd)
			}
		}
		end, ok, _ := over(a)
		if ok && i+1 < n {
			bad("attempt %d had succeeded, and yet there was another", i+1)
		}
		at = end
	}
	last := k.attempts[n-1]
	end, ok, lastErr := over(last)
	ctxStop := ended(end) // it may stop because of the context
	if ok {
		if want := show(method, results(method, 100+n-1)); k.err != nil || k.res != want {
			bad("attempt %d returned %q, and the call returned %q, %v", n, want, k.res, k.err)
		}
		if k.end != end {
			bad("the call returned %v after the successful attempt", k.end-end)
		}
		if c.Kind == configs.Bucket {
			if n > 1 {
				st.tokens = math.Min(st.tokens+c.R, c.Cap)
			}
			st.upper = math.Min(st.upper+c.R, c.Cap)
		}
		return msgs
	}
	if k.err == nil {
		bad("every attempt failed, and the call returned %q without an error", k.res)
	} else if lastErr != nil && k.err != lastErr && !(ctxEnd >= 0 && errors.Is(k.err, context.Canceled)) {
		bad("the last attempt failed with %q, and the call with %q", lastErr, k.err)
	}
	if n >= limit {
		if k.end != end {
			bad("the call returned %v after its last attempt had failed", k.end-end)
		}
		return msgs
	}
	switch c.Kind {
	case configs.Plain:
		stopped = ctxStop
		if k.end != end {
			bad("the call returned %v after its last attempt", k.end-end)
		}
	case configs.Bucket:
		stopped = ctxStop
		if st.tokens < c.Cost+1+1e-9 {
			stopped = true
		}
		if k.end != end {
			bad("the call returned %v after its last attempt", k.end-end)
		}
	default:
		// It stopped during the wait for the next attempt: only the end of the context is a reason.
		stopped = ctxEnd >= 0 && k.end >= ctxEnd
		if want := max(end, ctxEnd); stopped && k.end != want {
			bad("the context ended at %v and the last attempt at %v, and the call returned at %v", ctxEnd, end, k.end)
		}
		if stopped && c.Kind == configs.Fixed && end+c.Delay < ctxEnd || stopped && c.Kind == configs.Backoff && end+delay < ctxEnd {
			bad("the call waited from %v to the end of its context at %v instead of trying again", end, ctxEnd)
		}
		if stopped && c.Kind == configs.Rate && c.Rate > 0 {
			if t := st.when(c, end); t+50*ms < ctxEnd {
				bad("the call waited from %v to the end of its context at %v although the rate allowed a retry at %v", end, ctxEnd, t)
			}
		}
	}
	if !stopped {
		bad("only %d of %d attempts were made", n, limit)
	}
	return msgs
}

func results(method string, i int) []any {
	if method == "Ping" {
		return nil
	}
	return result(method, i)
}

// when is the instant from t on at which the rate allows a retry; burst and refill are the rate.
func (s *state) when(c configs.Config, t time.Duration) time.Duration {
	r := float64(c.Rate)
	tok := r
	last := time.Duration(0)
	for _, u := range s.consumed {
		tok = math.Min(r, tok+(u-last).Seconds()*r) - 1
		last = u
	}
	if tok = math.Min(r, tok+(t-last).Seconds()*r); tok >= 1-1e-6 {
		return t
	}
	return t + time.Duration((1-tok)/r*1e9) - time.Microsecond
}

func (s *state) take(c configs.Config, t, actual time.Duration) time.Duration {
	w := s.when(c, t)
	s.consumed = append(s.consumed, actual)
	return w
}

func describe(c configs.Config) string {
	switch c.Kind {
	case configs.Plain:
		return fmt.Sprintf("AddRetries(%d)", c.Max)
	case configs.Timeout:
		return fmt.Sprintf("AddRetriesWithTimeouts(%d, %v)", c.Max, c.Delay)
	case configs.Fixed:
		return fmt.Sprintf("AddRetriesWithFixedDelay(%d, %v)", c.Max, c.Delay)
	case configs.Backoff:
		return fmt.Sprintf("AddRetriesWithExponentialBackoff(%v, %v, %v)", c.Delay, c.Limit, c.Jitter)
	case configs.Rate:
		return fmt.Sprintf("AddRetriesRetryRateLimit(%d, %d)", c.Max, c.Rate)
	}
	return fmt.Sprintf("AddRetriesTokenBucket(%v, %v, %v)", c.Cap, c.Cost, c.R)
}

// step is one call of a history.
type step struct {
	gap    time.Duration // before the call
	method string
	script string
	ctxEnd time.Duration // after the call's begin; < 0: never; 0: beforehand
	which  int           // the service, where there are two
}

// play runs a history in a bubble and judges every call.
func play(r *rep.R, proc string, cs []configs.Config, steps []step) (msgs []string, outcome string) {
	var out []string
	p := rep.Guard(func() {
		synctest.Test(r.T, func(t *testing.T) {
			rn := &run{t0: time.Now()}
			probe, end, err := build(proc, rn)
			defer end()
			if err != nil {
				msgs = append(msgs, fmt.Sprintf("the process could not be built: %v", err))
				return
			}
			sts := make([]*state, len(cs))
			for i := range cs {
				sts[i] = newState(cs[i])
			}
			for i, s := range steps {
				time.Sleep(s.gap)
				name := "C"
				if len(cs) > 1 {
					name = fmt.Sprint("C", s.which)
				}
				ctx, cancel := context.WithCancel(context.Background())
				ctxEnd := s.ctxEnd
				if s.ctxEnd == 0 {
					cancel()
				} else if s.ctxEnd > 0 {
					time.AfterFunc(s.ctxEnd, cancel)
				}
				if ctxEnd >= 0 {
					ctxEnd += rn.now()
				}
				var k *call
				done := make(chan bool)
				p := ""
				go func() {
					defer close(done)
					p = rep.Guard(func() { k = rn.do(probe.Client[name], s.method, s.script, ctx) })
				}()
				hung := false
				select {
				case <-done:
				case <-time.After(time.Hour):
					hung = true
					cancel()
					<-done
				}
				cancel()
				pre := ""
				if len(steps) > 1 {
					pre = fmt.Sprintf("call %d: ", i+1)
				}
				if p != "" {
					msgs = append(msgs, pre+"panic: "+p)
					return
				}
				if hung {
					msgs = append(msgs, pre+"the call did not return within an hour")
					return
				}
				for _, m := range judge(cs[s.which], sts[s.which], k, s.method, ctxEnd) {
					msgs = append(msgs, pre+m)
				}
				out = append(out, fmt.Sprintf("%d attempts %v err=%v", len(k.attempts), k.end-k.start, k.err))
			}
			time.Sleep(time.Second) // for late answers
		})
	})
	if p != "" {
		msgs = append(msgs, "panic: "+p)
	}
	return msgs, strings.Join(out, "; ")
}

func describeSteps(steps []step) string {
	var b []string
	for _, s := range steps {
		b = append(b, fmt.Sprintf("%v later %s on service %d answers %s ctx=%v", s.gap, s.method, s.which, s.script, s.ctxEnd))
	}
	return strings.Join(b, "; ")
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	var failed []string
	for n := range gen.Failed {
		failed = append(failed, n)
	}
	sort.Strings(failed)
	for _, n := range failed {
		r.Fail(rep.Violation{Sig: "generate/" + n, Scenario: "generation of " + n, Messages: []string{gen.Failed[n]}})
	}
	var all []configs.Config
	for _, c := range configs.All {
		if gen.Procs[c.Name] != nil {
			all = append(all, c)
		}
	}
	sc := scripts(rep.Pick(r, 5, 6))
	ends := []time.Duration{-1, 0, 75 * ms, 155 * ms, 235 * ms, 405 * ms}
	space := func(name string, cases int, f func(i int) (proc string, cs []configs.Config, steps []step)) {
		r.Enum(name, cases, 0, func(i int) rep.Case {
			proc, cs, steps := f(i)
			msgs, out := play(r, proc, cs, steps)
			var d []string
			for _, c := range cs {
				d = append(d, describe(c))
			}
			return rep.Case{Sig: "retries/" + strings.ReplaceAll(d[0], " ", ""), Input: strings.Join(d, " and ") + ": " + describeSteps(steps), Outcome: d[0] + out, Steps: len(steps), Msgs: msgs}
		})
	}
	space("single calls: configuration x method x answers x end of the context", len(all)*len(sc)*len(methods)*len(ends), func(i int) (string, []configs.Config, []step) {
		d := rep.Digits(i, len(all), len(sc), len(methods), len(ends))
		c := all[d[0]]
		return c.Name, []configs.Config{c}, []step{{0, methods[d[2]], sc[d[1]], ends[d[3]], 0}}
	})
	// Histories of calls: what one call leaves for the next.
	calls := []string{"s", "fs", "f", "F", "ffs"}
	gaps := []time.Duration{0, 400 * ms}
	n := rep.Pick(r, 4, 5)
	per := len(calls) * len(gaps)
	var shared []configs.Config
	for _, c := range all {
		if c.Kind == configs.Rate || c.Kind == configs.Bucket {
			shared = append(shared, c)
		}
	}
	space(fmt.Sprintf("histories of %d calls", n), len(shared)*rep.Power(per, n), func(i int) (string, []configs.Config, []step) {
		c := shared[i%len(shared)]
		var steps []step
		for i /= len(shared); len(steps) < n; i /= per {
			k := i % per
			steps = append(steps, step{gaps[k/len(calls)], "Ping", calls[k%len(calls)], -1, 0})
		}
		return c.Name, []configs.Config{c}, steps
	})
	var pairs []configs.Pair
	for _, p := range configs.Pairs {
		if gen.Procs[p.Name] != nil {
			pairs = append(pairs, p)
		}
	}
	space("two services of one interface in one process", len(pairs)*2*2*len(sc), func(i int) (string, []configs.Config, []step) {
		d := rep.Digits(i, len(pairs), 2, 2, len(sc))
		p := pairs[d[0]]
		return p.Name, p.C[:], []step{{0, "Ask", sc[d[3]], -1, d[1]}, {0, "Ask", sc[d[3]], -1, d[2]}}
	})
	r.ExploreAll(concurrent(all), rep.Pick(r, 2, 3))
	r.Done()
}

// concurrent calls of one client.
func concurrent(all []configs.Config) (scs []*vsched.Scenario) {
	for _, c := range all {
		if c.Kind != configs.Rate && c.Kind != configs.Bucket && !c.Jitter && !(c.Kind == configs.Plain && c.Max == 2) && !(c.Kind == configs.Fixed && c.Max == 3) {
			continue
		}
		for _, answers := range [][]string{{"fs", "fs"}, {"f", "f"}, {"f", "fs"}} {
			scs = append(scs, scenario(c, answers))
		}
	}
	return scs
}

func scenario(c configs.Config, answers []string) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("concurrent %s %v", describe(c), answers)}
	var ks []*call
	var ended func()
	root := genrun.NewRoot()
	sc.Setup = func(x *vsched.Exec) {
		rn := &run{t0: time.Now()}
		probe := &wraps.Probe{Handle: rn.handle}
		_, end, err := root.Build(gen.Procs[c.Name](c.Name), wraps.With(context.Background(), probe))
		ended = end
		if err != nil {
			x.Fail("the process could not be built: %v", err)
			return
		}
		ks = make([]*call, len(answers))
		for i, a := range answers {
			x.Go(fmt.Sprint("caller", i), func() {
				limit := 30 * time.Second
				if c.Kind == configs.Rate {
					limit = 25 * ms // waiting for a token polls
				}
				ctx, cancel := context.WithTimeout(context.Background(), limit)
				defer cancel()
				ks[i] = rn.do(probe.Client["C"], "Ask", a, ctx)
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		ended()
		var retries []time.Duration
		succ := 0.0
		for i, k := range ks {
			if k == nil {
				return nil // stuck or panicked: reported by the explorer
			}
			n := len(k.attempts)
			if n < 1 || n > maxAttempts(c) {
				msgs = append(msgs, fmt.Sprintf("caller %d: %d attempts", i, n))
				continue
			}
			for j, a := range k.attempts {
				if j > 0 {
					retries = append(retries, a.start)
				}
				if a.bad != "" {
					msgs = append(msgs, a.bad)
				}
			}
			last := k.attempts[n-1]
			if ok := !fails(last.answer); ok != (k.err == nil) {
				msgs = append(msgs, fmt.Sprintf("caller %d: the last attempt failed: %v; the call returned %v", i, !ok, k.err))
			} else if ok {
				succ++
				if want := show("Ask", results("Ask", 100+n-1)); k.res != want {
					msgs = append(msgs, fmt.Sprintf("caller %d: returned %q instead of %q", i, k.res, want))
				}
			}
			x.Outcome("%d:%d:%v", i, n, k.err)
		}
		sort.Slice(retries, func(i, j int) bool { return retries[i] < retries[j] })
		if c.Kind == configs.Rate && c.Rate > 0 {
			for i := range retries {
				for j := i; j < len(retries); j++ {
					if allowed := float64(c.Rate) * (1 + (retries[j] - retries[i]).Seconds()); float64(j-i+1) > allowed+1e-6 {
						msgs = append(msgs, fmt.Sprintf("%d retries within %v at a rate of %d per second", j-i+1, retries[j]-retries[i], c.Rate))
					}
				}
			}
		}
		if c.Kind == configs.Bucket {
			if spent, had := float64(len(retries))*c.Cost, c.Cap+succ*c.R; spent > had+1e-6 {
				msgs = append(msgs, fmt.Sprintf("%d retries that cost %v each from a bucket of %v", len(retries), c.Cost, had))
			}
		}
		return msgs
	}
	return sc
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	var all []configs.Config
	for _, c := range configs.All {
		if gen.Procs[c.Name] != nil {
			all = append(all, c)
		}
	}
	r.ExploreAll(concurrent(all), 1)
	r.Done()
}
