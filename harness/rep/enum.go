package rep

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is what the judgement of one enumerated input says.
type Case struct {
	Sig     string // identifies the kind of violation
	Input   string
	Outcome string // what was observed, to count distinct outcomes
	Steps   int    // transitions taken
	Msgs    []string
	Known   string // what identifies a known case, if not its input and messages (which may depend on timing)
}

// Enum judges every index 0..n-1 on all cores and records the space. It stops at the deadline or after a few violations.
func (r *R) Enum(name string, n, bound int, f func(i int) Case) {
	r.EnumN(name, n, bound, r.Workers(), f)
}

func (r *R) EnumN(name string, n, bound, workers int, f func(i int) Case) {
	var next, execs, steps int64
	var bad int64
	outs := map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cut atomic.Bool
	cur := make([]atomic.Int64, workers)
	stop := make(chan struct{})
	go r.watch(name, cur, stop)
	defer close(stop)
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer cur[w].Store(0)
			local := map[string]int{}
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= n || atomic.LoadInt64(&bad) > 40 {
					break
				}
				if i%64 == 0 && r.Expired() {
					cut.Store(true)
				}
				if cut.Load() {
					break
				}
				if !r.Mine(i) {
					continue
				}
				var c Case
				cur[w].Store(int64(i) + 1)
				if p := Guard(func() { c = f(i) }); p != "" {
					c.Msgs = append(c.Msgs, p)
					if c.Sig == "" {
						c.Sig = name + "-panic"
					}
				}
				atomic.AddInt64(&execs, 1)
				atomic.AddInt64(&steps, int64(c.Steps))
				if len(local) < 100000 {
					local[c.Outcome]++
				}
				if len(c.Msgs) > 0 {
					r.mu.Lock()
					if !r.isKnown(c, name) {
						atomic.AddInt64(&bad, 1)
						r.Fail(Violation{Sig: c.Sig, Scenario: name, Input: c.Input, Messages: append([]string{c.Input}, c.Msgs...)})
					}
					r.mu.Unlock()
				}
			}
			mu.Lock()
			for k, v := range local {
				outs[k] += v
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	if steps == 0 {
		steps = execs
	}
	keys := map[string]bool{}
	for k := range outs {
		keys[k] = true
	}
	r.Add(&Space{Keys: r.Keys(keys), Name: name, Executions: int(execs), States: len(outs), Transitions: int(steps), Outcomes: len(outs), Exhaustive: !cut.Load() && bad == 0, Bound: bound})
	var ex []string
	for k := range outs {
		if len(k) > 200 {
			k = k[:200]
		}
		if ex = append(ex, k); len(ex) == 3 {
			break
		}
	}
	r.Sample(map[string]any{"space": name, "executions": execs, "some outcomes": ex})
}

// HangAfter is how long one enumerated case may take before the code under test counts as hanging.
const HangAfter = 100 * time.Second

// watch ends the process with a violation when one case does not end.
func (r *R) watch(name string, cur []atomic.Int64, stop chan struct{}) {
	last, since := make([]int64, len(cur)), make([]time.Time, len(cur))
	for {
		select {
		case <-stop:
			return
		case <-time.After(5 * time.Second):
		}
		for w := range cur {
			if c := cur[w].Load(); c != last[w] || c == 0 {
				last[w], since[w] = c, time.Now()
			} else if time.Since(since[w]) > HangAfter {
				r.Hang(name, fmt.Sprintf("case %d of %q did not end within %v", c-1, name, HangAfter))
			}
		}
	}
}

// Hang records that the code under test does not return and ends the process.
func (r *R) Hang(name, what string) {
	buf := make([]byte, 1<<20)
	stacks := string(buf[:runtime.Stack(buf, true)])
	var msgs []string
	for _, g := range strings.Split(stacks, "\n\n") {
		if strings.Contains(g, "/repo/") && len(msgs) < 4 {
			msgs = append(msgs, g)
		}
	}
	r.mu.Lock()
	r.Violations = append([]Violation{{Sig: strings.ReplaceAll(name, " ", "-") + "-hang", Scenario: name, Input: what, Messages: append([]string{what}, msgs...)}}, r.Violations...)
	r.Exhaustive = false
	r.Done()
	os.Exit(1)
}

// Digits decomposes i into digits of the given radices, least significant first.
func Digits(i int, radix ...int) []int {
	out := make([]int, len(radix))
	for k, b := range radix {
		out[k] = i % b
		i /= b
	}
	return out
}

// Power is b to the n.
func Power(b, n int) int {
	p := 1
	for ; n > 0; n-- {
		p *= b
	}
	return p
}
