package r11

import (
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/workload"
	"verif.local/h/rep"
	"verif.local/h/vrand"
	"verif.local/h/vsched"
)

// ---- validity

func validity(r *rep.R) {
	alpha := rep.Pick(r, []int{0, 1, 33, 34, 49, 50, 51, 99, 100, 101, -1, -50, 150}, []int{0, 1, 2, 32, 33, 34, 49, 50, 51, 98, 99, 100, 101, 102, -1, -2, -50, -100, 150, 200})
	sp := &rep.Space{Name: "proportion tables", Exhaustive: true}
	nop := func(context.Context) workload.Stat { return workload.Stat{} }
	var rec func(t []int)
	rec = func(t []int) {
		for _, d := range []string{"1s", "0s", "xx"} {
			w := workload.NewWorkload()
			sum := 0
			for i, p := range t {
				w.AddAPI(fmt.Sprint(i), nop, p)
				sum += p
			}
			want := sum == 100
			e, err := workload.NewEngine("f", 10, d, w)
			sp.Executions++
			if w.IsValid() != want || (err == nil) != (want && d != "xx") || (err == nil) != (e != nil) {
				r.Fail(rep.Violation{Sig: fmt.Sprintf("valid/%v/%s", t, d), Scenario: "validity", Messages: []string{fmt.Sprintf("proportions %v duration %s: IsValid=%v NewEngine error=%v", t, d, w.IsValid(), err)}})
			}
		}
		if len(t) < 4 {
			for _, a := range alpha {
				rec(append(t[:len(t):len(t)], a))
			}
		}
	}
	rec(nil)
	sp.States, sp.Transitions, sp.Outcomes = sp.Executions/3, sp.Executions, 2
	r.Add(sp)
}

// ---- statistics file

func statsFile(r *rep.R) {
	dir := r.T.TempDir()
	alpha := []workload.Stat{{Start: 0, Duration: 0}, {Start: 1700000000000000000, Duration: 123456789, IsError: true}, {Start: -5, Duration: 1}, {Start: 7, Duration: 0, IsError: true}}
	sp := &rep.Space{Name: "statistics files", Exhaustive: true}
	stdout := os.Stdout
	os.Stdout, _ = os.Open(os.DevNull)
	defer func() { os.Stdout = stdout }()
	var rec func(t []workload.Stat)
	rec = func(t []workload.Stat) {
		for _, old := range []string{"", strings.Repeat("old,content,here\n", 20)} {
			f := filepath.Join(dir, "stats.csv")
			os.Remove(f)
			if old != "" {
				os.WriteFile(f, []byte(old), 0644)
			}
			e := &workload.Engine{Stats: t, OutFile: f}
			err := e.PrintStats()
			b, _ := os.ReadFile(f)
			want := []string{"Start,Duration,IsError"}
			for _, s := range t {
				want = append(want, fmt.Sprintf("%d,%d,%v", s.Start, s.Duration, s.IsError))
			}
			sp.Executions++
			if got := strings.TrimSuffix(string(b), "\n"); err != nil || got != strings.Join(want, "\n") {
				r.Fail(rep.Violation{Sig: fmt.Sprintf("file/%v/%d", t, len(old)), Scenario: "statistics file", Messages: []string{fmt.Sprintf("stats %v over a file of %d bytes: wrote %q, %v", t, len(old), b, err)}})
			}
		}
		if len(t) < 4 {
			for _, a := range alpha {
				rec(append(t[:len(t):len(t)], a))
			}
		}
	}
	rec(nil)
	if err := (&workload.Engine{OutFile: filepath.Join(dir, "no", "such")}).PrintStats(); err == nil {
		r.Fail(rep.Violation{Sig: "file/unwritable", Scenario: "statistics file", Messages: []string{"no error for an unwritable statistics file"}})
	}
	sp.States, sp.Transitions, sp.Outcomes = sp.Executions, sp.Executions, sp.Executions/2
	r.Add(sp)
}

// ---- runs

type req struct {
	kind, id  int
	at        time.Duration
	done      bool
	cancelled bool
}

// latencies: 'e' until 3.5 s after the start, '0' at once, 's' short, 'l' longer than the run, 'c' until the context ends, 'm' chosen by the explorer
func scenario(tput int64, dur string, props []int, lat string, cancelAt time.Duration, observe ...func(kinds []int)) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("tput=%d dur=%s props=%v lat=%s cancel=%v", tput, dur, props, lat, cancelAt)}
	var reqs []*req
	var e *workload.Engine
	var returned, openAtReturn bool
	var nAtReturn int
	sc.Setup = func(x *vsched.Exec) {
		reqs, returned, openAtReturn = nil, false, false
		ctx, cancel := context.WithCancel(context.Background())
		start := time.Now()
		w := workload.NewWorkload()
		var mu sync.Mutex
		for i, p := range props {
			w.AddAPI(fmt.Sprint("api", i), func(c context.Context) workload.Stat {
				var q *req
				vsched.Ghost(func() {
					mu.Lock()
					defer mu.Unlock()
					q = &req{kind: i, id: len(reqs) + 1, at: time.Since(start), cancelled: ctx.Err() != nil}
					reqs = append(reqs, q)
				})
				l := lat[i%len(lat)]
				if l == 'm' {
					l = "0sl"[vsched.Choose(3)]
				}
				switch l {
				case 's':
					time.Sleep(time.Millisecond)
				case 'l':
					time.Sleep(30 * time.Second)
				case 'e':
					time.Sleep(time.Until(start.Add(3500 * time.Millisecond)))
				case 'c':
					<-c.Done()
				}
				vsched.Woken("request done")
				id := 1
				vsched.Ghost(func() { mu.Lock(); defer mu.Unlock(); q.done = true; id = q.id })
				return workload.Stat{Start: int64(id), Duration: int64(i), IsError: id%2 == 0}
			}, p)
		}
		var err error
		e, err = workload.NewEngine("unused", tput, dur, w)
		if err != nil {
			panic(err)
		}
		x.Go("run", func() {
			e.RunOpenLoop(ctx)
			vsched.Ghost(func() {
				mu.Lock()
				defer mu.Unlock()
				returned, nAtReturn = true, len(reqs)
				for _, q := range reqs {
					openAtReturn = openAtReturn || !q.done
				}
				x.Outcome("%d requests", len(reqs))
			})
		})
		if cancelAt >= 0 {
			x.Go("cancel", func() {
				time.Sleep(cancelAt)
				vsched.Woken("cancel")
				cancel()
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		if vsched.RaceEnabled {
			return nil
		}
		if !returned {
			return []string{"the run did not return"}
		}
		for _, f := range observe {
			var kinds []int
			for _, q := range reqs {
				kinds = append(kinds, q.kind)
			}
			f(kinds)
		}
		if openAtReturn {
			msgs = append(msgs, "the run returned while a request was still in progress")
		}
		if len(reqs) != nAtReturn {
			msgs = append(msgs, "a request was issued after the run had returned")
		}
		var want, got []string
		limit := e.Duration
		if cancelAt >= 0 && cancelAt < limit {
			limit = cancelAt
		}
		for _, q := range reqs {
			want = append(want, fmt.Sprintf("%d,%d,%v", q.id, q.kind, q.id%2 == 0))
			if q.at > limit {
				msgs = append(msgs, fmt.Sprintf("request %d issued %v after the start (run of %v, cancelled at %v)", q.id, q.at, e.Duration, cancelAt))
			}
		}
		for _, s := range e.Stats {
			got = append(got, fmt.Sprintf("%d,%d,%v", s.Start, s.Duration, s.IsError))
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(got, ";") != strings.Join(want, ";") {
			msgs = append(msgs, fmt.Sprintf("statistics %v for requests %v", got, want))
		}
		for _, q := range reqs {
			if props[q.kind] <= 0 {
				msgs = append(msgs, fmt.Sprintf("a request of kind %d with proportion %d was issued", q.kind, props[q.kind]))
			}
		}
		return
	}
	return sc
}

func scenarios(th bool) (one, many []*vsched.Scenario) {
	for _, lat := range []string{"0", "s", "l", "m", "0l", "ls"} {
		for _, tp := range []int64{1, 2} {
			for _, d := range []string{"0s", "10ms", "1s", "2s", "3s"} {
				if (d == "3s" || d == "2s" && lat == "m") && tp == 2 && !th {
					continue
				}
				if len(lat) == 1 {
					one = append(one, scenario(tp, d, []int{100}, lat, -1))
				}
			}
			many = append(many, scenario(tp, "1s", []int{60, 40}, lat, -1), scenario(tp, "1s", []int{0, 100}, lat, -1))
		}
		for _, c := range []time.Duration{0, time.Millisecond, time.Second, 3 * time.Second} {
			if len(lat) == 1 {
				one = append(one, scenario(1, "2s", []int{100}, lat, c))
			}
		}
	}
	for _, c := range []time.Duration{0, time.Second, 2 * time.Second, 5 * time.Second} {
		if c == 2*time.Second && !th { // the end of the run in race with its cancellation
			continue
		}
		one = append(one, scenario(1, "2s", []int{100}, "c", c))
	}
	// more requests that end together than the throughput
	one = append(one, scenario(1, "3s", []int{100}, "e", -1))
	return
}

// ---- proportions: every outcome of the random draw for the first request

func proportions(r *rep.R) {
	vrand.All = 1000
	defer func() { vrand.All = 6 }()
	exact := true
	for _, props := range [][]int{{100}, {60, 40}, {40, 60}, {1, 99}, {0, 100}, {100, 0}, {33, 33, 34}, {34, 33, 33}, {10, 20, 30, 40}, {1, 0, 98, 1}, {50, 0, 50}, {25, 25, 25, 25}, {99, 0, 1}} {
		counts := make([]int, len(props))
		total := 0
		vrand.Partial.Store(0)
		res := r.Explore(scenario(1, "1ms", props, "0", -1, func(kinds []int) {
			if len(kinds) > 0 {
				counts[kinds[0]]++
				total++
			}
		}), 0)
		if res.Violation != nil || vrand.Partial.Load() > 0 || total == 0 || total%100 != 0 {
			exact = exact && res.Violation != nil
			continue
		}
		for i, p := range props {
			if counts[i]*100 != p*total {
				r.Fail(rep.Violation{Sig: fmt.Sprintf("proportion/%v", props), Scenario: "draws", Messages: []string{fmt.Sprintf("proportions %v: of %d equally likely outcomes of the draw, %v select each kind", props, total, counts)}})
				break
			}
		}
	}
	if exact {
		return
	}
	// the draw is not one uniform choice: fall back to long deterministic runs in virtual time
	for _, props := range [][]int{{60, 40}, {1, 99}, {0, 100}, {10, 20, 30, 40}} {
		counts := make([]int, len(props))
		total := 0
		synctest.Test(r.T, func(t *testing.T) {
			w := workload.NewWorkload()
			var mu sync.Mutex
			for i, p := range props {
				w.AddAPI(fmt.Sprint(i), func(context.Context) workload.Stat {
					mu.Lock()
					defer mu.Unlock()
					counts[i]++
					total++
					return workload.Stat{}
				}, p)
			}
			e, _ := workload.NewEngine("x", 1000, "10s", w)
			e.RunOpenLoop(context.Background())
		})
		for i, p := range props {
			if d := float64(counts[i])/float64(total) - float64(p)/100; math.Abs(d) > 0.05 || p == 0 && counts[i] > 0 {
				r.Fail(rep.Violation{Sig: fmt.Sprintf("frequency/%v", props), Scenario: "frequency", Messages: []string{fmt.Sprintf("proportions %v: %v of %d requests", props, counts, total)}})
				break
			}
		}
		r.Add(&rep.Space{Name: fmt.Sprint("frequency ", props), Executions: 1, States: total, Transitions: total, Outcomes: 1, Exhaustive: false})
	}
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	validity(r)
	statsFile(r)
	proportions(r)
	explore(r, rep.Pick(r, 1, 2), rep.Pick(r, 1, 2))
}

func explore(r *rep.R, b1, b2 int) {
	one, many := scenarios(r.Thorough)
	vrand.Values = 1 // only one kind of request: the draw does not matter
	r.ExploreAll(one, b1)
	vrand.Values = 3
	r.ExploreAll(many, b2)
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	explore(r, 0, 0)
}
