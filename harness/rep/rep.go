// Package rep collects what a check covered and what it found, and writes it for run.py.
package rep

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	stdslog "log/slog"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/exp/slog"
	"verif.local/h/vsched"
)

type Violation struct {
	Sig      string   `json:"sig"`
	Scenario string   `json:"scenario"`
	Messages []string `json:"messages"`
	Choices  []int    `json:"choices,omitempty"`
	Bound    int      `json:"bound"`
	Trace    []string `json:"trace,omitempty"`
	History  []string `json:"history,omitempty"`
	Input    string   `json:"input,omitempty"`
}

type Space struct {
	Name        string   `json:"name"`
	Executions  int      `json:"executions"`
	States      int      `json:"states"`
	Transitions int      `json:"transitions"`
	Outcomes    int      `json:"outcomes"`
	Exhaustive  bool     `json:"exhaustive"`
	Bound       int      `json:"bound"`
	Note        string   `json:"note,omitempty"`
	Keys        []uint32 `json:"keys,omitempty"` // hashes of the distinct outcomes, when the space is split over processes
}

type R struct {
	T           *testing.T  `json:"-"`
	ID          string      `json:"id"`
	Thorough    bool        `json:"-"`
	Deadline    time.Time   `json:"-"`
	States      int         `json:"states"`
	Transitions int         `json:"transitions"`
	Executions  int         `json:"executions"`
	Outcomes    int         `json:"outcomes"`
	Exhaustive  bool        `json:"exhaustive"`
	Samples     []any       `json:"samples"`
	Spaces      []*Space    `json:"spaces"`
	Skipped     int         `json:"skipped"`
	Violations  []Violation `json:"violations"`
	replay      *Violation
	KnownSeen   map[string]int `json:"known_seen,omitempty"` // failing cases that are listed as known, by signature
	known       known
	Shard       int `json:"-"` // this process explores the Shard-th of Shards parts
	Shards      int `json:"-"`
	mu          sync.Mutex
	sigs        map[string]int
}

// Quiet silences the loggers the code under test writes to.
func Quiet() {
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	stdslog.SetDefault(stdslog.New(stdslog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
}

func New(t *testing.T) *R {
	Quiet()
	b, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if b == 0 {
		b = 60
	}
	r := &R{T: t, ID: os.Getenv("VERIF_ID"), Thorough: os.Getenv("VERIF_TIER") == "thorough", Deadline: time.Now().Add(time.Duration(b) * time.Second),
		Exhaustive: true, sigs: map[string]int{}, Samples: []any{}, Violations: []Violation{}}
	r.known = loadKnown()
	r.Shards = 1
	fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &r.Shard, &r.Shards)
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		data, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		r.replay = &Violation{}
		if err := json.Unmarshal(data, r.replay); err != nil {
			t.Fatal(err)
		}
	}
	return r
}

// Pick returns q for the quick tier and th for the thorough one.
func Pick[T any](r *R, q, th T) T {
	if r.Thorough {
		return th
	}
	return q
}

func (r *R) Sample(v any) {
	if len(r.Samples) < 8 {
		r.Samples = append(r.Samples, v)
	}
}

func (r *R) Expired() bool { return time.Now().After(r.Deadline) }

// Fail records a violation; at most two per signature are kept.
func (r *R) Fail(v Violation) {
	if r.sigs[v.Sig]++; r.sigs[v.Sig] > 2 {
		return
	}
	r.Violations = append(r.Violations, v)
}

// Failed reports whether a violation with this signature is already recorded twice.
func (r *R) Failed() int { return len(r.Violations) }

// ExploreAll explores the scenarios on all cores (on one when the race detector is on: its counter is global).
// It stops early once a few scenarios have violated their property.
func (r *R) ExploreAll(scs []*vsched.Scenario, bound int) {
	workers := runtime.GOMAXPROCS(0)
	if vsched.RaceEnabled || r.replay != nil {
		workers = 1
	}
	ch := make(chan *vsched.Scenario)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for sc := range ch {
				if r.NumViolations() < 4 && !r.Expired() {
					r.Explore(sc, bound)
				} else {
					r.Skip(sc.Name)
				}
			}
		}()
	}
	for _, sc := range scs {
		ch <- sc
	}
	close(ch)
	wg.Wait()
}

// Skip notes a scenario that was not explored.
func (r *R) Skip(name string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Exhaustive = false
	r.Skipped++
}

func (r *R) NumViolations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Violations)
}

// Explore runs the schedule explorer on sc and records the result. sig identifies violations of this scenario.
func (r *R) Explore(sc *vsched.Scenario, bound int) *vsched.Result {
	if r.replay != nil {
		if r.replay.Scenario == sc.Name {
			msgs, trace := vsched.Replay(r.T, sc, r.replay.Choices)
			for _, l := range trace {
				fmt.Fprintln(os.Stderr, l)
			}
			if len(msgs) > 0 {
				r.Fail(Violation{Sig: sc.Name, Scenario: sc.Name, Messages: msgs, Choices: r.replay.Choices, Trace: trace})
			}
		}
		return &vsched.Result{}
	}
	res := vsched.Explore(r.T, sc, bound, r.Deadline)
	r.mu.Lock()
	defer r.mu.Unlock()
	s := &Space{Name: sc.Name, Executions: res.Schedules, States: res.States, Transitions: res.Transitions, Outcomes: len(res.Outcomes), Exhaustive: res.Exhaustive || res.Bound == bound, Bound: res.Bound}
	if res.Exhaustive {
		s.Note = "all schedules"
	} else {
		s.Note = fmt.Sprintf("all schedules with at most %d deviations", res.Bound)
	}
	if res.Diverged > 0 || res.Truncated > 0 {
		s.Note += fmt.Sprintf("; %d diverged, %d truncated", res.Diverged, res.Truncated)
		s.Exhaustive = false
	}
	r.Add(s)
	if len(r.Samples) < 8 {
		var outs []string
		for o, n := range res.Outcomes {
			outs = append(outs, fmt.Sprintf("%dx %s", n, o))
		}
		sort.Strings(outs)
		if len(outs) > 4 {
			outs = outs[:4]
		}
		r.Sample(map[string]any{"scenario": sc.Name, "schedules": res.Schedules, "bound": res.Bound, "outcomes": outs})
	}
	if v := res.Violation; v != nil {
		sig := sc.Name
		for _, m := range v.Messages {
			if strings.Contains(m, "data race") {
				sig = sc.Name + "/race"
			}
		}
		if !r.isKnown(Case{Sig: sig}, "schedule") {
			r.Fail(Violation{Sig: sig, Scenario: sc.Name, Messages: v.Messages, Choices: v.Choices, Bound: v.Bound, Trace: v.Trace, History: v.History})
		}
	}
	return res
}

func (r *R) Add(s *Space) {
	r.Spaces = append(r.Spaces, s)
	r.Executions += s.Executions
	r.States += s.States
	r.Transitions += s.Transitions
	r.Outcomes += s.Outcomes
	r.Exhaustive = r.Exhaustive && s.Exhaustive
}

// Done writes the result file.
func (r *R) Done() {
	out := os.Getenv("VERIF_OUT")
	if err := r.known.save(); err != nil {
		r.T.Fatal(err)
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		r.T.Fatal(err)
	}
	if out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		r.T.Fatal(err)
	}
}

// Guard runs f and turns a panic into an error.
func Guard(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint("panic: ", e)
		}
	}()
	f()
	return ""
}

// Mine reports whether the i-th part of the work falls to this process.
func (r *R) Mine(i int) bool { return i%r.Shards == r.Shard }

// Workers is the number of goroutines to use: one when the work is split over processes
// (the compiler core is written for a single thread).
func (r *R) Workers() int {
	if r.Shards > 1 || r.replay != nil {
		return 1
	}
	return runtime.GOMAXPROCS(0)
}

// Keys hashes outcomes, for merging over processes.
func (r *R) Keys(outs map[string]bool) (ks []uint32) {
	if r.Shards > 1 {
		for k := range outs {
			h := fnv.New32a()
			h.Write([]byte(k))
			ks = append(ks, h.Sum32())
		}
	}
	return
}
