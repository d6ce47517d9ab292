// Package vsched is a stateless model checker for Go code.
//
// One execution runs inside a testing/synctest bubble: the tasks of a scenario run the real code and park at
// scheduling points (inserted by /verif/instrument); the controller waits until every goroutine of the bubble is
// durably blocked and then lets exactly one parked task continue. Channels, timers and contexts are the native
// ones (the bubble tells us when a task is blocked on them, and provides virtual time); mutexes, wait groups and
// atomics come from the vsync/vatomic shims. Explore enumerates all choice sequences depth first, bounded by the
// number of deviations (preemptions of a runnable task and early time advances).
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type killed struct{}

// Task is one controlled goroutine.
type Task struct {
	id      int
	Name    string
	x       *Exec
	resume  chan struct{}
	parked  bool
	done    bool
	pred    func() bool
	loc     string
	hb      int32
	blocked bool // the controller saw this task blocked outside the explorer since it last ran
}

type choice struct {
	n      int
	chosen int
	cost   []int // deviation cost of each option
	before int   // deviations used before this choice
}

// Exec is one execution of a scenario.
type Exec struct {
	mu        sync.Mutex
	tasks     []*Task
	wake      chan struct{}
	last      *Task
	prefix    []int
	choices   []choice
	used      int
	ticks     int
	killing   bool
	steps     int
	trace     []string
	tracing   bool
	diverged  bool
	truncated bool
	clock     int
	panics    []string
	stuck     []string
	hist      []Op
	outcome   []string
	fails     []string
	checked   []string
	sc        *Scenario
	free      bool // no scheduling: used before tasks are started
	T         *testing.T
}

// Op is a completed (or pending) operation of a recorded history.
type Op struct {
	Task     string
	Call     any
	Ret      any
	Inv, Res int // Res < 0: never returned
}

// Scenario is a closed concurrent program.
type Scenario struct {
	Name       string
	Before     func(x *Exec)          // runs outside the bubble
	Setup      func(x *Exec)          // spawn tasks with x.Go
	Check      func(x *Exec) []string // violations found at the end of one execution
	Tick       time.Duration          // if >0 the explorer may let this much time pass early ...
	MaxTicks   int                    // ... at most this often per execution
	Horizon    time.Duration          // virtual time after which blocked tasks count as stuck (default 1h)
	MaxSteps   int
	AllowStuck bool // stuck tasks are not by themselves a violation (Check inspects x.Stuck)
	AllowPanic bool
	Delay      bool // every deviation from the default schedule costs, also where the running task blocks (delay bounding)
}

func (x *Exec) lock()   { x.mu.Lock() }
func (x *Exec) unlock() { x.mu.Unlock() }

// Go starts a task. It runs once the setup function has returned.
func (x *Exec) Go(name string, f func()) *Task {
	raceOff()
	x.lock()
	t := &Task{id: len(x.tasks), Name: name, x: x, resume: make(chan struct{})}
	x.tasks = append(x.tasks, t)
	x.unlock()
	raceOn()
	go func() {
		setCur(t)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); !ok {
					msg := fmt.Sprintf("%s: panic: %v", t.Name, r)
					if x.tracing {
						msg += "\n" + string(debug.Stack())
					}
					raceOff()
					x.lock()
					x.panics = append(x.panics, msg)
					x.unlock()
					raceOn()
				}
			}
			raceRelease(&t.hb)
			raceOff()
			x.lock()
			t.done = true
			x.unlock()
			x.signal()
			raceOn()
			setCur(nil)
		}()
		t.park("start", nil)
		f()
	}()
	return t
}

func (x *Exec) signal() {
	select {
	case x.wake <- struct{}{}:
	default:
	}
}

// park hands control to the controller until it is chosen to continue.
func (t *Task) park(loc string, pred func() bool) {
	raceOff()
	x := t.x
	x.lock()
	if x.killing {
		x.unlock()
		raceOn()
		if os.Getenv("VSCHED_DEBUG") != "" {
			debug.PrintStack()
		}
		runtime.Goexit()
	}
	t.parked, t.pred, t.loc = true, pred, loc
	x.unlock()
	x.signal()
	<-t.resume
	x.lock()
	k := x.killing
	x.unlock()
	raceOn()
	if k {
		runtime.Goexit()
	}
}

// Point is a scheduling point.
func Point(loc string) {
	if t := cur(); t != nil && !t.x.killing {
		t.park(loc, nil)
	}
}

// Woken is a scheduling point only if the current task was blocked (on a channel, say) since it was last scheduled:
// it then runs concurrently with whoever woke it up.
func Woken(loc string) {
	t := cur()
	if t == nil || t.x.killing {
		return
	}
	raceOff()
	t.x.lock()
	b := t.blocked
	t.x.unlock()
	raceOn()
	if b {
		t.park(loc, nil)
	}
}

// Block parks the current task until pred holds (pred is evaluated by the controller while no task runs).
// It reports false when there is no current task.
func Block(loc string, pred func() bool) bool {
	t := cur()
	if t == nil {
		return false
	}
	if t.x.killing {
		return false
	}
	t.park(loc, pred)
	return true
}

// Go runs f as a new task if the caller is one, and as a plain goroutine otherwise.
func Go(f func()) {
	t := cur()
	if t == nil {
		go f()
		return
	}
	t.x.Go(t.Name+".go", f)
}

// Choose asks the explorer for one of n environment answers.
func Choose(n int) int {
	t := cur()
	if t == nil || n <= 1 || t.x.killing {
		return 0
	}
	raceOff()
	defer raceOn()
	return t.x.choose(n, nil)
}

// InTask reports whether the caller is a controlled task.
func InTask() bool { return cur() != nil }

func (x *Exec) choose(n int, cost []int) int {
	x.lock()
	defer x.unlock()
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			x.diverged = true
			c = 0
		}
	}
	x.choices = append(x.choices, choice{n: n, chosen: c, cost: cost, before: x.used})
	if cost != nil {
		x.used += cost[c]
	}
	return c
}

// Call records an operation: its invocation and, when f returns, its response.
func (x *Exec) Call(call any, f func() any) any {
	t := cur()
	name := "main"
	if t != nil {
		name = t.Name
		t.park("call", nil)
	}
	raceOff()
	x.lock()
	x.clock++
	i := len(x.hist)
	x.hist = append(x.hist, Op{Task: name, Call: call, Inv: x.clock, Res: -1})
	x.unlock()
	raceOn()
	r := f()
	raceOff()
	x.lock()
	x.clock++
	x.hist[i].Ret, x.hist[i].Res = r, x.clock
	x.unlock()
	raceOn()
	return r
}

// Now is a logical clock: it increases with every recorded event.
func (x *Exec) Now() int {
	raceOff()
	defer raceOn()
	x.lock()
	defer x.unlock()
	x.clock++
	return x.clock
}

// Fail records a violation from inside a task.
func (x *Exec) Fail(format string, args ...any) {
	raceOff()
	defer raceOn()
	x.lock()
	defer x.unlock()
	x.fails = append(x.fails, fmt.Sprintf(format, args...))
}

// Outcome adds to the description of the observable outcome of this execution.
func (x *Exec) Outcome(format string, args ...any) {
	raceOff()
	defer raceOn()
	x.lock()
	defer x.unlock()
	x.outcome = append(x.outcome, fmt.Sprintf(format, args...))
}

func (x *Exec) History() []Op    { return x.hist }
func (x *Exec) Stuck() []string  { return x.stuck }
func (x *Exec) Panics() []string { return x.panics }
func (x *Exec) Trace() []string  { return x.trace }
func (x *Exec) Truncated() bool  { return x.truncated }

func (x *Exec) run() {
	sc := x.sc
	horizon := sc.Horizon
	if horizon == 0 {
		horizon = time.Hour
	}
	maxSteps := sc.MaxSteps
	if maxSteps == 0 {
		maxSteps = 5000
	}
	x.wake = make(chan struct{}, 1)
	sc.Setup(x)
	raceOff()
	var spent time.Duration
	for {
		synctest.Wait()
		select {
		case <-x.wake:
		default:
		}
		x.lock()
		var enabled []*Task
		live := 0
		for _, t := range x.tasks {
			if t.done {
				continue
			}
			live++
			if !t.parked {
				t.blocked = true
			}
			if t.parked && (t.pred == nil || t.pred()) {
				enabled = append(enabled, t)
			}
		}
		x.unlock()
		if live == 0 {
			break
		}
		if len(enabled) == 0 {
			// Everybody is blocked: let time pass until something happens.
			start := time.Now()
			tm := time.NewTimer(horizon - spent)
			expired := false
			select {
			case <-x.wake:
			case <-tm.C:
				expired = true
			}
			tm.Stop()
			spent += time.Since(start)
			if expired || spent >= horizon {
				synctest.Wait()
				for _, t := range x.tasks {
					if !t.done {
						x.stuck = append(x.stuck, t.Name+" at "+t.loc)
					}
				}
				break
			}
			continue
		}
		x.steps++
		if x.steps > maxSteps {
			x.truncated = true
			break
		}
		// canonical order: the running task first if it is still enabled, then ascending ids
		curEnabled := false
		sort.SliceStable(enabled, func(i, j int) bool {
			if enabled[i] == x.last != (enabled[j] == x.last) {
				return enabled[i] == x.last
			}
			return enabled[i].id < enabled[j].id
		})
		curEnabled = enabled[0] == x.last
		n := len(enabled)
		if sc.Tick > 0 && x.ticks < sc.MaxTicks {
			n++
		}
		c := 0
		if n > 1 {
			cost := make([]int, n)
			for i := range cost {
				if i > 0 && (curEnabled || sc.Delay) {
					cost[i] = 1
				}
				if i >= len(enabled) {
					cost[i] = 1
				}
			}
			c = x.choose(n, cost)
		}
		if c >= len(enabled) {
			x.ticks++
			if x.tracing {
				x.trace = append(x.trace, fmt.Sprintf("-- %v passes", sc.Tick))
			}
			time.Sleep(sc.Tick)
			continue
		}
		t := enabled[c]
		if x.tracing {
			x.trace = append(x.trace, fmt.Sprintf("%s runs from %s", t.Name, t.loc))
		}
		x.last = t
		x.lock()
		t.parked, t.pred, t.blocked = false, nil, false
		x.unlock()
		t.resume <- struct{}{}
	}
	// kill what is left
	x.lock()
	x.killing = true
	left := []*Task{}
	for _, t := range x.tasks {
		if !t.done && t.parked {
			left = append(left, t)
		}
	}
	x.unlock()
	for _, t := range left {
		t.resume <- struct{}{}
		synctest.Wait()
	}
	synctest.Wait()
	raceOn()
	for _, t := range x.tasks {
		raceAcquire(&t.hb)
	}
	if sc.Check != nil && !x.truncated && (len(x.panics) == 0 || sc.AllowPanic) {
		x.checked = sc.Check(x)
	}
}

// Result of exploring a scenario.
type Result struct {
	Scenario    string
	Schedules   int
	States      int // distinct nodes of the schedule tree (choice points)
	Transitions int // scheduling steps executed
	Outcomes    map[string]int
	MaxDepth    int
	Bound       int  // highest deviation bound explored completely (-1: none)
	Exhaustive  bool // no bound, step or time cap cut anything off
	Diverged    int
	Truncated   int
	Violation   *Violation
}

type Violation struct {
	Scenario string
	Messages []string
	Choices  []int
	Bound    int
	Trace    []string
	History  []string
}

func runOnce(t *testing.T, sc *Scenario, prefix []int, tracing bool) *Exec {
	x := &Exec{sc: sc, prefix: prefix, tracing: tracing, T: t}
	re := RaceErrors()
	if sc.Before != nil {
		sc.Before(x)
	}
	finished := make(chan struct{})
	go func() { // own goroutine: the testing package ends it when it sees a race report
		defer close(finished)
		defer func() {
			if r := recover(); r != nil {
				s := fmt.Sprint(r)
				if strings.Contains(s, "deadlock") && (len(x.stuck) > 0 || x.truncated || x.killing) {
					return // leaked goroutines of stuck tasks
				}
				x.panics = append(x.panics, "controller: "+s)
			}
		}()
		synctest.Test(t, func(tt *testing.T) {
			x.T = tt
			x.run()
		})
	}()
	<-finished
	if RaceErrors() != re {
		x.fails = append(x.fails, "data race reported by the race detector")
	}
	return x
}

func (x *Exec) judge() (msgs []string) {
	msgs = append(msgs, x.fails...)
	if !x.sc.AllowPanic {
		msgs = append(msgs, x.panics...)
	}
	if len(x.stuck) > 0 && !x.sc.AllowStuck {
		msgs = append(msgs, "blocked forever: "+strings.Join(x.stuck, ", "))
	}
	if x.truncated {
		return msgs
	}
	return append(msgs, x.checked...)
}

// Explore enumerates the executions of sc with at most bound deviations, iterating the bound from 0.
func Explore(t *testing.T, sc *Scenario, bound int, deadline time.Time) *Result {
	res := &Result{Scenario: sc.Name, Outcomes: map[string]int{}, Bound: -1}
	for b := 0; b <= bound; b++ {
		full := exploreBound(t, sc, b, deadline, res)
		if res.Violation != nil || !full {
			return res
		}
		res.Bound = b
		if res.Exhaustive { // nothing was cut off by the bound
			break
		}
	}
	return res
}

func exploreBound(t *testing.T, sc *Scenario, bound int, deadline time.Time, res *Result) bool {
	var prefix []int
	res.Schedules, res.States, res.Transitions = 0, 0, 0
	res.Outcomes = map[string]int{}
	cut := false
	for {
		x := runOnce(t, sc, prefix, false)
		res.Schedules++
		res.Transitions += x.steps
		res.States += len(x.choices) - len(prefix) + 1
		if len(x.choices) > res.MaxDepth {
			res.MaxDepth = len(x.choices)
		}
		if x.diverged || len(x.choices) < len(prefix) {
			res.Diverged++
		} else {
			if x.truncated {
				res.Truncated++
				cut = true
			}
			if msgs := x.judge(); len(msgs) > 0 {
				ch := make([]int, len(x.choices))
				for i, c := range x.choices {
					ch[i] = c.chosen
				}
				if v := confirm(t, sc, ch, bound); v != nil {
					res.Violation = v
					return false
				}
				if RaceEnabled { // the detector reports each pair of stacks only once
					y := runOnce(t, sc, ch, true)
					res.Violation = &Violation{Scenario: sc.Name, Messages: msgs, Choices: ch, Bound: bound, Trace: y.trace, History: histStrings(y)}
					return false
				}
				res.Diverged++
			}
		}
		res.Outcomes[strings.Join(x.outcome, "; ")]++
		// backtrack
		i := len(x.choices) - 1
		next := -1
		for ; i >= 0; i-- {
			c := x.choices[i]
			for alt := c.chosen + 1; alt < c.n; alt++ {
				k := 0
				if c.cost != nil {
					k = c.cost[alt]
				}
				if c.before+k <= bound {
					next = alt
					break
				}
				cut = true
			}
			if next >= 0 {
				break
			}
		}
		if i < 0 {
			res.Exhaustive = !cut && res.Diverged == 0
			return true
		}
		np := make([]int, i+1)
		for j := 0; j < i; j++ {
			np[j] = x.choices[j].chosen
		}
		np[i] = next
		prefix = np
		if !deadline.IsZero() && time.Now().After(deadline) {
			return false
		}
	}
}

func histStrings(x *Exec) []string {
	var out []string
	for _, o := range x.hist {
		out = append(out, fmt.Sprintf("[%d,%d] %s: %v -> %v", o.Inv, o.Res, o.Task, o.Call, o.Ret))
	}
	return out
}

// confirm re-runs a violating schedule five times; it only counts if it fails every time.
func confirm(t *testing.T, sc *Scenario, ch []int, bound int) *Violation {
	var v *Violation
	for i := 0; i < 5; i++ {
		y := runOnce(t, sc, ch, true)
		msgs := y.judge()
		if len(msgs) == 0 || y.diverged {
			return nil
		}
		v = &Violation{Scenario: sc.Name, Messages: msgs, Choices: ch, Bound: bound, Trace: y.trace, History: histStrings(y)}
	}
	return v
}

// Replay runs one recorded schedule and returns its violations and trace.
func Replay(t *testing.T, sc *Scenario, ch []int) ([]string, []string) {
	x := runOnce(t, sc, ch, true)
	return x.judge(), x.trace
}

// Quiet runs f without recording happens-before edges (explorer bookkeeping).
func Quiet(f func()) {
	raceOff()
	f()
	raceOn()
}

// Killing reports whether the current execution is being torn down.
func Killing() bool {
	t := cur()
	return t != nil && t.x.killing
}

// Ghost runs harness bookkeeping. It is skipped under the race detector, which would report the bookkeeping itself
// (its synchronization is hidden so that it does not order the code under test).
func Ghost(f func()) {
	if !RaceEnabled {
		f()
	}
}
