package r03

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/clientpool"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

// A program is one string per task: each letter acquires a client, holds it, and returns it.
//   p  background context     c  the scenario's context     C  an already ended context    x  cancel
//   P  acquire twice in a row, holding both (only used where it cannot deadlock by design)

type client struct{ id int }

type event struct {
	t    int
	kind string // pop, got, err, build, built, failed, push, pushed, cancel
	task string
	id   int
}

type ghost struct {
	x         *vsched.Exec
	cap       int
	events    []event
	live      int
	building  int
	built     int
	fails     int
	maxFails  int
	held      map[int]string
	cancelled bool
}

func (g *ghost) ev(kind, task string, id int) int {
	t := g.x.Now()
	g.events = append(g.events, event{t, kind, task, id})
	return t
}

func scenario(capacity, idle, maxFails int, progs []string) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("pool cap=%d idle=%d fails<=%d %s", capacity, idle, maxFails, strings.Join(progs, "|")), AllowStuck: true}
	var g *ghost
	var pool *clientpool.ClientPool[*client]
	var pending []string
	sc.Setup = func(x *vsched.Exec) {
		g = &ghost{x: x, cap: capacity, maxFails: maxFails, held: map[int]string{}}
		pending = nil
		bg := context.Background()
		pool = clientpool.NewClientPool(capacity, func() (*client, error) {
			if !vsched.InTask() { // initial idle clients
				g.live++
				g.built++
				return &client{g.built}, nil
			}
			var fail bool
			var id int
			vsched.Ghost(func() {
				g.ev("build", "", 0)
				g.building++
				if g.live+g.building > g.cap {
					x.Fail("%d clients live or being built, capacity %d", g.live+g.building, g.cap)
				}
			})
			vsched.Point("building")
			vsched.Ghost(func() {
				g.building--
				if g.fails < g.maxFails {
					fail = vsched.Choose(2) == 1
				}
				if fail {
					g.fails++
				} else {
					g.live++
					g.built++
					id = g.built
				}
			})
			if vsched.RaceEnabled && maxFails > 0 {
				fail = vsched.Choose(2) == 1
			}
			if fail {
				return nil, errors.New("cannot build")
			}
			return &client{id}, nil
		})
		var pre []*client
		for i := 0; i < idle; i++ {
			c, err := pool.Pop(bg)
			if err != nil {
				panic(err)
			}
			pre = append(pre, c)
		}
		for _, c := range pre {
			pool.Push(c)
			g.ev("pushed", "init", c.id)
		}
		ended, c0 := context.WithCancel(bg)
		c0()
		sctx, cancel := context.WithCancel(bg)
		for i, p := range progs {
			name := fmt.Sprint("t", i)
			x.Go(name, func() {
				var holding []*client
				acquire := func(k rune) {
					ctx := bg
					switch k {
					case 'c':
						ctx = sctx
					case 'C':
						ctx = ended
					}
					vsched.Point("pop")
					f0 := 0
					vsched.Ghost(func() { g.ev("pop", name+string(k), 0); f0 = g.fails; pending = append(pending, name+string(k)) })
					c, err := pool.Pop(ctx)
					vsched.Ghost(func() {
						for j, q := range pending {
							if q == name+string(k) {
								pending = append(pending[:j], pending[j+1:]...)
								break
							}
						}
						if err != nil {
							g.ev("err", name+string(k), 0)
							x.Outcome("%s%c err", name, k)
							if g.fails == f0 && ctx.Err() == nil {
								x.Fail("%s: acquisition failed with %v although no construction failed and its context has not ended", name, err)
							}
							return
						}
						if c == nil {
							x.Fail("%s: got no client and no error", name)
							return
						}
						g.ev("got", name+string(k), c.id)
						x.Outcome("%s%c got %d", name, k, c.id)
						if h, busy := g.held[c.id]; busy {
							x.Fail("client %d handed to %s while held by %s", c.id, name, h)
						}
						g.held[c.id] = name
					})
					if err == nil {
						holding = append(holding, c)
					}
				}
				for _, k := range p {
					if k == 'x' {
						vsched.Ghost(func() { g.ev("cancel", name, 0); g.cancelled = true })
						cancel()
						continue
					}
					acquire(k)
					if len(holding) > 0 {
						vsched.Point("holding")
						c := holding[0]
						holding = holding[1:]
						vsched.Ghost(func() {
							delete(g.held, c.id)
							g.ev("push", name, c.id)
						})
						pool.Push(c)
						vsched.Ghost(func() { g.ev("pushed", name, c.id) })
					}
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		if vsched.RaceEnabled {
			return nil
		}
		// everybody returns what they acquire, so nobody may wait forever
		if len(x.Stuck()) > 0 {
			msgs = append(msgs, fmt.Sprintf("waiting forever for a client: %v (live=%d, held=%d, capacity=%d)", pending, g.live, len(g.held), g.cap))
		}
		if len(x.Stuck()) == 0 {
			if pool.Size() != g.live || pool.Capacity() != g.cap {
				msgs = append(msgs, fmt.Sprintf("pool reports size %d capacity %d, but %d clients were built with capacity %d", pool.Size(), pool.Capacity(), g.live, g.cap))
			}
			if pool.Available() != g.live-len(g.held) {
				msgs = append(msgs, fmt.Sprintf("pool reports %d available, but %d are idle", pool.Available(), g.live-len(g.held)))
			}
			// the idle clients can all be acquired again without building, and are distinct
			if len(msgs) == 0 {
				got := map[int]bool{}
				n := g.live
				for i := 0; i < n; i++ {
					ctx, cancel := context.WithCancel(context.Background())
					c, err := pool.Pop(ctx)
					cancel()
					if err != nil || got[c.id] {
						msgs = append(msgs, fmt.Sprintf("reacquiring idle client %d of %d: %v %v", i, n, c, err))
						break
					}
					got[c.id] = true
				}
				if g.live != n {
					msgs = append(msgs, "a client was built although idle ones existed")
				}
				// abandoned and failed acquisitions consumed no capacity
				for i := n; i < g.cap; i++ {
					ctx, cancel := context.WithCancel(context.Background())
					_, err := pool.Pop(ctx)
					cancel()
					if err != nil {
						msgs = append(msgs, fmt.Sprintf("cannot acquire client %d of %d: %v", i+1, g.cap, err))
					}
				}
			}
		}
		// reuse: at every construction, was some client idle from the acquiring call's start until then?
		msgs = append(msgs, reuse(g)...)
		return
	}
	return sc
}

// reuse reports constructions during which an idle client was certainly available: its return had completed before
// every acquisition still in progress at the construction had started, and nobody acquired it until afterwards by a
// call that had already started.
func reuse(g *ghost) (msgs []string) {
	for i, e := range g.events {
		if e.kind != "build" {
			continue
		}
		// earliest start of an acquisition still open at e, and the clients they end up with
		open := map[string]int{}
		for j := 0; j < i; j++ {
			switch g.events[j].kind {
			case "pop":
				open[g.events[j].task] = g.events[j].t
			case "got", "err":
				delete(open, g.events[j].task)
			}
		}
		first := 1 << 30
		for _, t := range open {
			if t < first {
				first = t
			}
		}
		// idle at 'first' and at e.t: last event before e.t is pushed, before first
		lastPushed := map[int]int{}
		pushing := map[int]string{}
		for j := 0; j < i; j++ {
			f := g.events[j]
			switch f.kind {
			case "push":
				pushing[f.id] = f.task
				delete(lastPushed, f.id)
			case "pushed":
				if f.task == "init" || pushing[f.id] == f.task { // nobody has acquired it since
					lastPushed[f.id] = f.t
				}
			case "got":
				delete(lastPushed, f.id)
				delete(pushing, f.id)
			}
		}
		for id, t := range lastPushed {
			if t > first {
				continue
			}
			taken := false
			for j := i + 1; j < len(g.events); j++ {
				if f := g.events[j]; f.kind == "got" && f.id == id {
					if _, was := open[f.task]; was {
						taken = true
					}
					break
				}
			}
			if !taken {
				msgs = append(msgs, fmt.Sprintf("a new client was built while client %d was idle all along", id))
			}
		}
	}
	return
}

func scenarios(thorough, race bool) (scs, big []*vsched.Scenario) {
	var _ []*vsched.Scenario
	two := [][]string{{"p", "p"}, {"pp", "p"}, {"pp", "pp"}, {"c", "p", "x"}, {"c", "c", "x"}, {"C", "p"}, {"Cp", "p"}, {"cp", "p", "x"}, {"c", "x"}, {"cp", "x"}, {"ppp", "pp"}}
	three := [][]string{{"p", "p", "p"}, {"pp", "p", "p"}, {"c", "p", "px"}, {"c", "p", "p", "x"}, {"C", "p", "p"}}
	for capacity := 1; capacity <= 2; capacity++ {
		for idle := 0; idle <= capacity; idle++ {
			for _, p := range two {
				for f := 0; f <= 2; f++ {
					if f > 0 && idle == capacity {
						continue
					}
					scs = append(scs, scenario(capacity, idle, f, p))
				}
			}
			for _, p := range three {
				if race {
					continue
				}
				for f := 0; f <= 2; f++ {
					if f > 0 && idle == capacity {
						continue
					}
					big = append(big, scenario(capacity, idle, f, p))
				}
			}
		}
	}
	return scs, big
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	scs, big := scenarios(r.Thorough, false)
	r.ExploreAll(scs, rep.Pick(r, 2, 3))
	r.ExploreAll(big, rep.Pick(r, 1, 2))
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	scs, _ := scenarios(r.Thorough, true)
	r.ExploreAll(scs, rep.Pick(r, 1, 2))
}
