// Package g05 checks the generated load balancers: all schedules of concurrent calls on the generated code.
package g05

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"

	"verif.local/gen"
	"verif.local/h/checks/g05/configs"
	"verif.local/h/genrun"
	"verif.local/h/rep"
	"verif.local/h/vsched"
	"verif.local/workflows/wraps/wraps"
)

type ckey struct{}

type call struct {
	id     int
	lb     int
	fail   bool // every attempt fails
	hits   []int
	bad    string
	ok     bool
	a      int64
	b      string
	err    error
	wanted error
}

// scenario: calls[t] is the number of calls that task t makes of balancer lbs[t]; failing calls are those with an odd number if fail.
func scenario(p configs.Proc, lbs []int, calls []int, fail bool) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("%s: tasks call balancers %v %v times, fail=%v", p.Name, lbs, calls, fail)}
	root := genrun.NewRoot()
	var cs []*call
	var leaves []string
	sc.Setup = func(x *vsched.Exec) {
		cs = nil
		probe := &wraps.Probe{Handle: func(ctx context.Context, instance, method string, args ...any) ([]any, error) {
			c, _ := ctx.Value(ckey{}).(*call)
			if c == nil {
				return nil, errors.New("the replica does not have the values of the caller's context")
			}
			n := 0
			fmt.Sscanf(instance, "L%d", &n)
			c.hits = append(c.hits, n)
			if method != "Ask" || fmt.Sprint(args) != fmt.Sprintf("[%d call%d]", c.id, c.id) {
				c.bad = fmt.Sprintf("%s%v", method, args)
			}
			vsched.Point("replica")
			if c.fail {
				c.wanted = fmt.Errorf("failure of call %d at replica %d", c.id, n)
				return []any{int64(-1), "bad"}, c.wanted
			}
			return []any{int64(100*n + c.id), fmt.Sprint("answer", c.id)}, nil
		}}
		_, _, err := root.Build(gen.Procs[p.Name](p.Name), wraps.With(context.Background(), probe))
		if err != nil {
			x.Fail("the process could not be built: %v", err)
			return
		}
		leaves = append([]string(nil), probe.Leaves...)
		sort.Strings(leaves)
		for t, lb := range lbs {
			var mine []*call
			for i := 0; i < calls[t]; i++ {
				c := &call{id: len(cs), lb: lb, fail: fail && len(cs)%2 == 1}
				cs = append(cs, c)
				mine = append(mine, c)
			}
			x.Go(fmt.Sprint("caller", t), func() {
				for _, c := range mine {
					c.a, c.b, c.err = probe.Client[fmt.Sprint("C", lb)].Ask(context.WithValue(context.Background(), ckey{}, c), int64(c.id), fmt.Sprint("call", c.id))
					c.ok = true
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		if len(leaves) != p.Leaves {
			// Only the replicas of some balancer are built.
			for i := 1; i < len(leaves); i++ {
				if leaves[i] == leaves[i-1] {
					msgs = append(msgs, fmt.Sprintf("built %v", leaves))
				}
			}
		}
		counts := map[int]map[int]int{}
		total := map[int]int{}
		for _, c := range cs {
			bad := func(f string, a ...any) {
				msgs = append(msgs, fmt.Sprintf("call %d: ", c.id)+fmt.Sprintf(f, a...))
			}
			if !c.ok {
				return msgs
			}
			attempts := 1
			if p.LBs[c.lb].Retry && c.fail {
				attempts = 2
			}
			if len(c.hits) != attempts {
				bad("reached the replicas %v, where %d attempts were due", c.hits, attempts)
				continue
			}
			if c.bad != "" {
				bad("a replica received %s", c.bad)
			}
			for _, h := range c.hits {
				if counts[c.lb] == nil {
					counts[c.lb] = map[int]int{}
				}
				counts[c.lb][h]++
				total[c.lb]++
			}
			n := c.hits[len(c.hits)-1]
			if c.fail {
				if c.err == nil || c.err != c.wanted {
					bad("the replica failed with %v, and the call returned %v", c.wanted, c.err)
				}
			} else if c.err != nil || c.a != int64(100*n+c.id) || c.b != fmt.Sprint("answer", c.id) {
				bad("replica %d answered %d, answer%d; the call returned %d, %s, %v", n, 100*n+c.id, c.id, c.a, c.b, c.err)
			}
			x.Outcome("%d>%v", c.id, c.hits)
		}
		for lb, got := range counts {
			expect := p.LBs[lb].Expect
			per := map[int]int{}
			for _, e := range expect {
				per[e]++
			}
			for h, n := range got {
				if per[h] == 0 {
					msgs = append(msgs, fmt.Sprintf("balancer %d forwarded %d calls to replica %d, which is not one of %v", lb, n, h, expect))
				}
			}
			if nested(p) {
				// A nested balancer is also used through the outer one.
				continue
			}
			full, rest := total[lb]/len(expect), total[lb]%len(expect)
			for h := range per {
				if n := got[h]; n < full || (rest == 0 && n != full) || n > full+1 {
					msgs = append(msgs, fmt.Sprintf("balancer %d forwarded %d of %d calls to replica %d of %v", lb, n, total[lb], h, expect))
				}
			}
		}
		if nested(p) && len(lbs) == 1 && lbs[0] == 1 && total[1]%4 == 0 {
			want := map[int]int{0: total[1] / 4, 1: total[1] / 4, 2: total[1] / 2}
			if fmt.Sprint(counts[1]) != fmt.Sprint(want) {
				msgs = append(msgs, fmt.Sprintf("a balancer over a balancer forwarded %v, not %v", counts[1], want))
			}
		}
		return msgs
	}
	return sc
}

func nested(p configs.Proc) bool { return p.Name == "bnest" }

func scenarios(race bool) (scs []*vsched.Scenario) {
	for _, p := range configs.All {
		if p.Refused || gen.Procs[p.Name] == nil {
			continue
		}
		for lb := range p.LBs {
			n := len(p.LBs[lb].Expect)
			if !race {
				for k := 1; k <= 3*n; k++ {
					for _, fail := range []bool{false, true} {
						scs = append(scs, scenario(p, []int{lb}, []int{k}, fail))
					}
				}
			}
			for _, c := range [][]int{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}} {
				scs = append(scs, scenario(p, []int{lb, lb, lb}[:len(c)], c, false))
				if !race {
					scs = append(scs, scenario(p, []int{lb, lb, lb}[:len(c)], c, true))
				}
			}
		}
		if len(p.LBs) > 1 {
			scs = append(scs, scenario(p, []int{0, 1}, []int{2, 2}, false), scenario(p, []int{0, 1}, []int{1, 2}, true))
		}
	}
	return scs
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	for _, p := range configs.All {
		msg, failed := gen.Failed[p.Name]
		switch {
		case failed && !p.Refused:
		case p.Refused && !failed:
			msg = "the compiler accepts it"
		case p.Refused && strings.HasPrefix(msg, "panic"):
		case p.Refused && strings.HasPrefix(msg, "the generated code does not compile"):
		default:
			continue
		}
		r.Fail(rep.Violation{Sig: "generate/" + p.Name, Scenario: fmt.Sprintf("generation of %+v", p), Messages: []string{msg}})
	}
	r.ExploreAll(scenarios(false), rep.Pick(r, 2, 3))
	r.Done()
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	r.ExploreAll(scenarios(true), 1)
	r.Done()
}
