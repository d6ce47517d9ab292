// Package a02 decides A02: follow relations are symmetric and independent of the cache.
package a02

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	sn "github.com/blueprint-uservices/blueprint/examples/dsb_sn/workflow/socialnetwork"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"verif.local/h/faulty"
	"verif.local/h/rep"
)

var bg = context.Background()

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// users by index; the last one is not known to the social graph
var ids = []int64{7, 70, 77, 4}

const unknown = 3

type op struct {
	kind string // follow, unfollow, followname, unfollowname, followers, followees, evict
	a, b int
}

func (o op) String() string {
	switch o.kind {
	case "evict":
		return "evict " + []string{"all", "even keys", "odd keys"}[o.a]
	case "followers", "followees":
		return fmt.Sprintf("%s of %d", o.kind, ids[o.a])
	}
	return fmt.Sprintf("%s %d->%d", o.kind, ids[o.a], ids[o.b])
}

type sys struct {
	plan  *faulty.Plan
	cache *faulty.Volatile
	svc   sn.SocialGraphService
	users int // how many are known
}

func open(users int) *sys {
	y := &sys{plan: &faulty.Plan{}, users: users}
	y.cache = faulty.NewVolatile(must(simplecache.NewSimpleCache(bg)))
	udb := must(simplenosqldb.NewSimpleNoSQLDB(bg))
	c := must(udb.GetCollection(bg, "user", "user"))
	db := faulty.DB{P: y.plan, D: must(simplenosqldb.NewSimpleNoSQLDB(bg))}
	names := must(sn.NewUserIDServiceImpl(bg, must(simplecache.NewSimpleCache(bg)), udb))
	y.svc = must(sn.NewSocialGraphServiceImpl(bg, faulty.Cache{P: y.plan, C: y.cache}, db, names))
	for i := 0; i < users; i++ {
		if err := c.InsertOne(bg, sn.User{UserID: ids[i], Username: fmt.Sprint("u", ids[i])}); err != nil {
			panic(err)
		}
		if err := y.svc.InsertUser(bg, 1, ids[i]); err != nil {
			panic(err)
		}
	}
	return y
}

type graph map[[2]int]bool

func (g graph) key() string {
	var out []string
	for k := range g {
		out = append(out, fmt.Sprint(k))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (g graph) list(o op) (out []int64) {
	for i := range ids {
		if o.kind == "followers" && g[[2]int{i, o.a}] || o.kind == "followees" && g[[2]int{o.a, i}] {
			out = append(out, ids[i])
		}
	}
	return
}

func (y *sys) do(o op) ([]int64, error) {
	switch o.kind {
	case "follow":
		return nil, y.svc.Follow(bg, 1, ids[o.a], ids[o.b])
	case "unfollow":
		return nil, y.svc.Unfollow(bg, 1, ids[o.a], ids[o.b])
	case "followname":
		return nil, y.svc.FollowWithUsername(bg, 1, fmt.Sprint("u", ids[o.a]), fmt.Sprint("u", ids[o.b]))
	case "unfollowname":
		return nil, y.svc.UnfollowWithUsername(bg, 1, fmt.Sprint("u", ids[o.a]), fmt.Sprint("u", ids[o.b]))
	case "followers":
		return y.svc.GetFollowers(bg, 1, ids[o.a])
	case "followees":
		return y.svc.GetFollowees(bg, 1, ids[o.a])
	}
	y.cache.Evict(func(i int, _ string) bool { return o.a == 0 || i%2 == o.a-1 })
	return nil, nil
}

func step(y *sys, g graph, o op) string {
	got, err := y.do(o)
	switch {
	case o.kind == "evict":
		return ""
	case o.a >= y.users || o.b >= y.users:
		if strings.HasPrefix(o.kind, "foll") && err == nil {
			return fmt.Sprintf("%v of an unknown user answers %v and no error", o, got)
		}
		return "" // has no effect; probe looks
	case err != nil:
		return fmt.Sprintf("%v fails: %v", o, err)
	}
	switch o.kind {
	case "follow", "followname":
		g[[2]int{o.a, o.b}] = true
	case "unfollow", "unfollowname":
		delete(g, [2]int{o.a, o.b})
	default:
		want := g.list(o)
		sorted := append([]int64{}, got...)
		sort.Slice(sorted, func(i, j int) bool { return sorted[i] < sorted[j] })
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		if fmt.Sprint(sorted) != fmt.Sprint(want) {
			return fmt.Sprintf("%v are %v, want %v", o, sorted, want)
		}
	}
	return ""
}

func probe(y *sys, g graph) (msgs []string) {
	for _, cold := range []bool{false, true} {
		for i := 0; i < y.users; i++ {
			for _, k := range []string{"followers", "followees"} {
				if cold {
					y.cache.Evict(nil)
				}
				if m := step(y, g, op{k, i, i}); m != "" {
					msgs = append(msgs, m+map[bool]string{true: " (empty cache)", false: ""}[cold])
				}
			}
		}
	}
	for i := y.users; i < len(ids); i++ {
		for _, k := range []string{"followers", "followees"} {
			if m := step(y, g, op{k, i, i}); m != "" {
				msgs = append(msgs, m)
			}
		}
	}
	return
}

func histories(r *rep.R, name string, users int, ops []op, depth int) {
	r.Enum(name, rep.Power(len(ops), depth), depth, func(i int) rep.Case {
		var radix []int
		for j := 0; j < depth; j++ {
			radix = append(radix, len(ops))
		}
		c := rep.Case{Sig: strings.ReplaceAll(name, " ", "-"), Steps: depth}
		y, g := open(users), graph{}
		var h []op
		for _, d := range rep.Digits(i, radix...) {
			h = append(h, ops[d])
		}
		c.Input = fmt.Sprint(h)
		for _, o := range h {
			if m := step(y, g, o); m != "" {
				c.Msgs = append(c.Msgs, m)
				return c
			}
		}
		c.Msgs = probe(y, g)
		c.Outcome = g.key()
		return c
	})
}

func alphabet(users []int, kinds ...string) (ops []op) {
	for _, k := range kinds {
		for _, a := range users {
			if k == "followers" || k == "followees" {
				ops = append(ops, op{k, a, a})
				continue
			}
			for _, b := range users {
				ops = append(ops, op{k, a, b})
			}
		}
	}
	return
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	evict := []op{{"evict", 0, 0}, {"evict", 1, 0}, {"evict", 2, 0}}
	three := append(alphabet([]int{0, 1, 2}, "follow", "unfollow", "followers", "followees"), evict...)
	histories(r, "three users", 3, three, rep.Pick(r, 3, 4))
	two := append(alphabet([]int{0, 1}, "follow", "unfollow", "followers", "followees"), evict[:2]...)
	histories(r, "two users", 2, two, rep.Pick(r, 4, 5))
	histories(r, "unknown users", 2, append(alphabet([]int{0, 1, unknown}, "follow", "unfollow"), evict[0]), 3)
	histories(r, "operations by name", 2, append(alphabet([]int{0, 1, unknown}, "follow", "unfollow", "followname", "unfollowname"), evict[0]), 2)
	faults(r, two)
}

// faults fails every backend call of every operation. The operation reports it (a query may also answer correctly),
// and repeating the operation puts everything right.
func faults(r *rep.R, ops []op) {
	k := len(ops)
	r.Enum("failures of every backend call, then repetition", k*k*k*2, 3, func(i int) rep.Case {
		d := rep.Digits(i, k, k, k, 2)
		o := ops[d[2]]
		c := rep.Case{Sig: "fault", Steps: 4, Input: fmt.Sprint(ops[d[0]], ops[d[1]], o)}
		if o.kind == "evict" {
			return c
		}
		c.Known = o.kind // follow and unfollow make their calls concurrently
		before := func() (*sys, graph, string) {
			y, g := open(2), graph{}
			for _, h := range []op{ops[d[0]], ops[d[1]]} {
				if m := step(y, g, h); m != "" {
					return y, g, m
				}
			}
			return y, g, ""
		}
		y, g, m := before()
		if m != "" {
			c.Msgs = append(c.Msgs, m)
			return c
		}
		y.plan.Reset(0, false)
		y.do(o)
		labels, nth := y.plan.Faults()
		for j := range labels {
			y, g, _ = before()
			y.plan.ResetLabel(labels[j], nth[j], d[3] == 1)
			got, err := y.do(o)
			y.plan.Reset(0, false)
			what := fmt.Sprintf("call %s (%d) of %v fails", labels[j], nth[j], o)
			query := o.kind == "followers" || o.kind == "followees"
			if err == nil && !query {
				c.Msgs = append(c.Msgs, what+" and no error is reported")
			} else if err == nil && len(got) != len(g.list(o)) {
				c.Msgs = append(c.Msgs, fmt.Sprint(what, " and the answer is ", got))
			}
			if m := step(y, g, o); m != "" {
				c.Msgs = append(c.Msgs, what+"; repeated: "+m)
			}
			for _, m := range probe(y, g) {
				c.Msgs = append(c.Msgs, what+" and is repeated; then "+m)
			}
			c.Outcome += labels[j] + " "
			if len(c.Msgs) > 0 {
				break
			}
		}
		return c
	})
}
