// Package a03 decides A03: timelines list each post once, in order, whatever the cache holds; ids are distinct.
package a03

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	sn "github.com/blueprint-uservices/blueprint/examples/dsb_sn/workflow/socialnetwork"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"verif.local/h/faulty"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

var bg = context.Background()

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// posts are written in the order of their index; their ids are not in order
var postIDs = []int64{5000, 3, 1 << 62, 40, 12345678901, 41, 2}
var users = []int64{7, 70, 77}

type op struct {
	kind string
	a, b int
	m    []int // mentions
}

func (o op) String() string {
	switch o.kind {
	case "evict":
		return "evict " + []string{"all", "even keys", "odd keys"}[o.a]
	case "write":
		if o.m != nil {
			return fmt.Sprint("write by ", users[o.a], " mentioning ", o.m)
		}
		return fmt.Sprint("write by ", users[o.a])
	case "read":
		return fmt.Sprint("read of ", users[o.a], " up to ", o.b)
	}
	return fmt.Sprint(o.kind, " ", users[o.a], "->", users[o.b])
}

type sys struct {
	caches []*faulty.Volatile
	posts  sn.PostStorageService
	user   sn.UserTimelineService
	home   sn.HomeTimelineService
	graph  sn.SocialGraphService
}

func open() *sys {
	y := &sys{}
	cache := func() *faulty.Volatile {
		v := faulty.NewVolatile(must(simplecache.NewSimpleCache(bg)))
		y.caches = append(y.caches, v)
		return v
	}
	db := faulty.PushMods{D: must(simplenosqldb.NewSimpleNoSQLDB(bg))}
	y.posts = must(sn.NewPostStorageServiceImpl(bg, cache(), db))
	y.user = must(sn.NewUserTimelineServiceImpl(bg, cache(), db, y.posts))
	names := must(sn.NewUserIDServiceImpl(bg, must(simplecache.NewSimpleCache(bg)), db))
	y.graph = must(sn.NewSocialGraphServiceImpl(bg, cache(), db, names))
	y.home = must(sn.NewHomeTimelineServiceImpl(bg, must(simplecache.NewSimpleCache(bg)), y.posts, y.graph))
	for _, u := range users {
		if err := y.graph.InsertUser(bg, 1, u); err != nil {
			panic(err)
		}
	}
	return y
}

func (y *sys) evict(which int) {
	for _, c := range y.caches {
		c.Evict(func(i int, _ string) bool { return which == 0 || i%2 == which-1 })
	}
}

type model struct {
	written    int
	user, home map[int][]int64
	follows    map[[2]int]bool // follower, followee
}

func newModel() *model {
	return &model{user: map[int][]int64{}, home: map[int][]int64{}, follows: map[[2]int]bool{}}
}

func page(full []int64, start, stop int) []int64 {
	if start < 0 || stop <= start || start >= len(full) {
		return nil
	}
	if stop > len(full) {
		stop = len(full)
	}
	return full[start:stop]
}

func same(a, b []int64) bool {
	return fmt.Sprint(append([]int64{}, a...)) == fmt.Sprint(append([]int64{}, b...))
}

func (y *sys) readUser(m *model, u, start, stop int) string {
	got, err := y.user.ReadUserTimeline(bg, 1, users[u], int64(start), int64(stop))
	full := m.user[u]
	if want := page(full, start, stop); err != nil && len(full) > 0 || !same(got, want) {
		return fmt.Sprintf("posts [%d:%d] of the user timeline of %d are %v (error %v), want %v of %v", start, stop, users[u], got, err, want, full)
	}
	return ""
}

func (y *sys) readHome(m *model, u, start, stop int) string {
	got, err := y.home.ReadHomeTimeline(bg, 1, users[u], int64(start), int64(stop))
	full := m.home[u]
	if want := page(full, start, stop); err != nil || !same(got, want) {
		return fmt.Sprintf("posts [%d:%d] of the home timeline of %d are %v (error %v), want %v of %v", start, stop, users[u], got, err, want, full)
	}
	return ""
}

func (y *sys) step(m *model, o op) string {
	switch o.kind {
	case "evict":
		y.evict(o.a)
	case "follow", "unfollow":
		var err error
		if o.kind == "follow" {
			err = y.graph.Follow(bg, 1, users[o.a], users[o.b])
			m.follows[[2]int{o.a, o.b}] = true
		} else {
			err = y.graph.Unfollow(bg, 1, users[o.a], users[o.b])
			delete(m.follows, [2]int{o.a, o.b})
		}
		if err != nil {
			return fmt.Sprint(o, " fails: ", err)
		}
	case "write":
		id := postIDs[m.written]
		m.written++
		post := sn.Post{PostID: id, Creator: sn.Creator{UserID: users[o.a]}, Text: fmt.Sprint("post ", id), Timestamp: int64(m.written)}
		if err := y.posts.StorePost(bg, 1, post); err != nil {
			return fmt.Sprint("storing the post fails: ", err)
		}
		if err := y.user.WriteUserTimeline(bg, 1, id, users[o.a], post.Timestamp); err != nil {
			return fmt.Sprint(o, " to the user timeline fails: ", err)
		}
		m.user[o.a] = append([]int64{id}, m.user[o.a]...)
		var mention []int64
		to := map[int]bool{o.a: true}
		for _, u := range o.m {
			mention = append(mention, users[u])
			to[u] = true
		}
		for f := range m.follows {
			if f[1] == o.a {
				to[f[0]] = true
			}
		}
		for u := range to {
			m.home[u] = append(append([]int64{}, m.home[u]...), id)
		}
		if err := y.home.WriteHomeTimeline(bg, 1, id, users[o.a], post.Timestamp, mention); err != nil {
			return fmt.Sprint(o, " to the home timelines fails: ", err)
		}
	case "read":
		if s := y.readUser(m, o.a, 0, o.b); s != "" {
			return s
		}
		return y.readHome(m, o.a, 0, o.b)
	}
	return ""
}

// probe reads every page of every timeline, as the caches are and with empty caches.
func (y *sys) probe(m *model, users int) (msgs []string) {
	for u := 0; u < users; u++ {
		n := len(m.user[u])
		if len(m.home[u]) > n {
			n = len(m.home[u])
		}
		for start := -1; start <= n+1; start++ {
			for stop := -1; stop <= n+2; stop++ {
				for _, cold := range []bool{false, true} {
					if cold {
						y.evict(0)
					}
					if s := y.readUser(m, u, start, stop); s != "" {
						msgs = append(msgs, s)
					}
					if s := y.readHome(m, u, start, stop); s != "" {
						msgs = append(msgs, s)
					}
				}
			}
		}
	}
	return
}

func (m *model) key() string {
	return fmt.Sprint(m.user, m.home)
}

func histories(r *rep.R, name string, ops []op, nusers, depth int) {
	r.Enum(name, rep.Power(len(ops), depth), depth, func(i int) rep.Case {
		radix := make([]int, depth)
		for j := range radix {
			radix[j] = len(ops)
		}
		c := rep.Case{Sig: strings.ReplaceAll(name, " ", "-"), Steps: depth}
		var h []op
		for _, d := range rep.Digits(i, radix...) {
			h = append(h, ops[d])
		}
		c.Input = fmt.Sprint(h)
		y, m := open(), newModel()
		for _, o := range h {
			if s := y.step(m, o); s != "" {
				c.Msgs = append(c.Msgs, s)
				return c
			}
		}
		c.Msgs = y.probe(m, nusers)
		c.Outcome = m.key()
		return c
	})
}

// storage reads every list of up to three of four post ids (one of them unknown) after every choice of what is
// stored, cached and evicted.
func storage(r *rep.R) {
	ids := []int64{5000, 3, 1 << 62, 99}
	var lists [][]int64
	for n := 0; n <= 3; n++ {
		for i := 0; i < rep.Power(len(ids), n); i++ {
			l := []int64{}
			for j, k := 0, i; j < n; j, k = j+1, k/len(ids) {
				l = append(l, ids[k%len(ids)])
			}
			lists = append(lists, l)
		}
	}
	r.Enum("post storage", 8*16*3*len(lists), 3, func(i int) rep.Case {
		d := rep.Digits(i, 8, 16, 3, len(lists))
		list := lists[d[3]]
		c := rep.Case{Sig: "post-storage", Steps: 4, Input: fmt.Sprintf("stored %03b, read before %04b, evict %d, read %v", d[0], d[1], d[2], list)}
		v := faulty.NewVolatile(must(simplecache.NewSimpleCache(bg)))
		p := must(sn.NewPostStorageServiceImpl(bg, v, must(simplenosqldb.NewSimpleNoSQLDB(bg))))
		stored := map[int64]sn.Post{}
		var warm []int64
		for j, id := range ids {
			if j < 3 && d[0]>>j&1 == 1 {
				post := sn.Post{PostID: id, Text: fmt.Sprint("text ", id), Creator: sn.Creator{UserID: id + 1, Username: "u"}, Timestamp: int64(j),
					UserMentions: []sn.UserMention{{UserID: 1, Username: "m"}}, Medias: []sn.Media{{MediaID: int64(j), MediaType: "png"}}, Urls: []sn.URL{{ShortenedUrl: "s", ExpandedUrl: "e"}}}
				stored[id] = post
				if err := p.StorePost(bg, 1, post); err != nil {
					c.Msgs = append(c.Msgs, fmt.Sprint("storing fails: ", err))
				}
			}
			if d[1]>>j&1 == 1 {
				warm = append(warm, id)
			}
		}
		p.ReadPosts(bg, 1, warm)
		if d[2] > 0 {
			v.Evict(func(i int, _ string) bool { return i%2 == d[2]-1 })
		}
		var want []string
		seen := map[int64]bool{}
		for _, id := range list {
			if post, ok := stored[id]; ok && !seen[id] {
				want = append(want, fmt.Sprintf("%+v", post))
			}
			seen[id] = true
		}
		sort.Strings(want)
		posts, err := p.ReadPosts(bg, 1, list)
		var got []string
		for _, post := range posts {
			got = append(got, fmt.Sprintf("%+v", post))
		}
		sort.Strings(got)
		if err != nil || strings.Join(got, ";") != strings.Join(want, ";") {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the posts are %v (error %v), want %v", got, err, want))
		}
		for _, id := range list {
			post, err := p.ReadPost(bg, 1, id)
			if w, ok := stored[id]; ok != (err == nil) || ok && fmt.Sprintf("%+v", post) != fmt.Sprintf("%+v", w) {
				c.Msgs = append(c.Msgs, fmt.Sprintf("post %d is %+v (error %v), want %+v", id, post, err, w))
			}
		}
		c.Outcome = fmt.Sprint(len(want))
		return c
	})
}

// ids asks for bursts of ids at chosen times (virtual time).
func ids(r *rep.R) {
	// the last one changes only the leading digits of the time: 2^36 ms are 2.2 years
	bursts(r, "bursts of ids", []int{1, 2, 15, 16, 17, 33, 300}, []time.Duration{0, time.Microsecond, time.Millisecond, 2 * time.Millisecond, 15 * time.Millisecond, 16 * time.Millisecond, 256 * time.Millisecond, time.Hour, (1 << 36) * time.Millisecond}, rep.Pick(r, 2, 3))
	bursts(r, "longer patterns of bursts", []int{1, 16, 17, 33}, []time.Duration{0, time.Millisecond, 2 * time.Millisecond, 16 * time.Millisecond, time.Hour}, rep.Pick(r, 3, 4))
}

func bursts(r *rep.R, name string, n []int, d []time.Duration, depth int) {
	r.EnumN(name, rep.Power(len(n)*len(d), depth), depth, 1, func(i int) rep.Case {
		c := rep.Case{Sig: "ids", Steps: depth}
		radix := make([]int, depth)
		for j := range radix {
			radix[j] = len(n) * len(d)
		}
		var gaps []time.Duration
		var counts []int
		for _, k := range rep.Digits(i, radix...) {
			counts, gaps = append(counts, n[k%len(n)]), append(gaps, d[k/len(n)])
		}
		c.Input = fmt.Sprint("bursts ", counts, " after ", gaps)
		synctest.Test(r.T, func(t *testing.T) {
			u := must(sn.NewUniqueIdServiceImpl(bg))
			seen := map[int64]string{}
			for j := range counts {
				time.Sleep(gaps[j])
				for k := 0; k < counts[j]; k++ {
					id, err := u.ComposeUniqueId(bg, 1, 0)
					what := fmt.Sprintf("id %d of burst %d", k, j)
					if err != nil || id < 0 {
						c.Msgs = append(c.Msgs, fmt.Sprint(what, " is ", id, ", error ", err))
						return
					}
					if p, ok := seen[id]; ok {
						c.Msgs = append(c.Msgs, fmt.Sprintf("%s and %s are both %x", p, what, id))
						return
					}
					seen[id] = what
				}
			}
		})
		return c
	})
}

func scenarios(thorough, race bool) (scs []*vsched.Scenario) {
	type prog struct {
		tasks, each, before int
		tick                time.Duration
	}
	progs := []prog{{2, 1, 0, 0}, {2, 2, 0, 0}, {2, 2, 15, 0}, {3, 1, 0, 0}, {3, 1, 14, 0}, {3, 2, 0, 0}, {2, 2, 0, time.Millisecond}, {2, 2, 14, time.Millisecond}, {2, 1, 15, time.Millisecond}}
	if thorough {
		progs = append(progs, prog{4, 1, 0, 0}, prog{3, 1, 15, time.Millisecond}, prog{3, 2, 14, time.Millisecond}, prog{2, 4, 14, time.Millisecond})
	}
	for _, p := range progs {
		p := p
		s := &vsched.Scenario{Name: fmt.Sprintf("%d-tasks-%d-ids-after-%d-tick-%v", p.tasks, p.each, p.before, p.tick)}
		if p.tick > 0 && !race {
			s.Tick, s.MaxTicks = p.tick, 2
		}
		var all [][]int64
		s.Setup = func(x *vsched.Exec) {
			all = make([][]int64, p.tasks+1)
			u := must(sn.NewUniqueIdServiceImpl(bg))
			for k := 0; k < p.before; k++ {
				all[p.tasks] = append(all[p.tasks], must(u.ComposeUniqueId(bg, 1, 0)))
			}
			for i := 0; i < p.tasks; i++ {
				i := i
				x.Go(fmt.Sprint("t", i), func() {
					for k := 0; k < p.each; k++ {
						all[i] = append(all[i], must(u.ComposeUniqueId(bg, 1, 0)))
					}
				})
			}
		}
		s.Check = func(x *vsched.Exec) (msgs []string) {
			seen := map[int64]int{}
			for i, l := range all {
				for _, id := range l {
					if j, ok := seen[id]; ok {
						msgs = append(msgs, fmt.Sprintf("requests of tasks %d and %d got the same id %x", j, i, id))
					}
					seen[id] = i
				}
			}
			x.Outcome("%d", len(seen))
			return
		}
		scs = append(scs, s)
	}
	return
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	evict := []op{{kind: "evict"}, {kind: "evict", a: 1}, {kind: "evict", a: 2}}
	one := append([]op{{kind: "write"}, {kind: "write", a: 1}, {kind: "read", b: 1}, {kind: "read", b: 2}, {kind: "read", b: 9}}, evict...)
	histories(r, "user timelines", one, 2, rep.Pick(r, 4, 5))
	var home []op
	for _, m := range [][]int{nil, {0}, {1}, {2}, {1, 1}, {0, 1, 2}} {
		home = append(home, op{kind: "write", m: m})
	}
	home = append(home, op{kind: "write", a: 1}, op{kind: "follow", a: 1}, op{kind: "unfollow", a: 1}, op{kind: "follow", a: 2}, op{kind: "follow"}, op{kind: "evict"}, op{kind: "read", a: 1, b: 1})
	histories(r, "home timelines", home, 3, rep.Pick(r, 3, 4))
	storage(r)
	ids(r)
	scs := scenarios(r.Thorough, false)
	r.ExploreAll(scs, rep.Pick(r, 3, 5))
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	r.ExploreAll(scenarios(r.Thorough, true), rep.Pick(r, 1, 2))
}
