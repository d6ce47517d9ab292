package r08

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif.local/h/lin"
	"verif.local/h/mongo"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

type D = bson.D
type A = bson.A

func d1(k string, v any) D { return D{{k, v}} }

var ctx = context.Background()
var idX = primitive.ObjectID{9, 9, 1}
var idY = primitive.ObjectID{9, 9, 2}

type Rec struct {
	K int
	V int
	L []int
}
type RecID struct {
	ID primitive.ObjectID `bson:"_id"`
	K  int
	V  int
}
type Bad struct{ C chan int }

func (Bad) MarshalBSON() ([]byte, error) { return nil, errors.New("cannot be stored") }

type op struct {
	name   string
	filter D
	update D
	doc    func() any   // a fresh value every time
	docs   func() []any // for insertMany / replaceMany
	label  string
}

func (o op) String() string { return o.label }

type ret struct {
	n    int
	ok   bool
	err  bool
	docs []D
}

func (r ret) String() string { return fmt.Sprintf("{n=%d ok=%v err=%v %v}", r.n, r.ok, r.err, r.docs) }

// auto is the placeholder for an identifier that the store chose.
type auto int

func id(d D) any {
	for _, e := range d {
		if e.Key == "_id" {
			return e.Value
		}
	}
	return nil
}

func canon(v any) (d D, ok bool) {
	b, err := bson.Marshal(v)
	if err != nil {
		return nil, false
	}
	return d, bson.Unmarshal(b, &d) == nil
}

// state is the reference: a list of documents.
type state struct {
	docs []D
	next auto
}

func (s state) key() string { return fmt.Sprintf("%#v", s.docs) }
func (s state) insert(v any) (state, bool) {
	d, ok := canon(v)
	if !ok {
		return s, false
	}
	if id(d) == nil {
		s.next++
		d = append(D{{"_id", s.next}}, d...)
	}
	return state{append(append([]D{}, s.docs...), d), s.next}, true
}

func (s state) match(f D) (out []int, bad bool) {
	if mongo.Classify(f) != mongo.OK {
		return nil, true
	}
	cf := mongo.CanonD(f)
	for i, d := range s.docs {
		if mongo.Match(cf, d) {
			out = append(out, i)
		}
	}
	return out, false
}

func (s state) with(i int, d D) state {
	n := state{append([]D{}, s.docs...), s.next}
	n.docs[i] = d
	return n
}

func replacement(old D, v any) (D, bool) {
	d, ok := canon(v)
	if !ok {
		return nil, false
	}
	if id(d) == nil {
		return append(D{{"_id", id(old)}}, d...), true
	}
	return d, id(d) == id(old)
}

// step is the sequential model.
func step(s state, o op) (ret, state) {
	var hits []int
	if o.filter != nil {
		var bad bool
		if hits, bad = s.match(o.filter); bad {
			return ret{err: true}, s
		}
	}
	bad := ret{err: true}
	switch o.name {
	case "insertOne":
		n, ok := s.insert(o.doc())
		return ret{err: !ok}, n
	case "insertMany":
		ok := true
		for _, d := range o.docs() {
			if s, ok = s.insert(d); !ok {
				return bad, s
			}
		}
		return ret{}, s
	case "findOne", "findMany":
		r := ret{}
		for _, i := range hits {
			r.docs = append(r.docs, s.docs[i])
			if o.name == "findOne" {
				break
			}
		}
		r.ok = len(hits) > 0
		return r, s
	case "updateOne", "updateMany":
		if mongo.ClassifyUpdate(o.update) != mongo.OK {
			return bad, s
		}
		n := state{append([]D{}, s.docs...), s.next}
		cnt := 0
		for _, i := range hits {
			d, ok := mongo.Update(mongo.CanonD(o.update), s.docs[i])
			if !ok {
				return bad, s
			}
			n.docs[i] = d
			cnt++
			if o.name == "updateOne" {
				break
			}
		}
		return ret{n: cnt}, n
	case "replaceOne":
		if len(hits) == 0 {
			return ret{}, s
		}
		d, ok := replacement(s.docs[hits[0]], o.doc())
		if !ok {
			return bad, s
		}
		return ret{n: 1}, s.with(hits[0], d)
	case "replaceMany":
		n, cnt := s, 0
		for j, v := range o.docs() {
			if j >= len(hits) {
				break
			}
			d, ok := replacement(s.docs[hits[j]], v)
			if !ok {
				return bad, s
			}
			n = n.with(hits[j], d)
			cnt++
		}
		return ret{n: cnt}, n
	case "upsert":
		if len(hits) > 0 {
			d, ok := replacement(s.docs[hits[0]], o.doc())
			if !ok {
				return bad, s
			}
			return ret{ok: true}, s.with(hits[0], d)
		}
		n, ok := s.insert(o.doc())
		return ret{err: !ok}, n
	case "upsertID":
		d, ok := canon(o.doc())
		if !ok || id(d) != nil && id(d) != any(idX) {
			return bad, s
		}
		if id(d) == nil {
			d = append(D{{"_id", idX}}, d...)
		}
		for i, e := range s.docs {
			if id(e) == any(idX) {
				return ret{ok: true}, s.with(i, d)
			}
		}
		n, _ := s.insert(d)
		return ret{}, n
	case "deleteOne", "deleteMany":
		n := state{nil, s.next}
		cnt := 0
		for i, d := range s.docs {
			if len(hits) > 0 && i == hits[0] && (o.name == "deleteMany" || cnt == 0) {
				hits = hits[1:]
				cnt++
				continue
			}
			n.docs = append(n.docs, d)
		}
		return ret{}, n
	}
	panic(o.name)
}

// scribble modifies everything reachable from a value that was handed to the store or returned by it.
func scribble(v any) {
	switch x := v.(type) {
	case D:
		for i := range x {
			scribble(x[i].Value)
			x[i].Key = "scribbled"
			x[i].Value = -99
		}
	case A:
		for i := range x {
			scribble(x[i])
			x[i] = -98
		}
	case *Rec:
		x.K, x.V = -97, -97
		for i := range x.L {
			x.L[i] = -97
		}
	case []D:
		for _, d := range x {
			scribble(d)
		}
	case []any:
		for _, d := range x {
			scribble(d)
		}
	}
}

// run executes the operation on the real collection.
func run(c backend.NoSQLCollection, o op) (ret, backend.NoSQLCursor) {
	var r ret
	var err error
	var cur backend.NoSQLCursor
	var doc any
	if o.doc != nil {
		doc = o.doc()
	}
	var docs []any
	if o.docs != nil {
		docs = o.docs()
	}
	switch o.name {
	case "insertOne":
		err = c.InsertOne(ctx, doc)
	case "insertMany":
		err = c.InsertMany(ctx, docs)
	case "findOne":
		if cur, err = c.FindOne(ctx, o.filter); err == nil {
			var d D
			r.ok, err = cur.One(ctx, &d)
			if r.ok {
				r.docs = append(r.docs, d)
			}
		}
	case "findMany":
		if cur, err = c.FindMany(ctx, o.filter); err == nil {
			err = cur.All(ctx, &r.docs)
			var first D
			if err == nil {
				if r.ok, err = cur.One(ctx, &first); err == nil && r.ok != (len(r.docs) > 0) {
					err = fmt.Errorf("One reports %v for %d results", r.ok, len(r.docs))
				}
			}
		}
	case "updateOne":
		r.n, err = c.UpdateOne(ctx, o.filter, o.update)
	case "updateMany":
		r.n, err = c.UpdateMany(ctx, o.filter, o.update)
	case "replaceOne":
		r.n, err = c.ReplaceOne(ctx, o.filter, doc)
	case "replaceMany":
		r.n, err = c.ReplaceMany(ctx, o.filter, docs...)
	case "upsert":
		r.ok, err = c.Upsert(ctx, o.filter, doc)
	case "upsertID":
		r.ok, err = c.UpsertID(ctx, idX, doc)
	case "deleteOne":
		err = c.DeleteOne(ctx, o.filter)
	case "deleteMany":
		err = c.DeleteMany(ctx, o.filter)
	}
	r.err = err != nil
	scribble(doc)
	scribble(docs)
	return r, cur
}

// ids maps placeholders to the identifiers that the store chose.
type ids struct {
	of   map[auto]primitive.ObjectID
	used map[primitive.ObjectID]bool
}

func newIDs() *ids {
	return &ids{map[auto]primitive.ObjectID{}, map[primitive.ObjectID]bool{idX: true, idY: true}}
}

func (m *ids) same(got, want D) bool {
	if len(got) != len(want) {
		return false
	}
	g := append(D{}, got...)
	for i, e := range want {
		a, is := e.Value.(auto)
		if e.Key != "_id" || !is {
			continue
		}
		gid, isID := g[i].Value.(primitive.ObjectID)
		if g[i].Key != "_id" || !isID {
			return false
		}
		if known, ok := m.of[a]; ok {
			if known != gid {
				return false
			}
		} else {
			if m.used[gid] || gid.IsZero() {
				return false
			}
			m.of[a], m.used[gid] = gid, true
		}
		g[i].Value = a
	}
	return mongo.Equal(g, want)
}

func (m *ids) sameAll(got, want []D) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !m.same(got[i], want[i]) {
			return false
		}
	}
	return true
}

func ops() []op {
	k := func(v any) D { return d1("k", v) }
	var out []op
	add := func(o op, l string) {
		o.label = o.name + " " + l
		if o.filter != nil {
			o.label = fmt.Sprintf("%s %v %s", o.name, o.filter, l)
		}
		if o.update != nil {
			o.label += fmt.Sprint(o.update)
		}
		out = append(out, o)
	}
	nested := func() any { return D{{"k", 1}, {"v", 1}, {"l", A{1, d1("x", A{2})}}} }
	add(op{name: "insertOne", doc: nested}, "nested D")
	add(op{name: "insertOne", doc: func() any { return &Rec{2, 5, []int{1, 2}} }}, "struct")
	add(op{name: "insertOne", doc: func() any { return RecID{idX, 1, 7} }}, "struct X")
	add(op{name: "insertOne", doc: func() any { return Bad{} }}, "unstorable")
	add(op{name: "insertMany", docs: func() []any { return []any{D{{"_id", idY}, {"k", 1}, {"v", 3}}, &Rec{3, 3, nil}} }}, "two")
	add(op{name: "insertMany", docs: func() []any { return []any{D{{"k", 2}, {"v", 1}}, Bad{}, D{{"k", 2}, {"v", 2}}} }}, "two and an unstorable")
	add(op{name: "insertMany", docs: func() []any { return nil }}, "none")
	for _, n := range []string{"findOne", "findMany", "deleteOne", "deleteMany"} {
		add(op{name: n, filter: k(1)}, "")
		add(op{name: n, filter: D{}}, "")
		add(op{name: n, filter: k(d1("$foo", 1))}, "")
	}
	add(op{name: "findMany", filter: d1("_id", idX)}, "")
	for _, n := range []string{"updateOne", "updateMany"} {
		add(op{name: n, filter: k(1), update: d1("$inc", d1("v", 1))}, "")
		add(op{name: n, filter: D{}, update: d1("$set", D{{"k", 1}, {"w.x", "n"}})}, "")
		add(op{name: n, filter: D{}, update: d1("$push", d1("l", 4))}, "")
		add(op{name: n, filter: k(2), update: d1("$set", d1("l.1", 0))}, "")
		add(op{name: n, filter: k(1), update: d1("$foo", d1("v", 1))}, "")
		add(op{name: n, filter: k(d1("$foo", 1)), update: d1("$set", d1("v", 1))}, "")
		add(op{name: n, filter: D{}, update: D{{"$set", d1("v", 8)}, {"$inc", d1("l", 1)}}}, "")
	}
	for _, n := range []string{"replaceOne", "upsert"} {
		add(op{name: n, filter: k(1), doc: func() any { return D{{"k", 2}, {"v", 9}, {"l", A{1}}} }}, "D")
		add(op{name: n, filter: k(2), doc: func() any { return RecID{idX, 1, 1} }}, "struct X")
		add(op{name: n, filter: D{}, doc: func() any { return Bad{} }}, "unstorable")
		add(op{name: n, filter: k(d1("$foo", 1)), doc: func() any { return D{{"k", 2}} }}, "bad filter")
	}
	add(op{name: "upsert", filter: k(77), doc: func() any { return D{{"k", 7}} }}, "no match")
	add(op{name: "replaceMany", filter: k(1), docs: func() []any { return []any{D{{"k", 1}, {"v", 10}}, &Rec{2, 11, nil}} }}, "two")
	add(op{name: "replaceMany", filter: D{}, docs: func() []any { return []any{D{{"k", 4}}, Bad{}} }}, "with an unstorable")
	add(op{name: "replaceMany", filter: k(1), docs: func() []any { return nil }}, "none")
	add(op{name: "replaceMany", filter: k(d1("$foo", 1)), docs: func() []any { return []any{D{{"k", 1}}} }}, "bad filter")
	add(op{name: "upsertID", doc: func() any { return RecID{idX, 2, 6} }}, "X")
	add(op{name: "upsertID", doc: func() any { return D{{"k", 1}, {"v", 12}} }}, "no id")
	add(op{name: "upsertID", doc: func() any { return RecID{idY, 2, 6} }}, "other id")
	add(op{name: "upsertID", doc: func() any { return Bad{} }}, "unstorable")
	return out
}

func open() backend.NoSQLCollection {
	db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
	c, _ := db.GetCollection(ctx, "d", "c")
	return c
}

// history runs one sequence on a fresh real collection and compares every step, every earlier cursor and the contents.
func history(init state, setup []any, h []op) (msg string) {
	p := rep.Guard(func() {
		c := open()
		s, m := init, newIDs()
		for _, d := range setup {
			if err := c.InsertOne(ctx, d); err != nil {
				msg = err.Error()
				return
			}
		}
		type old struct {
			cur  backend.NoSQLCursor
			docs []D
			op   op
		}
		var olds []old
		for i, o := range h {
			want, ns := step(s, o)
			got, cur := run(c, o)
			if got.err != want.err || !want.err && (got.n != want.n || got.ok != want.ok || !m.sameAll(got.docs, want.docs)) {
				msg = fmt.Sprintf("step %d: %v returned %v, want %v", i+1, o, got, want)
				return
			}
			scribble(got.docs)
			s = ns
			if !want.err && cur != nil {
				olds = append(olds, old{cur, want.docs, o})
			}
			var all []D
			all2, err := c.FindMany(ctx, D{})
			if err == nil {
				err = all2.All(ctx, &all)
			}
			if err != nil || !m.sameAll(all, s.docs) {
				msg = fmt.Sprintf("after %v (step %d) the store holds %v, want %v (%v)", o, i+1, all, s.docs, err)
				return
			}
			scribble(all)
		}
		for _, o := range olds {
			var docs []D
			if err := o.cur.All(ctx, &docs); err != nil || !m.sameAll(docs, o.docs) {
				msg = fmt.Sprintf("the result of %v is now %v, was %v (%v)", o.op, docs, o.docs, err)
				return
			}
		}
	})
	if p != "" {
		return p
	}
	return msg
}

func setups() [][]any {
	return [][]any{nil, {D{{"k", 1}, {"v", 1}, {"l", A{1, 2, 3}}}, D{{"k", 2}, {"v", 2}, {"l", A{}}}, D{{"_id", idX}, {"k", 1}, {"v", 3}}, &Rec{1, 4, []int{7}}}}
}

func sequential(r *rep.R) {
	all := ops()
	for _, setup := range setups() {
		depth := rep.Pick(r, 3, 4)
		sp := &rep.Space{Name: fmt.Sprintf("histories from %d documents", len(setup)), Exhaustive: true, Bound: depth}
		var init state
		for _, d := range setup {
			init, _ = init.insert(d)
		}
		states := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan []op, 256)
		for i := 0; i < runtime.GOMAXPROCS(0); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for h := range ch {
					msg := history(init, setup, h)
					s := init
					for _, o := range h {
						_, s = step(s, o)
					}
					mu.Lock()
					sp.Executions++
					sp.Transitions += len(h)
					states[s.key()] = true
					if msg != "" {
						r.Fail(rep.Violation{Sig: strings.ReplaceAll(h[len(h)-1].String(), " ", "_"), Scenario: "history", Input: fmt.Sprint(h), Messages: []string{fmt.Sprintf("%v: %s", h, msg)}})
					}
					mu.Unlock()
				}
			}()
		}
		// every history of exactly depth operations covers its prefixes
		h := make([]op, depth)
		var gen func(i int)
		gen = func(i int) {
			if i == depth {
				ch <- append([]op{}, h...)
				return
			}
			for _, o := range all {
				if r.Expired() || r.NumViolations() > 40 {
					sp.Exhaustive = false
					return
				}
				h[i] = o
				gen(i + 1)
			}
		}
		gen(0)
		close(ch)
		wg.Wait()
		sp.States, sp.Outcomes = len(states), len(states)
		r.Add(sp)
	}
}

// collections of different names are independent, the same name is the same collection, on every history of inserts and deletes.
func names(r *rep.R) {
	type cn struct{ db, coll string }
	all := []cn{{"a", "x"}, {"a", "y"}, {"b", "x"}, {"a.x", ""}, {"", "a.x"}, {"a", ".x"}}
	sp := &rep.Space{Name: "collection names", Exhaustive: true, Bound: 3}
	n := len(all) * 2
	for code := 0; code < n*n*n; code++ {
		db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
		count := map[cn]int{}
		for c := code; ; c /= n {
			x := all[c%n/2]
			col, err := db.GetCollection(ctx, x.db, x.coll)
			if err != nil {
				r.Fail(rep.Violation{Sig: "names", Scenario: "names", Messages: []string{err.Error()}})
			}
			if c%2 == 0 {
				col.InsertOne(ctx, D{{"n", code}})
				count[x]++
			} else {
				col.DeleteMany(ctx, D{})
				count[x] = 0
			}
			if c < n {
				break
			}
		}
		for _, x := range all {
			col, _ := db.GetCollection(ctx, x.db, x.coll)
			cur, _ := col.FindMany(ctx, D{})
			var docs []D
			cur.All(ctx, &docs)
			sp.Transitions++
			if len(docs) != count[x] {
				r.Fail(rep.Violation{Sig: "names", Scenario: "names", Messages: []string{fmt.Sprintf("collection %v holds %d documents, want %d", x, len(docs), count[x])}})
			}
		}
		sp.Executions++
	}
	sp.States, sp.Outcomes = len(all), n
	r.Add(sp)
}

// cursors: decoding into every kind of destination.
func cursors(r *rep.R) {
	sp := &rep.Space{Name: "result destinations", Exhaustive: true, Bound: 1}
	c := open()
	c.InsertMany(ctx, []any{D{{"_id", idX}, {"k", 1}, {"v", 2}}, D{{"_id", idY}, {"k", 3}, {"v", 4}}})
	bad := []any{nil, D{}, []D{}, 5, "x", (*[]D)(nil), new(int), new(map[string]int), &[1]D{}}
	for _, f := range []D{{}, d1("k", 1), d1("k", 9)} {
		for i, dst := range bad {
			cur, err := c.FindMany(ctx, f)
			if err != nil {
				r.Fail(rep.Violation{Sig: "cursor", Scenario: "cursor", Messages: []string{err.Error()}})
				continue
			}
			sp.Executions++
			p := rep.Guard(func() { err = cur.All(ctx, dst) })
			if p != "" || err == nil {
				r.Fail(rep.Violation{Sig: fmt.Sprintf("cursor/all/%d", i), Scenario: "cursor", Messages: []string{fmt.Sprintf("All into %T: %v %s", dst, err, p)}})
			}
		}
		var recs []RecID
		cur, _ := c.FindMany(ctx, f)
		err := cur.All(ctx, &recs)
		want := map[string]string{"[]": "[{000000000000000000000000 0 0}]"}
		_ = want
		var s string
		for _, x := range recs {
			s += fmt.Sprint(x.ID == idX, x.K, x.V, ";")
		}
		w := map[int]string{0: "true 1 2;false 3 4;", 1: "true 1 2;", 2: ""}[map[bool]int{len(f) == 0: 0, len(f) > 0 && f[0].Value == 1: 1, len(f) > 0 && f[0].Value == 9: 2}[true]]
		sp.Executions++
		if err != nil || strings.ReplaceAll(s, " ", "") != strings.ReplaceAll(w, " ", "") {
			r.Fail(rep.Violation{Sig: "cursor/structs", Scenario: "cursor", Messages: []string{fmt.Sprintf("filter %v: %v, want %v (%v)", f, s, w, err)}})
		}
		// a destination that already has contents is replaced
		recs = []RecID{{K: 9}, {K: 9}, {K: 9}}
		cur, _ = c.FindMany(ctx, f)
		if cur.All(ctx, &recs); len(recs) != strings.Count(w, ";") {
			r.Fail(rep.Violation{Sig: "cursor/refill", Scenario: "cursor", Messages: []string{fmt.Sprintf("filter %v: %d results, want %d", f, len(recs), strings.Count(w, ";"))}})
		}
	}
	for i, dst := range []any{nil, RecID{}, (*RecID)(nil), new(int), 5} {
		cur, _ := c.FindOne(ctx, D{})
		var err error
		p := rep.Guard(func() { _, err = cur.One(ctx, dst) })
		sp.Executions++
		if p != "" || err == nil {
			r.Fail(rep.Violation{Sig: fmt.Sprintf("cursor/one/%d", i), Scenario: "cursor", Messages: []string{fmt.Sprintf("One into %T: %v %s", dst, err, p)}})
		}
	}
	sp.States, sp.Transitions, sp.Outcomes = 3, sp.Executions, 3
	r.Add(sp)
}

// ---- schedules

func stripAuto(ds []D) []D {
	var out []D
	for _, d := range ds {
		d = append(D{}, d...)
		for i, e := range d {
			if x, is := e.Value.(primitive.ObjectID); e.Key == "_id" && is && x != idX && x != idY {
				d[i].Value = "auto"
			}
			if _, is := e.Value.(auto); is {
				d[i].Value = "auto"
			}
		}
		out = append(out, d)
	}
	return out
}

var model = lin.Model[state]{
	Init: func() state { return state{} },
	Key:  func(s state) string { return fmt.Sprintf("%#v", stripAuto(s.docs)) },
	Step: func(s state, c, rt any, done bool) []state {
		if !done {
			return nil
		}
		want, ns := step(s, c.(op))
		got := rt.(ret)
		if got.err != want.err || got.n != want.n || got.ok != want.ok || len(got.docs) != len(want.docs) {
			return nil
		}
		g, w := stripAuto(got.docs), stripAuto(want.docs)
		for i := range g {
			if !mongo.Equal(g[i], w[i]) {
				return nil
			}
		}
		return []state{ns}
	},
}

func scenario(setup []any, progs [][]op) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("store of %d %v", len(setup), progs)}
	var c backend.NoSQLCollection
	sc.Setup = func(x *vsched.Exec) {
		c = open()
		for _, d := range setup {
			if err := c.InsertOne(ctx, d); err != nil {
				panic(err)
			}
		}
		for i, p := range progs {
			x.Go(fmt.Sprint("t", i), func() {
				for _, o := range p {
					x.Call(o, func() any { r, _ := run(c, o); return r })
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) []string {
		var h []vsched.Op
		t := 0
		for _, d := range setup {
			h = append(h, vsched.Op{Task: "init", Call: op{name: "insertOne", doc: func() any { return d }, label: "init"}, Ret: ret{}, Inv: t, Res: t + 1})
			t += 2
		}
		for _, o := range x.History() {
			x.Outcome("%v=%v", o.Call, stripAuto(o.Ret.(ret).docs))
			o.Inv += t
			if o.Res >= 0 {
				o.Res += t
			}
			// a multi-document insertion is one insertion per document
			if c := o.Call.(op); c.name == "insertMany" && o.Res >= 0 {
				for _, d := range c.docs() {
					one := o
					one.Call = op{name: "insertOne", doc: func() any { return d }, label: "part of " + c.label}
					h = append(h, one)
				}
				continue
			}
			h = append(h, o)
		}
		g := op{name: "findMany", filter: D{}, label: "final"}
		r, _ := run(c, g)
		h = append(h, vsched.Op{Task: "final", Call: g, Ret: r, Inv: 1 << 20, Res: 1<<20 + 1})
		return lin.Check(h, model)
	}
	return sc
}

func concurrent(thorough bool) []op {
	keep := map[string]bool{}
	for _, l := range []string{"insertOne nested D", "insertMany two", "findMany [] ", "deleteOne [{k 1}] ", "deleteMany [{k 1}] ", "updateOne [{k 1}] [{$inc [{v 1}]}]", "updateMany [{k 1}] [{$inc [{v 1}]}]", "replaceOne [{k 1}] D", "upsert [{k 1}] D", "upsert [{k 77}] no match", "upsertID X", "replaceMany [{k 1}] two", "updateOne [] [{$push [{l 4}]}]", "findOne [{k 1}] "} {
		keep[l] = true
	}
	var out []op
	for _, o := range ops() {
		if keep[o.label] {
			out = append(out, o)
			delete(keep, o.label)
		}
	}
	if len(keep) > 0 {
		panic(fmt.Sprint(keep))
	}
	return out
}

func scenarios(thorough, race bool) []*vsched.Scenario {
	small := []any{D{{"_id", idX}, {"k", 1}, {"v", 1}, {"l", A{1}}}, D{{"_id", idY}, {"k", 1}, {"v", 2}, {"l", A{}}}}
	var out []*vsched.Scenario
	all := concurrent(thorough)
	for i, a := range all {
		for _, b := range all[i:] {
			if a.name == "insertMany" && b.name == "insertMany" && race {
				continue
			}
			out = append(out, scenario(small, [][]op{{a}, {b}}))
			if !race && thorough {
				out = append(out, scenario(nil, [][]op{{a}, {b}}))
				for _, c := range all {
					out = append(out, scenario(small, [][]op{{a, c}, {b}}))
				}
			}
		}
	}
	if !race {
		for _, a := range all {
			out = append(out, scenario(nil, [][]op{{a}, {all[0]}, {a}}))
			out = append(out, scenario(small, [][]op{{a}, {a}, {a}}))
		}
	}
	return out
}

// getScenario: concurrent first requests for the same and for different collections.
func getScenario(names [][2]string) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("get collections %v", names)}
	var db *simplenosqldb.SimpleNoSQLDB
	sc.Setup = func(x *vsched.Exec) {
		db, _ = simplenosqldb.NewSimpleNoSQLDB(ctx)
		for i, n := range names {
			x.Go(fmt.Sprint("t", i), func() {
				c, err := db.GetCollection(ctx, n[0], n[1])
				if err == nil {
					err = c.InsertOne(ctx, D{{"t", i}})
				}
				if err != nil {
					panic(err)
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) []string {
		want := map[[2]string]int{}
		for _, n := range names {
			want[n]++
		}
		var out []string
		for n, k := range want {
			c, _ := db.GetCollection(ctx, n[0], n[1])
			cur, _ := c.FindMany(ctx, D{})
			var docs []D
			cur.All(ctx, &docs)
			if len(docs) != k {
				out = append(out, fmt.Sprintf("collection %v holds %d documents, want %d", n, len(docs), k))
			}
		}
		return out
	}
	return sc
}

func getScenarios() []*vsched.Scenario {
	return []*vsched.Scenario{getScenario([][2]string{{"a", "x"}, {"a", "x"}}), getScenario([][2]string{{"a", "x"}, {"a", "y"}}), getScenario([][2]string{{"a", "x"}, {"b", "x"}}), getScenario([][2]string{{"a", "x"}, {"a", "x"}, {"a", "y"}})}
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	sequential(r)
	names(r)
	cursors(r)
	scs := append(getScenarios(), scenarios(r.Thorough, false)...)
	r.ExploreAll(scs, rep.Pick(r, 2, 3))
}

func TestRace(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	r.ExploreAll(append(getScenarios(), scenarios(false, true)...), 1)
}
