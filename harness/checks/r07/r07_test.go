package r07

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif.local/h/mongo"
	"verif.local/h/rep"
)

type D = bson.D
type A = bson.A
type Str string
type Pt struct {
	X int
	Y string
}

func d1(k string, v any) D { return D{{k, v}} }

var when = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

func docs() []D {
	vals := []any{int32(1), int32(1<<31 - 1), int32(-1 << 31), int64(5), int64(1<<63 - 1), int64(-1 << 63), 1.5, "a", "", true, nil, when, A{}, A{1}, A{1, 2, 3}, A{2, 1, 2}, A{"a", "b"}, A{nil, 1}, A{1.0, int64(2)}, A{A{1, 2}, A{1}}, A{A{}}, A{1, A{1, 2}, "a", d1("x", 1)},
		D{}, d1("x", 1), d1("x", "s"), d1("x", nil), d1("x", A{}), d1("x", A{1, 2, 3}), d1("x", D{}), d1("x", D{{"y", 1}, {"z", 2}}), d1("x", A{d1("y", 1), 5}), D{{"w", 1}, {"x", 1}, {"y", A{1}}, {"z", 3}}, d1("0", 1), D{{"0", d1("x", 1)}, {"2", A{7}}}, d1("x", d1("0", A{1})),
		A{d1("x", 1)}, A{d1("x", 1), d1("x", 2), d1("x", 1)}, A{D{{"x", 1}, {"y", 2}}, D{{"x", 1}, {"y", 3}}, D{}}, A{d1("x", A{1, 2}), 1, nil}, A{d1("y", nil), d1("y", A{1})}}
	out := []D{{}}
	for _, v := range vals {
		out = append(out, d1("a", v))
	}
	for i, v := range vals[:14] {
		out = append(out, D{{"b", vals[(i*5)%len(vals)]}, {"a", v}, {"c", 1}})
	}
	for i := range out {
		out[i] = append(D{{"_id", i}, {"n", i}}, append(append(D{}, out[i]...), bson.E{"z", A{1, d1("k", "v")}})...)
	}
	return out
}

var paths = []string{"a", "a.x", "a.x.y", "a.0", "a.1", "a.2", "a.5", "a.0.x", "a.0.0", "a.x.0", "a.x.1", "a.x.4.y", "a.x.0.y", "b", "new", "new.x", "new.0", "new.1.x", "z.1.k", "z.1", "n.x", "_id", "_id.x"}

func values() []any {
	return []any{1, int64(1), int64(5), uint8(7), 1.5, "a", Str("b"), nil, true, when, A{}, A{1, 2}, []string{"a", "b"}, D{}, d1("x", 1), D{{"x", 1}, {"y", 2}}, D{{"y", 2}, {"x", 1}}, d1("y", nil), d1("x", d1("y", A{1})), Pt{1, "p"}, d1("y", A{1}), A{A{1}}}
}

func singles(ps []string) []D {
	var out []D
	add := func(op, p string, v any) { out = append(out, d1(op, d1(p, v))) }
	for _, p := range ps {
		for _, v := range values() {
			for _, op := range []string{"$set", "$push", "$addToSet", "$pull"} {
				add(op, p, v)
			}
		}
		add("$unset", p, "")
		add("$unset", p, 1)
		for _, v := range []any{1, -1, int64(1), int32(1), int8(-3), int64(1 << 31), int64(1<<63 - 1), int64(-1 << 63), 0} {
			add("$inc", p, v)
		}
		for _, q := range []D{d1("x", d1("$gt", 1)), d1("x", d1("$ne", 1)), d1("x", d1("$in", A{1, 5})), d1("x", d1("$exists", false)), d1("$or", A{d1("x", 2), d1("y", 2)}), d1("$nor", A{d1("x", 1)}), d1("x.y", 1), d1("x", A{1, 2}), d1("y", d1("$exists", true))} {
			add("$pull", p, q)
		}
	}
	return out
}

func malformed() []D {
	var out []D
	for _, p := range []string{"a", "new", "a.x"} {
		out = append(out, d1("$inc", d1(p, 1.5)), d1("$inc", d1(p, uint8(1))), d1("$inc", d1(p, "1")), d1("$inc", d1(p, nil)), d1("$inc", d1(p, A{1})),
			d1("$push", d1(p, d1("$each", A{1, 2}))), d1("$push", d1(p, D{{"x", 1}, {"$each", A{1}}})), d1("$addToSet", d1(p, d1("$each", A{1, 2}))), d1("$pull", d1(p, d1("$foo", 1))), d1("$pull", d1(p, d1("$gt", 1))), d1("$pull", d1(p, d1("$in", A{1, 2}))), d1("$pull", d1(p, d1("x", d1("$foo", 1)))), d1("$pull", d1(p, D{{"x", 1}, {"$bar", 1}})),
			d1("$foo", d1(p, 1)), d1("$mul", d1(p, 2)), d1("$rename", d1(p, "q")), d1("$pop", d1(p, 1)), d1("$min", d1(p, 0)), d1("$setOnInsert", d1(p, 0)), d1(p, 1), D{{"$set", d1(p, 9)}, {"$foo", d1("q", 1)}}, D{{"$foo", d1("q", 1)}, {"$set", d1(p, 9)}}, D{{"$set", d1(p, 9)}, {"b", 1}}, d1("$pullAll", d1(p, A{1})))
	}
	for _, op := range []string{"$set", "$unset", "$inc", "$push", "$pull", "$addToSet"} {
		for _, v := range []any{1, nil, "a", A{d1("a", 1)}, d1("", 1), d1(".", 1), d1("a.", 1), d1(".a", 1), d1("a..x", 1), d1("$a", 1), d1("a.$", 1), d1("a.$[]", 1), d1("a.-1", 1), d1("a.-1.x", 1), d1("new.-1", 1), d1("a.+1", 1), d1("a.01", 1), d1("a.99999999999999999999", 1), d1("a.9223372036854775807", 1), d1("a.99999999999.x", 1), d1("new.99999999999", 1), D{{"a", 1}, {"a", 2}}, D{{"a.x", 1}, {"a", 1}}, D{{"a", 1}, {"a.0", 1}}, D{{"a.x", 1}, {"a.xy", 1}}, D{}} {
			out = append(out, d1(op, v))
		}
		for _, op2 := range []string{"$set", "$unset", "$inc", "$push", "$pull", "$addToSet"} {
			out = append(out, D{{op, d1("a", 1)}, {op2, d1("a", 1)}}, D{{op, d1("b.x", 1)}, {op2, d1("b", 1)}}, D{{op, d1("new", 1)}, {op2, d1("new.x", 1)}})
		}
	}
	return out
}

func combos(r *rep.R) []D {
	ps := []string{"a", "a.x", "a.0", "a.1", "b", "new", "new.x", "a.x.y"}
	type one struct {
		op string
		e  bson.E
	}
	var all []one
	for _, p := range ps {
		for _, x := range []one{{"$set", bson.E{p, 9}}, {"$set", bson.E{p, d1("x", A{})}}, {"$unset", bson.E{p, ""}}, {"$inc", bson.E{p, 2}}, {"$push", bson.E{p, 1}}, {"$addToSet", bson.E{p, 1}}, {"$pull", bson.E{p, 1}}, {"$pull", bson.E{p, d1("x", 1)}}} {
			all = append(all, x)
		}
	}
	var out []D
	pair := func(x, y one) D {
		if x.op == y.op {
			return d1(x.op, D{x.e, y.e})
		}
		return D{{x.op, D{x.e}}, {y.op, D{y.e}}}
	}
	for i, x := range all {
		for j, y := range all {
			out = append(out, pair(x, y))
			if k := i*len(all) + j; k%rep.Pick(r, 23, 3) == 0 {
				z := all[(i*7+j*3+5)%len(all)]
				if z.op != x.op && z.op != y.op {
					out = append(out, append(pair(x, y), bson.E{z.op, D{z.e}}))
				}
			}
		}
	}
	return out
}

type store struct {
	c     backend.NoSQLCollection
	state []D
}

var ctx = context.Background()

func (s *store) fill(ds []D) {
	db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
	s.c, _ = db.GetCollection(ctx, "db", "c")
	s.state = nil
	for _, d := range ds {
		if err := s.c.InsertOne(ctx, d); err != nil {
			panic(err)
		}
		s.state = append(s.state, mongo.CanonD(d))
	}
}

func (s *store) read() []D {
	cur, err := s.c.FindMany(ctx, D{})
	if err != nil {
		panic(err)
	}
	var out []D
	if err := cur.All(ctx, &out); err != nil {
		panic(fmt.Sprint("the stored documents cannot be read any more: ", err))
	}
	return out
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	ds := docs()
	var canon []D
	for _, d := range ds {
		canon = append(canon, mongo.CanonD(d))
	}
	type space struct {
		name string
		us   []D
		ds   []int
	}
	var allDocs, fewDocs []int
	for i := range ds {
		allDocs = append(allDocs, i)
		if i%3 == 0 || i > len(ds)-4 || r.Thorough {
			fewDocs = append(fewDocs, i)
		}
	}
	spaces := []space{{"single updates", singles(paths), allDocs}, {"malformed and unsupported updates", malformed(), allDocs}, {"combined updates", combos(r), fewDocs}}
	for _, s := range spaces {
		sp := &rep.Space{Name: s.name, Exhaustive: true, Bound: len(s.us)}
		outcomes := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan D, 64)
		for w := 0; w < runtime.GOMAXPROCS(0); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for u := range ch {
					msgs, n := tryUpdate(u, s.ds, ds, canon)
					mu.Lock()
					sp.Executions++
					sp.Transitions += n
					for i, m := range msgs {
						if i < 2 {
							r.Fail(rep.Violation{Sig: strings.ReplaceAll(fmt.Sprintf("%v/%T", u, u[0].Value), " ", "_"), Scenario: s.name, Input: fmt.Sprintf("%#v", u), Messages: []string{fmt.Sprintf("%v: %s", u, m)}})
						}
					}
					outcomes[fmt.Sprint(len(msgs), n)] = true
					mu.Unlock()
				}
			}()
		}
		for _, u := range s.us {
			if r.Expired() || r.NumViolations() > 200 {
				sp.Exhaustive = false
				break
			}
			ch <- u
		}
		close(ch)
		wg.Wait()
		sp.States, sp.Outcomes = len(s.ds), len(outcomes)
		r.Add(sp)
	}
	r.Sample(fmt.Sprintf("%d documents, e.g. %v", len(ds), canon[len(canon)-1]))
}

// tryUpdate applies u to every document on its own, and to all applicable ones at once, and to all of them with an inapplicable one among them.
func tryUpdate(u D, which []int, ds, canon []D) (msgs []string, n int) {
	defer func() {
		if e := recover(); e != nil {
			msgs = append(msgs, fmt.Sprint("panic: ", e))
		}
	}()
	st := mongo.ClassifyUpdate(u)
	var cu D
	if st != mongo.Malformed {
		cu = mongo.CanonD(u)
	}
	var s store
	var sub []D
	for _, i := range which {
		sub = append(sub, ds[i])
	}
	s.fill(sub)
	cur := append([]D{}, s.state...)
	apply := func(name string, filter D, many bool, targets []int, mayRefuse bool) bool {
		n++
		want := append([]D{}, cur...)
		ok := st != mongo.Malformed
		for _, t := range targets {
			if ok {
				var d D
				if d, ok = mongo.Update(cu, cur[t]); ok {
					want[t] = d
				}
			}
		}
		var cnt int
		var err error
		if many {
			cnt, err = s.c.UpdateMany(ctx, filter, u)
		} else {
			cnt, err = s.c.UpdateOne(ctx, filter, u)
		}
		if err != nil && ok && st == mongo.OK {
			msgs = append(msgs, fmt.Sprintf("%s: refused: %v", name, err))
			return false
		}
		if err == nil && !ok && len(targets) > 0 {
			msgs = append(msgs, fmt.Sprintf("%s: accepted although not applicable; the document is now %v", name, s.read()[targets[0]]))
			return false
		}
		if err != nil {
			want = cur
		} else if cnt != len(targets) {
			msgs = append(msgs, fmt.Sprintf("%s: reports %d documents, %d match", name, cnt, len(targets)))
			return false
		}
		got := s.read()
		if len(got) != len(want) {
			msgs = append(msgs, fmt.Sprintf("%s: now %d documents", name, len(got)))
			return false
		}
		for i := range got {
			if !mongo.Same(got[i], want[i], cur[i]) {
				msgs = append(msgs, fmt.Sprintf("%s: document %v is now %v, want %v (error %v)", name, cur[i], got[i], want[i], err))
				return false
			}
		}
		cur = got
		return true
	}
	for t, i := range which {
		if !apply(fmt.Sprintf("UpdateOne on %v", canon[i]), d1("n", i), false, []int{t}, false) {
			s.fill(sub)
			cur = append([]D{}, s.state...)
			if len(msgs) > 3 {
				return
			}
		}
	}
	// UpdateMany on a fresh store
	s.fill(sub)
	cur = append([]D{}, s.state...)
	apply("UpdateOne without match", d1("n", -1), false, nil, true)
	var good, everything []int
	ids := A{}
	for t, i := range which {
		everything = append(everything, t)
		if st != mongo.Malformed {
			if _, ok := mongo.Update(cu, cur[t]); ok {
				good = append(good, t)
				ids = append(ids, i)
			}
		}
	}
	if !apply("UpdateMany on all applicable", d1("n", d1("$in", ids)), true, good, len(good) == 0) {
		return
	}
	s.fill(sub)
	cur = append([]D{}, s.state...)
	apply("UpdateMany on all", D{}, true, everything, false)
	return
}

var _ = primitive.ObjectID{}
var _ = reflect.DeepEqual
