package r06

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif.local/h/mongo"
	"verif.local/h/rep"
)

type D = bson.D
type A = bson.A
type Str string
type Pt struct {
	X int
	Y string
}

func d1(k string, v any) D { return D{{k, v}} }

var oid = primitive.ObjectID{1, 2, 3}
var when = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

const big = int64(1) << 53

// docs lists the stored documents: every value of the alphabet under field a, crossed with a few values of field b.
func docs(deep bool) []D {
	scal := []any{int32(0), int32(1), int32(2), int64(1), 1.0, 1.5, 2.0, "", "a", "b", "ab", true, false, nil, big + 1, float64(big)}
	vals := append([]any{}, scal...)
	vals = append(vals, oid, when, -1)
	arr := []any{1, 2, "a", nil, 1.5}
	vals = append(vals, A{}, A{1, 2, 3}, A{0, 3}, A{"a", "b", 1})
	for _, x := range arr {
		vals = append(vals, A{x})
		for _, y := range arr {
			vals = append(vals, A{x, y})
		}
	}
	vals = append(vals, A{A{1}}, A{A{1, 2}}, A{A{1, 2}, 1}, A{A{}}, A{A{"a"}, A{"b"}})
	sub := []any{1, 2, "a", nil, A{1, 2}, A{1}, A{2, 1}, A{}, D{}, d1("y", 1), d1("y", "a"), D{{"y", 2}, {"z", 1}}, A{d1("y", 1)}, A{d1("y", 2), d1("z", 1)}, A{d1("y", 1), d1("y", 2)}}
	vals = append(vals, D{})
	for _, s := range sub {
		vals = append(vals, d1("x", s), D{{"x", s}, {"y", 1}}, d1("y", s), A{d1("x", s)})
	}
	vals = append(vals, D{{"y", 1}, {"x", 1}}, D{{"x", 1}, {"y", 2}}, d1("0", 1), d1("0", d1("x", 1)), D{{"x", 1}, {"y", 1}, {"z", 1}})
	elems := []any{d1("x", 1), d1("x", 2), d1("y", 1), D{{"x", 1}, {"y", 2}}, D{{"x", 2}, {"y", 1}}, D{}, 1, d1("x", A{1, 2})}
	for _, x := range elems {
		for _, y := range elems {
			vals = append(vals, A{x, y})
		}
	}
	out := []D{{}, d1("b", 1)}
	for i, v := range vals {
		out = append(out, d1("a", v))
		out = append(out, D{{"b", []any{1, "a", A{1, 2}, d1("x", 1)}[i%4]}, {"a", v}})
	}
	for i := range out {
		out[i] = append(D{{"n", i}}, out[i]...)
	}
	return out
}

var paths = []string{"a", "a.x", "a.x.y", "a.0", "a.1", "a.0.x", "a.x.0", "a.x.0.y", "b", "c.d", "n"}

func literals() []any {
	return []any{0, 1, 2, int64(1), int8(1), uint8(1), uint32(2), float32(1.5), 1.0, 1.5, big, big + 1, float64(big), "", "a", "b", Str("a"), true, false, nil, oid, when,
		A{}, A{1}, A{1, 2}, A{2, 1}, A{1, 2, 3}, A{"a"}, A{d1("x", 1)}, A{d1("y", 1), d1("y", 2)}, A{1.0, int64(2)}, A{nil}, A{A{1, 2}}, A{1, A{2}},
		D{}, d1("x", 1), D{{"x", 1}, {"y", 1}}, D{{"y", 1}, {"x", 1}}, D{{"x", 1}, {"y", 2}}, d1("x", d1("y", 1)), d1("x", A{1, 2}), d1("x", nil), d1("x", A{}), d1("x", A{1}), []string{"a", "b"}, []int{1, 2}, []int{1}, Pt{1, "a"}}
}

func ops(path string) []D {
	var out []D
	add := func(k string, v any) { out = append(out, d1(k, v)) }
	for _, l := range literals() {
		add("$eq", l)
		add("$ne", l)
	}
	for _, op := range []string{"$gt", "$gte", "$lt", "$lte"} {
		for _, v := range []any{0, 1, int64(1), int32(2), 1.0, 1.5, float32(2), big, big + 1, float64(big), uint8(1), "a", nil, when, A{1}, d1("x", 1)} {
			add(op, v)
		}
	}
	for _, l := range []any{A{}, A{1}, A{1, 2}, A{"a", 1.5}, A{nil}, A{nil, 1}, A{A{1, 2}}, A{A{}}, A{d1("x", 1), 3}, A{d1("y", 1)}, []string{"a"}, []string{}, []int{1, 7}, []any{2, "b"}, A{uint16(1)}, A{Str("a")}} {
		add("$in", l)
		add("$all", l)
	}
	add("$all", A{1, 1})
	add("$all", A{1, 2, 3})
	add("$all", A{2, A{1, 2}})
	for _, re := range []string{"", "a", "^b", "^a$", "a|b", "["} {
		add("$regex", re)
	}
	add("$exists", true)
	add("$exists", false)
	for _, q := range []D{{}, d1("x", 1), d1("x", d1("$gt", 1)), d1("y", d1("$ne", 1)), D{{"x", 1}, {"y", 2}}, d1("x", d1("$exists", false)), d1("x", d1("$in", A{1, 2})),
		d1("$or", A{d1("x", 2), d1("y", 2)}), d1("$nor", A{d1("x", 1)}), d1("$and", A{d1("x", 1), d1("y", d1("$gte", 2))}), d1("x.y", 1), d1("$not", d1("x", 1)), d1("x", nil), d1("y", A{1, 2}), d1("x", A{1, 2}), d1("x", d1("$all", A{1, 2}))} {
		add("$elemMatch", q)
	}
	return out
}

// malformed conditions and operators
func malformed() []D {
	var out []D
	for _, v := range []D{d1("$nin", A{1}), d1("$size", 1), d1("$type", "int"), d1("$mod", A{2, 0}), d1("$text", "a"), d1("$where", "1"), d1("$expr", d1("$gt", A{"$a", 1})), d1("$not", d1("$gt", 1)), d1("$foo", 1),
		d1("$in", 1), d1("$in", "ab"), d1("$in", nil), d1("$in", d1("x", 1)), d1("$all", 1), d1("$all", nil), d1("$elemMatch", 1), d1("$elemMatch", A{1}), d1("$elemMatch", d1("$gt", 1)), d1("$regex", 1), d1("$regex", "("), d1("$exists", 1), d1("$exists", "yes"), d1("$exists", nil),
		D{{"$gt", 0}, {"$size", 1}}, D{{"$all", A{1}}, {"$size", 1}}, D{{"$gt", 0}, {"x", 1}}, D{{"x", 1}, {"$gt", 0}}, D{{"$exists", false}, {"$foo", 1}}, D{{"$foo", 1}, {"$exists", false}}, D{{"$exists", true}, {"$foo", 1}}, d1("$eq", d1("$gt", 1)), d1("$ne", d1("$gt", 1)), d1("$in", A{d1("$gt", 1)}), d1("x", d1("$gt", 1)), d1("$all", A{d1("$elemMatch", d1("x", 1))}),
		d1("$eq", A{d1("$gt", 1)}), d1("$elemMatch", d1("x", d1("$foo", 1))), d1("$eq", bson.M{"x": 1}), d1("$eq", bson.E{"x", 1})} {
		for _, p := range []string{"a", "a.x", "zz"} {
			out = append(out, d1(p, v))
		}
	}
	for _, q := range []any{1, "a", nil, A{1}, A{}, d1("a", 1), A{d1("a", 1), 1}, A{d1("a", d1("$foo", 1))}, A{d1("a", 1), d1("$bar", 1)}, []D{d1("a", 1)}, A{A{d1("a", 1)}}, bson.M{"a": 1}, A{bson.M{"a": 1}}} {
		for _, op := range []string{"$and", "$or", "$nor", "$not"} {
			out = append(out, d1(op, q))
			out = append(out, d1("$and", A{d1(op, q)}))
			out = append(out, d1("a", d1("$elemMatch", d1(op, q))))
		}
	}
	for _, k := range []string{"$foo", "$gt", "$eq", "$in", "$where", "$expr", "$text", "$"} {
		out = append(out, d1(k, 1), d1(k, A{}), D{{"a", 1}, {k, 1}})
	}
	return append(out, d1("a", bson.M{"x": 1}), d1("a", bson.E{"x", 1}), d1("a", A{bson.M{"x": 1}}), d1("a", A{A{1}}), d1("a.-1", 1), d1("a.-1.x", 1), d1("-1", 1), d1("", 1), d1(".", 1), d1("a.", 1), d1("a..x", 1), d1("a.99999999999999999999", 1), d1("a.99999999", 1), d1("a.-1", d1("$exists", false)), d1("a", d1("$regex", primitive.Regex{Pattern: "a"})))
}

// ambiguous excludes filters on which MongoDB's own behaviour is not a documented contract: null against array positions.
func nullInArrayPath(f D) bool {
	s := fmt.Sprintf("%v", f)
	return (strings.Contains(s, "a.0") || strings.Contains(s, "a.1") || strings.Contains(s, "x.0")) && strings.Contains(s, "<nil>")
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	ds := docs(r.Thorough)
	canon := make([]D, len(ds))
	for i, d := range ds {
		canon[i] = mongo.CanonD(d)
	}
	ctx := context.Background()
	open := func() backend.NoSQLCollection {
		db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
		c, _ := db.GetCollection(ctx, "db", "c")
		for i, d := range ds {
			var err error
			if i%2 == 0 {
				err = c.InsertOne(ctx, d)
			} else {
				err = c.InsertMany(ctx, []any{d})
			}
			if err != nil {
				t.Fatal(err)
			}
		}
		return c
	}
	type space struct {
		name string
		fs   []D
	}
	var spaces []space
	// 1. every single condition
	var atoms []D
	for _, p := range paths {
		for _, l := range literals() {
			atoms = append(atoms, d1(p, l))
		}
		for _, o := range ops(p) {
			atoms = append(atoms, d1(p, o))
		}
	}
	spaces = append(spaces, space{"single conditions", append([]D{{}}, atoms...)})
	// 2. pairs of operators on one path
	var pairs []D
	reps := []D{}
	for _, o := range ops("a") {
		switch fmt.Sprint(o[0].Value) {
		case "1", "a", "[1 2]", "[]", "true", "false", "[{x 1}]", "2", "[1]", "^b", "{[{x 1}]}", "1.5", "[{x 2}]", "<nil>":
			if _, isU := o[0].Value.(uint8); !isU {
				reps = append(reps, o)
			}
		}
	}
	pp := rep.Pick(r, []string{"a", "a.x"}, paths)
	for _, p := range pp {
		for _, x := range reps {
			for _, y := range reps {
				pairs = append(pairs, d1(p, D{x[0], y[0]}))
			}
		}
	}
	spaces = append(spaces, space{"pairs of operators on one path", pairs})
	// 3. logical combinations
	base := []D{{}, d1("a", 1), d1("a", "a"), d1("a", A{1, 2}), d1("a", nil), d1("a.x", 1), d1("a", d1("$gt", 1)), d1("a", d1("$ne", 1)), d1("a.x", d1("$ne", 1)), d1("a", d1("$exists", true)), d1("a.y", d1("$exists", false)), d1("a", d1("$in", A{1, "a"})), d1("a", d1("$regex", "^a")),
		d1("b", 1), d1("b", d1("$lte", 1)), d1("b.x", 1), d1("a", d1("$all", A{1, 2})), d1("a", d1("$elemMatch", d1("x", 1))), d1("a.0", 1), d1("a", d1("x", 1)), D{{"a", 1}, {"b", 1}}}
	lvl := base
	var logical []D
	for depth := 0; depth < 2; depth++ {
		var next []D
		for i, x := range lvl {
			next = append(next, d1("$not", x), d1("$nor", A{x}), d1("$or", A{x}), d1("$and", A{x}))
			for j, y := range lvl {
				if depth == 1 && (i*7+j)%rep.Pick(r, 997, 61) != 0 {
					continue
				}
				next = append(next, d1("$and", A{x, y}), d1("$or", A{x, y}), d1("$nor", A{x, y}))
				if i != j {
					next = append(next, append(append(D{}, x...), y...))
				}
			}
		}
		for _, x := range base[:10] {
			next = append(next, d1("$or", A{x, d1("b", 1), d1("a", 2)}), d1("$and", A{x, d1("b", 1), d1("n", d1("$gt", 3))}), d1("$nor", A{x, d1("b", 1), d1("a", 2)}))
		}
		logical = append(logical, next...)
		lvl = next
	}
	spaces = append(spaces, space{"logical combinations", logical})
	spaces = append(spaces, space{"malformed and unsupported filters", malformed()})
	cols := []backend.NoSQLCollection{}
	for i := 0; i < runtime.GOMAXPROCS(0); i++ {
		cols = append(cols, open())
	}
	before := fmt.Sprint(cols[0])
	for _, s := range spaces {
		sp := &rep.Space{Name: s.name, Exhaustive: true, Bound: len(s.fs)}
		outcomes := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		ch := make(chan D, 64)
		for _, c := range cols {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for f := range ch {
					if nullInArrayPath(f) {
						continue
					}
					msg, out := check(ctx, c, f, canon)
					mu.Lock()
					sp.Executions++
					sp.Transitions += len(ds)
					outcomes[out] = true
					if msg != "" {
						r.Fail(rep.Violation{Sig: sig(f), Scenario: s.name, Input: fmt.Sprintf("%#v", f), Messages: []string{msg}})
					}
					mu.Unlock()
				}
			}()
		}
		for _, f := range s.fs {
			if r.Expired() {
				sp.Exhaustive = false
				break
			}
			ch <- f
		}
		close(ch)
		wg.Wait()
		sp.States, sp.Outcomes = len(ds), len(outcomes)
		r.Add(sp)
	}
	projections(ctx, r)
	if !strings.Contains(before, "ObjectID") {
		t.Fatal("cannot see the stored documents")
	}
	ids := map[string]bool{}
	for _, c := range cols {
		var all []D
		cur, err := c.FindMany(ctx, D{})
		if err == nil {
			err = cur.All(ctx, &all)
		}
		if err != nil || len(all) != len(canon) {
			r.Fail(rep.Violation{Sig: "changed", Scenario: "store after all queries", Messages: []string{fmt.Sprintf("%d documents, %v", len(all), err)}})
			continue
		}
		for i, d := range all {
			if d[0].Key != "_id" || ids[fmt.Sprint(d[0])] || !reflect.DeepEqual(D(d[1:]), canon[i]) {
				r.Fail(rep.Violation{Sig: "changed", Scenario: "store after all queries", Messages: []string{fmt.Sprintf("document %d is now %v, was %v", i, d, canon[i])}})
			}
			ids[fmt.Sprint(d[0])] = true
		}
	}
	r.Sample(fmt.Sprintf("%d stored documents, e.g. %v", len(ds), canon[len(canon)-1]))
}

// projections: a requested projection is applied (a known finding: the store ignores it).
func projections(ctx context.Context, r *rep.R) {
	sp := &rep.Space{Name: "projections", Exhaustive: true, Bound: 1}
	db, _ := simplenosqldb.NewSimpleNoSQLDB(ctx)
	c, _ := db.GetCollection(ctx, "db", "p")
	full := D{{"_id", 1}, {"a", 1}, {"b", 2}}
	if err := c.InsertOne(ctx, full); err != nil {
		r.Fail(rep.Violation{Sig: "projection-insert", Scenario: "projections", Messages: []string{err.Error()}})
	}
	for _, p := range []struct{ p, want D }{{D{{"a", 1}}, D{{"_id", 1}, {"a", 1}}}, {D{{"a", 0}}, D{{"_id", 1}, {"b", 2}}}, {D{{"_id", 0}, {"b", true}}, D{{"b", 2}}}} {
		for _, find := range []func(context.Context, bson.D, ...bson.D) (backend.NoSQLCursor, error){c.FindMany, c.FindOne} {
			var got D
			cur, err := find(ctx, D{}, p.p)
			if err == nil {
				_, err = cur.One(ctx, &got)
			}
			sp.Executions++
			switch {
			case err != nil || mongo.Equal(mongo.CanonD(got), mongo.CanonD(p.want)):
			case mongo.Equal(mongo.CanonD(got), mongo.CanonD(full)):
				r.Fail(rep.Violation{Sig: "projection-ignored", Scenario: "projections", Messages: []string{fmt.Sprintf("projection %v returned the whole document %v", p.p, got)}})
			default:
				r.Fail(rep.Violation{Sig: "projection-wrong", Scenario: "projections", Messages: []string{fmt.Sprintf("projection %v returned %v, want %v", p.p, got, p.want)}})
			}
		}
	}
	sp.States, sp.Transitions, sp.Outcomes = 1, sp.Executions, 1
	r.Add(sp)
}

func sig(f D) string {
	s := fmt.Sprintf("%T%v", f, f)
	if len(f) > 0 {
		s = fmt.Sprintf("%v/%T", f, f[0].Value)
		if d, ok := f[0].Value.(D); ok && len(d) > 0 {
			s += fmt.Sprintf("/%T", d[0].Value)
		}
	}
	return strings.ReplaceAll(s, " ", "_")
}

func check(ctx context.Context, c backend.NoSQLCollection, f D, canon []D) (msg, outcome string) {
	st := mongo.Classify(f)
	var got []int
	var one []int
	var err, err1 error
	p := rep.Guard(func() {
		var cur backend.NoSQLCursor
		if cur, err = c.FindMany(ctx, f); err == nil {
			var res []struct{ N int }
			err = cur.All(ctx, &res)
			for _, x := range res {
				got = append(got, x.N)
			}
		}
		if cur, err1 = c.FindOne(ctx, f); err1 == nil {
			var res struct{ N int }
			var ok bool
			ok, err1 = cur.One(ctx, &res)
			if ok && err1 == nil {
				one = append(one, res.N)
			}
		}
	})
	if p != "" {
		return p, "panic"
	}
	if (err == nil) != (err1 == nil) {
		return fmt.Sprintf("FindMany: %v but FindOne: %v", err, err1), ""
	}
	if err != nil {
		if st == mongo.OK {
			return fmt.Sprintf("refused: %v", err), "refused"
		}
		return "", "refused"
	}
	if st == mongo.Malformed {
		return fmt.Sprintf("accepted although malformed or unsupported; matches %d documents", len(got)), ""
	}
	cf := mongo.CanonD(f)
	var want []int
	for i, d := range canon {
		if mongo.Match(cf, d) {
			want = append(want, i)
		}
	}
	outcome = fmt.Sprint(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		in := func(l []int) map[int]bool {
			m := map[int]bool{}
			for _, x := range l {
				m[x] = true
			}
			return m
		}
		g, w := in(got), in(want)
		var extra, lack []string
		for i := range canon {
			if g[i] && !w[i] {
				extra = append(extra, fmt.Sprint(canon[i]))
			}
			if !g[i] && w[i] {
				lack = append(lack, fmt.Sprint(canon[i]))
			}
		}
		cut := func(l []string) []string {
			if len(l) > 6 {
				sort.SliceStable(l, func(i, j int) bool { return len(l[i]) < len(l[j]) })
				l = l[:6]
			}
			return l
		}
		return fmt.Sprintf("%v: %d of %d matching documents returned; wrongly returned: %v; not returned: %v; order kept: %v", f, len(got), len(want), cut(extra), cut(lack), sort.IntsAreSorted(got)), outcome
	}
	if len(want) > 0 != (len(one) == 1) || len(one) == 1 && one[0] != want[0] {
		return fmt.Sprintf("%v: FindOne returned %v, want the first of %v", f, one, want), outcome
	}
	return "", outcome
}
