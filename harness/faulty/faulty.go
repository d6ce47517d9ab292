// Package faulty wraps backends so that the k-th call to any of them fails, before or after it took effect.
package faulty

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
)

var Err = errors.New("injected backend failure")

// Plan counts the calls that go through its wrappers and fails the FailAt-th (from 1).
type Plan struct {
	mu     sync.Mutex
	Calls  []string
	Labels []string // the calls with what they are about
	FailAt int
	Fail   string            // fails the FailAt-th call with this label, rather than the FailAt-th of all
	Late   bool              // the call takes effect and only then reports a failure
	Off    bool              // calls are not counted
	Before func(name string) // called before every call
}

func (p *Plan) call(name string, f func() error, about ...any) error {
	label := name + fmt.Sprint(about)
	if p.Before != nil {
		p.Before(name)
	}
	p.mu.Lock()
	fail := false
	if !p.Off {
		p.Calls = append(p.Calls, name)
		p.Labels = append(p.Labels, label)
		n := len(p.Calls)
		if p.Fail != "" {
			n = 0
			for _, l := range p.Labels {
				if l == p.Fail {
					n++
				}
			}
			if label != p.Fail {
				n = 0
			}
		}
		fail = p.FailAt > 0 && n == p.FailAt
	}
	p.mu.Unlock()
	if fail && !p.Late {
		return fmt.Errorf("%s: %w", name, Err)
	}
	err := f()
	if fail && err == nil {
		err = fmt.Errorf("%s: %w", name, Err)
	}
	return err
}

// Reset forgets the calls so far and arms a failure.
func (p *Plan) Reset(failAt int, late bool) {
	p.Calls, p.Labels, p.FailAt, p.Late, p.Fail = nil, nil, failAt, late, ""
}

// ResetLabel forgets the calls so far and arms a failure of the n-th call with this label.
func (p *Plan) ResetLabel(label string, n int, late bool) {
	p.Reset(n, late)
	p.Fail = label
}

// Faults lists the distinct calls so far as label and occurrence, in order; they can be made to fail with ResetLabel.
func (p *Plan) Faults() (labels []string, nth []int) {
	seen := map[string]int{}
	all := append([]string{}, p.Labels...)
	sort.Strings(all)
	for _, l := range all {
		seen[l]++
		labels, nth = append(labels, l), append(nth, seen[l])
	}
	return
}

type DB struct {
	P *Plan
	D backend.NoSQLDatabase
}

func (d DB) GetCollection(ctx context.Context, db, c string) (backend.NoSQLCollection, error) {
	var out backend.NoSQLCollection
	err := d.P.call("GetCollection", func() (err error) { out, err = d.D.GetCollection(ctx, db, c); return })
	if err != nil {
		return nil, err
	}
	return Coll{d.P, out}, nil
}

type Coll struct {
	P *Plan
	C backend.NoSQLCollection
}

func (c Coll) DeleteOne(ctx context.Context, f bson.D) error {
	return c.P.call("DeleteOne", func() error { return c.C.DeleteOne(ctx, f) }, f)
}
func (c Coll) DeleteMany(ctx context.Context, f bson.D) error {
	return c.P.call("DeleteMany", func() error { return c.C.DeleteMany(ctx, f) }, f)
}
func (c Coll) InsertOne(ctx context.Context, d interface{}) error {
	return c.P.call("InsertOne", func() error { return c.C.InsertOne(ctx, d) })
}
func (c Coll) InsertMany(ctx context.Context, d []interface{}) error {
	return c.P.call("InsertMany", func() error { return c.C.InsertMany(ctx, d) })
}
func (c Coll) FindOne(ctx context.Context, f bson.D, pr ...bson.D) (cur backend.NoSQLCursor, err error) {
	err = c.P.call("FindOne", func() (err error) { cur, err = c.C.FindOne(ctx, f, pr...); return }, f)
	if err != nil {
		return nil, err
	}
	return Cursor{c.P, cur, f}, nil
}
func (c Coll) FindMany(ctx context.Context, f bson.D, pr ...bson.D) (cur backend.NoSQLCursor, err error) {
	err = c.P.call("FindMany", func() (err error) { cur, err = c.C.FindMany(ctx, f, pr...); return }, f)
	if err != nil {
		return nil, err
	}
	return Cursor{c.P, cur, f}, nil
}
func (c Coll) UpdateOne(ctx context.Context, f, u bson.D) (n int, err error) {
	err = c.P.call("UpdateOne", func() (err error) { n, err = c.C.UpdateOne(ctx, f, u); return }, f)
	return
}
func (c Coll) UpdateMany(ctx context.Context, f, u bson.D) (n int, err error) {
	err = c.P.call("UpdateMany", func() (err error) { n, err = c.C.UpdateMany(ctx, f, u); return }, f)
	return
}
func (c Coll) Upsert(ctx context.Context, f bson.D, d interface{}) (b bool, err error) {
	err = c.P.call("Upsert", func() (err error) { b, err = c.C.Upsert(ctx, f, d); return }, f)
	return
}
func (c Coll) UpsertID(ctx context.Context, id primitive.ObjectID, d interface{}) (b bool, err error) {
	err = c.P.call("UpsertID", func() (err error) { b, err = c.C.UpsertID(ctx, id, d); return }, id)
	return
}
func (c Coll) ReplaceOne(ctx context.Context, f bson.D, d interface{}) (n int, err error) {
	err = c.P.call("ReplaceOne", func() (err error) { n, err = c.C.ReplaceOne(ctx, f, d); return }, f)
	return
}
func (c Coll) ReplaceMany(ctx context.Context, f bson.D, d ...interface{}) (n int, err error) {
	err = c.P.call("ReplaceMany", func() (err error) { n, err = c.C.ReplaceMany(ctx, f, d...); return }, f)
	return
}

type Cursor struct {
	P     *Plan
	C     backend.NoSQLCursor
	About any
}

func (c Cursor) One(ctx context.Context, obj interface{}) (b bool, err error) {
	err = c.P.call("One", func() (err error) { b, err = c.C.One(ctx, obj); return }, c.About)
	return
}
func (c Cursor) All(ctx context.Context, obj interface{}) error {
	return c.P.call("All", func() error { return c.C.All(ctx, obj) }, c.About)
}

// Volatile is a cache from which entries can disappear.
type Volatile struct {
	backend.Cache
	mu   sync.Mutex
	keys map[string]bool
}

func NewVolatile(c backend.Cache) *Volatile { return &Volatile{Cache: c, keys: map[string]bool{}} }

func (v *Volatile) note(keys ...string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	for _, k := range keys {
		v.keys[k] = true
	}
}

func (v *Volatile) Put(ctx context.Context, k string, x interface{}) error {
	v.note(k)
	return v.Cache.Put(ctx, k, x)
}

func (v *Volatile) Mset(ctx context.Context, k []string, x []interface{}) error {
	v.note(k...)
	return v.Cache.Mset(ctx, k, x)
}

func (v *Volatile) Incr(ctx context.Context, k string) (int64, error) {
	v.note(k)
	return v.Cache.Incr(ctx, k)
}

// Keys lists the keys ever written, in order.
func (v *Volatile) Keys() (out []string) {
	v.mu.Lock()
	defer v.mu.Unlock()
	for k := range v.keys {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// Evict drops the keys that pick selects.
func (v *Volatile) Evict(pick func(i int, key string) bool) {
	for i, k := range v.Keys() {
		if pick == nil || pick(i, k) {
			v.Cache.Delete(context.Background(), k)
		}
	}
}

type Cache struct {
	P *Plan
	C backend.Cache
}

func (c Cache) Put(ctx context.Context, k string, v interface{}) error {
	return c.P.call("Put", func() error { return c.C.Put(ctx, k, v) }, k)
}
func (c Cache) Get(ctx context.Context, k string, v interface{}) (b bool, err error) {
	err = c.P.call("Get", func() (err error) { b, err = c.C.Get(ctx, k, v); return }, k)
	return
}
func (c Cache) Mset(ctx context.Context, k []string, v []interface{}) error {
	return c.P.call("Mset", func() error { return c.C.Mset(ctx, k, v) }, k)
}
func (c Cache) Mget(ctx context.Context, k []string, v []interface{}) error {
	return c.P.call("Mget", func() error { return c.C.Mget(ctx, k, v) }, k)
}
func (c Cache) Delete(ctx context.Context, k string) error {
	return c.P.call("Delete", func() error { return c.C.Delete(ctx, k) }, k)
}
func (c Cache) Incr(ctx context.Context, k string) (n int64, err error) {
	err = c.P.call("Incr", func() (err error) { n, err = c.C.Incr(ctx, k); return }, k)
	return
}

type Queue struct {
	P    *Plan
	Q    backend.Queue
	Full func() bool // when true, pushing is refused
}

func (q Queue) Push(ctx context.Context, v interface{}) (b bool, err error) {
	err = q.P.call("Push", func() (err error) {
		if q.Full != nil && q.Full() {
			return nil
		}
		b, err = q.Q.Push(ctx, v)
		return
	})
	return
}
func (q Queue) Pop(ctx context.Context, v interface{}) (b bool, err error) {
	return q.Q.Pop(ctx, v)
}
