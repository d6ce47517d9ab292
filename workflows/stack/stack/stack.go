// Package stack is the workflow of check G01: a service Mid in front of two services Store with a cache each, and of a
// service of the same name from another package.
package stack

import (
	"context"
	"errors"
	"fmt"
	"sync"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.opentelemetry.io/otel/trace"
	"verif.local/workflows/stack/other"
)

type Sub struct {
	F float64
	B []byte
	O bool
}

type Item struct {
	Name string
	Tags []string
	N    int64
	M    map[string]int32
	S    Sub
	L    []Sub
}

type Store interface {
	Put(ctx context.Context, key string, item Item) (int64, error)
	Get(ctx context.Context, key string) (Item, bool, error)
	Nothing(ctx context.Context) error
	Fail(ctx context.Context, msg string, n int) (string, error)
}

type Mid interface {
	Relay(ctx context.Context, key string, items []Item) ([]Item, map[string]int64, error)
	Boom(ctx context.Context, msg string, kind int) (string, error)
}

// Calls counts the executed calls and records their traces.
type Calls struct {
	sync.Mutex
	N      map[string]int
	Traces map[string]bool
}

var calls = Calls{N: map[string]int{}, Traces: map[string]bool{}}

func Called(ctx context.Context, what string) {
	calls.Lock()
	defer calls.Unlock()
	calls.N[what]++
	if s := trace.SpanContextFromContext(ctx); s.IsValid() {
		calls.Traces[s.TraceID().String()] = true
	} else {
		calls.Traces["none"] = true
	}
}

// Took returns the calls executed since the last Took.
func Took() (map[string]int, map[string]bool) {
	calls.Lock()
	defer calls.Unlock()
	n, t := calls.N, calls.Traces
	calls.N, calls.Traces = map[string]int{}, map[string]bool{}
	return n, t
}

type StoreImpl struct {
	cache backend.Cache
	label string
}

func NewStoreImpl(ctx context.Context, cache backend.Cache, label string) (*StoreImpl, error) {
	return &StoreImpl{cache, label}, nil
}

func (s *StoreImpl) Put(ctx context.Context, key string, item Item) (int64, error) {
	Called(ctx, "Put "+s.label)
	item.Name += "@" + s.label
	if err := s.cache.Put(ctx, key, item); err != nil {
		return 0, err
	}
	return s.cache.Incr(ctx, "count")
}

func (s *StoreImpl) Get(ctx context.Context, key string) (Item, bool, error) {
	Called(ctx, "Get "+s.label)
	var item Item
	ok, err := s.cache.Get(ctx, key, &item)
	return item, ok, err
}

func (s *StoreImpl) Nothing(ctx context.Context) error {
	Called(ctx, "Nothing "+s.label)
	return nil
}

func (s *StoreImpl) Fail(ctx context.Context, msg string, n int) (string, error) {
	Called(ctx, "Fail "+s.label)
	if n < 0 {
		return fmt.Sprint("fine ", n), nil
	}
	return "partial", errors.New(msg)
}

type MidImpl struct {
	a, b  Store
	o     other.Summer
	label string
}

func NewMidImpl(ctx context.Context, a Store, b Store, o other.Summer, label string) (*MidImpl, error) {
	return &MidImpl{a, b, o, label}, nil
}

func (m *MidImpl) Relay(ctx context.Context, key string, items []Item) ([]Item, map[string]int64, error) {
	Called(ctx, "Relay "+m.label)
	counts := map[string]int64{m.label: int64(len(items))}
	var out []Item
	for i, it := range items {
		k := fmt.Sprint(key, i)
		n, err := m.a.Put(ctx, k, it)
		if err != nil {
			return nil, nil, err
		}
		counts["a"] = n
		if n, err = m.b.Put(ctx, k, it); err != nil {
			return nil, nil, err
		}
		counts["b"] += n
		it, ok, err := m.a.Get(ctx, k)
		if err != nil || !ok {
			return nil, nil, fmt.Errorf("get: %v %v", ok, err)
		}
		out = append(out, it)
		if it, _, err = m.b.Get(ctx, k); err != nil {
			return nil, nil, err
		}
		out = append(out, it)
	}
	if err := m.a.Nothing(ctx); err != nil {
		return nil, nil, err
	}
	total, err := m.o.Sum(ctx, []int64{int64(len(items)), counts["a"], counts["b"]})
	counts["sum"] = total
	return out, counts, err
}

func (m *MidImpl) Boom(ctx context.Context, msg string, kind int) (string, error) {
	Called(ctx, "Boom "+m.label)
	switch kind {
	case 0:
		return m.a.Fail(ctx, msg, -1)
	case 1:
		return m.a.Fail(ctx, msg, 1)
	case 2:
		return m.b.Fail(ctx, msg, 1)
	case 3:
		_, err := m.o.Sum(ctx, nil)
		return "", err
	}
	return "", errors.New(msg + m.label)
}
