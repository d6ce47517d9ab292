// Package wraps has a service to wrap in clients, and a service that calls it. What the service answers is decided by
// the Probe in the context with which the application is built.
package wraps

import (
	"context"
	"errors"
	"sync"
)

type Thing struct {
	A int64
	B []string
	C map[string]*Thing
}

type Leaf interface {
	Ping(ctx context.Context) error
	Ask(ctx context.Context, a int64, b string) (int64, string, error)
	Get(ctx context.Context, x *Thing, l []Thing) (*Thing, error)
}

// Probe plays the service.
type Probe struct {
	// Handle answers a call of the service; results has the right length and types or is nil.
	Handle func(ctx context.Context, instance, method string, args ...any) (results []any, err error)

	mu     sync.Mutex
	Client map[string]Leaf // the client of each caller, by the caller's name
	Leaves []string        // the instances that were built, in order
}

type key struct{}

func With(ctx context.Context, p *Probe) context.Context {
	p.Client = map[string]Leaf{}
	return context.WithValue(ctx, key{}, p)
}

func probe(ctx context.Context) (*Probe, error) {
	p, _ := ctx.Value(key{}).(*Probe)
	if p == nil {
		return nil, errors.New("no probe")
	}
	return p, nil
}

type LeafImpl struct {
	p    *Probe
	name string
}

func NewLeafImpl(ctx context.Context, name string) (*LeafImpl, error) {
	p, err := probe(ctx)
	if err != nil {
		return nil, err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Leaves = append(p.Leaves, name)
	return &LeafImpl{p, name}, nil
}

func (l *LeafImpl) Ping(ctx context.Context) error {
	_, err := l.p.Handle(ctx, l.name, "Ping")
	return err
}

func (l *LeafImpl) Ask(ctx context.Context, a int64, b string) (int64, string, error) {
	r, err := l.p.Handle(ctx, l.name, "Ask", a, b)
	if r == nil {
		return 0, "", err
	}
	return r[0].(int64), r[1].(string), err
}

func (l *LeafImpl) Get(ctx context.Context, x *Thing, ts []Thing) (*Thing, error) {
	r, err := l.p.Handle(ctx, l.name, "Get", x, ts)
	if r == nil {
		return nil, err
	}
	return r[0].(*Thing), err
}

// Caller uses the service.
type Caller interface {
	Name(ctx context.Context) (string, error)
}

type CallerImpl struct{ name string }

func NewCallerImpl(ctx context.Context, leaf Leaf, name string) (*CallerImpl, error) {
	p, err := probe(ctx)
	if err != nil {
		return nil, err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.Client[name] = leaf
	return &CallerImpl{name}, nil
}

func (c *CallerImpl) Name(ctx context.Context) (string, error) { return c.name, nil }
