// Package places has services to place in containers: a leaf, services that call others, and one per kind of backend.
package places

import (
	"context"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
)

type Leaf interface {
	Ping(ctx context.Context, s string) (string, error)
}

type LeafImpl struct{}

func NewLeafImpl(ctx context.Context) (*LeafImpl, error) { return &LeafImpl{}, nil }

func (l *LeafImpl) Ping(ctx context.Context, s string) (string, error) { return s, nil }

type MidImpl struct{ next Leaf }

func NewMidImpl(ctx context.Context, next Leaf) (*MidImpl, error) { return &MidImpl{next}, nil }

func (m *MidImpl) Ping(ctx context.Context, s string) (string, error) { return m.next.Ping(ctx, s) }

type ForkImpl struct{ a, b Leaf }

func NewForkImpl(ctx context.Context, a Leaf, b Leaf) (*ForkImpl, error) {
	return &ForkImpl{a, b}, nil
}

func (f *ForkImpl) Ping(ctx context.Context, s string) (string, error) {
	if _, err := f.a.Ping(ctx, s); err != nil {
		return "", err
	}
	return f.b.Ping(ctx, s)
}

type CachedImpl struct{ c backend.Cache }

func NewCachedImpl(ctx context.Context, c backend.Cache) (*CachedImpl, error) {
	return &CachedImpl{c}, nil
}

func (l *CachedImpl) Ping(ctx context.Context, s string) (string, error) { return s, nil }

type DocImpl struct{ db backend.NoSQLDatabase }

func NewDocImpl(ctx context.Context, db backend.NoSQLDatabase) (*DocImpl, error) {
	return &DocImpl{db}, nil
}

func (l *DocImpl) Ping(ctx context.Context, s string) (string, error) { return s, nil }

type RelImpl struct{ db backend.RelationalDB }

func NewRelImpl(ctx context.Context, db backend.RelationalDB) (*RelImpl, error) {
	return &RelImpl{db}, nil
}

func (l *RelImpl) Ping(ctx context.Context, s string) (string, error) { return s, nil }

type QueuedImpl struct{ q backend.Queue }

func NewQueuedImpl(ctx context.Context, q backend.Queue) (*QueuedImpl, error) {
	return &QueuedImpl{q}, nil
}

func (l *QueuedImpl) Ping(ctx context.Context, s string) (string, error) { return s, nil }
