// Package chain has two services, each with one constructor.
package chain

import "context"

type Leaf interface {
	Ask(ctx context.Context, a int64) (int64, error)
}

type LeafImpl struct{}

func NewLeafImpl(ctx context.Context) (*LeafImpl, error) { return &LeafImpl{}, nil }

func (l *LeafImpl) Ask(ctx context.Context, a int64) (int64, error) { return a, nil }

type Client interface {
	Call(ctx context.Context, a int64) (int64, error)
}

type ClientImpl struct{ leaf Leaf }

func NewClientImpl(ctx context.Context, leaf Leaf) (*ClientImpl, error) {
	return &ClientImpl{leaf}, nil
}

func (c *ClientImpl) Call(ctx context.Context, a int64) (int64, error) { return c.leaf.Ask(ctx, a) }
