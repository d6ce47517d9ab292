// Package two has a further interface and implementation for the services of package one.
package two

import (
	"context"

	"verif.local/workflows/amb/one"
)

type Second interface {
	Do(ctx context.Context, n int) (int, error)
	Undo(ctx context.Context) error
}

type Impl struct{ next one.Second }

func NewImpl(ctx context.Context, next one.Second) (*Impl, error) { return &Impl{next}, nil }

func (i *Impl) Do(ctx context.Context, n int) (int, error) { return i.next.Do(ctx, n) }
func (i *Impl) Undo(ctx context.Context) error             { return i.next.Undo(ctx) }
