// Package one has services that more than one interface, struct or constructor stands for.
package one

import "context"

type First interface {
	Do(ctx context.Context, n int) (int, error)
}

type Second interface {
	Do(ctx context.Context, n int) (int, error)
	Undo(ctx context.Context) error
}

type Impl struct{ label string }

func NewImpl(ctx context.Context) (*Impl, error)      { return &Impl{"new"}, nil }
func NewOtherImpl(ctx context.Context) (*Impl, error) { return &Impl{"other"}, nil }
func AnotherImpl(ctx context.Context) (*Impl, error)  { return &Impl{"another"}, nil }

func (i *Impl) Do(ctx context.Context, n int) (int, error) { return n, nil }
func (i *Impl) Undo(ctx context.Context) error             { return nil }

func MakeSecond(ctx context.Context) (Second, error) { return NewImpl(ctx) }
func NewSecond(ctx context.Context) (Second, error)  { return NewOtherImpl(ctx) }
