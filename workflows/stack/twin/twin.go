// Package twin declares an interface with the name of another package's interface.
package twin

import (
	"context"

	"verif.local/workflows/stack/stack"
)

type Store interface {
	Twice(ctx context.Context, s string) (string, error)
}

type StoreImpl struct{ label string }

func NewStoreImpl(ctx context.Context, label string) (*StoreImpl, error) {
	return &StoreImpl{label}, nil
}

func (s *StoreImpl) Twice(ctx context.Context, v string) (string, error) {
	stack.Called(ctx, "Twice "+s.label)
	return v + v + s.label, nil
}
