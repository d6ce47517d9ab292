// Package other has a service in a package of its own.
package other

import (
	"context"
	"errors"
	"fmt"
)

type Summer interface {
	Sum(ctx context.Context, vs []int64) (int64, error)
}

// Called is told about executed calls.
var Called func(ctx context.Context, what string)

type SummerImpl struct{ label string }

func NewSummerImpl(ctx context.Context, label string) (*SummerImpl, error) {
	return &SummerImpl{label}, nil
}

func (s *SummerImpl) Sum(ctx context.Context, vs []int64) (n int64, err error) {
	if Called != nil {
		Called(ctx, "Sum "+s.label)
	}
	if vs == nil {
		return 0, errors.New("no values for " + s.label)
	}
	for _, v := range vs {
		n += v
	}
	return n + int64(len(fmt.Sprint(s.label))), nil
}
