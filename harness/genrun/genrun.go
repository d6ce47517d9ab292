// Package genrun builds generated namespaces inside bubbles of virtual time. The root namespace of a process installs a
// signal handler, which a bubble cannot have, so the generated namespace is built below a root that already exists.
package genrun

import (
	"context"

	"github.com/blueprint-uservices/blueprint/runtime/plugins/golang"
)

// holder is the context of a root: its values are those of the run that uses the root.
type holder struct {
	context.Context
	cur context.Context
}

func (h *holder) Value(k any) any {
	if h.cur == nil {
		return h.Context.Value(k)
	}
	return h.cur.Value(k)
}

// Root is a root namespace; one generated namespace at a time can be built below it.
type Root struct {
	h *holder
	n *golang.Namespace
}

// NewRoot must be called outside of bubbles.
func NewRoot() *Root {
	h := &holder{Context: context.Background()}
	n, err := golang.NewNamespaceBuilder("root").Build(h)
	if err != nil {
		panic(err)
	}
	n.Context().Done() // makes the channel now, outside the bubbles
	return &Root{h, n}
}

// Build builds the namespace with the values of ctx. The function it returns ends it.
func (r *Root) Build(b *golang.NamespaceBuilder, ctx context.Context) (n *golang.Namespace, end func(), err error) {
	r.h.cur = ctx
	n, err = b.BuildWithParent(r.n)
	return n, func() {
		if n != nil {
			n.Shutdown(false)
		}
	}, err
}

var pool = make(chan *Root, 64)

func init() {
	for i := 0; i < cap(pool); i++ {
		pool <- NewRoot()
	}
}

// Build is Root.Build with a root that nobody else uses until the end.
func Build(b *golang.NamespaceBuilder, ctx context.Context) (n *golang.Namespace, end func(), err error) {
	var r *Root
	select {
	case r = <-pool:
	default:
		panic("no root namespace is left")
	}
	n, stop, err := r.Build(b, ctx)
	return n, func() { stop(); pool <- r }, err
}
