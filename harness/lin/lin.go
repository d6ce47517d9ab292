// Package lin decides linearizability of small histories by exhaustive search.
package lin

import (
	"fmt"
	"strings"

	"verif.local/h/vsched"
)

// Model is a sequential specification. Step returns the possible next states for which op could return ret
// (ret is ignored when done is false: the operation was invoked but never returned).
type Model[S any] struct {
	Init func() S
	Step func(s S, call, ret any, done bool) []S
	Key  func(s S) string
}

// Check reports whether hist has a linearization; it returns a description if it has none.
func Check[S any](hist []vsched.Op, m Model[S]) []string {
	n := len(hist)
	if n > 30 {
		return nil
	}
	seen := map[string]bool{}
	var rec func(done uint32, s S) bool
	rec = func(done uint32, s S) bool {
		all := true
		for i := range hist {
			if done&(1<<i) == 0 && hist[i].Res >= 0 {
				all = false
			}
		}
		if all {
			return true
		}
		k := fmt.Sprint(done, "|", m.Key(s))
		if seen[k] {
			return false
		}
		seen[k] = true
		// minimal response among the remaining completed operations
		min := int(^uint(0) >> 1)
		for i, o := range hist {
			if done&(1<<i) == 0 && o.Res >= 0 && o.Res < min {
				min = o.Res
			}
		}
		for i, o := range hist {
			if done&(1<<i) != 0 || o.Inv > min {
				continue
			}
			for _, ns := range m.Step(s, o.Call, o.Ret, o.Res >= 0) {
				if rec(done|1<<i, ns) {
					return true
				}
			}
		}
		return false
	}
	if rec(0, m.Init()) {
		return nil
	}
	var b strings.Builder
	for _, o := range hist {
		fmt.Fprintf(&b, " [%d,%d] %s: %v -> %v;", o.Inv, o.Res, o.Task, o.Call, o.Ret)
	}
	return []string{"history is not linearizable:" + b.String()}
}
