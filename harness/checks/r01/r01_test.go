package r01

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"verif.local/h/lin"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

// A program is one string per task: each letter is an operation.
//   +  push with a background context      -  pop with a background context
//   a  push with the scenario's context    b  pop with the scenario's context
//   A  push with an already ended context  B  pop with an already ended context
//   x  cancel the scenario's context
// Values pushed are unique.

type call struct {
	kind byte
	val  int
}

func (c call) String() string {
	if c.kind == '-' || c.kind == 'b' || c.kind == 'B' {
		return "pop(" + string(c.kind) + ")"
	}
	if c.kind == 'x' {
		return "cancel"
	}
	return fmt.Sprintf("push(%c,%d)", c.kind, c.val)
}

type ret struct {
	ok  bool
	val int
	err string
}

const capacity = 10

func model(fill int) lin.Model[[]int] {
	return lin.Model[[]int]{
		Init: func() []int {
			var s []int
			for i := 0; i < fill; i++ {
				s = append(s, -1-i)
			}
			return s
		},
		Key: func(s []int) string { return fmt.Sprint(s) },
		Step: func(s []int, c, r any, done bool) [][]int {
			cl := c.(call)
			if cl.kind == 'x' {
				return [][]int{s}
			}
			if !done {
				return nil // operations that never returned must not have had an effect (checked below)
			}
			rt := r.(ret)
			if rt.err != "" {
				return nil
			}
			pop := strings.ContainsRune("-bB", rune(cl.kind))
			if pop {
				if !rt.ok {
					if len(s) == 0 {
						return [][]int{s}
					}
					return nil
				}
				if len(s) > 0 && s[0] == rt.val {
					return [][]int{s[1:]}
				}
				return nil
			}
			if !rt.ok {
				if len(s) == capacity {
					return [][]int{s}
				}
				return nil
			}
			if len(s) < capacity {
				return [][]int{append(append([]int{}, s...), cl.val)}
			}
			return nil
		},
	}
}

func scenario(fill int, progs []string) *vsched.Scenario {
	name := fmt.Sprintf("queue fill=%d %s", fill, strings.Join(progs, "|"))
	var q backend.Queue
	sc := &vsched.Scenario{Name: name, AllowStuck: true}
	sc.Setup = func(x *vsched.Exec) {
		ctx := context.Background()
		sq, err := simplequeue.NewSimpleQueue(ctx)
		if err != nil {
			panic(err)
		}
		q = sq
		for i := 0; i < fill; i++ {
			if ok, err := q.Push(ctx, -1-i); !ok || err != nil {
				panic(fmt.Sprint("fill failed ", ok, err))
			}
		}
		ended, cancel0 := context.WithCancel(ctx)
		cancel0()
		sctx, cancel := context.WithCancel(ctx)
		next := 0
		for ti, p := range progs {
			var calls []call
			for _, k := range p {
				next++
				calls = append(calls, call{byte(k), next})
			}
			x.Go(fmt.Sprint("t", ti), func() {
				for _, c := range calls {
					x.Call(c, func() any {
						cx := ctx
						switch c.kind {
						case 'a', 'b':
							cx = sctx
						case 'A', 'B':
							cx = ended
						case 'x':
							cancel()
							return ret{ok: true}
						}
						if strings.ContainsRune("-bB", rune(c.kind)) {
							v := 99999
							ok, err := q.Pop(cx, &v)
							r := ret{ok: ok, val: v}
							if err != nil {
								r.err = err.Error()
							}
							return r
						}
						ok, err := q.Push(cx, c.val)
						r := ret{ok: ok}
						if err != nil {
							r.err = err.Error()
						}
						return r
					})
				}
			})
		}
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		n := fill
		cancelInv := 1 << 30
		for _, o := range x.History() {
			if o.Call.(call).kind == 'x' {
				cancelInv = o.Inv
			}
		}
		stuckPush, stuckPop := 0, 0
		for _, o := range x.History() {
			c := o.Call.(call)
			pop := strings.ContainsRune("-bB", rune(c.kind))
			if c.kind == 'x' {
				continue
			}
			if o.Res < 0 {
				if pop {
					stuckPop++
				} else {
					stuckPush++
				}
				if c.kind == 'A' || c.kind == 'B' || ((c.kind == 'a' || c.kind == 'b') && cancelInv < 1<<30) {
					msgs = append(msgs, fmt.Sprintf("%v stays blocked although its context ended", c))
				}
				continue
			}
			r := o.Ret.(ret)
			if r.ok {
				if pop {
					n--
				} else {
					n++
				}
			} else {
				ended := c.kind == 'A' || c.kind == 'B' || ((c.kind == 'a' || c.kind == 'b') && cancelInv < o.Res)
				if !ended {
					msgs = append(msgs, fmt.Sprintf("%v reported false although its context had not ended", c))
				}
			}
			x.Outcome("%v=%v/%d", c, r.ok, r.val)
		}
		if stuckPop > 0 && n > 0 {
			msgs = append(msgs, fmt.Sprintf("a pop stays blocked although the queue holds %d items", n))
		}
		if stuckPush > 0 && n < capacity {
			msgs = append(msgs, fmt.Sprintf("a push stays blocked although the queue holds only %d items", n))
		}
		hist := append([]vsched.Op{}, x.History()...)
		if len(x.Stuck()) == 0 && len(msgs) == 0 {
			// drain what is left: it must be exactly the remaining items, in order
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			t := 1 << 20
			for i := 0; i < n+1; i++ {
				v := 99999
				ok, err := q.Pop(ctx, &v)
				r := ret{ok: ok, val: v}
				if err != nil {
					r.err = err.Error()
				}
				hist = append(hist, vsched.Op{Task: "drain", Call: call{kind: 'B'}, Ret: r, Inv: t, Res: t + 1})
				t += 2
			}
		}
		return append(msgs, lin.Check(hist, model(fill))...)
	}
	return sc
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	var progs [][]string
	// two tasks with one or two operations each; three tasks with one each
	ops2 := []string{"+", "-", "a", "b"}
	var seqs []string
	for _, a := range ops2 {
		seqs = append(seqs, a)
	}
	for _, a := range ops2 {
		for _, b := range ops2 {
			seqs = append(seqs, a+b)
		}
	}
	for i, a := range seqs {
		for _, b := range seqs[i:] {
			progs = append(progs, []string{a, b})
		}
	}
	// cancellation racing with delivery
	for _, a := range []string{"a", "b", "ab", "ba", "aa", "bb", "A", "B", "AB", "BA"} {
		progs = append(progs, []string{a, "x"})
		for _, b := range []string{"+", "-", "+-", "-+"} {
			progs = append(progs, []string{a, b, "x"})
		}
	}
	for _, a := range []string{"+", "-"} {
		for _, b := range []string{"+", "-"} {
			for _, c := range []string{"+", "-", "+-", "-+", "++", "--"} {
				progs = append(progs, []string{a, b, c})
			}
		}
	}
	bound := rep.Pick(r, 2, 4)
	var scs []*vsched.Scenario
	for _, fill := range []int{0, 1, 9, 10} {
		for _, p := range progs {
			scs = append(scs, scenario(fill, p))
		}
	}
	r.ExploreAll(scs, bound)
}
