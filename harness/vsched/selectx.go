package vsched

import (
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

// SCase is one case of a rewritten select statement.
type SCase struct{ c reflect.SelectCase }

func Recv[T any](ch <-chan T) SCase {
	return SCase{reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}}
}

func Send[T any](ch chan<- T, v T) SCase {
	return SCase{reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}}
}

// As converts the value received by Select to the channel's element type.
func As[T any](ch <-chan T, v reflect.Value) T {
	var z T
	if !v.IsValid() {
		return z
	}
	r, ok := v.Interface().(T)
	if !ok {
		return z
	}
	return r
}

// hchan mirrors the beginning of the runtime's channel header, to see without side effects whether an operation
// would proceed. layoutOK verifies at start-up that the mirror is right.
type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
	timer    unsafe.Pointer
	elemtype unsafe.Pointer
	sendx    uint
	recvx    uint
	recvq    [2]unsafe.Pointer
	sendq    [2]unsafe.Pointer
}

var layoutOK = func() bool {
	c := make(chan int, 2)
	h := *(**hchan)(unsafe.Pointer(&c))
	if h.qcount != 0 || h.dataqsiz != 2 || h.closed != 0 {
		return false
	}
	c <- 1
	if h.qcount != 1 || h.sendx != 1 {
		return false
	}
	close(c)
	if h.closed != 1 || h.recvq[0] != nil || h.sendq[0] != nil {
		return false
	}
	d := make(chan int)
	g := *(**hchan)(unsafe.Pointer(&d))
	go func() { d <- 1 }()
	for i := 0; i < 1000 && g.sendq[0] == nil; i++ {
		time.Sleep(time.Millisecond)
	}
	ok := g.sendq[0] != nil
	<-d
	return ok && g.sendq[0] == nil
}()

// ready reports whether the case can proceed now.
func (c SCase) ready() bool {
	p := c.c.Chan.UnsafePointer()
	if p == nil {
		return false
	}
	h := (*hchan)(p)
	if c.c.Dir == reflect.SelectRecv {
		return h.qcount > 0 || h.closed != 0 || h.sendq[0] != nil
	}
	return h.qcount < h.dataqsiz || h.closed != 0 || h.recvq[0] != nil
}

// Select executes a select statement; the explorer decides which of several ready cases is taken.
func Select(hasDefault bool, cases ...SCase) (int, reflect.Value, bool) {
	n := len(cases)
	if InTask() && n > 0 && layoutOK {
		Point("select")
		var rd []int
		for i, c := range cases {
			if c.ready() {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			i := rd[Choose(len(rd))]
			if c, v, ok := reflect.Select([]reflect.SelectCase{cases[i].c, {Dir: reflect.SelectDefault}}); c == 0 {
				return i, v, ok
			}
		} else if hasDefault {
			return -1, reflect.Value{}, false
		}
	}
	var scs []reflect.SelectCase
	for _, c := range cases {
		scs = append(scs, c.c)
	}
	if hasDefault {
		scs = append(scs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	c, v, ok := reflect.Select(scs)
	Woken("after select")
	if hasDefault && c == n {
		return -1, reflect.Value{}, false
	}
	return c, v, ok
}

// MapOrder is consulted for map iterations outside controlled tasks (nil: sorted order).
var MapOrder func(n int) []int

// Keys returns the keys of m in an order chosen by the explorer.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	strs := make(map[any]string, len(ks))
	for _, k := range ks {
		strs[any(k)] = fmt.Sprint(k)
	}
	sort.SliceStable(ks, func(i, j int) bool { return strs[any(ks[i])] < strs[any(ks[j])] })
	n := len(ks)
	if n <= 1 {
		return ks
	}
	if InTask() {
		out := make([]K, 0, n)
		if n <= 4 {
			rest := ks
			for len(rest) > 0 {
				i := Choose(len(rest))
				out = append(out, rest[i])
				rest = append(append([]K{}, rest[:i]...), rest[i+1:]...)
			}
			return out
		}
		if Choose(2) == 1 {
			for i := n - 1; i >= 0; i-- {
				out = append(out, ks[i])
			}
			return out
		}
		return ks
	}
	if MapOrder != nil {
		out := make([]K, n)
		for i, j := range MapOrder(n) {
			out[i] = ks[j]
		}
		return out
	}
	return ks
}
