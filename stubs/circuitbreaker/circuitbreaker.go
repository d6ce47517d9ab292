// Package circuitbreaker stands in for github.com/mercari/go-circuitbreaker, which generated circuit breakers import and
// which is not available offline. It has the library's interface and behaves as the library documents. Unlike the
// library it has no goroutines and timers: what they would have done by now is done when the breaker is next used.
package circuitbreaker

import (
	"context"
	"errors"
	"sync"
	"time"
)

// ErrOpen is returned while the breaker is open.
var ErrOpen = errors.New("circuit breaker open")

const (
	DefaultInterval             = 1 * time.Second
	DefaultHalfOpenMaxSuccesses = 4
)

type State string

const (
	StateClosed   State = "closed"
	StateOpen     State = "open"
	StateHalfOpen State = "half-open"
)

type Counters struct {
	Successes, Failures, ConsecutiveSuccesses, ConsecutiveFailures int64
}

type TripFunc func(*Counters) bool
type StateChangeHook func(oldState, newState State)
type Operation func() (interface{}, error)

func NewTripFuncThreshold(threshold int64) TripFunc {
	return func(cnt *Counters) bool { return cnt.Failures >= threshold }
}

func NewTripFuncConsecutiveFailures(threshold int64) TripFunc {
	return func(cnt *Counters) bool { return cnt.ConsecutiveFailures == threshold }
}

func NewTripFuncFailureRate(min int64, rate float64) TripFunc {
	return func(cnt *Counters) bool {
		if cnt.Successes+cnt.Failures < min {
			return false
		}
		return float64(cnt.Failures)/float64(cnt.Successes+cnt.Failures) >= rate
	}
}

// IgnorableError signals that the breaker should not count the error as a failure.
type IgnorableError struct{ err error }

func (e *IgnorableError) Error() string { return e.err.Error() }
func (e *IgnorableError) Unwrap() error { return e.err }
func Ignore(err error) error {
	if err == nil {
		return nil
	}
	return &IgnorableError{err}
}

// SuccessMarkableError signals that the breaker should count the error as a success.
type SuccessMarkableError struct{ err error }

func (e *SuccessMarkableError) Error() string { return e.err.Error() }
func (e *SuccessMarkableError) Unwrap() error { return e.err }
func MarkAsSuccess(err error) error {
	if err == nil {
		return nil
	}
	return &SuccessMarkableError{err}
}

type options struct {
	failOnContextCancel   bool
	failOnContextDeadline bool
	halfOpenMaxSuccesses  int64
	openTimeout           func(n int) time.Duration // of the nth time in a row that the breaker opens
	interval              time.Duration
	shouldTrip            TripFunc
	onStateChange         StateChangeHook
}

type BreakerOption interface{ apply(*options) }
type fnOption func(*options)

func (f fnOption) apply(o *options) { f(o) }

func WithTripFunc(f TripFunc) BreakerOption {
	if f == nil {
		panic("tripFunc cannot be nil")
	}
	return fnOption(func(o *options) { o.shouldTrip = f })
}

func WithOpenTimeout(timeout time.Duration) BreakerOption {
	return fnOption(func(o *options) { o.openTimeout = func(int) time.Duration { return timeout } })
}

func WithHalfOpenMaxSuccesses(n int64) BreakerOption {
	return fnOption(func(o *options) { o.halfOpenMaxSuccesses = n })
}

func WithCounterResetInterval(interval time.Duration) BreakerOption {
	return fnOption(func(o *options) { o.interval = interval })
}

func WithFailOnContextCancel(on bool) BreakerOption {
	return fnOption(func(o *options) { o.failOnContextCancel = on })
}

func WithFailOnContextDeadline(on bool) BreakerOption {
	return fnOption(func(o *options) { o.failOnContextDeadline = on })
}

func WithOnStateChangeHookFn(fn StateChangeHook) BreakerOption {
	return fnOption(func(o *options) { o.onStateChange = fn })
}

// The default is an exponential backoff (here without its jitter).
func defaultBackOff(n int) time.Duration {
	d := 500 * time.Millisecond
	for ; n > 0 && d < time.Minute; n-- {
		d += d / 2
	}
	if d > time.Minute {
		d = time.Minute
	}
	return d
}

type CircuitBreaker struct {
	options
	mu    sync.Mutex
	cnt   Counters
	state State
	since time.Time // when the state, or the current interval of the closed state, began
	opens int       // how often the breaker opened since it was last closed
	until time.Time // when the open state ends
}

func New(opts ...BreakerOption) *CircuitBreaker {
	cb := &CircuitBreaker{options: options{
		shouldTrip:           func(*Counters) bool { return false },
		halfOpenMaxSuccesses: DefaultHalfOpenMaxSuccesses,
		interval:             DefaultInterval,
		openTimeout:          defaultBackOff,
	}}
	for _, o := range opts {
		o.apply(&cb.options)
	}
	cb.enter(StateClosed, time.Now())
	return cb
}

func (cb *CircuitBreaker) enter(s State, at time.Time) {
	old := cb.state
	cb.state, cb.since = s, at
	switch s {
	case StateClosed:
		cb.cnt.Failures, cb.cnt.ConsecutiveFailures = 0, 0
		cb.opens = 0
	case StateOpen:
		cb.until = at.Add(cb.openTimeout(cb.opens))
		cb.opens++
	case StateHalfOpen:
		cb.cnt.Successes, cb.cnt.ConsecutiveSuccesses = 0, 0
	}
	if cb.onStateChange != nil && old != "" {
		cb.onStateChange(old, s)
	}
}

// elapse does what timers would have done.
func (cb *CircuitBreaker) elapse() {
	now := time.Now()
	switch cb.state {
	case StateOpen:
		if !now.Before(cb.until) {
			cb.enter(StateHalfOpen, cb.until)
		}
	case StateClosed:
		if cb.interval > 0 && now.Sub(cb.since) >= cb.interval {
			cb.cnt = Counters{}
			cb.since = cb.since.Add(now.Sub(cb.since) / cb.interval * cb.interval)
		}
	}
}

func (cb *CircuitBreaker) lock() {
	cb.mu.Lock()
	cb.elapse()
}

func (cb *CircuitBreaker) Do(ctx context.Context, o Operation) (interface{}, error) {
	if !cb.Ready() {
		return nil, ErrOpen
	}
	result, err := o()
	return result, cb.Done(ctx, err)
}

func (cb *CircuitBreaker) Ready() bool {
	cb.lock()
	defer cb.mu.Unlock()
	return cb.state != StateOpen
}

func (cb *CircuitBreaker) Success() {
	cb.lock()
	defer cb.mu.Unlock()
	cb.cnt.Successes++
	cb.cnt.ConsecutiveSuccesses++
	cb.cnt.ConsecutiveFailures = 0
	if cb.state == StateHalfOpen && cb.cnt.Successes >= cb.halfOpenMaxSuccesses {
		cb.enter(StateClosed, time.Now())
	}
}

func (cb *CircuitBreaker) Fail() {
	cb.lock()
	defer cb.mu.Unlock()
	cb.cnt.Failures++
	cb.cnt.ConsecutiveFailures++
	cb.cnt.ConsecutiveSuccesses = 0
	switch cb.state {
	case StateClosed:
		if cb.shouldTrip(&cb.cnt) {
			cb.enter(StateOpen, time.Now())
		}
	case StateHalfOpen:
		cb.enter(StateOpen, time.Now())
	}
}

func (cb *CircuitBreaker) FailWithContext(ctx context.Context) {
	switch ctx.Err() {
	case context.Canceled:
		if !cb.failOnContextCancel {
			return
		}
	case context.DeadlineExceeded:
		if !cb.failOnContextDeadline {
			return
		}
	}
	cb.Fail()
}

func (cb *CircuitBreaker) Done(ctx context.Context, err error) error {
	if err == nil {
		cb.Success()
		return nil
	}
	if e, ok := err.(*SuccessMarkableError); ok {
		cb.Success()
		return e.err
	}
	if e, ok := err.(*IgnorableError); ok {
		return e.err
	}
	cb.FailWithContext(ctx)
	return err
}

func (cb *CircuitBreaker) State() State {
	cb.lock()
	defer cb.mu.Unlock()
	return cb.state
}

func (cb *CircuitBreaker) Counters() Counters {
	cb.lock()
	defer cb.mu.Unlock()
	return cb.cnt
}

func (cb *CircuitBreaker) Reset() {
	cb.lock()
	defer cb.mu.Unlock()
	cb.cnt = Counters{}
	cb.enter(StateClosed, time.Now())
}

func (cb *CircuitBreaker) SetState(s State) {
	cb.lock()
	defer cb.mu.Unlock()
	cb.enter(s, time.Now())
}
