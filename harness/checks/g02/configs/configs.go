// Package configs lists the retries configurations that are generated and checked.
package configs

import (
	"fmt"
	"strings"
	"time"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
)

type Kind int

const (
	Plain Kind = iota
	Timeout
	Fixed
	Backoff
	Rate
	Bucket
)

type Config struct {
	Name         string
	Kind         Kind
	Max          int64
	Delay, Limit time.Duration // Delay is also the timeout
	Jitter       bool
	Rate         int64
	Cap, Cost, R float64
}

func (c Config) Apply(spec wiring.WiringSpec, service string) {
	switch c.Kind {
	case Plain:
		retries.AddRetries(spec, service, c.Max)
	case Timeout:
		retries.AddRetriesWithTimeouts(spec, service, c.Max, c.Delay.String())
	case Fixed:
		retries.AddRetriesWithFixedDelay(spec, service, c.Max, c.Delay.String())
	case Backoff:
		retries.AddRetriesWithExponentialBackoff(spec, service, c.Delay.String(), c.Limit.String(), c.Jitter)
	case Rate:
		retries.AddRetriesRetryRateLimit(spec, service, c.Max, c.Rate)
	case Bucket:
		retries.AddRetriesTokenBucket(spec, service, c.Cap, c.Cost, c.R)
	}
}

// All are the configurations, one process each.
var All []Config

func add(c Config) {
	c.Name = strings.ToLower(fmt.Sprintf("p%02d", len(All)))
	All = append(All, c)
}

const ms = time.Millisecond

func init() {
	for _, m := range []int64{-1, 0, 1, 2, 4} {
		add(Config{Kind: Plain, Max: m})
	}
	for _, m := range []int64{0, 1, 3} {
		add(Config{Kind: Timeout, Max: m, Delay: 100 * ms})
	}
	for _, m := range []int64{0, 1, 3} {
		for _, d := range []time.Duration{0, 50 * ms} {
			add(Config{Kind: Fixed, Max: m, Delay: d})
		}
	}
	for _, j := range []bool{false, true} {
		for _, d := range [][2]time.Duration{{100 * ms, 50 * ms}, {100 * ms, 100 * ms}, {100 * ms, 101 * ms}, {100 * ms, 200 * ms}, {100 * ms, 350 * ms}, {1, 5}} {
			add(Config{Kind: Backoff, Delay: d[0], Limit: d[1], Jitter: j})
		}
	}
	for _, m := range []int64{0, 1, 4} {
		for _, r := range []int64{0, 1, 2, 50} {
			if m < 4 && r > 0 && r < 50 {
				continue
			}
			add(Config{Kind: Rate, Max: m, Rate: r})
		}
	}
	for _, b := range [][3]float64{{10, 1, 0.05}, {3, 1, 1}, {3, 1.5, 0.5}, {0, 1, 1}, {2.5, 1, 5}, {4, 0, 0}} {
		add(Config{Kind: Bucket, Cap: b[0], Cost: b[1], R: b[2]})
	}
}

// Pair is a process with two wrapped services of the same interface.
type Pair struct {
	Name string
	C    [2]Config
}

// Pairs are the processes with two services.
var Pairs []Pair

func init() {
	for i, c := range [][2]Config{
		{{Kind: Plain, Max: 2}, {Kind: Plain, Max: 4}},
		{{Kind: Timeout, Max: 2, Delay: 100 * ms}, {Kind: Timeout, Max: 3, Delay: 30 * ms}},
		{{Kind: Fixed, Max: 2, Delay: 50 * ms}, {Kind: Fixed, Max: 3, Delay: 20 * ms}},
		{{Kind: Backoff, Delay: 100 * ms, Limit: 200 * ms}, {Kind: Backoff, Delay: 50 * ms, Limit: 350 * ms}},
		{{Kind: Backoff, Delay: 100 * ms, Limit: 200 * ms}, {Kind: Backoff, Delay: 50 * ms, Limit: 350 * ms, Jitter: true}},
		{{Kind: Rate, Max: 2, Rate: 1}, {Kind: Rate, Max: 4, Rate: 50}},
		{{Kind: Bucket, Cap: 3, Cost: 1, R: 1}, {Kind: Bucket, Cap: 0, Cost: 1, R: 1}},
		{{Kind: Plain, Max: 3}, {Kind: Fixed, Max: 2, Delay: 50 * ms}},
	} {
		Pairs = append(Pairs, Pair{fmt.Sprintf("q%02d", i), c})
	}
}
