// Package configs lists the circuit breakers that are generated and checked.
package configs

type CB struct {
	Min      int64
	Rate     float64
	Interval string
}

// All are the processes; each has one service per breaker, all of the same interface.
var All = map[string][]CB{
	"k1": {{1, 1, "1s"}},
	"k2": {{2, 0.5, "100ms"}},
	"k3": {{3, 0.34, "10s"}},
	"k4": {{4, 0.75, "0.5h"}},
	"k5": {{0, 1, "700ms"}},
	"k6": {{5, 0.2, "1m30s"}},
	"kp": {{2, 1, "1s"}, {3, 0.5, "5s"}},
}
