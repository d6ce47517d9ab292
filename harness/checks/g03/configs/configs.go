// Package configs lists the processes with timeouts that are generated and checked.
package configs

// All are the processes; each has one service per timeout, all of the same interface.
var All = map[string][]string{
	"t1": {"100ms"},
	"t2": {"100ms", "30ms"},
	"t3": {"0s"},
	"t4": {"0.0015m", "100000us"},
}
