// Package configs lists the processes with injected faults that are generated and checked.
package configs

import "time"

// A Service has an injector of each given kind, added in the order of Order.
type Service struct {
	Fail    int    // percent; < 0: none
	Delay   int64  // milliseconds; < 0: none
	Latency string // "": none
	Order   string // f, d, l
}

func (s Service) Fixed() time.Duration {
	d, _ := time.ParseDuration(s.Latency)
	if d < 0 {
		d = 0
	}
	return d
}

func f(p int) Service      { return Service{p, -1, "", "f"} }
func d(m int64) Service    { return Service{-1, m, "", "d"} }
func l(lat string) Service { return Service{-1, -1, lat, "l"} }
func all(o string) Service { return Service{30, 3, "20ms", o} }
func plain() Service       { return Service{-1, -1, "", ""} }

// All are the processes; all services of a process have the same interface.
var All = map[string][]Service{
	"none":  {plain()},
	"fail":  {f(0), f(1), f(37), plain(), f(50), f(99), f(100)},
	"delay": {d(0), d(1), plain(), d(3), d(99)},
	"lat":   {l("0s"), l("100ms"), plain(), l("1.5s"), l("-5ms"), l("1m0.25s"), l("300us")},
	"mix":   {all("fdl"), all("ldf"), all("dfl"), {100, -1, "10ms", "fl"}, {-1, 5, "10ms", "dl"}, {0, 2, "", "df"}},
	"bad":   {l("fast")},
}
