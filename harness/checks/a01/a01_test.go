// Package a01 decides A01: a hotel is never oversold and availability reflects bookings.
package a01

import (
	"context"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	hr "github.com/blueprint-uservices/blueprint/examples/dsb_hotel/workflow/hotelreservation"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplecache"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"verif.local/h/faulty"
	"verif.local/h/rep"
)

var bg = context.Background()

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// capacities as the service initialises them
var capacity = map[string]int64{"1": 200, "4": 200, "7": 300, "8": 250}

// the nights under test span the end of a leap February; night i is days[i]..days[i+1]
var days = []string{"2016-02-27", "2016-02-28", "2016-02-29", "2016-03-01"}

type op struct {
	kind    string // reserve, check, evict
	hotel   string
	in, out string
	n       int64
	part    int // evict: 0 everything, 1 even keys, 2 odd keys
}

func (o op) String() string {
	if o.kind == "evict" {
		return fmt.Sprintf("evict %s", []string{"all", "even keys", "odd keys"}[o.part])
	}
	return fmt.Sprintf("%s(%s,%s..%s,%d)", o.kind, o.hotel, o.in, o.out, o.n)
}

func day(s string) (time.Time, bool) {
	t, err := time.Parse("2006-01-02", s)
	return t, err == nil
}

// nights of a stay; false if the dates are no dates.
func nights(in, out string) (ns []string, ok bool) {
	a, ok1 := day(in)
	b, ok2 := day(out)
	if !ok1 || !ok2 {
		return nil, false
	}
	for ; a.Before(b); a = a.AddDate(0, 0, 1) {
		ns = append(ns, a.Format("2006-01-02"))
	}
	return ns, true
}

type sys struct {
	plan  *faulty.Plan
	cache *faulty.Volatile
	svc   hr.ReservationService
}

func open() *sys {
	y := &sys{plan: &faulty.Plan{}}
	y.cache = faulty.NewVolatile(must(simplecache.NewSimpleCache(bg)))
	y.svc = must(hr.NewReservationServiceImpl(bg, faulty.Cache{P: y.plan, C: y.cache}, faulty.DB{P: y.plan, D: must(simplenosqldb.NewSimpleNoSQLDB(bg))}))
	return y
}

func (y *sys) do(o op) ([]string, error) {
	switch o.kind {
	case "reserve":
		return y.svc.MakeReservation(bg, "c", []string{o.hotel}, o.in, o.out, o.n)
	case "check":
		return y.svc.CheckAvailability(bg, "c", []string{o.hotel}, o.in, o.out, o.n)
	}
	y.cache.Evict(func(i int, key string) bool { return o.part == 0 || i%2 == o.part-1 })
	return nil, nil
}

// book is the reference: rooms per hotel and night.
type book map[string]map[string]int64

func newBook() book { return book{"4": {"2015-04-09": 1}} }

func (b book) key() string {
	var out []string
	for h, m := range b {
		for d, n := range m {
			out = append(out, fmt.Sprintf("%s/%s=%d", h, d, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (b book) free(hotel string, ns []string) int64 {
	f := capacity[hotel]
	for _, d := range ns {
		if k := capacity[hotel] - b[hotel][d]; k < f {
			f = k
		}
	}
	return f
}

func (b book) add(o op, ns []string) {
	for _, d := range ns {
		if b[o.hotel] == nil {
			b[o.hotel] = map[string]int64{}
		}
		b[o.hotel][d] += o.n
	}
}

// step applies o to the service and the reference and compares the answers.
func step(y *sys, b book, o op) string {
	got, err := y.do(o)
	if o.kind == "evict" {
		return ""
	}
	ns, ok := nights(o.in, o.out)
	yes := err == nil && len(got) == 1 && got[0] == o.hotel
	if !yes && len(got) > 0 {
		return fmt.Sprintf("%v answers %v, %v", o, got, err)
	}
	switch {
	case !ok:
		if err == nil {
			return fmt.Sprintf("%v with dates that are no dates answers %v and no error", o, got)
		}
	case o.kind == "reserve" && o.n < 0:
		if yes {
			return fmt.Sprintf("%v reserves a negative number of rooms", o)
		}
	case len(ns) == 0 || o.n <= 0: // an empty stay or no rooms: any answer, no effect
	case yes != (o.n <= b.free(o.hotel, ns)):
		return fmt.Sprintf("%v answers %v, %v although %d rooms are free (%s)", o, got, err, b.free(o.hotel, ns), b.key())
	case err != nil:
		return fmt.Sprintf("%v fails: %v", o, err)
	case yes && o.kind == "reserve":
		b.add(o, ns)
	}
	return ""
}

// probe asks for every stay whether exactly the free rooms are free, with the cache as it is and with an empty one.
func probe(y *sys, b book, hotels []string) (msgs []string) {
	for _, cold := range []bool{false, true} {
		for _, h := range hotels {
			for i := range days {
				for j := i + 1; j < len(days); j++ {
					if j > i+1 && !(i == 0 && j == len(days)-1) {
						continue
					}
					ns, _ := nights(days[i], days[j])
					f := b.free(h, ns)
					for _, n := range []int64{f, f + 1} {
						if cold {
							y.cache.Evict(nil)
						}
						if n <= 0 {
							continue
						}
						if m := step(y, b, op{kind: "check", hotel: h, in: days[i], out: days[j], n: n}); m != "" {
							msgs = append(msgs, m+map[bool]string{true: " (empty cache)", false: ""}[cold])
						}
					}
				}
			}
		}
	}
	// several hotels at once, in order
	in, out := days[0], days[len(days)-1]
	ns, _ := nights(in, out)
	var all, want []string
	for _, h := range append([]string{"nowhere"}, hotels...) {
		all = append(all, h)
		if b.free(h, ns) >= 50 {
			want = append(want, h)
		}
	}
	got, err := y.svc.CheckAvailability(bg, "c", all, in, out, 50)
	if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
		msgs = append(msgs, fmt.Sprintf("hotels with 50 rooms from %s to %s: %v, %v; want %v of %v", in, out, got, err, want, all))
	}
	return
}

func histories(r *rep.R, name string, ops []op, hotels []string, depth int) {
	r.Enum(name, rep.Power(len(ops), depth), depth, func(i int) rep.Case {
		var radix []int
		for j := 0; j < depth; j++ {
			radix = append(radix, len(ops))
		}
		c := rep.Case{Sig: strings.ReplaceAll(name, " ", "-"), Steps: depth}
		y, b := open(), newBook()
		var h []op
		for _, d := range rep.Digits(i, radix...) {
			h = append(h, ops[d])
		}
		c.Input = fmt.Sprint(h)
		for _, o := range h {
			if m := step(y, b, o); m != "" {
				c.Msgs = append(c.Msgs, m)
				return c
			}
		}
		c.Msgs = probe(y, b, hotels)
		c.Outcome = b.key()
		return c
	})
}

func stays() (out [][2]string) {
	for i := range days {
		for j := i + 1; j < len(days); j++ {
			out = append(out, [2]string{days[i], days[j]})
		}
	}
	return
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	var ops []op
	for _, s := range stays() {
		for _, n := range []int64{70, 130} {
			ops = append(ops, op{kind: "reserve", hotel: "1", in: s[0], out: s[1], n: n})
		}
	}
	evict := []op{{kind: "evict"}, {kind: "evict", part: 1}, {kind: "evict", part: 2}}
	one := append(append([]op{}, ops...), evict...)
	histories(r, "reservations in one hotel with evictions", one, []string{"1"}, rep.Pick(r, 3, 4))
	// availability queries fill the cache, too
	mixed := append([]op{}, evict[:2]...)
	for _, s := range [][2]string{{days[0], days[1]}, {days[0], days[2]}, {days[1], days[3]}, {days[0], days[3]}} {
		mixed = append(mixed, op{kind: "reserve", hotel: "1", in: s[0], out: s[1], n: 100}, op{kind: "check", hotel: "1", in: s[0], out: s[1], n: 100})
	}
	histories(r, "reservations and queries with evictions", mixed, []string{"1"}, rep.Pick(r, 4, 5))
	two := []op{{kind: "evict"}}
	for _, h := range []string{"7", "8", "4"} {
		for _, s := range [][2]string{{days[0], days[1]}, {days[0], days[3]}, {"2015-04-08", "2015-04-10"}} {
			two = append(two, op{kind: "reserve", hotel: h, in: s[0], out: s[1], n: 200}, op{kind: "check", hotel: h, in: s[0], out: s[1], n: 1})
		}
	}
	histories(r, "reservations in three hotels", two, []string{"7", "8", "4"}, 3)
	// Not among these: malformed arrival dates. The service reads them as the year 1 and goes through all days since
	// (see known_findings.txt), which takes minutes.
	var odd []op
	for _, s := range [][2]string{{days[0], days[1]}, {days[1], days[0]}, {days[1], days[1]}, {days[0], ""}, {days[0], "2016-2-29"}, {days[0], "2016-02-30"}, {days[2], "2016-02-28T00"}} {
		for _, n := range []int64{0, 1, -1, -200, 150, 200, 201, math.MaxInt64, math.MinInt64} {
			odd = append(odd, op{kind: "reserve", hotel: "1", in: s[0], out: s[1], n: n}, op{kind: "check", hotel: "1", in: s[0], out: s[1], n: n})
		}
	}
	odd = append(odd, op{kind: "reserve", hotel: "nowhere", in: days[0], out: days[1], n: 1})
	histories(r, "unusual requests", odd, []string{"1", "nowhere"}, 2)
	r.Enum("requests without a hotel", 2, 1, func(i int) rep.Case {
		c := rep.Case{Sig: "no-hotel", Input: "reservation without a hotel"}
		y := open()
		if i == 0 {
			got, err := y.svc.MakeReservation(bg, "c", nil, days[0], days[1], 1)
			if len(got) > 0 {
				c.Msgs = append(c.Msgs, fmt.Sprint("answers ", got, err))
			}
		} else {
			got, err := y.svc.CheckAvailability(bg, "c", nil, days[0], days[1], 1)
			if len(got) > 0 || err != nil {
				c.Msgs = append(c.Msgs, fmt.Sprint("answers ", got, err))
			}
		}
		return c
	})
	faults(r, ops[:0:0], mixed)
	frontends(r)
}

// faults fails every backend call of every operation: the failure is reported, and neither then nor later does the
// hotel take more guests than it has rooms for.
func faults(r *rep.R, _ []op, ops []op) {
	k := len(ops)
	r.Enum("failures of every backend call", k*k*k*2, 3, func(i int) rep.Case {
		d := rep.Digits(i, k, k, k, 2)
		c := rep.Case{Sig: "fault", Steps: 3, Input: fmt.Sprint(ops[d[0]], ops[d[1]], ops[d[2]])}
		if ops[d[1]].kind == "evict" {
			return c
		}
		for at := 1; ; at++ {
			y, b := open(), newBook()
			if m := step(y, b, ops[d[0]]); m != "" {
				c.Msgs = append(c.Msgs, m)
				return c
			}
			o := ops[d[1]]
			y.plan.Reset(at, d[3] == 1)
			got, err := y.do(o)
			if len(y.plan.Calls) < at {
				break
			}
			call := y.plan.Calls[at-1]
			y.plan.Reset(0, false)
			if err == nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("backend call %d (%s) of %v fails, and the answer is %v", at, call, o, got))
				return c
			}
			c.Outcome += call + " "
			// The failed operation is not a successful reservation; everything that succeeds afterwards has to fit.
			last := ops[d[2]]
			ns, _ := nights(last.in, last.out)
			got, err = y.do(last)
			if err != nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("after a failed %s of %v: %v fails: %v", call, o, last, err))
				return c
			}
			if last.kind != "evict" && len(got) > 0 && last.n > b.free(last.hotel, ns) {
				c.Msgs = append(c.Msgs, fmt.Sprintf("after a failed %s of %v: %v answers %v although only %d rooms are free", call, o, last, got, b.free(last.hotel, ns)))
				return c
			}
			if o.kind == "check" {
				// a failed query changes nothing
				if last.kind == "reserve" && len(got) > 0 {
					b.add(last, ns)
				} else if last.kind == "reserve" && last.n <= b.free(last.hotel, ns) {
					c.Msgs = append(c.Msgs, fmt.Sprintf("after a failed %s of %v: %v is refused although %d rooms are free", call, o, last, b.free(last.hotel, ns)))
				}
				for _, m := range probe(y, b, []string{"1"}) {
					c.Msgs = append(c.Msgs, fmt.Sprintf("after a failed %s of %v and %v: %s", call, o, last, m))
				}
			}
			if len(c.Msgs) > 0 {
				return c
			}
		}
		return c
	})
}

type broken struct{ hr.ReservationService }

func (broken) CheckAvailability(context.Context, string, []string, string, string, int64) ([]string, error) {
	return nil, errors.New("reservation service down")
}
func (broken) MakeReservation(context.Context, string, []string, string, string, int64) ([]string, error) {
	return nil, errors.New("reservation service down")
}

// frontends: the answers of the reservation service reach the customer.
func frontends(r *rep.R) {
	cache := func() *simplecache.SimpleCache { return must(simplecache.NewSimpleCache(bg)) }
	db := func() *simplenosqldb.SimpleNoSQLDB { return must(simplenosqldb.NewSimpleNoSQLDB(bg)) }
	r.Enum("front ends", 8, 1, func(i int) rep.Case {
		d := rep.Digits(i, 2, 2, 2)
		c := rep.Case{Sig: "front-end", Input: fmt.Sprintf("front end v%d, reservation service broken: %v", d[0]+1, d[1] == 1)}
		var res hr.ReservationService = must(hr.NewReservationServiceImpl(bg, cache(), db()))
		if d[2] == 1 {
			must(res.MakeReservation(bg, "c", []string{"1"}, "2015-04-09", "2015-04-10", 200))
		}
		if d[1] == 1 {
			res = broken{res}
		}
		search := must(hr.NewSearchServiceImpl(bg, must(hr.NewGeoServiceImpl(bg, db())), must(hr.NewRateServiceImpl(bg, cache(), db()))))
		prof := must(hr.NewProfileServiceImpl(bg, cache(), db()))
		users := must(hr.NewUserServiceImpl(bg, db()))
		rec := must(hr.NewRecommendationServiceImpl(bg, db()))
		var fe interface {
			SearchHandler(ctx context.Context, customerName string, inDate string, outDate string, lat float64, lon float64, locale string) ([]hr.HotelProfile, error)
			ReservationHandler(ctx context.Context, inDate string, outDate string, hotelId string, customerName string, username string, password string, roomNumber int64) (string, error)
		}
		if d[0] == 0 {
			fe = must(hr.NewFrontEndServiceImpl(bg, search, prof, rec, users, res))
		} else {
			fe = must(hr.NewFrontEndV2ServiceImpl(bg, search, prof, rec, users, res, nil, nil))
		}
		ps, err := fe.SearchHandler(bg, "c", "2015-04-09", "2015-04-10", 37.7867, -122.4112, "en")
		has := false
		for _, p := range ps {
			has = has || p.ID == "1"
		}
		if d[1] == 1 {
			if err == nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("the search answers %d hotels and no error although availability is unknown", len(ps)))
			}
		} else if err != nil || has != (d[2] == 0) {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the search lists hotel 1: %v, %v; it is booked out: %v", has, err, d[2] == 1))
		}
		msg, err := fe.ReservationHandler(bg, "2015-04-09", "2015-04-10", "1", "c", "Cornell_1", strings.Repeat("1", 10), 1)
		if ok := d[1] == 0 && d[2] == 0; (err == nil) != ok {
			c.Msgs = append(c.Msgs, fmt.Sprintf("the reservation answers %q, %v", msg, err))
		}
		c.Outcome = fmt.Sprint(len(ps), err)
		return c
	})
}
