// Package a05 decides A05: orders are charged, shipped and recorded exactly once.
package a05

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/cart"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/order"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/payment"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/queuemaster"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/shipping"
	"github.com/blueprint-uservices/blueprint/examples/sockshop/workflow/user"
	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplenosqldb"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/simplequeue"
	"verif.local/h/faulty"
	"verif.local/h/rep"
	"verif.local/h/vsched"
)

var bg = context.Background()

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// pay counts the charges.
type pay struct {
	payment.PaymentService
	mode    string
	charges []float32
}

func (p *pay) Authorise(ctx context.Context, amount float32) (payment.Authorisation, error) {
	if p.mode == "error" {
		return payment.Authorisation{}, errors.New("payment service down")
	}
	a, err := p.PaymentService.Authorise(ctx, amount)
	if err == nil && a.Authorised {
		p.charges = append(p.charges, amount)
	}
	return a, err
}

type world struct {
	plan   *faulty.Plan
	users  user.UserService
	carts  cart.CartService
	pay    *pay
	ship   shipping.ShippingService
	orders order.OrderService
	q      backend.Queue
	full   bool
	cust   []string
	addr   []string
	card   []string
}

func open(limit string) *world {
	w := &world{plan: &faulty.Plan{Off: true}}
	db := func() backend.NoSQLDatabase { return faulty.DB{P: w.plan, D: must(simplenosqldb.NewSimpleNoSQLDB(bg))} }
	w.q = must(simplequeue.NewSimpleQueue(bg))
	w.users = must(user.NewUserServiceImpl(bg, db()))
	w.carts = must(cart.NewCartService(bg, db()))
	w.pay = &pay{PaymentService: must(payment.NewPaymentService(bg, limit))}
	w.ship = must(shipping.NewShippingService(bg, faulty.Queue{P: w.plan, Q: w.q, Full: func() bool { return w.full }}, db()))
	w.orders = must(order.NewOrderService(bg, w.users, w.carts, w.pay, w.ship, db()))
	for i := 0; i < 2; i++ {
		w.cust = append(w.cust, must(w.users.Register(bg, fmt.Sprint("u", i), "pw", "e", fmt.Sprint("F", i), "L")))
		w.addr = append(w.addr, must(w.users.PostAddress(bg, w.cust[i], user.Address{Street: fmt.Sprint("S", i), City: "C"})))
		w.card = append(w.card, must(w.users.PostCard(bg, w.cust[i], user.Card{LongNum: fmt.Sprint("123456789", i), CCV: "1"})))
	}
	w.plan.Off = false
	return w
}

func (w *world) fill(c string, items []cart.Item) {
	w.plan.Off = true
	for _, it := range items {
		must(w.carts.AddItem(bg, c, it))
	}
	w.plan.Off = false
}

// drain pops everything that is in the queue.
func (w *world) drain() (out []shipping.Shipment) {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	for {
		var s shipping.Shipment
		ok, err := w.q.Pop(ctx, &s)
		if err != nil || !ok {
			return
		}
		out = append(out, s)
	}
}

func total(items []cart.Item) float32 {
	t := float32(0)
	for _, i := range items {
		t += float32(i.Quantity) * i.UnitPrice
	}
	return t + 4.99
}

func near(a, b float32) bool { d := a - b; return d < 0.01 && d > -0.01 }

func sameItems(a, b []cart.Item) bool {
	f := func(x []cart.Item) string {
		var s []string
		for _, i := range x {
			s = append(s, fmt.Sprint(i))
		}
		sort.Strings(s)
		return strings.Join(s, ";")
	}
	return f(a) == f(b)
}

const missing = "6123456789abcdef01234567"

var baskets = [][]cart.Item{
	nil,
	{{ID: "x", Quantity: 1, UnitPrice: 5}},
	{{ID: "x", Quantity: 2, UnitPrice: 5}, {ID: "y", Quantity: 1, UnitPrice: 7.5}},
}

// placed judges the state after an order with the given items that should (not) have been placed.
// ord is what NewOrder returned; err its error.
func (w *world) judge(valid bool, custID string, ai, ci int, cartID string, items []cart.Item, ord order.Order, err error, bad func(string, ...any)) {
	queued := w.drain()
	custOrders, e := w.orders.GetOrders(bg, custID)
	if e != nil {
		bad("listing the orders: %v", e)
	}
	left, e := w.carts.GetCart(bg, cartID)
	if e != nil {
		bad("reading the cart: %v", e)
	}
	if !valid {
		if len(custOrders) != 0 {
			bad("a refused order is recorded: %+v", custOrders)
		}
		if len(queued) != 0 {
			bad("a refused order is shipped: %+v", queued)
		}
		if !sameItems(left, items) {
			bad("a refused order changes the cart to %v", left)
		}
		return
	}
	if err == nil {
		if ord.ID == "" || ord.CustomerID != custID || !sameItems(ord.Items, items) || !near(ord.Total, total(items)) || ord.Date == "" ||
			ord.Address.Street != fmt.Sprint("S", ai) || ord.Address.ID != w.addr[ai] || ord.Card.LongNum != fmt.Sprint("123456789", ci) || ord.Card.ID != w.card[ci] {
			bad("the order returned is %+v", ord)
		}
		if len(left) != 0 {
			bad("the ordered cart still holds %v", left)
		}
	}
	if len(custOrders) != 1 {
		bad("%d orders recorded for the customer, want 1", len(custOrders))
		return
	}
	rec := custOrders[0]
	if err == nil && fmt.Sprint(rec) != fmt.Sprint(ord) {
		bad("recorded order %+v differs from the one returned %+v", rec, ord)
	}
	if !sameItems(rec.Items, items) || !near(rec.Total, total(items)) || rec.CustomerID != custID {
		bad("recorded order %+v", rec)
	}
	if got, e := w.orders.GetOrder(bg, rec.ID); e != nil || fmt.Sprint(got) != fmt.Sprint(rec) {
		bad("looking the order up by id gives %+v, %v", got, e)
	}
	if len(queued) != 1 || queued[0].ID != rec.Shipment.ID || queued[0].ID == "" {
		bad("queued shipments %+v for order %+v", queued, rec)
		return
	}
	if s, e := w.ship.GetShipment(bg, queued[0].ID); e != nil || s != queued[0] || s != rec.Shipment {
		bad("the recorded shipment is %+v, %v; queued %+v; in the order %+v", s, e, queued[0], rec.Shipment)
	}
	if len(w.pay.charges) != 1 || !near(w.pay.charges[0], total(items)) {
		bad("charged %v for a total of %v", w.pay.charges, total(items))
	}
}

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	orders(r)
	failures(r)
	sequences(r)
	schedules(r)
}

// orders: every combination of request and stored data.
func orders(r *rep.R) {
	custs := []string{"", "u0", missing, "nothex"}
	refs := []string{"", "0", "1", missing, "nothex"}
	cartKinds := []string{"", "own", "session", "other"}
	pays := []string{"ok", "low", "exact", "error"}
	r.Enum("single orders", len(custs)*len(refs)*len(refs)*len(cartKinds)*len(baskets)*len(pays)*2, 1, func(i int) rep.Case {
		d := rep.Digits(i, len(custs), len(refs), len(refs), len(cartKinds), len(baskets), len(pays), 2)
		items := baskets[d[4]]
		limit := "1000"
		switch pays[d[5]] {
		case "low":
			limit = fmt.Sprint(total(items) - 0.5)
		case "exact":
			limit = fmt.Sprint(total(items))
		}
		w := open(limit)
		w.pay.mode = pays[d[5]]
		w.full = d[6] == 1
		pick := func(k string, ids []string) string {
			switch k {
			case "0":
				return ids[0]
			case "1":
				return ids[1]
			case "u0":
				return ids[0]
			}
			return k
		}
		cust, addr, card := pick(custs[d[0]], w.cust), pick(refs[d[1]], w.addr), pick(refs[d[2]], w.card)
		cartID := map[string]string{"": "", "own": cust, "session": "session-1", "other": w.cust[1]}[cartKinds[d[3]]]
		w.fill("bystander", baskets[1])
		if cust != "" && cust != cartID {
			w.fill(cust, []cart.Item{{ID: "own", Quantity: 3, UnitPrice: 1}})
		}
		if cartID != "" {
			w.fill(cartID, items)
		}
		valid := custs[d[0]] == "u0" && (d[1] == 1 || d[1] == 2) && (d[2] == 1 || d[2] == 2) && cartID != "" && len(items) > 0 && (pays[d[5]] == "ok" || pays[d[5]] == "exact") && !w.full
		c := rep.Case{Sig: "order", Input: fmt.Sprintf("customer %q address %q card %q cart %q items %v payment %s queue full %v", custs[d[0]], refs[d[1]], refs[d[2]], cartKinds[d[3]], items, pays[d[5]], w.full)}
		bad := func(f string, a ...any) { c.Msgs = append(c.Msgs, fmt.Sprintf(f, a...)) }
		ord, err := w.orders.NewOrder(bg, cust, addr, card, cartID)
		if valid && err != nil {
			bad("the order is refused: %v", err)
		}
		if !valid && err == nil {
			bad("the order is accepted: %+v", ord)
		}
		if (cust == "" || cartID == "") && err != nil && len(w.plan.Calls) > 0 && !valid {
			for _, n := range w.plan.Calls {
				if n != "FindOne" && n != "FindMany" {
					bad("an incomplete order reaches %s", n)
				}
			}
		}
		if cartID != "" && cust != "" {
			w.judge(valid, cust, d[1]-1, d[2]-1, cartID, items, ord, err, bad)
		}
		if got, err := w.carts.GetCart(bg, "bystander"); err != nil || !sameItems(got, baskets[1]) {
			bad("another cart becomes %v, %v", got, err)
		}
		if cust != "" && cust != cartID {
			if got, err := w.carts.GetCart(bg, cust); err != nil || len(got) != 1 || got[0].Quantity != 3 {
				bad("the customer's cart, which was not ordered, becomes %v, %v", got, err)
			}
		}
		c.Outcome = fmt.Sprint(err, len(ord.Items))
		if err == nil {
			c.Outcome = "placed " + fmt.Sprint(items)
		}
		return c
	})
}

// failures: every backend call of placing an order fails once, before taking effect.
func failures(r *rep.R) {
	r.Enum("failure of every backend call of an order", 2*2*20, 1, func(i int) rep.Case {
		d := rep.Digits(i, 2, 2, 20)
		items := baskets[1+d[0]]
		w := open("1000")
		cartID := []string{w.cust[0], "session"}[d[1]]
		w.fill(cartID, items)
		w.plan.Reset(d[2]+1, false)
		ord, err := w.orders.NewOrder(bg, w.cust[0], w.addr[1], w.card[0], cartID)
		calls := w.plan.Calls
		w.plan.Off = true
		c := rep.Case{Sig: "failure", Input: fmt.Sprintf("items %v cart %d: call %d of %v fails", items, d[1], d[2]+1, calls)}
		bad := func(f string, a ...any) { c.Msgs = append(c.Msgs, fmt.Sprintf(f, a...)) }
		c.Known = "none" // some calls are made concurrently
		if d[2] < len(calls) {
			c.Known = calls[d[2]]
		}
		if d[2] >= len(calls) {
			if err != nil {
				bad("refused: %v", err)
			}
			w.judge(true, w.cust[0], 1, 0, cartID, items, ord, err, bad)
			c.Outcome = "no failure"
			return c
		}
		call := calls[d[2]]
		if err == nil {
			bad("the failure of %s is not reported", call)
		}
		// emptying the cart is the last step: the order stands by then
		recs, _ := w.orders.GetOrders(bg, w.cust[0])
		placed := len(recs) > 0 && call == "DeleteMany"
		w.judge(placed, w.cust[0], 1, 0, cartID, items, ord, err, bad)
		c.Outcome = call + fmt.Sprint(placed)
		return c
	})
}

// sequences of orders by two customers from three carts.
func sequences(r *rep.R) {
	n := rep.Pick(r, 4, 5)
	k := 2 * 3 * 2
	radix := make([]int, n)
	for i := range radix {
		radix[i] = k
	}
	r.Enum(fmt.Sprintf("sequences of %d orders", n), rep.Power(k, n), n, func(i int) rep.Case {
		w := open("100")
		c := rep.Case{Sig: "sequence", Steps: n}
		bad := func(f string, a ...any) { c.Msgs = append(c.Msgs, fmt.Sprintf(f, a...)) }
		want := map[string][]string{}
		ids := map[string]bool{}
		carts := map[string]int{}
		var in []string
		for _, d := range rep.Digits(i, radix...) {
			x := rep.Digits(d, 2, 3, 2)
			cust := w.cust[x[0]]
			cartID := []string{w.cust[0], w.cust[1], "session"}[x[1]]
			if x[2] == 1 {
				w.fill(cartID, []cart.Item{{ID: "x", Quantity: 5, UnitPrice: 9}})
				carts[cartID] += 5
			}
			in = append(in, fmt.Sprintf("customer %d, cart %d holding %d", x[0], x[1], carts[cartID]))
			q := carts[cartID]
			ok := q > 0 && float32(q)*9+4.99 <= 100
			ord, err := w.orders.NewOrder(bg, cust, w.addr[x[0]], w.card[x[0]], cartID)
			if ok != (err == nil) {
				bad("order by customer %d of a cart of %d: %v", x[0], q, err)
			}
			if err == nil {
				want[cust] = append(want[cust], ord.ID)
				if ids[ord.ID] {
					bad("two orders with the id %s", ord.ID)
				}
				ids[ord.ID] = true
				carts[cartID] = 0
			}
		}
		for cid, q := range carts {
			got, err := w.carts.GetCart(bg, cid)
			n := 0
			for _, it := range got {
				n += it.Quantity
			}
			if err != nil || n != q {
				bad("a cart holds %d, %v; want %d", n, err, q)
			}
		}
		for _, cust := range w.cust {
			got, err := w.orders.GetOrders(bg, cust)
			var g []string
			for _, o := range got {
				g = append(g, o.ID)
			}
			if err != nil || fmt.Sprint(g) != fmt.Sprint(want[cust]) {
				bad("orders listed %v, %v; placed %v", g, err, want[cust])
			}
		}
		if q := w.drain(); len(q) != len(ids) {
			bad("%d shipments queued for %d orders", len(q), len(ids))
		}
		c.Input = strings.Join(in, "; ")
		c.Outcome = fmt.Sprint(len(want[w.cust[0]]), len(want[w.cust[1]]), carts)
		return c
	})
}

// schedules: customers placing orders while the queue master runs.
func schedules(r *rep.R) {
	var scs []*vsched.Scenario
	for _, n := range []int{1, 2} {
		for _, backlog := range []int{0, 9, 10} {
			for _, flaky := range []int{0, 1, 2} {
				if n == 2 && backlog > 0 && flaky > 0 {
					continue
				}
				scs = append(scs, scenario(n, backlog, flaky))
			}
		}
	}
	r.ExploreAll(scs, rep.Pick(r, 1, 2))
}

// flakyShip fails the first updates.
type flakyShip struct {
	shipping.ShippingService
	left int
	seen []string
}

func (f *flakyShip) UpdateStatus(ctx context.Context, id, status string) error {
	vsched.Point("update")
	if f.left > 0 {
		f.left--
		return errors.New("shipping service down")
	}
	f.seen = append(f.seen, id+" "+status)
	return f.ShippingService.UpdateStatus(ctx, id, status)
}

func scenario(n, backlog, flaky int) *vsched.Scenario {
	sc := &vsched.Scenario{Name: fmt.Sprintf("%d orders, %d shipments queued before, %d failing updates", n, backlog, flaky), MaxSteps: 100000, Delay: true}
	var w *world
	var res [2]order.Order
	var errs [2]error
	var before []string
	var fs *flakyShip
	var runErr error
	var returned bool
	sc.Setup = func(x *vsched.Exec) {
		w = open("1000")
		w.plan.Before = func(name string) { vsched.Point(name) }
		res, errs, before, returned = [2]order.Order{}, [2]error{}, nil, false
		for i := 0; i < backlog; i++ {
			id := fmt.Sprint("old", i)
			must(w.ship.PostShipping(bg, shipping.Shipment{ID: id, Name: "old", Status: "awaiting shipment"}))
			before = append(before, id)
		}
		fs = &flakyShip{ShippingService: w.ship, left: flaky}
		qm := must(queuemaster.NewQueueMaster(bg, w.q, fs))
		ctx, cancel := context.WithCancel(bg)
		for i := 0; i < n; i++ {
			i := i
			w.fill(w.cust[i], baskets[1])
			x.Go(fmt.Sprint("customer", i), func() {
				res[i], errs[i] = w.orders.NewOrder(bg, w.cust[i], w.addr[i], w.card[i], w.cust[i])
			})
		}
		x.Go("queue master", func() {
			runErr = qm.Run(ctx)
			returned = true
		})
		x.Go("end", func() {
			time.Sleep(10 * time.Minute)
			cancel()
		})
	}
	sc.Check = func(x *vsched.Exec) (msgs []string) {
		w.plan.Before = nil
		if !returned || runErr != nil {
			msgs = append(msgs, fmt.Sprintf("the queue master returned: %v, %v", returned, runErr))
		}
		ids := append([]string{}, before...)
		for i := 0; i < n; i++ {
			if errs[i] != nil {
				msgs = append(msgs, fmt.Sprintf("order %d: %v", i, errs[i]))
				continue
			}
			ids = append(ids, res[i].Shipment.ID)
			if got, err := w.orders.GetOrders(bg, w.cust[i]); err != nil || len(got) != 1 {
				msgs = append(msgs, fmt.Sprintf("customer %d has %d orders, %v", i, len(got), err))
			}
		}
		for _, id := range ids {
			if s, err := w.ship.GetShipment(bg, id); err != nil || s.Status != "shipped" {
				msgs = append(msgs, fmt.Sprintf("shipment %s is %+v, %v", id, s, err))
			}
		}
		if len(fs.seen) != len(ids) {
			msgs = append(msgs, fmt.Sprintf("%d updates for %d shipments", len(fs.seen), len(ids)))
		}
		if left := w.drain(); len(left) > 0 {
			msgs = append(msgs, fmt.Sprintf("%d shipments still queued", len(left)))
		}
		x.Outcome("%d shipped", len(fs.seen))
		return
	}
	return sc
}
