// Package g06 checks that the generated clients and servers of the network transports deliver arguments and results
// unchanged: every parameter type of the grammar, every value of a set of boundary values, over a real connection.
package g06

import (
	"context"
	"fmt"
	"math"
	"net"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"verif.local/gen"
	"verif.local/h/gen/msgs"
	"verif.local/h/rep"
	"verif.local/workflows/msg"
)

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	var all []pair
	for _, tr := range []string{"grpc", "http"} {
		for _, k := range append(append([]string{"Many"}, msgs.Groups...), odds()...) {
			all = append(all, pair{tr, k})
		}
	}
	r.EnumN("every type and value", len(all), 0, 1, func(i int) rep.Case { return all[i].check() })
}

func odds() (ks []string) {
	for i := range msgs.Odd {
		ks = append(ks, fmt.Sprintf("Odd%02d", i))
	}
	for i := range msgs.Names {
		ks = append(ks, fmt.Sprintf("Name%02d", i))
	}
	return
}

type pair struct{ tr, kind string }

func (p pair) describe() string {
	var n int
	if _, err := fmt.Sscanf(p.kind, "Odd%d", &n); err == nil {
		return p.tr + " carries the type " + msgs.Odd[n]
	}
	if _, err := fmt.Sscanf(p.kind, "Name%d", &n); err == nil {
		return p.tr + " carries an argument named " + msgs.Names[n]
	}
	return p.tr + " carries the service " + p.kind
}

func (p pair) sig() string { return strings.ReplaceAll(p.describe(), " ", "-") }

func (p pair) check() (c rep.Case) {
	c.Sig, c.Input = p.sig(), p.describe()
	odd := strings.HasPrefix(p.kind, "Odd")
	sname, cname := "s"+p.tr+p.kind, "c"+p.tr+p.kind
	for _, n := range []string{sname, cname} {
		if why, failed := gen.Failed[n]; failed {
			if odd && !strings.Contains(why, "does not compile") && !strings.Contains(why, "panic") {
				c.Outcome = "refused"
				return
			}
			c.Outcome = "not usable"
			c.Msgs = append(c.Msgs, fmt.Sprintf("process %s: %.1200s", n, why))
			return
		}
	}
	addr := rep.FreeAddr()
	ctx := context.Background()
	sb := gen.Procs[sname](sname)
	sb.Set("svc"+p.kind+"."+p.tr+".bind_addr", addr)
	sn, err := sb.Build(ctx)
	if err != nil {
		c.Msgs = append(c.Msgs, "the server process cannot be built: "+err.Error())
		return
	}
	defer sn.Shutdown(false)
	up := false
	for i := 0; i < 400 && !up; i++ {
		if conn, err := net.Dial("tcp", addr); err == nil {
			conn.Close()
			up = true
		} else {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if !up {
		c.Msgs = append(c.Msgs, "the server does not listen")
		return
	}
	cb := gen.Procs[cname](cname)
	cb.Set("svc"+p.kind+"."+p.tr+".dial_addr", addr)
	cn, err := cb.Build(ctx)
	if err != nil {
		c.Msgs = append(c.Msgs, "the client process cannot be built: "+err.Error())
		return
	}
	defer cn.Shutdown(false)
	var client any
	if err := cn.Get("svc"+p.kind+".client", &client); err != nil {
		c.Msgs = append(c.Msgs, "the client process has no client: "+err.Error())
		return
	}
	c.Outcome = "carried"
	if p.kind == "Many" {
		p.many(&c, client.(msg.Many))
		return
	}
	v := reflect.ValueOf(client)
	for m := 0; m < 200; m++ {
		name := fmt.Sprintf("%sM%d", p.kind, m)
		named := strings.HasPrefix(p.kind, "Name")
		if named {
			name = "Do" + p.kind[4:]
		}
		f := v.MethodByName(name)
		if !f.IsValid() || m > 0 && named {
			break
		}
		ty := f.Type().In(f.Type().NumIn() - 1)
		for _, x := range values(ty, p.tr, 0) {
			in := []reflect.Value{reflect.ValueOf(ctx)}
			if named {
				in = append(in, reflect.ValueOf(7))
			}
			var out []reflect.Value
			var got any
			e := rep.Guard(func() { out = f.Call(append(in, x)); got = msg.Got() })
			c.Steps++
			if e != "" {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%s %s(%s): panic: %v", ty, name, show(x), e))
				break
			}
			if err, _ := out[len(out)-1].Interface().(error); err != nil {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%s %s(%s): error %v", ty, name, show(x), err))
				break
			}
			g := reflect.New(ty).Elem()
			if got != nil {
				g.Set(reflect.ValueOf(got))
			}
			if d := differ(x, g, "argument"); d != "" {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%s %s(%s): the service received another value: %s", ty, name, show(x), d))
				break
			}
			if d := differ(x, out[0], "result"); d != "" {
				c.Msgs = append(c.Msgs, fmt.Sprintf("%s %s(%s): the caller received another value: %s", ty, name, show(x), d))
				break
			}
		}
	}
	return
}

// many exercises several arguments and results: every combination of zero and non-zero values.
func (p pair) many(c *rep.Case, m msg.Many) {
	ctx := context.Background()
	c.Steps++
	if err := m.None(ctx); err != nil || msg.Got() != "none" {
		c.Msgs = append(c.Msgs, fmt.Sprintf("None: %v, %v", err, msg.Got()))
	}
	fl := msg.Flat{A: 3, B: "b", C: true, D: 0.5, E: 7, F: []byte{1, 0, 255}}
	for i := 0; i < 64; i++ {
		var a int
		var b string
		var cc []int
		var d map[string]bool
		var d2 map[string]int64
		var e msg.Flat
		var f *msg.Flat
		var ss []string
		if i&1 != 0 {
			a = -5
		}
		if i&2 != 0 {
			b = "x & y=\"é\n"
		}
		if i&4 != 0 {
			cc, ss = []int{3, 1, 2}, []string{"q", "", "r"}
		}
		if i&8 != 0 {
			d, d2 = map[string]bool{"t": true, "f": false}, map[string]int64{"": 1, "m": math.MinInt64}
		}
		if i&16 != 0 {
			e = fl
		}
		if i&32 != 0 {
			f = &msg.Flat{B: "only b"}
		}
		c.Steps += 3
		want := []any{a, b, cc, d, e, f}
		err := m.Args(ctx, a, b, cc, d, e, f)
		got, _ := msg.Got().([]any)
		if err != nil || len(got) != 6 {
			c.Msgs = append(c.Msgs, fmt.Sprintf("Args %v: %v %v", want, err, got))
			return
		}
		for j := range want {
			if s := differ(reflect.ValueOf(want[j]), reflect.ValueOf(got[j]), fmt.Sprint("argument ", j)); s != "" {
				c.Msgs = append(c.Msgs, fmt.Sprintf("Args %v: %s", want, s))
				return
			}
		}
		msg.Reply.A, msg.Reply.B, msg.Reply.C, msg.Reply.D, msg.Reply.E, msg.Reply.F = a, b, ss, d2, e, f
		ra, rb, rc, rd, re, rf, err := m.Rets(ctx)
		want, got = []any{a, b, ss, d2, e, f}, []any{ra, rb, rc, rd, re, rf}
		if err != nil {
			c.Msgs = append(c.Msgs, fmt.Sprintf("Rets %v: %v", want, err))
			return
		}
		for j := range want {
			if s := differ(reflect.ValueOf(want[j]), reflect.ValueOf(got[j]), fmt.Sprint("result ", j)); s != "" {
				c.Msgs = append(c.Msgs, fmt.Sprintf("Rets %v: %s", want, s))
				return
			}
		}
		x, y, z, err := m.Same(ctx, i, a, b)
		if err != nil || x != a || y != i || z != b+b {
			c.Msgs = append(c.Msgs, fmt.Sprintf("Same(%d, %d, %q) = %d, %d, %q, %v", i, a, b, x, y, z, err))
			return
		}
	}
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%#v", v.Interface())
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		s = "&" + fmt.Sprintf("%#v", v.Elem().Interface())
	}
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

// differ says where two values differ; nil and empty collections are the same.
func differ(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s is %v rather than %v", path, b, a)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s has type %v rather than %v", path, b.Type(), a.Type())
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s is nil: %v rather than %v", path, b.IsNil(), a.IsNil())
			}
			return ""
		}
		return differ(a.Elem(), b.Elem(), path)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d rather than %d elements", path, b.Len(), a.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := differ(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s has %d rather than %d entries", path, b.Len(), a.Len())
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return fmt.Sprintf("%s has no entry %v", path, k)
			}
			if d := differ(a.MapIndex(k), x, fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
	case reflect.Struct:
		if a.Type() == reflect.TypeOf(time.Time{}) {
			if x, y := a.Interface().(time.Time), b.Interface().(time.Time); !x.Equal(y) {
				return fmt.Sprintf("%s is %v rather than %v", path, y, x)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if d := differ(open(a, i), open(b, i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) && !(math.IsNaN(a.Float()) && math.IsNaN(b.Float())) {
			return fmt.Sprintf("%s is %v rather than %v", path, b, a)
		}
	case reflect.Func, reflect.Chan:
	default:
		if !a.Equal(b) {
			return fmt.Sprintf("%s is %#v rather than %#v", path, b, a)
		}
	}
	return ""
}

// open is the i-th field, even if it is not exported.
func open(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanInterface() {
		return f
	}
	if !v.CanAddr() {
		w := reflect.New(v.Type()).Elem()
		w.Set(v)
		f = w.Field(i)
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func ints(t reflect.Type) (vs []reflect.Value) {
	bits := t.Bits()
	for _, x := range []int64{0, 1, -1, math.MinInt8, math.MaxInt8, math.MinInt16, math.MaxInt16, math.MinInt32, math.MaxInt32, math.MinInt64, math.MaxInt64, 1<<53 + 1} {
		if bits == 64 || x >= -(1<<(bits-1)) && x < 1<<(bits-1) {
			vs = append(vs, reflect.ValueOf(x).Convert(t))
		}
	}
	return
}

func uints(t reflect.Type) (vs []reflect.Value) {
	for _, x := range []uint64{0, 1, math.MaxInt8, math.MaxUint8, math.MaxInt16, math.MaxUint16, math.MaxInt32, math.MaxUint32, math.MaxInt64, math.MaxUint64, 1<<53 + 1} {
		if t.Bits() == 64 || x < 1<<t.Bits() {
			vs = append(vs, reflect.ValueOf(x).Convert(t))
		}
	}
	return
}

// values enumerates boundary values of a type. Transport http carries JSON, which has no NaN, infinities or invalid UTF-8.
func values(t reflect.Type, tr string, depth int) (vs []reflect.Value) {
	switch t.Kind() {
	case reflect.Bool:
		return []reflect.Value{reflect.ValueOf(false).Convert(t), reflect.ValueOf(true).Convert(t)}
	case reflect.String:
		for _, s := range []string{"", "a", " ", "null", "\"", "\\", "é漢😀", "\x00\n\t\r", "a&b=c+d%20#?/;", "<>&\u2028", strings.Repeat("long ", 500)} {
			vs = append(vs, reflect.ValueOf(s).Convert(t))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return ints(t)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return uints(t)
	case reflect.Float32, reflect.Float64:
		fs := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 1e-7, 1e21, math.MaxFloat32, math.SmallestNonzeroFloat32}
		if t.Kind() == reflect.Float64 {
			fs = append(fs, math.MaxFloat64, math.SmallestNonzeroFloat64, 1<<53+2)
		}
		if tr == "grpc" {
			fs = append(fs, math.NaN(), math.Inf(1), math.Inf(-1))
		}
		for _, f := range fs {
			vs = append(vs, reflect.ValueOf(f).Convert(t))
		}
	case reflect.Complex128:
		vs = append(vs, reflect.ValueOf(complex(1, 2)))
	case reflect.Pointer:
		vs = append(vs, reflect.Zero(t))
		if depth < 4 {
			for _, e := range values(t.Elem(), tr, depth+1) {
				p := reflect.New(t.Elem())
				p.Elem().Set(e)
				vs = append(vs, p)
			}
		}
	case reflect.Slice:
		vs = append(vs, reflect.Zero(t), reflect.MakeSlice(t, 0, 0))
		if depth < 4 {
			es := values(t.Elem(), tr, depth+1)
			for _, e := range es {
				vs = append(vs, reflect.Append(reflect.Zero(t), e))
			}
			rev := reflect.Zero(t)
			for i := len(es) - 1; i >= 0; i-- {
				rev = reflect.Append(rev, es[i])
			}
			vs = append(vs, rev)
		}
	case reflect.Array:
		vs = append(vs, reflect.Zero(t))
		if depth < 4 {
			a := reflect.New(t).Elem()
			es := values(t.Elem(), tr, depth+1)
			for i := 0; i < t.Len(); i++ {
				a.Index(i).Set(es[(i+1)%len(es)])
			}
			vs = append(vs, a)
		}
	case reflect.Map:
		vs = append(vs, reflect.Zero(t), reflect.MakeMap(t))
		if depth < 4 {
			ks, es := values(t.Key(), tr, depth+1), values(t.Elem(), tr, depth+1)
			full := reflect.MakeMap(t)
			for i, k := range ks {
				one := reflect.MakeMap(t)
				one.SetMapIndex(k, es[i%len(es)])
				full.SetMapIndex(k, es[(i+1)%len(es)])
				vs = append(vs, one)
			}
			for _, e := range es {
				one := reflect.MakeMap(t)
				one.SetMapIndex(ks[len(ks)-1], e)
				vs = append(vs, one)
			}
			vs = append(vs, full)
		}
	case reflect.Struct:
		vs = append(vs, reflect.Zero(t))
		if t == reflect.TypeOf(time.Time{}) {
			return append(vs, reflect.ValueOf(time.Date(2024, 2, 29, 23, 59, 59, 123456789, time.UTC)))
		}
		if depth >= 4 {
			return
		}
		last := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			es := values(t.Field(i).Type, tr, depth+1)
			for _, e := range es[1:] {
				x := reflect.New(t).Elem()
				open(x, i).Set(e)
				if depth < 2 {
					vs = append(vs, x)
				}
			}
			open(last, i).Set(es[len(es)-1])
		}
		vs = append(vs, last)
	case reflect.Interface:
		vs = append(vs, reflect.Zero(t))
		if t.NumMethod() == 0 {
			for _, x := range []any{1, "s", true, []string{"a"}, msg.Flat{A: 1}} {
				vs = append(vs, reflect.ValueOf(x).Convert(t))
			}
		}
	default:
		vs = append(vs, reflect.Zero(t))
	}
	return
}
