// Package c05 decides C05: port assignment and addresses.
package c05

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/environment"
	"verif.local/h/rep"
)

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	for n := 0; n <= rep.Pick(r, 4, 5); n++ {
		lists(r, n)
	}
	full(r)
	env(r)
	wirings(r)
}

// ---------------------------------------------------------------- port assignment on lists

var ports = []uint16{0, 1, 2000, 2001, 65535}
var prefs = []uint16{0, 1, 2000, 2001, 65534, 65535}

func mk(i int, port, pref uint16) *address.BindConfig {
	b := &address.BindConfig{}
	b.AddressName = fmt.Sprintf("a%d.addr", i)
	b.Key = fmt.Sprintf("a%d.bind_addr", i)
	b.Port = port
	b.PreferredPort = pref
	return b
}

func lists(r *rep.R, n int) {
	k := len(ports) * len(prefs)
	r.Enum(fmt.Sprintf("port assignment to %d addresses", n), rep.Power(k, n), n, func(i int) rep.Case {
		radix := make([]int, n)
		for j := range radix {
			radix[j] = k
		}
		var in strings.Builder
		var binds []*address.BindConfig
		for j, d := range rep.Digits(i, radix...) {
			b := mk(j, ports[d%len(ports)], prefs[d/len(ports)])
			fmt.Fprintf(&in, "(port %d, preferred %d) ", b.Port, b.PreferredPort)
			binds = append(binds, b)
		}
		out, msgs := judge(binds)
		return rep.Case{Sig: "assign", Input: in.String(), Outcome: out, Msgs: msgs}
	})
}

func judge(binds []*address.BindConfig) (string, []string) {
	var msgs []string
	bad := func(f string, a ...any) { msgs = append(msgs, fmt.Sprintf(f, a...)) }
	type cfg struct{ port, pref uint16 }
	before := map[*address.BindConfig]cfg{}
	taken := map[uint16]int{}
	var wantPre, wantAsg []*address.BindConfig
	for _, b := range binds {
		before[b] = cfg{b.Port, b.PreferredPort}
		if b.Port != 0 {
			taken[b.Port]++
			wantPre = append(wantPre, b)
		} else {
			wantAsg = append(wantAsg, b)
		}
	}
	conflict := false
	for _, c := range taken {
		conflict = conflict || c > 1
	}
	list := append([]*address.BindConfig{}, binds...)
	pre, asg, err := address.AssignPorts(list)
	impossible := len(taken)+len(wantAsg) > 65535
	if conflict || impossible {
		if err == nil {
			bad("assignment succeeds although it cannot")
		}
		return "error", msgs
	}
	if err != nil {
		bad("assignment fails: %v", err)
		return "unexpected error", msgs
	}
	same := func(a, b []*address.BindConfig) bool {
		m := map[*address.BindConfig]int{}
		for _, x := range a {
			m[x]++
		}
		for _, x := range b {
			m[x]--
		}
		for _, c := range m {
			if c != 0 {
				return false
			}
		}
		return true
	}
	if !same(pre, wantPre) {
		bad("reported %d addresses as assigned before, want %d", len(pre), len(wantPre))
	}
	if !same(asg, wantAsg) {
		bad("reported %d addresses as newly assigned, want %d", len(asg), len(wantAsg))
	}
	got := map[uint16]*address.BindConfig{}
	var out strings.Builder
	for _, b := range binds {
		if len(binds) < 10 {
			fmt.Fprintf(&out, "%d ", b.Port)
		}
		if b.Port == 0 {
			bad("%s has no port", b.Name())
			continue
		}
		if o, dup := got[b.Port]; dup {
			bad("%s and %s share port %d", o.Name(), b.Name(), b.Port)
		}
		got[b.Port] = b
		if was := before[b]; was.port != 0 && b.Port != was.port {
			bad("%s had port %d and now has %d", b.Name(), was.port, b.Port)
		}
	}
	for _, b := range binds {
		if was := before[b]; was.port == 0 && was.pref != 0 && b.Port != was.pref && got[was.pref] == nil {
			bad("%s prefers port %d, which is free, and got %d", b.Name(), was.pref, b.Port)
		}
	}
	if len(msgs) > 0 {
		return out.String(), msgs
	}
	// Assigning again changes nothing; clearing and assigning again restores the same ports.
	now := map[*address.BindConfig]uint16{}
	for _, b := range binds {
		now[b] = b.Port
	}
	if len(binds) < 10 {
		if _, a2, err := address.AssignPorts(binds); err != nil || len(a2) > 0 {
			bad("assigning a second time: %d newly assigned, error %v", len(a2), err)
		}
		for _, b := range binds {
			if b.Port != now[b] {
				bad("assigning a second time moves %s from %d to %d", b.Name(), now[b], b.Port)
			}
		}
		address.SetHostname("h", binds)
		for _, b := range binds {
			if b.Port != now[b] || b.Hostname != "h" || b.Value() != fmt.Sprintf("h:%d", b.Port) || !b.HasValue() {
				bad("%s: host %q port %d value %q after setting the host name h", b.Name(), b.Hostname, b.Port, b.Value())
			}
		}
		address.Clear(binds)
		for _, b := range binds {
			if b.Port != 0 || b.Hostname != "" || b.HasValue() {
				bad("%s still has host %q port %d after being cleared", b.Name(), b.Hostname, b.Port)
			}
		}
		if _, a3, err := address.AssignPorts(binds); err != nil || len(a3) != len(binds) {
			bad("assigning after clearing: %d newly assigned, error %v", len(a3), err)
		}
		for _, b := range binds {
			if b.Port != now[b] {
				bad("assigning after clearing moves %s from %d to %d", b.Name(), now[b], b.Port)
			}
		}
	}
	return out.String(), msgs
}

// full covers exhaustion of the port space.
func full(r *rep.R) {
	r.Enum("port assignment to almost all or too many addresses", 4*3*3, 65537, func(i int) rep.Case {
		d := rep.Digits(i, 4, 3, 3)
		n := 65534 + d[0]
		var binds []*address.BindConfig
		for j := 0; j < n; j++ {
			b := mk(j, 0, 0)
			switch {
			case d[1] == 1 && j < n-3 && j < 65534: // almost all already have a port
				b.Port = uint16(j + 1)
			case d[1] == 2 && j < n-3: // almost all already have a port, counted from the end
				b.Port = uint16(65535 - j)
			case d[1] == 0 && j < 65535: // almost all have a preference of their own
				b.PreferredPort = uint16(j + 1)
			case d[2] == 1:
				b.PreferredPort = 65535
			case d[2] == 2:
				b.PreferredPort = 7
			}
			binds = append(binds, b)
		}
		out, msgs := judge(binds)
		if len(msgs) > 5 {
			msgs = msgs[:5]
		}
		return rep.Case{Sig: "assign-full", Input: fmt.Sprintf("%d addresses, variant %v", n, d), Outcome: fmt.Sprint(d[0], out), Msgs: msgs}
	})
}

// ---------------------------------------------------------------- generated environment files

func env(r *rep.R) {
	names := []string{"user.http.addr", "user_db.addr", "a.grpc.addr", "b.addr"}
	starts := []uint16{0, 1, 2000, 12345, 65532, 65533, 65534, 65535}
	scratch, _ := os.MkdirTemp("", "c05")
	defer os.RemoveAll(scratch)
	// every address: absent, bind only, dial only, both (bind first), both (dial first)
	r.EnumN("generated environment files", rep.Power(5, 4)*len(starts), 4, 1, func(i int) rep.Case {
		d := rep.Digits(i, 5, 5, 5, 5, len(starts))
		start := starts[d[4]]
		var nodes, front []ir.IRNode
		used := 0
		for j, n := range names {
			b := &address.BindConfig{}
			b.AddressName, b.Key = n, strings.TrimSuffix(n, "addr")+"bind_addr"
			di := &address.DialConfig{}
			di.AddressName, di.Key = n, strings.TrimSuffix(n, "addr")+"dial_addr"
			switch d[j] {
			case 1:
				nodes = append(nodes, b)
			case 2:
				nodes = append(nodes, di)
			case 3:
				nodes = append(nodes, b, di)
			case 4:
				front = append([]ir.IRNode{di}, front...)
				nodes = append(nodes, b)
			}
			if d[j] > 0 {
				used++
			}
		}
		nodes = append(front, nodes...)
		environment.AssignPorts(start)
		dir := filepath.Join(scratch, strconv.Itoa(i))
		app := &ir.ApplicationNode{ApplicationName: "app", Children: nodes}
		err := app.GenerateArtifacts(dir)
		defer os.RemoveAll(dir)
		c := rep.Case{Sig: "env", Input: fmt.Sprintf("addresses %v from port %d", d[:4], start)}
		bad := func(f string, a ...any) { c.Msgs = append(c.Msgs, fmt.Sprintf(f, a...)) }
		if used == 0 {
			return c
		}
		if start == 0 || int(start)+used-1 > 65535 {
			c.Outcome = "error"
			if err == nil {
				bad("no error although there are not enough ports")
			}
			return c
		}
		if err != nil {
			bad("fails: %v", err)
			return c
		}
		var seen map[string]string
		for _, local := range []bool{true, false} {
			file := ".env"
			if local {
				file = ".local.env"
			}
			data, err := os.ReadFile(filepath.Join(dir, file))
			if err != nil {
				bad("%v", err)
				return c
			}
			vars := map[string]string{}
			for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
				k, v, ok := strings.Cut(l, "=")
				if !ok || vars[k] != "" {
					bad("%s: line %q", file, l)
				}
				vars[k] = v
			}
			owner := map[string]string{}
			want := 0
			portOf := map[string]string{}
			for j, n := range names {
				for _, side := range []string{"bind", "dial"} {
					if d[j] == 0 || d[j] == 1 && side == "dial" || d[j] == 2 && side == "bind" {
						continue
					}
					want++
					key := strings.ToUpper(strings.ReplaceAll(strings.TrimSuffix(n, "addr")+side+"_addr", ".", "_"))
					v, ok := vars[key]
					if !ok {
						bad("%s does not set %s", file, key)
						continue
					}
					host, port, _ := strings.Cut(v, ":")
					wantHost := "0.0.0.0"
					if side == "dial" {
						wantHost = strings.Split(n, ".")[0]
						if local {
							wantHost = "localhost"
						}
					}
					if host != wantHost {
						bad("%s: %s has host %q, want %q", file, key, host, wantHost)
					}
					if p, err := strconv.Atoi(port); err != nil || p < 1 || p > 65535 {
						bad("%s: %s has port %q", file, key, port)
					}
					if o, ok := owner[port]; ok && o != n {
						bad("%s: %s and %s share port %s", file, o, n, port)
					}
					owner[port] = n
					if o, ok := portOf[n]; ok && o != port {
						bad("%s: %s is bound and dialled on different ports %s and %s", file, n, o, port)
					}
					portOf[n] = port
				}
			}
			if len(vars) != want {
				bad("%s sets %d variables, want %d", file, len(vars), want)
			}
			if seen != nil && fmt.Sprint(seen) != fmt.Sprint(portOf) {
				bad("the two files disagree on the ports: %v and %v", seen, portOf)
			}
			seen = portOf
		}
		var ps []string
		for n, p := range seen {
			ps = append(ps, n+"="+p)
		}
		sort.Strings(ps)
		c.Outcome = fmt.Sprint(ps)
		return c
	})
}
