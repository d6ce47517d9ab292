package r10

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.opentelemetry.io/otel/trace"
	"verif.local/h/rep"
)

func TestCheck(t *testing.T) {
	r := rep.New(t)
	defer r.Done()
	var tids []trace.TraceID
	var sids []trace.SpanID
	for i := 0; i < 16; i++ {
		for _, b := range rep.Pick(r, []byte{0x01, 0xff}, []byte{1, 0x0a, 0x10, 0x80, 0xa0, 0xff}) {
			var x trace.TraceID
			x[i] = b
			tids = append(tids, x)
			if i < 8 {
				var y trace.SpanID
				y[i] = b
				sids = append(sids, y)
			}
		}
	}
	var full trace.TraceID
	var fs trace.SpanID
	for i := range full {
		full[i] = byte(17*i + 3)
	}
	copy(fs[:], full[3:])
	tids, sids = append(tids, full), append(sids, fs)
	states := []string{"", "a=1", "a=1,b=2", "k0@v=x y", "rojo=00f067aa0ba902b7,congo=t61rcWkgMzE", "a_-*/=\"<>&'\\x", "q=" + strings.Repeat("z", 256)}
	many := []string{}
	for i := 0; i < 32; i++ {
		many = append(many, fmt.Sprintf("k%d=v%d", i, i))
	}
	states = append(states, strings.Join(many, ","))
	sp := &rep.Space{Name: "round trips", Exhaustive: true}
	bad := &rep.Space{Name: "corruptions", Exhaustive: true}
	check := func(tid trace.TraceID, sid trace.SpanID, flags byte, state string, remote bool) {
		ts, err := trace.ParseTraceState(state)
		if err != nil {
			t.Fatal(state, err)
		}
		sc := trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid, SpanID: sid, TraceFlags: trace.TraceFlags(flags), TraceState: ts, Remote: remote})
		enc, err := sc.MarshalJSON()
		if err != nil {
			t.Fatal(err)
		}
		var cfg trace.SpanContextConfig
		p := rep.Guard(func() { cfg, err = backend.GetSpanContext(string(enc)) })
		sp.Executions++
		if p != "" || err != nil || !trace.NewSpanContext(cfg).Equal(sc) || cfg.TraceState.String() != ts.String() {
			r.Fail(rep.Violation{Sig: fmt.Sprintf("roundtrip/%v/%v/%02x/%d/%v", tid, sid, flags, len(state), remote), Scenario: "round trip", Input: string(enc), Messages: []string{fmt.Sprintf("%s decoded to %+v, %v %s", enc, cfg, err, p)}})
		}
	}
	for _, tid := range tids {
		for _, sid := range sids {
			for _, st := range states {
				for _, rem := range []bool{false, true} {
					for _, f := range rep.Pick(r, []byte{0, 1, 0x80}, []byte{0, 1, 2, 0x10, 0x80, 0xff}) {
						check(tid, sid, f, st, rem)
					}
				}
			}
		}
	}
	for f := 0; f < 256; f++ {
		for _, st := range states {
			check(full, fs, byte(f), st, f%2 == 0)
		}
	}
	// corruptions: strings that do not describe a valid span context
	good := map[string]any{"TraceID": full.String(), "SpanID": fs.String(), "TraceFlags": "01", "TraceState": "a=1", "Remote": false}
	reject := func(name, enc string) {
		var cfg trace.SpanContextConfig
		var err error
		p := rep.Guard(func() { cfg, err = backend.GetSpanContext(enc) })
		bad.Executions++
		if p != "" || err == nil {
			r.Fail(rep.Violation{Sig: "corrupt/" + name, Scenario: "corruption", Input: enc, Messages: []string{fmt.Sprintf("%s: %s decoded to %+v, %v %s", name, enc, cfg, err, p)}})
		}
	}
	with := func(k string, v any) string {
		m := map[string]any{}
		for a, b := range good {
			m[a] = b
		}
		if v == nil {
			delete(m, k)
		} else {
			m[k] = v
		}
		b, _ := json.Marshal(m)
		return string(b)
	}
	base := with("Remote", false)
	if _, err := backend.GetSpanContext(base); err != nil {
		r.Fail(rep.Violation{Sig: "corrupt/base", Scenario: "corruption", Messages: []string{"a valid encoding was refused: " + err.Error()}})
	}
	for n := 0; n < len(base); n++ {
		reject(fmt.Sprintf("truncated-%d", n), base[:n])
	}
	for i, s := range []string{"", " ", "null", "[]", "{}", "0", "\"x\"", "true", base + "x", base + base, "[" + base + "]"} {
		reject(fmt.Sprintf("shape-%d", i), s)
	}
	for _, k := range []string{"TraceID", "SpanID", "TraceFlags", "TraceState"} {
		s := good[k].(string)
		if k != "TraceState" {
			reject(k+"-missing", with(k, nil))
			reject(k+"-empty", with(k, ""))
		}
		reject(k+"-number", with(k, 1))
		reject(k+"-bool", with(k, true))
		reject(k+"-list", with(k, []string{s}))
		if k == "TraceState" {
			for i, v := range []string{"a", "=", "a=1,a=2", "a=1=2", "a=\x01", "A=1", strings.Repeat("x", 300) + "=1", "a=" + strings.Repeat("x", 300), strings.Join(many, ",") + ",z=1"} {
				reject(fmt.Sprintf("TraceState-%d", i), with(k, v))
			}
			continue
		}
		for i := range s {
			reject(fmt.Sprintf("%s-short-%d", k, i), with(k, s[:i]))
			reject(fmt.Sprintf("%s-del-%d", k, i), with(k, s[:i]+s[i+1:]))
			for _, c := range []string{"g", " ", "-", "\u00e9"} {
				reject(fmt.Sprintf("%s-char-%d-%q", k, i, c), with(k, s[:i]+c+s[i+1:]))
			}
		}
		for _, x := range []string{"0", "00", "0000"} {
			reject(k+"-long-"+x, with(k, s+x))
			reject(k+"-pre-"+x, with(k, x+s))
		}
		if k != "TraceFlags" {
			reject(k+"-zero", with(k, strings.Repeat("0", len(s))))
		}
	}
	reject("Remote-string", with("Remote", "yes"))
	for _, s := range []*rep.Space{sp, bad} {
		s.States, s.Transitions, s.Outcomes = s.Executions, s.Executions, 2
		r.Add(s)
	}
	r.Sample(base)
}
