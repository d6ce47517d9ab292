// Package stacks enumerates the applications of check G01.
package stacks

import (
	"fmt"
	"os"
	"strings"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/circuitbreaker"
	"github.com/blueprint-uservices/blueprint/plugins/clientpool"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/govector"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/healthchecker"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/simple"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"github.com/blueprint-uservices/blueprint/plugins/zipkin"
	"verif.local/workflows/stack/other"
	"verif.local/workflows/stack/stack"
	"verif.local/workflows/stack/twin"
)

var mods = map[string]func(s wiring.WiringSpec, svc, id string){
	"retries":  func(s wiring.WiringSpec, svc, id string) { retries.AddRetries(s, svc, 2) },
	"timeouts": func(s wiring.WiringSpec, svc, id string) { timeouts.Add(s, svc, "20s") },
	"breaker": func(s wiring.WiringSpec, svc, id string) {
		circuitbreaker.AddCircuitBreaker(s, svc, 100000, 0.99, "1h")
	},
	"latency":  func(s wiring.WiringSpec, svc, id string) { latency.AddFixed(s, svc, "1us") },
	"delay":    func(s wiring.WiringSpec, svc, id string) { faultinjector.AddRandomDelay(s, svc, 0) },
	"faults":   func(s wiring.WiringSpec, svc, id string) { faultinjector.AddProbabilisticFailures(s, svc, 0) },
	"health":   func(s wiring.WiringSpec, svc, id string) { healthchecker.AddHealthCheckAPI(s, svc) },
	"pool":     func(s wiring.WiringSpec, svc, id string) { clientpool.Create(s, svc, 3) },
	"otel":     func(s wiring.WiringSpec, svc, id string) { opentelemetry.Instrument(s, svc, "zip"+id) },
	"govector": func(s wiring.WiringSpec, svc, id string) { govector.Instrument(s, svc) },
	"backoff": func(s wiring.WiringSpec, svc, id string) {
		retries.AddRetriesWithExponentialBackoff(s, svc, "1us", "4us", true)
	},
}

// Names lists the modifiers.
var Names = []string{"retries", "timeouts", "breaker", "latency", "delay", "faults", "health", "pool", "otel", "govector"}

type App struct {
	ID        string
	Transport string
	Stack     []string
	Twin      bool // with a service whose interface has the name of another package's interface
	Split     bool // a and b live in a process of their own each
}

func (a App) String() string {
	s := strings.Join(a.Stack, "+")
	if s == "" {
		s = "plain"
	}
	t := a.Transport
	if t == "" {
		t = "in-process"
	}
	if a.Split {
		t += ",split"
	}
	if a.Twin {
		t += ",twin"
	}
	return t + ":" + s
}

// Apps are all stacks of up to two modifiers over all transports; Full adds stacks of three, each over one of them.
func Apps() (as []App) {
	var sts [][]string
	sts = append(sts, nil)
	for _, m := range Names {
		sts = append(sts, []string{m})
	}
	for i, m := range Names {
		for _, n := range Names[:i] {
			sts = append(sts, []string{m, n}) // one service has this order, the other the opposite one
		}
	}
	if Full {
		for i, l := range Names {
			for j, m := range Names[:i] {
				for _, n := range Names[:j] {
					if i%2 == 0 {
						sts = append(sts, []string{m, l, n})
					} else {
						sts = append(sts, []string{l, m, n})
					}
				}
			}
		}
	}
	for _, t := range []string{"", "grpc", "http"} {
		for i, s := range sts {
			if t == "" && strings.Contains(strings.Join(s, " "), "pool") {
				// a pool needs several clients
				continue
			}
			if len(s) == 3 && (i%3 == 0) != (t == "grpc") || len(s) == 3 && (i%3 == 1) != (t == "http") {
				continue
			}
			as = append(as, App{ID: fmt.Sprint("n", len(as)), Transport: t, Stack: s, Split: t != "" && len(s) < 2})
		}
	}
	for _, t := range []string{"", "grpc", "http"} {
		for _, s := range sts[:1+len(Names)] {
			if t == "" && strings.Contains(strings.Join(s, " "), "pool") {
				continue
			}
			as = append(as, App{ID: fmt.Sprint("n", len(as)), Transport: t, Stack: s, Twin: true})
		}
	}
	return
}

// Full includes stacks of three modifiers.
var Full = os.Getenv("VERIF_TIER") == "thorough"

func (a App) rev() (s []string) {
	for i := len(a.Stack) - 1; i >= 0; i-- {
		s = append(s, a.Stack[i])
	}
	return
}

// Procs are the processes of the application.
func (a App) Procs() []string {
	switch {
	case a.Transport == "":
		return []string{"p" + a.ID}
	case a.Split:
		return []string{"p" + a.ID, "m" + a.ID, "s" + a.ID, "t" + a.ID}
	}
	return []string{"p" + a.ID, "s" + a.ID}
}

// Define wires the application.
func (a App) Define(spec wiring.WiringSpec) (nodes []string) {
	id := a.ID
	s1 := workflow.Service[*stack.StoreImpl](spec, "a"+id, simple.Cache(spec, "ca"+id), "labelA"+id)
	s2 := workflow.Service[*stack.StoreImpl](spec, "b"+id, simple.Cache(spec, "cb"+id), "labelB"+id)
	s3 := workflow.Service[*other.SummerImpl](spec, "o"+id, "labelO"+id)
	mid := workflow.Service[*stack.MidImpl](spec, "m"+id+"svc", s1, s2, s3, "labelM"+id)
	svcs := []string{s1, s2, s3}
	if a.Twin {
		svcs = append(svcs, workflow.Service[*twin.StoreImpl](spec, "w"+id, "labelW"+id))
	}
	usesGovec := false
	zip := false
	apply := func(svc string, ms []string) {
		for _, m := range ms {
			usesGovec = usesGovec || m == "govector"
			if m == "otel" && !zip {
				zip = true
				zipkin.Collector(spec, "zip"+id)
				nodes = append(nodes, dockercompose.NewDeployment(spec, "d"+id, "zip"+id+".ctr"))
			}
			mods[m](spec, svc, id)
		}
	}
	apply(s1, a.Stack)
	if len(a.Stack) > 1 {
		apply(s2, a.rev())
	}
	apply(s3, a.Stack)
	apply(mid, a.rev())
	if a.Twin {
		apply(svcs[3], a.Stack)
	}
	var procs []string
	if a.Transport == "" {
		procs = []string{goproc.CreateClientProcess(spec, "p"+id, append([]string{mid}, svcs...)...)}
	} else {
		for _, s := range append([]string{mid}, svcs...) {
			if a.Transport == "grpc" {
				grpc.Deploy(spec, s)
			} else {
				http.Deploy(spec, s)
			}
		}
		procs = []string{goproc.CreateClientProcess(spec, "p"+id, append([]string{mid}, svcs...)...)}
		if a.Split {
			procs = append(procs, goproc.CreateProcess(spec, "m"+id, mid), goproc.CreateProcess(spec, "s"+id, s1, s3), goproc.CreateProcess(spec, "t"+id, s2))
		} else {
			procs = append(procs, goproc.CreateProcess(spec, "s"+id, append([]string{mid}, svcs...)...))
		}
	}
	if usesGovec {
		for _, p := range procs {
			govector.Logger(spec, p)
		}
	}
	return append(nodes, procs...)
}
