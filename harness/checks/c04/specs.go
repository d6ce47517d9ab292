// Package c04 checks that compilation does not depend on the iteration order of hash maps.
package c04

import (
	"fmt"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	hotel "github.com/blueprint-uservices/blueprint/examples/dsb_hotel/wiring/specs"
	sn "github.com/blueprint-uservices/blueprint/examples/dsb_sn/wiring/specs"
	sockshop "github.com/blueprint-uservices/blueprint/examples/sockshop/wiring/specs"
	tt "github.com/blueprint-uservices/blueprint/examples/train_ticket/wiring/specs"
	"github.com/blueprint-uservices/blueprint/plugins/cmdbuilder"
	"github.com/blueprint-uservices/blueprint/plugins/dockercompose"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/gotests"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"github.com/blueprint-uservices/blueprint/plugins/jaeger"
	"github.com/blueprint-uservices/blueprint/plugins/kubernetes"
	"github.com/blueprint-uservices/blueprint/plugins/linuxcontainer"
	"github.com/blueprint-uservices/blueprint/plugins/memcached"
	"github.com/blueprint-uservices/blueprint/plugins/mongodb"
	"github.com/blueprint-uservices/blueprint/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/plugins/redis"
	"github.com/blueprint-uservices/blueprint/plugins/simple"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"github.com/blueprint-uservices/blueprint/plugins/zipkin"
	"verif.local/h/gen/stacks"
	"verif.local/workflows/amb/one"
	"verif.local/workflows/amb/two"
	"verif.local/workflows/places/places"
)

type specOf struct {
	name     string
	thorough bool // only there
	irOnly   bool // its artifacts cannot be generated without a network
	define   func(spec wiring.WiringSpec) ([]string, error)
}

func example(name string, o cmdbuilder.SpecOption, thorough, irOnly bool) specOf {
	return specOf{"example " + name, thorough, irOnly, o.Build}
}

func stackApp(transport string, split bool, mods ...string) specOf {
	a := stacks.App{ID: "n0", Transport: transport, Stack: mods, Split: split}
	return specOf{"stack " + a.String(), len(mods) > 2, false, func(spec wiring.WiringSpec) ([]string, error) { return a.Define(spec), nil }}
}

var specs = []specOf{
	{"compose", false, false, compose},
	{"kubernetes", false, false, kube},
	{"several candidates", false, false, candidates},
	{"one process", false, false, oneProcess},
	stackApp("grpc", true, "otel", "retries"),
	example("sockshop basic", sockshop.Basic, false, false),
	stackApp("http", false, "govector", "pool", "timeouts"),
	example("sockshop docker", sockshop.Docker, true, true),
	example("sockshop grpc", sockshop.GRPC, true, true),
	example("hotel original", hotel.Original, true, true),
	example("social network", sn.Docker, true, true),
	example("train ticket", tt.Docker, true, false),
}

func compose(spec wiring.WiringSpec) ([]string, error) {
	r1, r2 := redis.Container(spec, "r_one"), memcached.Container(spec, "r_two")
	col := jaeger.Collector(spec, "trace")
	a, b := workflow.Service[*places.CachedImpl](spec, "a_service", r1), workflow.Service[*places.CachedImpl](spec, "b_service", r2)
	f := workflow.Service[*places.ForkImpl](spec, "f_service", a, b)
	for _, s := range []string{a, b, f} {
		opentelemetry.Instrument(spec, s, col)
		grpc.Deploy(spec, s)
	}
	pf, pa, pb := goproc.CreateProcess(spec, "f_proc", f), goproc.CreateProcess(spec, "a_proc", a), goproc.CreateProcess(spec, "b_proc", b)
	c1, c2 := linuxcontainer.CreateContainer(spec, "f_ctr", pf), linuxcontainer.CreateContainer(spec, "ab_ctr", pa, pb)
	return []string{dockercompose.NewDeployment(spec, "dep1", "r_one.ctr", "r_two.ctr", "trace.ctr"), dockercompose.NewDeployment(spec, "dep2", c1, c2), gotests.Test(spec, f)}, nil
}

func kube(spec wiring.WiringSpec) ([]string, error) {
	m := mongodb.Container(spec, "docs")
	col := zipkin.Collector(spec, "trace")
	a, b := workflow.Service[*places.DocImpl](spec, "a_service", m), workflow.Service[*places.DocImpl](spec, "b_service", m)
	f := workflow.Service[*places.ForkImpl](spec, "f_service", a, b)
	for _, s := range []string{a, b, f} {
		opentelemetry.Instrument(spec, s, col)
		http.Deploy(spec, s)
	}
	var cs []string
	for _, s := range []string{f, a, b} {
		cs = append(cs, linuxcontainer.CreateContainer(spec, s+"_ctr", goproc.CreateProcess(spec, s+"_proc", s)))
	}
	kubernetes.AddPodToApplication(spec, "app_kubernetes", "back_pod", "registry", "docs.ctr", "trace.ctr", cs[1])
	kubernetes.AddPodToApplication(spec, "app_kubernetes", "front_pod", "registry", cs[0], cs[2])
	return []string{kubernetes.NewApplication(spec, "app", "registry")}, nil
}

func candidates(spec wiring.WiringSpec) ([]string, error) {
	a := workflow.Service[*one.Impl](spec, "a_service")
	b := workflow.Service[one.Second](spec, "b_service")
	c := workflow.Service[*two.Impl](spec, "c_service", a)
	d := workflow.Service[*two.Impl](spec, "d_service", b)
	for _, s := range []string{a, b} {
		http.Deploy(spec, s)
	}
	return []string{goproc.CreateProcess(spec, "s_proc", a, b), goproc.CreateProcess(spec, "c_proc", c, d)}, nil
}

func oneProcess(spec wiring.WiringSpec) ([]string, error) {
	var svcs []string
	for i := 0; i < 3; i++ {
		svcs = append(svcs, workflow.Service[*places.CachedImpl](spec, fmt.Sprint("svc", i), simple.Cache(spec, fmt.Sprint("cache", i))))
	}
	return []string{goproc.CreateClientProcess(spec, "proc", svcs...)}, nil
}
