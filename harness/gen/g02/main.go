// g02 generates a process for every retries configuration that the check looks at.
package main

import (
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/h/checks/g02/configs"
	"verif.local/h/gen/lib"
	"verif.local/workflows/wraps/wraps"
)

func main() {
	lib.Main(func(o *lib.Out) {
		for _, c := range configs.All {
			o.Proc(c.Name, func(spec wiring.WiringSpec) []string {
				leaf := workflow.Service[*wraps.LeafImpl](spec, "leaf", "L")
				c.Apply(spec, leaf)
				return []string{leaf, workflow.Service[*wraps.CallerImpl](spec, "caller", leaf, "C")}
			})
		}
		for _, p := range configs.Pairs {
			o.Proc(p.Name, func(spec wiring.WiringSpec) (nodes []string) {
				for i, s := range []string{"0", "1"} {
					leaf := workflow.Service[*wraps.LeafImpl](spec, "leaf"+s, "L"+s)
					p.C[i].Apply(spec, leaf)
					nodes = append(nodes, leaf, workflow.Service[*wraps.CallerImpl](spec, "caller"+s, leaf, "C"+s))
				}
				return nodes
			})
		}
	})
}
