// g03 generates the processes with timeouts that the check looks at.
package main

import (
	"sort"
	"strconv"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/timeouts"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/h/checks/g03/configs"
	"verif.local/h/gen/lib"
	"verif.local/workflows/wraps/wraps"
)

func main() {
	lib.Main(func(o *lib.Out) {
		var names []string
		for n := range configs.All {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			o.Proc(n, func(spec wiring.WiringSpec) (nodes []string) {
				for i, t := range configs.All[n] {
					s := strconv.Itoa(i)
					leaf := workflow.Service[*wraps.LeafImpl](spec, "leaf"+s, "L"+s)
					timeouts.Add(spec, leaf, t)
					nodes = append(nodes, leaf, workflow.Service[*wraps.CallerImpl](spec, "caller"+s, leaf, "C"+s))
				}
				return nodes
			})
		}
	})
}
