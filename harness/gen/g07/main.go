// g07 generates the processes with injected faults that the check looks at.
package main

import (
	"sort"
	"strconv"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/faultinjector"
	"github.com/blueprint-uservices/blueprint/plugins/latency"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/h/checks/g07/configs"
	"verif.local/h/gen/lib"
	"verif.local/workflows/wraps/wraps"
)

func main() {
	lib.Main(func(o *lib.Out) {
		var names []string
		for n := range configs.All {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			o.Proc(n, func(spec wiring.WiringSpec) (nodes []string) {
				for i, c := range configs.All[n] {
					s := strconv.Itoa(i)
					leaf := workflow.Service[*wraps.LeafImpl](spec, "leaf"+s, "L"+s)
					for _, k := range c.Order {
						switch k {
						case 'f':
							faultinjector.AddProbabilisticFailures(spec, leaf, c.Fail)
						case 'd':
							faultinjector.AddRandomDelay(spec, leaf, c.Delay)
						case 'l':
							latency.AddFixed(spec, leaf, c.Latency)
						}
					}
					nodes = append(nodes, leaf, workflow.Service[*wraps.CallerImpl](spec, "caller"+s, leaf, "C"+s))
				}
				return nodes
			})
		}
	})
}
