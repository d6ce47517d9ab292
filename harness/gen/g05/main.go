// g05 generates the processes with load balancers that the check looks at.
package main

import (
	"strconv"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/loadbalancer"
	"github.com/blueprint-uservices/blueprint/plugins/retries"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/h/checks/g05/configs"
	"verif.local/h/gen/lib"
	"verif.local/workflows/wraps/wraps"
)

func main() {
	lib.Main(func(o *lib.Out) {
		for _, p := range configs.All {
			o.Proc(p.Name, func(spec wiring.WiringSpec) (nodes []string) {
				names := map[string]string{}
				for i := 0; i < p.Leaves; i++ {
					s := strconv.Itoa(i)
					names["leaf"+s] = workflow.Service[*wraps.LeafImpl](spec, "leaf"+s, "L"+s)
				}
				for i, b := range p.LBs {
					s := strconv.Itoa(i)
					var over []string
					for _, n := range b.Over {
						if names[n] != "" {
							n = names[n]
						}
						over = append(over, n)
					}
					lb := loadbalancer.CreateLoadBalancer[*wraps.LeafImpl](spec, "group"+s, over)
					names["lb"+s] = lb
					if b.Retry {
						retries.AddRetries(spec, lb, 2)
					}
					nodes = append(nodes, workflow.Service[*wraps.CallerImpl](spec, "caller"+s, lb, "C"+s))
				}
				return nodes
			})
		}
	})
}
