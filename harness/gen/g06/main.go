// g06 generates a server and a client process for every service of workflows/msg and both transports.
package main

import (
	"fmt"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/goproc"
	"github.com/blueprint-uservices/blueprint/plugins/grpc"
	"github.com/blueprint-uservices/blueprint/plugins/http"
	"verif.local/h/gen/lib"
	"verif.local/h/gen/msgs"
)

func main() {
	lib.Main(func(o *lib.Out) {
		kinds := append([]string{"Many"}, msgs.Groups...)
		for i := range msgs.Odd {
			kinds = append(kinds, fmt.Sprintf("Odd%02d", i))
		}
		for i := range msgs.Names {
			kinds = append(kinds, fmt.Sprintf("Name%02d", i))
		}
		for _, k := range kinds {
			for _, tr := range []string{"grpc", "http"} {
				deploy := map[string]func(wiring.WiringSpec, string){"grpc": grpc.Deploy, "http": http.Deploy}[tr]
				srv, cli := "s"+tr+k, "c"+tr+k
				o.App(tr+k, []string{srv, cli}, func(spec wiring.WiringSpec) []string {
					msgs.Define(spec, k, "svc"+k)
					deploy(spec, "svc"+k)
					return []string{goproc.CreateProcess(spec, srv, "svc"+k), goproc.CreateClientProcess(spec, cli, "svc"+k)}
				})
			}
		}
	})
}
