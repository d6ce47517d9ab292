// g01 generates the applications of check G01.
package main

import (
	"verif.local/h/gen/lib"
	"verif.local/h/gen/stacks"
)

func main() {
	lib.Main(func(o *lib.Out) {
		for _, a := range stacks.Apps() {
			o.App(a.ID, a.Procs(), a.Define)
		}
	})
}
