// Package msgs lists the services of workflows/msg. Written by tools/msg.py.
package msgs

import (
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"
	"github.com/blueprint-uservices/blueprint/plugins/workflow"
	"verif.local/workflows/msg"
)

// Define declares the service of that name.
func Define(spec wiring.WiringSpec, kind, name string) {
	switch kind {
	case "Basics":
		workflow.Service[*msg.BasicsImpl](spec, name)
	case "Slices":
		workflow.Service[*msg.SlicesImpl](spec, name)
	case "Keys":
		workflow.Service[*msg.KeysImpl](spec, name)
	case "Vals":
		workflow.Service[*msg.ValsImpl](spec, name)
	case "Ptrs":
		workflow.Service[*msg.PtrsImpl](spec, name)
	case "Structs":
		workflow.Service[*msg.StructsImpl](spec, name)
	case "PtrStructs":
		workflow.Service[*msg.PtrStructsImpl](spec, name)
	case "SliceStructs":
		workflow.Service[*msg.SliceStructsImpl](spec, name)
	case "MapStructs":
		workflow.Service[*msg.MapStructsImpl](spec, name)
	case "Odd00":
		workflow.Service[*msg.Odd00Impl](spec, name)
	case "Odd01":
		workflow.Service[*msg.Odd01Impl](spec, name)
	case "Odd02":
		workflow.Service[*msg.Odd02Impl](spec, name)
	case "Odd03":
		workflow.Service[*msg.Odd03Impl](spec, name)
	case "Odd04":
		workflow.Service[*msg.Odd04Impl](spec, name)
	case "Odd05":
		workflow.Service[*msg.Odd05Impl](spec, name)
	case "Odd06":
		workflow.Service[*msg.Odd06Impl](spec, name)
	case "Odd07":
		workflow.Service[*msg.Odd07Impl](spec, name)
	case "Odd08":
		workflow.Service[*msg.Odd08Impl](spec, name)
	case "Odd09":
		workflow.Service[*msg.Odd09Impl](spec, name)
	case "Odd10":
		workflow.Service[*msg.Odd10Impl](spec, name)
	case "Odd11":
		workflow.Service[*msg.Odd11Impl](spec, name)
	case "Odd12":
		workflow.Service[*msg.Odd12Impl](spec, name)
	case "Odd13":
		workflow.Service[*msg.Odd13Impl](spec, name)
	case "Odd14":
		workflow.Service[*msg.Odd14Impl](spec, name)
	case "Odd15":
		workflow.Service[*msg.Odd15Impl](spec, name)
	case "Odd16":
		workflow.Service[*msg.Odd16Impl](spec, name)
	case "Odd17":
		workflow.Service[*msg.Odd17Impl](spec, name)
	case "Odd18":
		workflow.Service[*msg.Odd18Impl](spec, name)
	case "Odd19":
		workflow.Service[*msg.Odd19Impl](spec, name)
	case "Odd20":
		workflow.Service[*msg.Odd20Impl](spec, name)
	case "Odd21":
		workflow.Service[*msg.Odd21Impl](spec, name)
	case "Odd22":
		workflow.Service[*msg.Odd22Impl](spec, name)
	case "Odd23":
		workflow.Service[*msg.Odd23Impl](spec, name)
	case "Odd24":
		workflow.Service[*msg.Odd24Impl](spec, name)
	case "Odd25":
		workflow.Service[*msg.Odd25Impl](spec, name)
	case "Odd26":
		workflow.Service[*msg.Odd26Impl](spec, name)
	case "Odd27":
		workflow.Service[*msg.Odd27Impl](spec, name)
	case "Odd28":
		workflow.Service[*msg.Odd28Impl](spec, name)
	case "Odd29":
		workflow.Service[*msg.Odd29Impl](spec, name)
	case "Odd30":
		workflow.Service[*msg.Odd30Impl](spec, name)
	case "Odd31":
		workflow.Service[*msg.Odd31Impl](spec, name)
	case "Odd32":
		workflow.Service[*msg.Odd32Impl](spec, name)
	case "Odd33":
		workflow.Service[*msg.Odd33Impl](spec, name)
	case "Odd34":
		workflow.Service[*msg.Odd34Impl](spec, name)
	case "Odd35":
		workflow.Service[*msg.Odd35Impl](spec, name)
	case "Odd36":
		workflow.Service[*msg.Odd36Impl](spec, name)
	case "Odd37":
		workflow.Service[*msg.Odd37Impl](spec, name)
	case "Odd38":
		workflow.Service[*msg.Odd38Impl](spec, name)
	case "Odd39":
		workflow.Service[*msg.Odd39Impl](spec, name)
	case "Odd40":
		workflow.Service[*msg.Odd40Impl](spec, name)
	case "Odd41":
		workflow.Service[*msg.Odd41Impl](spec, name)
	case "Odd42":
		workflow.Service[*msg.Odd42Impl](spec, name)
	case "Odd43":
		workflow.Service[*msg.Odd43Impl](spec, name)
	case "Odd44":
		workflow.Service[*msg.Odd44Impl](spec, name)
	case "Odd45":
		workflow.Service[*msg.Odd45Impl](spec, name)
	case "Odd46":
		workflow.Service[*msg.Odd46Impl](spec, name)
	case "Odd47":
		workflow.Service[*msg.Odd47Impl](spec, name)
	case "Odd48":
		workflow.Service[*msg.Odd48Impl](spec, name)
	case "Odd49":
		workflow.Service[*msg.Odd49Impl](spec, name)
	case "Odd50":
		workflow.Service[*msg.Odd50Impl](spec, name)
	case "Odd51":
		workflow.Service[*msg.Odd51Impl](spec, name)
	case "Odd52":
		workflow.Service[*msg.Odd52Impl](spec, name)
	case "Odd53":
		workflow.Service[*msg.Odd53Impl](spec, name)
	case "Odd54":
		workflow.Service[*msg.Odd54Impl](spec, name)
	case "Odd55":
		workflow.Service[*msg.Odd55Impl](spec, name)
	case "Odd56":
		workflow.Service[*msg.Odd56Impl](spec, name)
	case "Odd57":
		workflow.Service[*msg.Odd57Impl](spec, name)
	case "Many":
		workflow.Service[*msg.ManyImpl](spec, name)
	case "Name00":
		workflow.Service[*msg.Name00Impl](spec, name)
	case "Name01":
		workflow.Service[*msg.Name01Impl](spec, name)
	case "Name02":
		workflow.Service[*msg.Name02Impl](spec, name)
	case "Name03":
		workflow.Service[*msg.Name03Impl](spec, name)
	case "Name04":
		workflow.Service[*msg.Name04Impl](spec, name)
	case "Name05":
		workflow.Service[*msg.Name05Impl](spec, name)
	case "Name06":
		workflow.Service[*msg.Name06Impl](spec, name)
	case "Name07":
		workflow.Service[*msg.Name07Impl](spec, name)
	case "Name08":
		workflow.Service[*msg.Name08Impl](spec, name)
	case "Name09":
		workflow.Service[*msg.Name09Impl](spec, name)
	case "Name10":
		workflow.Service[*msg.Name10Impl](spec, name)
	case "Name11":
		workflow.Service[*msg.Name11Impl](spec, name)
	case "Name12":
		workflow.Service[*msg.Name12Impl](spec, name)
	case "Name13":
		workflow.Service[*msg.Name13Impl](spec, name)
	case "Name14":
		workflow.Service[*msg.Name14Impl](spec, name)
	case "Name15":
		workflow.Service[*msg.Name15Impl](spec, name)
	case "Name16":
		workflow.Service[*msg.Name16Impl](spec, name)
	case "Name17":
		workflow.Service[*msg.Name17Impl](spec, name)
	case "Name18":
		workflow.Service[*msg.Name18Impl](spec, name)
	case "Name19":
		workflow.Service[*msg.Name19Impl](spec, name)
	case "Name20":
		workflow.Service[*msg.Name20Impl](spec, name)
	case "Name21":
		workflow.Service[*msg.Name21Impl](spec, name)
	case "Name22":
		workflow.Service[*msg.Name22Impl](spec, name)
	case "Name23":
		workflow.Service[*msg.Name23Impl](spec, name)
	case "Name24":
		workflow.Service[*msg.Name24Impl](spec, name)
	case "Name25":
		workflow.Service[*msg.Name25Impl](spec, name)
	case "Name26":
		workflow.Service[*msg.Name26Impl](spec, name)
	case "Name27":
		workflow.Service[*msg.Name27Impl](spec, name)
	case "Name28":
		workflow.Service[*msg.Name28Impl](spec, name)
	case "Name29":
		workflow.Service[*msg.Name29Impl](spec, name)
	case "Name30":
		workflow.Service[*msg.Name30Impl](spec, name)
	case "Name31":
		workflow.Service[*msg.Name31Impl](spec, name)
	case "Name32":
		workflow.Service[*msg.Name32Impl](spec, name)
	case "Name33":
		workflow.Service[*msg.Name33Impl](spec, name)
	case "Name34":
		workflow.Service[*msg.Name34Impl](spec, name)
	case "Name35":
		workflow.Service[*msg.Name35Impl](spec, name)
	case "Name36":
		workflow.Service[*msg.Name36Impl](spec, name)
	case "Name37":
		workflow.Service[*msg.Name37Impl](spec, name)
	case "Name38":
		workflow.Service[*msg.Name38Impl](spec, name)
	case "Name39":
		workflow.Service[*msg.Name39Impl](spec, name)
	case "Name40":
		workflow.Service[*msg.Name40Impl](spec, name)
	case "Name41":
		workflow.Service[*msg.Name41Impl](spec, name)
	case "Name42":
		workflow.Service[*msg.Name42Impl](spec, name)
	case "Name43":
		workflow.Service[*msg.Name43Impl](spec, name)
	case "Name44":
		workflow.Service[*msg.Name44Impl](spec, name)
	case "Name45":
		workflow.Service[*msg.Name45Impl](spec, name)
	default:
		panic(kind)
	}
}

// Groups are services of types that every transport carries; Odd are types that it may refuse.
var Groups = []string{"Basics", "Slices", "Keys", "Vals", "Ptrs", "Structs", "PtrStructs", "SliceStructs", "MapStructs"}

var Odd = []string{`[]*Flat`, `map[string]*Flat`, `[]*int`, `map[string]*int`, `**int`, `**Flat`, `[][]int`, `[][]Flat`, `map[string][]int`, `map[string][]Flat`, `map[string]map[string]int`, `[]map[string]int`, `map[float64]int`, `map[byte]int`, `map[rune]int`, `map[Key]int`, `[3]int`, `any`, `interface{}`, `Enum`, `Names`, `[]Enum`, `map[Enum]int`, `Embeds`, `Hidden`, `HasIface`, `HasChan`, `HasTime`, `HasErr`, `Alias`, `other.Flat`, `Both`, `complex128`, `[]any`, `map[string]any`, `time.Duration`, `HasArr`, `HasGrid`, `HasMM`, `HasPP`, `HasSP`, `HasMP`, `Multi`, `Ring`, `Gen[int]`, `HasGen`, `Tagged`, `Outer`, `struct{ A int }`, `[]byte`, `*[]int`, `*map[string]int`, `HasPS`, `HasAnon`, `map[string][]byte`, `[][]byte`, `Blob`, `HasReset`}

var Names = []string{"client", "req", "rsp", "handler", "err", "msg", "cancel", "ret0", "vals", "resp", "response", "url", "json", "w", "r", "user_id", "userID", "ID", "id", "c", "s", "obj", "string_", "x_1", "k", "v", "i", "encoded_url", "bytes_a", "errors", "time", "context", "fmt", "io", "http", "grpc", "insecure", "mux", "reset", "String", "typ", "message", "service", "rpc", "option", "_x"}
