#!/usr/bin/env python3
"""Writes workflows/msg: services whose methods echo every parameter type of the bounded grammar (G06)."""
import os
basics = "bool string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 byte rune float32 float64".split()
keys = [k for k in basics if k not in ("float32", "float64", "byte", "rune")]
groups = {}
groups["Basics"] = basics
groups["Slices"] = ["[]" + b for b in basics]
groups["Keys"] = ["map[%s]string" % k for k in keys]
groups["Vals"] = ["map[string]" + b for b in basics]
groups["Ptrs"] = ["*" + b for b in basics]
structs = ["Flat", "Nest", "Tree", "Empty", "Snake", "Ptr", "Deep"]
groups["Structs"] = structs
groups["PtrStructs"] = ["*" + s for s in structs]
groups["SliceStructs"] = ["[]" + s for s in structs]
groups["MapStructs"] = ["map[string]" + s for s in structs] + ["map[int32]Flat", "map[int]Nest"]
# types that a plugin may refuse
odd = ["[]*Flat", "map[string]*Flat", "[]*int", "map[string]*int", "**int", "**Flat", "[][]int", "[][]Flat", "map[string][]int", "map[string][]Flat",
       "map[string]map[string]int", "[]map[string]int", "map[float64]int", "map[byte]int", "map[rune]int", "map[Key]int", "[3]int", "any", "interface{}",
       "Enum", "Names", "[]Enum", "map[Enum]int", "Embeds", "Hidden", "HasIface", "HasChan", "HasTime", "HasErr", "Alias", "other.Flat", "Both", "complex128",
       "[]any", "map[string]any", "time.Duration", "HasArr", "HasGrid", "HasMM", "HasPP", "HasSP", "HasMP", "Multi", "Ring", "Gen[int]", "HasGen", "Tagged", "Outer", "struct{ A int }",
       "[]byte", "*[]int", "*map[string]int", "HasPS", "HasAnon", "map[string][]byte", "[][]byte", "Blob", "HasReset"]
out = ["""// Package msg has services whose methods echo their argument. Written by tools/msg.py.
package msg

import (
	"context"
	"sync"
	"time"

	"verif.local/workflows/msg/other"
)

var _ time.Time

var (
	mu  sync.Mutex
	got any
)

func saw(v any) {
	mu.Lock()
	defer mu.Unlock()
	got = v
}

// Got is the argument of the last call.
func Got() any {
	mu.Lock()
	defer mu.Unlock()
	return got
}

type Flat struct {
	A int
	B string
	C bool
	D float64
	E uint8
	F []byte
}

type Nest struct {
	F  Flat
	Fs []Flat
	M  map[string]Flat
	P  *Flat
	N  map[string]int64
	S  []string
}

type Tree struct {
	V    int64
	L, R *Tree
	Kids []Tree
}

type Empty struct{}

type HasReset struct{ Reset, Descriptor string }

type Key struct{ K string }

type Snake struct {
	User_name string
	ID        int
	URLPath   string
	X1        int8
	V2x       uint16
	A_1       int
	String_   string
	Msg       string
}

type Ptr struct {
	F *Flat
	T *Tree
	E *Empty
}

type Deep struct {
	N  Nest
	P  *Nest
	M  map[int64]Nest
	Bs []bool
	Fl []float32
	Is []int
	U  map[uint32]float64
	I8 map[int8]int16
}

type Blob struct {
	B  []byte
	Bs [][]byte
}

type Enum int

type Names []string

type Embeds struct {
	Flat
	X int
}

type Outer struct {
	*Flat
	other.Deep
	Y int
}

type Hidden struct {
	A int
	b int
}

type HasIface struct{ A any }

type HasChan struct{ A chan int }

type HasTime struct{ A time.Time }

type HasErr struct{ A error }

type Alias = Flat

type Both struct {
	A Flat
	B other.Flat
}

type HasArr struct{ A [2]int }

type HasGrid struct{ A [][]int }

type HasMM struct{ A map[string]map[string]int }

type HasPP struct{ A *int }

type HasPS struct{ A *[]string }

type HasSP struct{ A []*Flat }

type HasMP struct{ A map[string]*Flat }

type Multi struct{ A, B, C int }

type Ring struct {
	A int
	M map[string]Ring
	S []Ring
}

type Gen[T any] struct{ A T }

type HasGen struct{ A Gen[string] }

type HasAnon struct {
	A struct{ B int }
}

type Tagged struct {
	A int    `json:"a" bson:"b"`
	B string `json:"bee,omitempty"`
	C string `json:"c,omitempty"`
}
"""]
reg = []
def service(name, types):
    out.append("type %s interface {" % name)
    for i, t in enumerate(types):
        out.append("\t%sM%d(ctx context.Context, a %s) (%s, error)" % (name, i, t, t))
    out.append("}\n")
    out.append("type %sImpl struct{}\n" % name)
    out.append("func New%sImpl(ctx context.Context) (*%sImpl, error) { return &%sImpl{}, nil }\n" % (name, name, name))
    for i, t in enumerate(types):
        out.append("func (s *%sImpl) %sM%d(ctx context.Context, a %s) (%s, error) { saw(a); return a, nil }\n" % (name, name, i, t, t))
for g, ts in groups.items():
    service(g, ts)
for i, t in enumerate(odd):
    service("Odd%02d" % i, [t])
# several arguments and results
out.append("""type Many interface {
	None(ctx context.Context) error
	Args(ctx context.Context, a int, b string, c []int, d map[string]bool, e Flat, f *Flat) error
	Rets(ctx context.Context) (int, string, []string, map[string]int64, Flat, *Flat, error)
	Same(ctx context.Context, a, b int, c string) (int, int, string, error)
}

type ManyImpl struct{}

// Reply is what Rets returns.
var Reply struct {
	A int
	B string
	C []string
	D map[string]int64
	E Flat
	F *Flat
}

func NewManyImpl(ctx context.Context) (*ManyImpl, error) { return &ManyImpl{}, nil }

func (s *ManyImpl) None(ctx context.Context) error { saw("none"); return nil }

func (s *ManyImpl) Args(ctx context.Context, a int, b string, c []int, d map[string]bool, e Flat, f *Flat) error {
	saw([]any{a, b, c, d, e, f})
	return nil
}

func (s *ManyImpl) Rets(ctx context.Context) (int, string, []string, map[string]int64, Flat, *Flat, error) {
	return Reply.A, Reply.B, Reply.C, Reply.D, Reply.E, Reply.F, nil
}

func (s *ManyImpl) Same(ctx context.Context, a, b int, c string) (int, int, string, error) { saw([]any{a, b, c}); return b, a, c + c, nil }
""")
# argument names
names = ["client", "req", "rsp", "handler", "err", "msg", "cancel", "ret0", "vals", "resp", "response", "url", "json", "w", "r", "user_id", "userID", "ID", "id", "c", "s", "obj", "string_", "x_1", "k", "v", "i", "encoded_url", "bytes_a", "errors", "time", "context", "fmt", "io", "http", "grpc", "insecure", "mux", "reset", "String", "typ", "message", "service", "rpc", "option", "_x"]
for i, n in enumerate(names):
    t = "int" if i % 2 == 0 else "string"
    out.append("type Name%02d interface {\n\tDo%02d(ctx context.Context, a int, %s %s) (%s, error)\n}\n" % (i, i, n, "Flat" if n in ("vals2",) else t, t))
    out.append("type Name%02dImpl struct{}\n" % i)
    out.append("func NewName%02dImpl(ctx context.Context) (*Name%02dImpl, error) { return &Name%02dImpl{}, nil }\n" % (i, i, i))
    out.append("func (x *Name%02dImpl) Do%02d(ctx context.Context, a int, y %s) (%s, error) { saw(y); return y, nil }\n" % (i, i, t, t))
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "workflows", "msg")
os.makedirs(os.path.join(d, "other"), exist_ok=True)
open(os.path.join(d, "go.mod"), "w").write("module verif.local/workflows/msg\n\ngo 1.20\n")
open(os.path.join(d, "msg.go"), "w").write("\n".join(out))
open(os.path.join(d, "other", "other.go"), "w").write("// Package other has types with the names of others.\npackage other\n\ntype Flat struct {\n\tZ string\n\tY []int\n}\n\ntype Deep struct{ Q int }\n")
lst = ["package msgs\n", "// Groups are services of types that every transport carries; Odd are types that it may refuse.",
       "var Groups = []string{%s}\n" % ", ".join('"%s"' % g for g in groups),
       "var Odd = []string{%s}\n" % ", ".join("`%s`" % o for o in odd), "var Names = []string{%s}" % ", ".join('"%s"' % n for n in names)]
h = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "gen", "msgs")
os.makedirs(h, exist_ok=True)
defs = ["", 'import (', '\t"context"\n', '\t"github.com/blueprint-uservices/blueprint/blueprint/pkg/wiring"', '\t"github.com/blueprint-uservices/blueprint/plugins/workflow"', '\t"verif.local/workflows/msg"', ')', '',
        'var _ context.Context', '', '// Define declares the service of that name.', 'func Define(spec wiring.WiringSpec, kind, name string) {', '\tswitch kind {']
for k in list(groups) + ["Odd%02d" % i for i in range(len(odd))] + ["Many"] + ["Name%02d" % i for i in range(len(names))]:
    defs.append('\tcase "%s":\n\t\tworkflow.Service[*msg.%sImpl](spec, name)' % (k, k))
defs += ['\tdefault:', '\t\tpanic(kind)', '\t}', '}']
defs = [x for x in defs if x not in ('\t"context"\n', 'var _ context.Context')]
open(os.path.join(h, "list.go"), "w").write("// Package msgs lists the services of workflows/msg. Written by tools/msg.py.\n" + "\n".join([lst[0]] + defs[1:] + [""] + lst[1:]) + "\n")
