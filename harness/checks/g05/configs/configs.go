// Package configs lists the processes with load balancers that are generated and checked.
package configs

// LB is a load balancer over services (leaf0, leaf1, ...) and earlier balancers of the same process.
type LB struct {
	Over   []string
	Retry  bool  // the clients of the balancer retry twice
	Expect []int // the replicas that a round of calls reaches, one call each round
}

type Proc struct {
	Name    string
	Leaves  int
	LBs     []LB
	Refused bool // the compiler must refuse it
}

// All are the processes.
var All = []Proc{
	{Name: "b1", Leaves: 1, LBs: []LB{{Over: []string{"leaf0"}, Expect: []int{0}}}},
	{Name: "b2", Leaves: 2, LBs: []LB{{Over: []string{"leaf0", "leaf1"}, Expect: []int{0, 1}}}},
	{Name: "b3", Leaves: 3, LBs: []LB{{Over: []string{"leaf2", "leaf0", "leaf1"}, Expect: []int{0, 1, 2}}}},
	{Name: "b5", Leaves: 5, LBs: []LB{{Over: []string{"leaf0", "leaf1", "leaf2", "leaf3", "leaf4"}, Expect: []int{0, 1, 2, 3, 4}}}},
	{Name: "bpart", Leaves: 3, LBs: []LB{{Over: []string{"leaf2", "leaf0"}, Expect: []int{0, 2}}}},
	{Name: "btwo", Leaves: 4, LBs: []LB{{Over: []string{"leaf0", "leaf1"}, Expect: []int{0, 1}}, {Over: []string{"leaf2", "leaf3", "leaf0"}, Expect: []int{0, 2, 3}}}},
	{Name: "bnest", Leaves: 3, LBs: []LB{{Over: []string{"leaf0", "leaf1"}, Expect: []int{0, 1}}, {Over: []string{"lb0", "leaf2"}, Expect: []int{0, 2, 1, 2}}}},
	{Name: "bretry", Leaves: 2, LBs: []LB{{Over: []string{"leaf0", "leaf1"}, Retry: true, Expect: []int{0, 1}}}},
	{Name: "bnone", Leaves: 1, LBs: []LB{{}}, Refused: true},
	{Name: "bmissing", Leaves: 1, LBs: []LB{{Over: []string{"leaf0", "nothing"}}}, Refused: true},
}
