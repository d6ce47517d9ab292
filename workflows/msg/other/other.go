// Package other has types with the names of others.
package other

type Flat struct {
	Z string
	Y []int
}

type Deep struct{ Q int }
