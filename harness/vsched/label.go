package vsched

import "unsafe"

//go:linkname runtimeSetProfLabel runtime/pprof.runtime_setProfLabel
func runtimeSetProfLabel(labels unsafe.Pointer)

//go:linkname runtimeGetProfLabel runtime/pprof.runtime_getProfLabel
func runtimeGetProfLabel() unsafe.Pointer

func setCur(t *Task) { runtimeSetProfLabel(unsafe.Pointer(t)) }
func cur() *Task     { return (*Task)(runtimeGetProfLabel()) }
