//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()             { runtime.RaceDisable() }
func raceOn()              { runtime.RaceEnable() }
func RaceErrors() int      { return runtime.RaceErrors() }
func raceRelease(p *int32) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceAcquire(p *int32) { runtime.RaceAcquire(unsafe.Pointer(p)) }
