//go:build !race

package vsched

const RaceEnabled = false

func raceOff()             {}
func raceOn()              {}
func RaceErrors() int      { return 0 }
func raceRelease(p *int32) {}
func raceAcquire(p *int32) {}
