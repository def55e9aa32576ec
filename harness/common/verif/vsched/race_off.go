//go:build !race

package vsched

import "unsafe"

const RaceBuild = false

func raceOff()                        {}
func raceOn()                         {}
func RaceAcquire(p unsafe.Pointer)    {}
func RaceRelease(p unsafe.Pointer)    {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                 { return 0 }
