//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the happens-before race detector is compiled in.
const RaceBuild = true

func raceOff()                        { runtime.RaceDisable() }
func raceOn()                         { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer)    { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)    { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int                 { return runtime.RaceErrors() }
