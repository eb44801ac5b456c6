//go:build race

package simrt

import (
	"runtime"
	"unsafe"
)

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceAcquire and RaceRelease give simulated synchronisation its happens-before edges.
func RaceAcquire(p *int32) { runtime.RaceAcquire(unsafe.Pointer(p)) }
func RaceRelease(p *int32) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
