//go:build !race

package simrt

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return 0 }

func RaceAcquire(p *int32) {}
func RaceRelease(p *int32) {}
