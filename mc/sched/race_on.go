//go:build race

package sched

import (
	"runtime"
	"unsafe"
)

// RaceBuild says whether the race detector is watching.
const RaceBuild = true

func raceOff()                          { runtime.RaceDisable() }
func raceOn()                           { runtime.RaceEnable() }
func Races() int                        { return runtime.RaceErrors() }
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
