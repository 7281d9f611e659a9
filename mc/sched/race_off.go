//go:build !race

package sched

import "unsafe"

// RaceBuild says whether the race detector is watching.
const RaceBuild = false

func raceOff()                        {}
func raceOn()                         {}
func Races() int                      { return 0 }
func RaceAcquire(unsafe.Pointer)      {}
func RaceReleaseMerge(unsafe.Pointer) {}
