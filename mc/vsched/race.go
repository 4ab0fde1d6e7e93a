//go:build race

package vsched

import "runtime"

// The controller must not order the threads in the eyes of the race detector.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Race says whether the race detector is on.
const Race = true
