//go:build !race

package vsched

func raceOff() {}
func raceOn()  {}

// Race says whether the race detector is on.
const Race = false
