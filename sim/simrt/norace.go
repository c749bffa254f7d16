//go:build !race

package simrt

func raceDisable() {}
func raceEnable()  {}

// Race reports whether the race detector is on.
const Race = false
