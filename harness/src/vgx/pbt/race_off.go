//go:build !race

package pbt

// RaceOn tells whether this is the worker with the race detector.
const RaceOn = false

func raceErrors() int { return 0 }
