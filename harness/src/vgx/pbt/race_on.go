//go:build race

package pbt

import "runtime"

// RaceOn tells whether this is the worker with the race detector.
const RaceOn = true

func raceErrors() int { return runtime.RaceErrors() }
