//go:build race

package harness

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
