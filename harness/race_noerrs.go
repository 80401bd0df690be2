//go:build !race

package harness

func raceErrors() int { return 0 }
