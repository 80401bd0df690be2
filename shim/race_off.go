//go:build !race

package vshim

const RaceBuild = false

func raceDisable() {}
func raceEnable()  {}
