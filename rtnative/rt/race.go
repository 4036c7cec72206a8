//go:build race

package rt

import "runtime"

const raceOn = true

func raceOff() { runtime.RaceDisable() }
func raceBack() { runtime.RaceEnable() }
