//go:build !race

package rt

const raceOn = false

func raceOff()  {}
func raceBack() {}
