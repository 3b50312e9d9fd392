//go:build !race

package checks

const raceDetector = false

func raceDisable()    {}
func raceEnable()     {}
func raceErrors() int { return 0 }
