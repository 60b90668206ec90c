//go:build race

package checks

import "runtime"

const raceBuild = true

// raceErrors is how many data races the detector has reported in this process.
func raceErrors() int { return runtime.RaceErrors() }
