//go:build race

package scen

import "runtime"

// raceReports counts the reports of the race detector.
func raceReports() int { return runtime.RaceErrors() }
