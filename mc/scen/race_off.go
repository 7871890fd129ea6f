//go:build !race

package scen

func raceReports() int { return 0 }
