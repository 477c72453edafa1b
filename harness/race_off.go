//go:build !race

package main

// raceErrors is zero without the race detector.
func raceErrors() int { return 0 }

const raceBuild = false
