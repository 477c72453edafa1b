//go:build race

package main

import "runtime"

// raceErrors counts the reports of the race detector so far.
func raceErrors() int { return runtime.RaceErrors() }

const raceBuild = true
