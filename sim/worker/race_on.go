//go:build race

package main

import "runtime"

const raceBuild = true

// raceOff hides synchronisation from the race detector until raceOn: what the
// simulated network and the harness do between the two orders nothing.
func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
