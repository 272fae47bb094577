//go:build !race

package main

const raceBuild = false

func raceOff() {}
func raceOn()  {}
