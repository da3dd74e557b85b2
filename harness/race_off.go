//go:build !race

package main

const raceBuild = false

func raceReports() int { return 0 }
func raceText() string { return "" }
