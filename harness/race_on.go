//go:build race

package main

import (
	"fmt"
	"os"
	"runtime"
)

const raceBuild = true

// raceReports is the number of data races the race detector has reported so far.
func raceReports() int { return runtime.RaceErrors() }

// raceText is the last part of the race detector's log of this process.
func raceText() string {
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", os.Getenv("VERIF_RACE_LOG"), os.Getpid()))
	if err != nil {
		return ""
	}
	if len(b) > 6000 {
		b = b[len(b)-6000:]
	}
	return string(b)
}
