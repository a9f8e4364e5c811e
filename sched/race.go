//go:build race

package main

import "runtime"

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
