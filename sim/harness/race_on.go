//go:build race && go1.21

package main

import "runtime"

const raceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
