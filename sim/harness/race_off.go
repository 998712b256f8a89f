//go:build !race && go1.21

package main

const raceBuild = false

func raceErrors() int { return 0 }
