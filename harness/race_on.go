//go:build race

package main

const raceEnabled = true
const raceFactor = 10.0
const workerProcs = "4"
