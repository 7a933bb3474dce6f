//go:build !race

package main

const raceEnabled = false
const raceFactor = 1.0
const workerProcs = "2"
