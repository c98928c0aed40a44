//go:build race

package vrt

// RaceEnabled reports a race-detector build.
const RaceEnabled = true
