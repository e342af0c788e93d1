//go:build !race

package mc

// RaceEnabled tells whether the race detector watches.
const RaceEnabled = false
