//go:build !veriter

package mc

// MapOrderControlled tells whether the checker decides where map iterations start.
const MapOrderControlled = false

var verifIterHook func() (uint64, uint64)

var verifSeedIs uint64
