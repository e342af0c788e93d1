//go:build veriter

package mc

import _ "unsafe"

// MapOrderControlled tells whether the checker decides where map iterations start.
const MapOrderControlled = true

//go:linkname verifIterHook internal/runtime/maps.verifIterHook
var verifIterHook func() (uint64, uint64)

//go:linkname verifSeedIs internal/runtime/maps.verifSeedIs
var verifSeedIs uint64
