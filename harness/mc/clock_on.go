//go:build verclock

package mc

import _ "unsafe"

// ClockControlled tells whether the checker decides what the wall clock shows.
const ClockControlled = true

//go:linkname verifShift time.verifShift
var verifShift int64
