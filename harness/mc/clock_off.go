//go:build !verclock

package mc

// ClockControlled tells whether the checker decides what the wall clock shows.
const ClockControlled = false

var verifShift int64
