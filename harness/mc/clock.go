package mc

import "time"

// AtClock runs f with the wall clock that many seconds ahead and in that time zone. Only for
// serial scenarios.
func (c *C) AtClock(shift int64, zone *time.Location, f func()) {
	old := time.Local
	verifShift, time.Local = shift, zone
	defer func() { verifShift, time.Local = 0, old }()
	f()
}
