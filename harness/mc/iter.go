package mc

// under runs f while the checker decides where map iterations start and, through the seed of
// their hashes, where maps made meanwhile put more than eight entries. Only for serial
// scenarios: it applies to the whole process.
func under(seed uint64, start func() uint64, f func()) {
	verifIterHook = func() (uint64, uint64) {
		v := start()
		return v, v / 8
	}
	verifSeedIs = seed + 1
	defer func() { verifIterHook, verifSeedIs = nil, 0 }()
	f()
}

// MapOrder runs f while choosing, among n, where each map iteration starts.
func (c *C) MapOrder(n int, f func()) { under(1, func() uint64 { return uint64(c.Choose(n)) }, f) }

// FixedMapOrder runs f with every map iteration starting at v and every hash seeded with it.
func (c *C) FixedMapOrder(v uint64, f func()) { under(v, func() uint64 { return v }, f) }

// DevMapOrder is MapOrder, where any start but 0 is a deviation.
func (c *C) DevMapOrder(n int, f func()) { under(1, func() uint64 { return uint64(c.Dev(n)) }, f) }
