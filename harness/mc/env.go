package mc

// WithEnv runs f with what env says of each variable asked for (its value, whether there is one,
// whether env decides at all). Only for serial scenarios.
func (c *C) WithEnv(env func(key string) (string, bool, bool), f func()) {
	verifEnvHook = env
	defer func() { verifEnvHook = nil }()
	f()
}
