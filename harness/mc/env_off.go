//go:build !verenv

package mc

// EnvControlled tells whether the checker decides what the environment holds.
const EnvControlled = false

var verifEnvHook func(key string) (string, bool, bool)
