//go:build verenv

package mc

import _ "unsafe"

// EnvControlled tells whether the checker decides what the environment holds.
const EnvControlled = true

//go:linkname verifEnvHook os.verifEnvHook
var verifEnvHook func(key string) (string, bool, bool)
