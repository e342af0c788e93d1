// Package props holds the checks of the library's properties.
package props

import "verif/mc"

// All is every check.
var All []mc.Prop

func register(id string, run func(*mc.T), assume ...string) {
	All = append(All, mc.Prop{ID: id, Run: run, Assume: assume})
}
