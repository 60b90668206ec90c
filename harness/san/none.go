//go:build !asan

// Package san asks the address sanitizer, where the build has it.
package san

const On = false

func Allocated() int64 { return 0 }
