//go:build asan

// Package san asks the address sanitizer, where the build has it.
package san

// extern unsigned long __sanitizer_get_current_allocated_bytes(void);
// static unsigned long allocated(void) { return __sanitizer_get_current_allocated_bytes(); }
import "C"

const On = true

// Allocated is how many bytes of C memory are in use.
func Allocated() int64 { return int64(C.allocated()) }
