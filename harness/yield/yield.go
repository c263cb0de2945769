// Package yield holds the scheduling points inserted by cmd/instr.
package yield

import "sync/atomic"

var hook atomic.Pointer[func(site string)]

// Y is called before every statement of instrumented code.
func Y(site string) {
	if h := hook.Load(); h != nil {
		(*h)(site)
	}
}

// Set installs h (nil removes it).
func Set(h func(site string)) {
	if h == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&h)
}
