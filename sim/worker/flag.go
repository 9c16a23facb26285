package main

import (
	"unsafe"

	"github.com/markusmobius/go-dateparser/zzsim/rt"
)

// flag is a one-shot event between a client and the task it started.
type flag struct{ done bool }

//go:norace
func (f *flag) set() {
	rt.RaceRelease(unsafe.Pointer(f))
	f.done = true
	rt.Wake(unsafe.Pointer(f))
}

//go:norace
func (f *flag) wait() {
	for !f.done {
		rt.Block(unsafe.Pointer(f), "end of a call that may Goexit")
	}
	rt.RaceAcquire(unsafe.Pointer(f))
}
