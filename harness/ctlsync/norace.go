//go:build !race

package ctlsync

import "unsafe"

const RaceEnabled = false

func acquire(p unsafe.Pointer)      {}
func release(p unsafe.Pointer)      {}
func releaseMerge(p unsafe.Pointer) {}
