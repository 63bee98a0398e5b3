//go:build race

package ctlsync

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func releaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
