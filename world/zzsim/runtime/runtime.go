// Package runtime replaces the scheduler-related part of the standard package.
package runtime

import "ustack/zzsim"

// Gosched ...
func Gosched() { zzsim.Yield() }

// GC ...
func GC() {}

// NumGoroutine ...
func NumGoroutine() int {
	if zzsim.W() == nil {
		return 1
	}
	return zzsim.LiveTasks(zzsim.CurNode())
}
