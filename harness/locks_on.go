//go:build verifsync

package main

import "verif/harness/verifsync"

// The in-memory filesystem uses instrumented locks.

func lockPace(n int64) { verifsync.Pace.Store(n) }

func lockStats() (locks, contended, pauses int64) {
	return verifsync.Locks.Load(), verifsync.Contended.Load(), verifsync.Pauses.Load()
}
