//go:build !verifsync

package main

func lockPace(int64) {}

func lockStats() (locks, contended, pauses int64) { return }
