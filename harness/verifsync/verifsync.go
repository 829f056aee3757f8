// Package verifsync stands in for package sync in the code under test. It has the same API; its mutexes
// count how they are used and, when asked to, pause at random before locking and after unlocking, so that
// the windows between critical sections become wide enough to be hit.
package verifsync

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

var (
	// Pace is the chance in 256 of a pause at each boundary of a critical section.
	Pace atomic.Int64
	// Locks counts acquisitions, Contended those that had to wait, Pauses the pauses made.
	Locks, Contended, Pauses atomic.Int64

	state atomic.Uint64
)

func pause() {
	p := Pace.Load()
	if p == 0 {
		return
	}
	x := state.Add(0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	if int64(x&0xff) >= p {
		return
	}
	Pauses.Add(1)
	switch x >> 8 & 7 {
	case 0, 1, 2, 3:
		runtime.Gosched()
	case 4, 5:
		for i := x >> 11 & 15; i > 0; i-- {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(x>>11&31) * time.Microsecond)
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	pause()
	Locks.Add(1)
	if !m.mu.TryLock() {
		Contended.Add(1)
		m.mu.Lock()
	}
}

func (m *Mutex) TryLock() bool { return m.mu.TryLock() }

func (m *Mutex) Unlock() {
	m.mu.Unlock()
	pause()
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	pause()
	Locks.Add(1)
	if !m.mu.TryLock() {
		Contended.Add(1)
		m.mu.Lock()
	}
}

func (m *RWMutex) Unlock() {
	m.mu.Unlock()
	pause()
}

func (m *RWMutex) RLock() {
	pause()
	Locks.Add(1)
	if !m.mu.TryRLock() {
		Contended.Add(1)
		m.mu.RLock()
	}
}

func (m *RWMutex) RUnlock() {
	m.mu.RUnlock()
	pause()
}

func (m *RWMutex) TryLock() bool  { return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.mu.TryRLock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
