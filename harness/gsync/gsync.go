// Package gsync is package sync with points of preemption where the engine has them.
package gsync

import (
	"sync"

	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Locker    = sync.Locker
)

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	vs.Gate()
	for !m.mu.TryLock() {
		if !vs.Turn() {
			m.mu.Lock()
			return
		}
	}
}

func (m *Mutex) Unlock()       { m.mu.Unlock() }
func (m *Mutex) TryLock() bool { vs.Gate(); return m.mu.TryLock() }

type RWMutex struct {
	mu      sync.RWMutex
	waiting int // writers
}

//go:norace
func (m *RWMutex) wait(n int) { m.waiting += n }

//go:norace
func (m *RWMutex) free() bool { return m.waiting == 0 }

func (m *RWMutex) Lock() {
	vs.Gate()
	for !m.mu.TryLock() {
		m.wait(1)
		follows := vs.Turn()
		m.wait(-1)
		if !follows {
			m.mu.Lock()
			return
		}
	}
}

func (m *RWMutex) RLock() {
	vs.Gate()
	for !m.free() || !m.mu.TryRLock() {
		if !vs.Turn() {
			m.mu.RLock()
			return
		}
	}
}

func (m *RWMutex) Unlock()         { m.mu.Unlock() }
func (m *RWMutex) RUnlock()        { m.mu.RUnlock() }
func (m *RWMutex) TryLock() bool   { vs.Gate(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool  { vs.Gate(); return m.mu.TryRLock() }
func (m *RWMutex) RLocker() Locker { return m.mu.RLocker() }

type Once struct{ o sync.Once }

func (o *Once) Do(f func()) { vs.Gate(); o.o.Do(f) }

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vs.Gate(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vs.Gate(); m.m.Store(k, v) }
func (m *Map) Swap(k, v any) (any, bool)        { vs.Gate(); return m.m.Swap(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vs.Gate(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vs.Gate(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vs.Gate(); m.m.Delete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vs.Gate(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vs.Gate(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Clear()                           { vs.Gate(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool)      { vs.Gate(); m.m.Range(f) }
