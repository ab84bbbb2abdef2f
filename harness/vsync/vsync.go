// Package vsync is a drop-in replacement for package sync used only in check
// builds (through -overlay). Mutex and RWMutex keep sync's contract but block on
// channels, so that in a testing/synctest bubble a goroutine waiting for a lock is
// "durably blocked": virtual time can advance and a deadlock can be detected.
// Delay, when set, is called before and after lock operations to perturb schedules.
package vsync

import (
	"sync"
	"sync/atomic"
)

// Re-exported, unchanged.
type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Locker    = sync.Locker
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Once is sync.Once on the Mutex below.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if !o.done.Load() {
		o.m.Lock()
		defer o.m.Unlock()
		if !o.done.Load() {
			defer o.done.Store(true)
			f()
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Delay is called around lock operations when not nil. Set it only while no
// goroutine uses the package.
var Delay func()

func delay() {
	if d := Delay; d != nil {
		d()
	}
}

// Mutex is sync.Mutex blocking on a channel.
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

func (m *Mutex) Lock() {
	delay()
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waiters = append(m.waiters, ch)
	m.mu.Unlock()
	<-ch // ownership handed over
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.waiters) > 0 {
		ch := m.waiters[0]
		m.waiters = m.waiters[1:]
		m.mu.Unlock()
		close(ch)
	} else {
		m.locked = false
		m.mu.Unlock()
	}
	delay()
}

// RWMutex is sync.RWMutex (a waiting writer blocks new readers; a writer's unlock
// admits all waiting readers) blocking on channels.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	waitW   []chan struct{}
	waitR   []chan struct{}
}

func (m *RWMutex) Lock() {
	delay()
	m.mu.Lock()
	if !m.writer && m.readers == 0 && len(m.waitW) == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waitW = append(m.waitW, ch)
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 || len(m.waitW) > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	var wake []chan struct{}
	if len(m.waitR) > 0 {
		wake = m.waitR
		m.waitR = nil
		m.readers += len(wake)
	} else if len(m.waitW) > 0 {
		wake = m.waitW[:1:1]
		m.waitW = m.waitW[1:]
		m.writer = true
	}
	m.mu.Unlock()
	for _, ch := range wake {
		close(ch)
	}
	delay()
}

func (m *RWMutex) RLock() {
	delay()
	m.mu.Lock()
	if !m.writer && len(m.waitW) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.waitR = append(m.waitR, ch)
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.waitW) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	var wake chan struct{}
	if m.readers == 0 && len(m.waitW) > 0 {
		wake = m.waitW[0]
		m.waitW = m.waitW[1:]
		m.writer = true
	}
	m.mu.Unlock()
	if wake != nil {
		close(wake)
	}
	delay()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }
