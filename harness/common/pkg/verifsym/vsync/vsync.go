// Package vsync replaces package sync in the code under test when a schedule is replayed.
package vsync

import (
	"sync"

	"github.com/ConsenSys/fc-retrieval/common/pkg/verifsym"
)

type (
	Once      = sync.Once
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

type Mutex struct {
	RWMutex
}

type RWMutex struct {
	real    sync.RWMutex
	locked  bool
	readers int
	writers int // waiting
}

func (m *RWMutex) Lock() {
	if !verifsym.Scheduled() {
		m.real.Lock()
		return
	}
	verifsym.Yield()
	m.writers++
	verifsym.Block(func() bool { return !m.locked && m.readers == 0 })
	m.writers--
	m.locked = true
}

func (m *RWMutex) Unlock() {
	if !verifsym.Scheduled() {
		m.real.Unlock()
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	verifsym.Yield()
}

func (m *RWMutex) RLock() {
	if !verifsym.Scheduled() {
		m.real.RLock()
		return
	}
	verifsym.Yield()
	verifsym.Block(func() bool { return !m.locked && m.writers == 0 })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if !verifsym.Scheduled() {
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	verifsym.Yield()
}
