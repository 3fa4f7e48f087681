// Package vsynca stands in for sync in the antlr runtime: like vsync, but its
// operations are scheduling points of their own kind.
package vsynca

import (
	"verif/mc/vsched"
	"verif/mc/vsync"
)

type Mutex struct{ m vsync.Mutex }

func (m *Mutex) Lock()   { m.m.LockKind(vsched.Lib) }
func (m *Mutex) Unlock() { m.m.UnlockKind(vsched.Lib) }

type RWMutex struct{ m vsync.RWMutex }

func (m *RWMutex) Lock()    { m.m.LockKind(vsched.Lib) }
func (m *RWMutex) Unlock()  { m.m.UnlockKind(vsched.Lib) }
func (m *RWMutex) RLock()   { m.m.RLockKind(vsched.Lib) }
func (m *RWMutex) RUnlock() { m.m.RUnlockKind(vsched.Lib) }
