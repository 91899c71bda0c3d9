//go:build verifhook

package main

import (
	"hash/maphash"
	"sync/atomic"
)

// Hash control.  The build replaces hash/maphash by a copy whose results pass
// through VerifSum and whose MakeSeed reports to VerifSeed (see bin/lib.py).
// VerifSum maps the true hash of (seed, bytes) to the programmed one, so the
// way the library feeds the bytes does not matter.

const hookOn = true

var (
	hookTab   map[uint64]uint64
	hookMiss  atomic.Int64
	hookHit   atomic.Int64
	hookSeeds []maphash.Seed
	hookGrab  bool
)

func init() {
	maphash.VerifSum = func(x uint64) uint64 {
		if hookTab == nil {
			return x
		}
		if y, ok := hookTab[x]; ok {
			hookHit.Add(1)
			return y
		}
		hookMiss.Add(1)
		return x
	}
	maphash.VerifSeed = func(s maphash.Seed) {
		if hookGrab {
			hookSeeds = append(hookSeeds, s)
		}
	}
}

func hookReset()              { hookTab = map[uint64]uint64{}; hookMiss.Store(0); hookHit.Store(0) }
func hookDisable()            { hookTab = nil }
func hookBegin()              { hookSeeds, hookGrab = hookSeeds[:0], true }
func hookEnd() []maphash.Seed { hookGrab = false; return hookSeeds }
func hookMissedSet(n int64)   { hookMiss.Store(n) }
func hookMissed() int64       { return hookMiss.Load() }

// hookExact: all hashes since the reset were programmed ones.
func hookExact() bool { return hookMiss.Load() == 0 && hookHit.Load() > 0 }

// hookProgram makes the hash of data repeated iter+1 times, under seed, be words[iter].
func hookProgram(seed maphash.Seed, data []byte, words []uint64) {
	tab := hookTab
	hookTab = nil
	var h maphash.Hash
	h.SetSeed(seed)
	for _, w := range words {
		h.Write(data)
		x := h.Sum64()
		if _, ok := tab[x]; !ok {
			tab[x] = w
		}
	}
	hookTab = tab
}
