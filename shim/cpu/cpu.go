// Package cpu stands in for the processor count in the library under check: how work is split must not depend on
// the machine, so the harness chooses it.
package cpu

import "sync/atomic"

// Cores is the number of processors the library sees.
var Cores atomic.Int64

// Reads counts calls.
var Reads atomic.Int64

func init() { Cores.Store(8) }

// NumCPU is runtime.NumCPU.
func NumCPU() int { Reads.Add(1); return int(Cores.Load()) }

// GOMAXPROCS is runtime.GOMAXPROCS, without effect on the runtime.
func GOMAXPROCS(n int) int {
	Reads.Add(1)
	old := Cores.Load()
	if n > 0 {
		Cores.Store(int64(n))
	}
	return int(old)
}
