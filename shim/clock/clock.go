// Package clock stands in for time.Now in the library under check: the harness can stop the clock, because
// two calls of the library may always see the same instant.
package clock

import (
	"sync/atomic"
	"time"
)

// Stopped makes Now return one fixed instant.
var Stopped atomic.Bool

// Reads counts calls.
var Reads atomic.Int64

// Now is time.Now unless the clock is stopped.
func Now() time.Time {
	Reads.Add(1)
	if Stopped.Load() {
		return time.Unix(1700000000, 123456789)
	}
	return time.Now()
}
