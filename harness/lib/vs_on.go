//go:build vsched

package lib

import (
	"time"

	"github.com/aceld/zinx/zvsched"
)

// SetLevel turns schedule perturbation of the code under test on (0 = off).
func SetLevel(l int) { zvsched.Level.Store(int32(l)) }

// SetClock sets the clock of package zutils; false: this build has no such clock.
func SetClock(f func() time.Time) bool {
	zvsched.Clock.Store(f)
	return true
}
