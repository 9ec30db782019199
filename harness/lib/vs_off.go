//go:build !vsched

package lib

import "time"

func SetLevel(int) {}

// SetClock sets the clock of package zutils; false: this build has no such clock.
func SetClock(f func() time.Time) bool { return false }
