//go:build !race

package verifharness

import "sync/atomic"

const raceEnabled = false

type evCounter = atomic.Int64
