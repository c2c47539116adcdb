//go:build race

package verifharness

const raceEnabled = true

// evCounter is not atomic in race builds: an atomic counter touched by every
// read and write would order them all and so hide races from the detector.
type evCounter struct{ n int64 }

//go:norace
//go:noinline
func (c *evCounter) Add(d int64) { c.n += d }

//go:norace
//go:noinline
func (c *evCounter) Load() int64 { return c.n }
