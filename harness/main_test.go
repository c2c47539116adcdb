package verifharness

import (
	"os"
	"testing"

	ocpp "github.com/voltbras/go-ocpp"
)

// TestVerif runs the check of one property (VERIF_PROP).
func TestVerif(t *testing.T) {
	p := os.Getenv("VERIF_PROP")
	f := checks[p]
	if f == nil {
		t.Skip("VERIF_PROP names no check")
	}
	simOn.Store(true)
	ocpp.SetDebugLogger(&theLogger)
	ocpp.SetErrorLogger(&theLogger)
	r := newRun(p, t)
	go watchdog(r)
	f(r)
	r.write(true)
}
