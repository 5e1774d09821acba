package schedchecks

import (
	"os"
	"testing"

	"gofremc/kit"
)

func TestMC(t *testing.T) {
	prop := os.Getenv("MC_PROP")
	if prop == "" {
		t.Skip("MC_PROP not set")
	}
	f := all[prop]
	if f == nil {
		t.Fatalf("no check for %q", prop)
	}
	r := kit.NewRun(t)
	f(r)
	r.Finish()
}
