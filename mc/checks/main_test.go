package checks

import (
	"os"
	"testing"

	"gofremc/kit"
)

func TestMC(t *testing.T) {
	prop := os.Getenv("MC_PROP")
	if prop == "" {
		t.Skip("MC_PROP not set")
	}
	f := All[prop]
	if f == nil {
		t.Fatalf("no check for %q", prop)
	}
	r := kit.NewRun(t)
	f(r)
	for _, c := range cleanup {
		c()
	}
	r.Finish()
}
