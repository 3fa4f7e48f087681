package main

import (
	"os"
	"testing"

	"verif/mc/checks"
)

var realArgs []string

func TestMain(m *testing.M) {
	realArgs = os.Args
	os.Args = os.Args[:1]
	os.Exit(m.Run())
}

func TestRun(t *testing.T) {
	os.Args = realArgs
	checks.T = t
	os.Exit(run(realArgs))
}
