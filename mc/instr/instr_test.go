package instr

import (
	"os"
	"testing"
)

// INSTR_SRC and INSTR_OUT: instrument a module by hand.
func TestModule(t *testing.T) {
	src, dst := os.Getenv("INSTR_SRC"), os.Getenv("INSTR_OUT")
	if src == "" {
		t.Skip()
	}
	st, err := Module(src, dst)
	t.Logf("%+v", st)
	if err != nil {
		t.Fatal(err)
	}
}
