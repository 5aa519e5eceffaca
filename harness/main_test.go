package main

import (
	"flag"
	"os"
	"testing"
)

// The program can also be built as a test binary, which is the only way to get
// at a *testing.T. It takes the same arguments.

var programArgs []string

func TestMain(m *testing.M) {
	programArgs = os.Args
	if err := flag.CommandLine.Parse([]string{"-test.run=^TestProgram$", "-test.timeout=0"}); err != nil {
		os.Exit(2)
	}
	os.Exit(m.Run())
}

func TestProgram(t *testing.T) {
	suiteT = t
	os.Args = programArgs
	main()
}
