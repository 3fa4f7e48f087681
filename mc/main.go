// Command mc runs the bounded exhaustive checks. It is built as a test binary
// (go test -c), because the fake clock of testing/synctest needs a testing.T.
package main

import (
	"fmt"
	"os"

	"verif/mc/checks"
	"verif/mc/engine"
)

func main() { os.Exit(run(os.Args)) }

func run(args []string) int {
	if len(args) < 3 {
		fmt.Println("usage: mc check ID [tier] | worker ID tier | replay FILE")
		return 2
	}
	switch args[1] {
	case "replay":
		return engine.Replay(args[2], checks.Find)
	case "history":
		return checks.History(args[3:])
	case "check", "worker":
		ck := checks.Find(args[2])
		if ck == nil {
			fmt.Println("no such check")
			return 2
		}
		tier := "quick"
		if len(args) > 3 {
			tier = args[3]
		}
		if args[1] == "worker" {
			return engine.Worker(ck)
		}
		root := os.Getenv("VERIF_ROOT")
		if root == "" {
			root = "/verif"
		}
		return engine.Run(ck, tier, root)
	}
	return 2
}
