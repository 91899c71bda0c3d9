// amtharness drives github.com/wdamron/amt for the checks in /verif.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: amtharness trace|walk|hash args")
		os.Exit(9)
	}
	switch os.Args[1] {
	case "walk":
		cmdWalk(os.Args[2:])
	case "trace":
		cmdTrace(os.Args[2:])
	case "hash":
		cmdHash(os.Args[2:])
	default:
		fatal("unknown command " + os.Args[1])
	}
}
