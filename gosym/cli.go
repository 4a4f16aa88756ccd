package main

import (
	"fmt"
	"os"
)

func realMain() int {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|one|selftest ...")
		return 2
	}
	switch os.Args[1] {
	case "one":
		return cmdOne(os.Args[2:])
	case "check":
		return cmdCheck(os.Args[2:])
	case "job":
		return cmdJob(os.Args[2:])
	case "replay":
		return cmdReplay(os.Args[2:])
	case "selftest":
		return cmdSelf(os.Args[2:])
	}
	return 2
}
func cmdSelf(a []string) int { return 2 }
