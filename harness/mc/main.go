// Command mc is the model checker for go-jsval: it enumerates bounded spaces
// of constraints, values, histories, map orders and schedules exhaustively,
// on the real code, and compares with the reference model.
package main

import (
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		worker(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "israce" {
		if c := checks[os.Args[2]]; c != nil && c.race {
			fmt.Println("yes")
		}
		return
	}
	// check ID TIER VERIF SCRATCH [CASE]
	if len(os.Args) < 6 {
		fmt.Fprintln(os.Stderr, "usage: mc check ID TIER VERIF SCRATCH [CASE]")
		os.Exit(3)
	}
	only := -1
	if len(os.Args) > 6 && os.Args[6] != "" {
		only, _ = strconv.Atoi(os.Args[6])
	}
	self, err := os.Executable()
	must(err)
	os.Exit(runCheck(self, os.Args[2], os.Args[3], os.Args[4], os.Args[5], only))
}
