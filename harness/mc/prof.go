package main

import (
	"os"
	"runtime/pprof"
)

// profile writes a CPU profile of the worker if MC_PROF asks for one.
func profile(tag string) func() {
	dir := os.Getenv("MC_PROF")
	if dir == "" {
		return func() {}
	}
	f, err := os.Create(dir + "/prof_" + tag)
	must(err)
	must(pprof.StartCPUProfile(f))
	return func() { pprof.StopCPUProfile(); f.Close() }
}
