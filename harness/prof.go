package main

import (
	"os"
	"runtime/pprof"
)

// startProfile writes a CPU profile when VERIF_PROF is set (development only).
func startProfile() func() {
	p := os.Getenv("VERIF_PROF")
	if p == "" {
		return func() {}
	}
	f, err := os.Create(p)
	if err != nil {
		fatal("%v", err)
	}
	pprof.StartCPUProfile(f)
	return func() { pprof.StopCPUProfile(); f.Close() }
}
