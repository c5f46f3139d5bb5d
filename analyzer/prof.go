package main

import (
	"os"
	"runtime/pprof"
)

func startProf() func() {
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		return pprof.StopCPUProfile
	}
	return func() {}
}
