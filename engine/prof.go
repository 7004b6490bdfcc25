package main

import (
	"os"
	"runtime/pprof"
)

func startProf() {
	if *fProf != "" {
		f, err := os.Create(*fProf)
		if err == nil {
			pprof.StartCPUProfile(f)
		}
	}
}

func stopProf() {
	if *fProf != "" {
		pprof.StopCPUProfile()
	}
}
