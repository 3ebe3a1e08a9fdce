package drive

import (
	"os"
	"runtime/pprof"
)

func startProfile(f string) {
	w, err := os.Create(f)
	if err == nil {
		pprof.StartCPUProfile(w)
	}
}

func stopProfile() { pprof.StopCPUProfile() }
