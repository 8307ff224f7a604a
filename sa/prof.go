package main

import (
	"os"
	"runtime/pprof"
	"time"
)

// GPSA_PROF=FILE writes a processor profile of the first two minutes.
func init() {
	if f := os.Getenv("GPSA_PROF"); f != "" {
		w, err := os.Create(f)
		if err != nil {
			return
		}
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(100 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
		}()
	}
}
