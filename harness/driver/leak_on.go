//go:build leak

package main

import (
	"fmt"
	"os"

	"github.com/bwesterb/go-ristretto/vleak"
)

func init() {
	leakReset, leakStop, leakDigest = vleak.Reset, vleak.Stop, vleak.Digest
	leakTell = func(f string) func() {
		if f == "" {
			vleak.Tell = nil
			return nil
		}
		w, _ := os.Create(f)
		vleak.Tell = func(site uint32, kind byte, v uint64) { fmt.Fprintf(w, "%d %c %d\n", site, kind, v) }
		return func() { w.Close(); vleak.Tell = nil }
	}
}
