//go:build sched

package main

import (
	"runtime"

	"github.com/bwesterb/go-ristretto/vsched"
)

// Goroutines run one at a time and give way at the places of the instrumented
// library that the round chooses: at all of them now and then, or at one of
// them always.
func init() {
	schedOn = func(seed uint64, round int) {
		runtime.GOMAXPROCS(1)
		x := seed*0x9e3779b97f4a7c15 + uint64(round)*0xc2b2ae3d27d4eb4f + 1
		next := func() uint64 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return x
		}
		for k := 0; k < 8; k++ {
			next()
		}
		// how seldom: at the places, and at the beginnings of functions
		rare := []uint64{1, 2, 4, 16}[round%4]
		entry := []uint64{64, 512, 4096, 1024}[round/4%4]
		vsched.Hook = func(site int) {
			r := next() >> 20
			if site != 0 && r%rare == 0 || site == 0 && r%entry == 0 {
				runtime.Gosched()
				for r>>30%4 == 3 { // sometimes let the others get further
					runtime.Gosched()
					r = next() >> 20
				}
			}
		}
	}
	schedOff = func() { vsched.Hook = nil }
}
