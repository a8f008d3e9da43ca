package main

// Goroutines that use the library at the same time (spec/MCConcPlan.tla): they
// share registers nobody writes and have receivers of their own.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

type concPlan struct {
	Name    string       `json:"name"`
	Init    [][2]string  `json:"init"`
	Threads [][]planCall `json:"threads"`
}

// saveClasses writes the memory of the values of all classes, so that another
// process can start from them without calling the library.
func saveClasses(g *gen) {
	b, _ := json.Marshal(g.classRaw())
	out.Write(b)
}

// set where the library is built with places to wait (sched_on.go)
var (
	schedOn  func(seed uint64, round int)
	schedOff func()
)

type shared struct {
	m     *mach
	names []string
}

// thread gives a goroutine's view: the shared registers and room for its own.
func (s *shared) thread() *mach {
	t := newMach()
	t.noChg = true
	for _, n := range s.names {
		switch n[0] {
		case 'p':
			t.p[n] = s.m.p[n]
		case 's':
			t.s[n] = s.m.s[n]
		case 't':
			t.t[n] = s.m.t[n]
		}
		t.snap[n] = nil
	}
	return t
}

var (
	concSeed   int64
	concRound0 int // the number of the first round
)

func runConc(g *gen, file, rawFile string, rounds int, seq bool) {
	var plans []concPlan
	readLines(file, func(b []byte) {
		var p concPlan
		if json.Unmarshal(b, &p) == nil && len(p.Threads) > 0 {
			plans = append(plans, p)
		}
	})
	raw := map[string]string{}
	b, err := os.ReadFile(rawFile)
	if err != nil || json.Unmarshal(b, &raw) != nil {
		fmt.Fprintln(os.Stderr, "no classes")
		os.Exit(3)
	}
	in := g.inputs()
	bufs := map[string][]byte{}
	for _, p := range plans {
		for _, t := range p.Threads {
			for _, c := range t {
				bufs[c.Op+" "+c.Cls] = in.get(c.Op, c.Cls)
			}
		}
	}
	obsTables = true
	enc := json.NewEncoder(out)
	for k, p := range plans {
		var first []byte
		for r := 0; r < rounds; r++ {
			evs := concRound(p, raw, bufs, seq, concRound0+r)
			b, _ := json.Marshal(evs)
			if r == 0 {
				first = b
			} else if bytes.Equal(first, b) {
				continue
			}
			bl := beginLine
			bl.N = k
			enc.Encode(bl)
			for _, e := range evs {
				enc.Encode(e)
				nEv++
			}
			nHist++
			out.Flush()
		}
	}
}

func concRound(p concPlan, raw map[string]string, bufs map[string][]byte, seq bool, round int) []Event {
	sh := &shared{m: newMach()}
	for _, x := range p.Init {
		sh.m.loadClass(x[0], x[1], raw)
		sh.names = append(sh.names, x[0])
	}
	ts := make([]*mach, len(p.Threads))
	for k := range ts {
		ts[k] = sh.thread()
		for _, c := range p.Threads[k] { // registers exist before the start
			for _, n := range append([]string{c.R}, c.A...) {
				if n != "" {
					ts[k].need(n)
				}
			}
		}
	}
	// the caller's first writes, then a barrier, then the calls
	running := make([]atomic.Value, len(ts))
	var start, done sync.WaitGroup
	start.Add(1)
	body := func(k int) {
		defer done.Done()
		m := ts[k]
		calls := p.Threads[k]
		for len(calls) > 0 && calls[0].Op == "load" {
			m.loadClass(calls[0].R, calls[0].Cls, raw)
			calls = calls[1:]
		}
		if !seq {
			start.Wait()
		}
		for j, c := range calls {
			usable := true
			for _, x := range c.A {
				usable = usable && !m.invalid[x]
			}
			if !usable || m.invalid[c.R] && (c.Op == "PCondSet") {
				continue
			}
			running[k].Store(c)
			m.do(c.Op, c.R, c.A, bufs[c.Op+" "+c.Cls], c.N)
			if !seq && (j+k+round)%7 == 0 {
				runtime.Gosched()
			}
		}
		running[k].Store(planCall{})
	}
	done.Add(len(ts))
	if schedOn != nil && !seq {
		seed := uint64(concSeed)
		for _, c := range p.Name {
			seed = seed*131 + uint64(c)
		}
		schedOn(seed, round)
		defer schedOff()
	}
	if seq {
		for k := range ts {
			body(k)
		}
	} else {
		for k := range ts {
			go body(k)
		}
		start.Done()
	}
	fin := make(chan bool)
	go func() { done.Wait(); close(fin) }()
	hung := false
	select {
	case <-fin:
	case <-time.After(120 * time.Second):
		hung = true
	}
	evs := []Event{}
	for k := range ts {
		evs = append(evs, ts[k].events...)
		if c, _ := running[k].Load().(planCall); hung && c.Op != "" {
			evs = append(evs, Event{Op: c.Op, R: c.R, A: c.A, N: c.N, Rv: []string{}, Chg: []string{}, Pan: "hang"})
		}
	}
	end := Event{Op: "end", A: []string{}, Rv: []string{}, Chg: []string{}, Ok: true, Ret: true}
	for _, n := range sh.names {
		if !bytes.Equal(sh.m.mem(n), sh.m.snap[n]) {
			end.Chg = append(end.Chg, n)
		}
	}
	if !bytes.Equal(mem(&ed.BaseScalarMultTable), mem(&pristineBase)) {
		end.Chg = append(end.Chg, "BaseScalarMultTable")
	}
	evs = append(evs, end)
	if hung {
		enc := json.NewEncoder(out)
		enc.Encode(beginLine)
		for _, e := range evs {
			enc.Encode(e)
		}
		out.Flush()
		os.Exit(0)
	}
	return evs
}
