package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// set in builds against the instrumented copy of the library
var leakReset, leakStop func()
var leakDigest func() string
var leakTell func(string) func()

// leakLine is a kind of call as an observer sees it.
type leakLine struct {
	Op   string   `json:"op"`
	Al   []int    `json:"al"`
	Len  int      `json:"len"`
	Ok   bool     `json:"ok"`
	Pan  string   `json:"pan"`
	Leak []string `json:"leak"`
	Cnt  int      `json:"cnt"`

	ex []Event // the history up to an example
}

func aliasOf(e Event) []int {
	regs := append([]string{e.R}, e.A...)
	r := []int{}
	for i, x := range regs {
		k := i
		for j := 0; j < i; j++ {
			if regs[j] == x {
				k = j
				break
			}
		}
		r = append(r, k)
	}
	return r
}

// runLeak performs histories, each several times, and notes what each call
// shows to an observer.
func runLeak(f func(*gen), g *gen, d time.Duration, exFile string) {
	kinds := map[string]*leakLine{}
	order := []string{}
	perClass := map[string]int{}
	note := func(e Event, leak []string, h []Event) {
		l := leakLine{Op: e.Op, Al: aliasOf(e), Len: len(e.In) / 2, Ok: e.Ok, Pan: e.Pan, Leak: leak, Cnt: 1}
		b, _ := json.Marshal(l)
		k := string(b)
		if x, ok := kinds[k]; ok {
			x.Cnt++
			return
		}
		cls := fmt.Sprint(l.Op, l.Al, l.Len, l.Ok, l.Pan != "")
		if perClass[cls]++; perClass[cls] > 6 { // more of them tell nothing new
			return
		}
		l.ex = append([]Event(nil), h...)
		kinds[k] = &l
		order = append(order, k)
	}
	steps := 0
	again := func(evs []Event) []Event {
		m := newMach()
		for _, e := range evs {
			m.step(e.step())
		}
		return m.events
	}
	warm := 0
	sink = func(m *mach) {
		runs := [][]Event{m.events, again(m.events)}
		if warm < 200 { // first uses may differ
			warm++
			runs = append(runs, again(m.events))
			runs = runs[1:]
		}
		for i, e := range m.events {
			set := map[string]bool{}
			for _, r := range runs {
				if i < len(r) {
					set[r[i].leak] = true
				}
			}
			ls := []string{}
			for s := range set {
				ls = append(ls, s)
			}
			if len(ls) > 1 { // something else plays in: more samples
				for k := 0; k < 6; k++ {
					if r := again(m.events); i < len(r) && !set[r[i].leak] {
						set[r[i].leak] = true
						ls = append(ls, r[i].leak)
					}
				}
			}
			sort.Strings(ls)
			note(e, ls, m.events[:i+1])
			steps++
		}
	}
	end := time.Now().Add(d)
	for first := true; first || time.Now().Before(end); first = false {
		f(g)
	}
	enc := json.NewEncoder(out)
	fx, err := os.Create(exFile)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	bx := bufio.NewWriter(fx)
	ex := json.NewEncoder(bx)
	sort.SliceStable(order, func(i, j int) bool { return strings.Compare(kinds[order[i]].Op, kinds[order[j]].Op) < 0 })
	for _, k := range order {
		enc.Encode(kinds[k])
		ex.Encode(kinds[k].ex)
		nHist++
	}
	bx.Flush()
	fx.Close()
	nEv = steps
}
