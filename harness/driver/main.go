package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
)

var scalarZero ristretto.Scalar

func lizardNum(d []byte) *big.Int {
	h := sha256.Sum256(d)
	copy(h[8:], d)
	h[0] &= 254
	h[31] &= 63
	return bigOfLE(h[:])
}

// t^2 = s^4 + 2 (1-d)/(1+d) s^2 + 1, and t is not zero
func onQuartic(s, t *big.Int) bool {
	if t.Sign() == 0 || s.Cmp(bigP) >= 0 || t.Cmp(bigP) >= 0 {
		return false
	}
	s2 := mulp(s, s)
	m := mulp(mulp(big.NewInt(2), subp(bigOne, bigD)), invp(addp(bigOne, bigD)))
	return mulp(t, t).Cmp(addp(addp(mulp(s2, s2), mulp(m, s2)), bigOne)) == 0
}

var (
	out   *bufio.Writer
	outF  *os.File
	outMu sync.Mutex
	nEv   int
	nHist int
)

var beginLine = Event{Op: "begin", A: []string{}, Rv: []string{}, Chg: []string{}}

func emit(evs []Event) {
	if len(evs) == 0 {
		return
	}
	outMu.Lock()
	defer outMu.Unlock()
	enc := json.NewEncoder(out)
	enc.Encode(beginLine)
	for _, e := range evs {
		enc.Encode(e)
	}
	if curF != nil {
		out.Flush()
	}
	nEv += len(evs)
	nHist++
}

// the machine whose operation is running, for the watchdog
var current atomic.Pointer[mach]

func watchdog(limit time.Duration) {
	for {
		time.Sleep(time.Second)
		t := atomic.LoadInt64(&opStarted)
		if t != 0 && time.Since(time.Unix(0, t)) > limit {
			ev, _ := opRunning.Load().(Event)
			ev.Pan = "hang"
			ev.Rv = []string{}
			evs := append(append([]Event(nil), current.Load().events...), ev)
			emit(evs)
			out.Flush()
			fmt.Fprintln(os.Stderr, "operation does not return:", ev.Op)
			os.Exit(0)
		}
	}
}

func main() {
	mode := flag.String("mode", "gen", "gen, replay")
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	flag.IntVar(&concRound0, "round0", 0, "number of the first round (conc)")
	scale := flag.Int("scale", 1, "budget")
	file := flag.String("out", "", "trace file")
	in := flag.String("in", "", "input (replay, plan)")
	curFile := flag.String("cur", "", "file that gets each operation before it runs")
	twin := flag.String("twin", "", "file for the raw arguments of each call")
	screen := flag.Duration("screen", 0, "afterwards run histories for this long and record suspicious ones")
	raw := flag.String("raw", "", "values of the classes (conc)")
	rounds := flag.Int("rounds", 1, "repetitions (conc)")
	seq := flag.Bool("seq", false, "one goroutine after the other (conc)")
	plan := flag.String("plan", "", "plan made from the specification")
	flag.Parse()

	var err error
	outF, err = os.Create(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out = bufio.NewWriterSize(outF, 1<<20)
	if *curFile != "" {
		curF, err = os.Create(*curFile)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	sink = func(m *mach) { emit(m.events) }
	g := &gen{Rand: rand.New(rand.NewSource(*seed*1000003 + int64(len(*prop)))), scale: *scale}
	go watchdog(60 * time.Second)
	defer func() { // a panic that has nothing to do with the library is a fault of the recorder
		x := recover()
		if x == nil {
			return
		}
		if st := debug.Stack(); !bytes.Contains(st, []byte("bwesterb/go-ristretto")) {
			fmt.Fprintf(os.Stderr, "recorder: %v\n%s\n", x, st)
			os.Exit(3)
		}
		panic(x)
	}()
	switch *mode {
	case "gen":
		f, ok := generators[*prop]
		if !ok {
			fmt.Fprintln(os.Stderr, "no generator for", *prop)
			os.Exit(3)
		}
		f(g)
		if *plan != "" {
			planRuns[*prop](g, readPlan(*plan))
		}
		if *screen > 0 {
			screening(*prop, f, g, *screen)
		}
	case "replay":
		replay(*in)
	case "plan":
		runPlan(g, *in, *twin)
	case "leak":
		runLeak(generators[*prop], g, *screen, *twin)
	case "classes":
		saveClasses(g)
	case "conc":
		concSeed = *seed
		runConc(g, *in, *raw, *rounds, *seq)
	case "rand":
		runRand(*in, *seed)
	case "twin":
		runTwin(g, *in)
	default:
		fmt.Fprintln(os.Stderr, "mode", *mode)
		os.Exit(3)
	}
	out.Flush()
	outF.Close()
	fmt.Printf("{\"histories\":%d,\"events\":%d,\"screened\":%d,\"suspicious\":%d}\n", nHist, nEv, nScreened, nSuspicious)
}

var nScreened, nSuspicious int

type stopScreening struct{}

// screening runs histories of the same generator until the time is up and
// records those on which a second implementation disagrees.
func screening(prop string, f func(*gen), g *gen, d time.Duration) {
	out.Flush()
	end := time.Now().Add(d)
	old := sink
	sink = func(m *mach) {
		nScreened += len(m.events)
		if suspicious(m.events) {
			nSuspicious++
			emit(m.events)
		}
		if time.Now().After(end) || nSuspicious >= 10 {
			panic(stopScreening{})
		}
	}
	defer func() {
		sink = old
		if x := recover(); x != nil {
			if _, ok := x.(stopScreening); !ok {
				panic(x)
			}
		}
	}()
	if h, ok := hotLoops[prop]; ok {
		h(g, time.Now().Add(d/2))
	}
	g.scale = 1
	for {
		f(g)
	}
}

// replay executes the operations of a recorded history again.
func replay(file string) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	var m *mach
	for sc.Scan() {
		var e Event
		if json.Unmarshal(sc.Bytes(), &e) != nil {
			continue
		}
		if e.Op == "begin" || m == nil {
			if m != nil {
				sink(m)
			}
			m = newMach()
			if e.Op == "begin" {
				continue
			}
		}
		m.step(e.step())
	}
	if m != nil {
		sink(m)
	}
}
