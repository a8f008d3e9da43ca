package main

// Calls of Rand with a scripted source of randomness (spec/RandSource.tla).
// The source is crypto/rand.Reader.  A script whose source fails runs in a
// process of its own, since the call may end the program.

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
)

type answer struct {
	K   int    `json:"k"`
	Err string `json:"err"`
}
type randPlan struct {
	Need   int      `json:"need"`
	Script []answer `json:"script"`
	St     string   `json:"st"`
}

type randEvent struct {
	Event
	Want string `json:"want"`
}

var randErrs = map[string]error{"eof": io.EOF, "unexpected": io.ErrUnexpectedEOF, "boom": errors.New("boom")}

// source plays a script, then delivers whatever it is asked for.
type source struct {
	*mrand.Rand
	script  []answer
	pending []byte // delivered, not yet used by a call
}

func (s *source) Read(b []byte) (int, error) {
	k, err := len(b), error(nil)
	if len(s.script) > 0 {
		a := s.script[0]
		s.script = s.script[1:]
		if a.K < k {
			k = a.K
		}
		err = randErrs[a.Err]
	}
	for j := range b { // the rest of the buffer may be used as scratch space
		b[j] = byte(s.Intn(256))
	}
	s.pending = append(s.pending, b[:k]...)
	return k, err
}

func randCall(op string, old int) (ev randEvent) {
	ev.Event = Event{Op: op, A: []string{}, Rv: []string{}, Chg: []string{}, Ok: true, Ret: true, N: old}
	defer func() {
		if x := recover(); x != nil {
			ev.Pan = "panic: " + fmt.Sprint(x)
		}
	}()
	var p ristretto.Point
	var s ristretto.Scalar
	if old == 1 { // the receiver holds something already
		p.SetBase()
		s.SetUint64(77)
	}
	if op == "PRand" {
		ev.Ret = p.Rand() == &p
		ev.Rv = []string{feHex(&p.X), feHex(&p.Y), feHex(&p.Z), feHex(&p.T)}
		ev.Out = hex.EncodeToString(p.Bytes())
	} else {
		ev.Ret = s.Rand() == &s
		ev.Rv = []string{scHex(&s)}
		ev.Out = hex.EncodeToString(s.Bytes())
	}
	return
}

func randOp(need int) string {
	if need == 32 {
		return "PRand"
	}
	return "SRand"
}

// randScript: a call, the scripted call, another call.
func randScript(w io.Writer, pl randPlan, seed int64) {
	src := &source{Rand: mrand.New(mrand.NewSource(seed))}
	rand.Reader = src
	enc := json.NewEncoder(w)
	one := func(op string, script []answer, want string) bool {
		src.script = script
		enc.Encode(map[string]string{"about": op, "want": want})
		ev := randCall(op, int(seed&1))
		n := map[string]int{"PRand": 32, "SRand": 64}[op]
		ev.In = hex.EncodeToString(src.pending)
		if len(src.pending) >= n {
			src.pending = append([]byte(nil), src.pending[n:]...)
		} else {
			src.pending = nil
		}
		src.script = nil
		ev.Want = want
		enc.Encode(ev)
		return ev.Pan == ""
	}
	ops := []string{"PRand", "SRand"}
	if one(ops[seed>>1&1], nil, "returned") && one(randOp(pl.Need), pl.Script, pl.St) {
		n := 1
		if pl.St == "returned" && seed%16 == 0 { // longer sequences
			n = 70
		}
		for k := 0; k < n; k++ {
			op := randOp(pl.Need)
			if k > n/2 && k%3 == 0 {
				op = ops[k/3&1]
			}
			if !one(op, nil, "returned") {
				return
			}
		}
	}
}

// merge gives the events of a script's output; a call without one ended the program.
func randMerge(b []byte) (evs []json.RawMessage) {
	var about map[string]string
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		if bytes.HasPrefix(sc.Bytes(), []byte(`{"about"`)) {
			about = nil
			json.Unmarshal(sc.Bytes(), &about)
			continue
		}
		about = nil
		evs = append(evs, append(json.RawMessage(nil), sc.Bytes()...))
	}
	if about != nil {
		j, _ := json.Marshal(randEvent{Event{Op: about["about"], A: []string{}, Rv: []string{}, Chg: []string{}, Ret: true, Pan: "crash"}, about["want"]})
		evs = append(evs, j)
	}
	return
}

func runRand(file string, seed int64) {
	if k := os.Getenv("RAND_ONE"); k != "" { // one script, in a process of its own
		var pl randPlan
		json.Unmarshal([]byte(k), &pl)
		w := bufio.NewWriterSize(os.Stdout, 0)
		randScript(flushing{w}, pl, seed)
		os.Exit(0)
	}
	if k := os.Getenv("RAND_SYSTEM"); k != "" {
		enc := json.NewEncoder(os.Stdout)
		n, _ := strconv.Atoi(k)
		for ; n > 0; n-- {
			for _, op := range []string{"PRand", "SRand"} {
				ev := randCall(op, n&1)
				ev.Want = "system"
				enc.Encode(ev)
			}
		}
		os.Exit(0)
	}
	var plans []randPlan
	readLines(file, func(b []byte) {
		var p randPlan
		if json.Unmarshal(b, &p) == nil && p.Need > 0 {
			plans = append(plans, p)
		}
	})
	res := make([][]json.RawMessage, len(plans)+8)
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	child := func(k int, env string) {
		defer wg.Done()
		defer func() { <-slots }()
		cmd := exec.Command(os.Args[0], "-mode", "rand", "-out", os.DevNull, "-seed", fmt.Sprint(seed*100003+int64(k)))
		cmd.Env = append(os.Environ(), env)
		var o bytes.Buffer
		cmd.Stdout = &o
		if cmd.Start() != nil {
			fmt.Fprintln(os.Stderr, "cannot start")
			os.Exit(3)
		}
		t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		t.Stop()
		res[k] = randMerge(o.Bytes())
	}
	for k, p := range plans {
		wg.Add(1)
		slots <- true
		j, _ := json.Marshal(p)
		go child(k, "RAND_ONE="+string(j))
	}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		slots <- true
		go child(len(plans)+k, "RAND_SYSTEM=150")
	}
	wg.Wait()
	for _, evs := range res {
		if len(evs) == 0 {
			fmt.Fprintln(os.Stderr, "a script left nothing")
			os.Exit(3)
		}
		for _, e := range evs {
			out.Write(e)
			out.WriteString("\n")
			nEv++
		}
		nHist++
	}
}

type flushing struct{ w *bufio.Writer }

func (f flushing) Write(b []byte) (int, error) {
	n, err := f.w.Write(b)
	f.w.Flush()
	return n, err
}
