package main

// Calls planned by TLC (spec/Plan.tla, spec/Walk.tla), performed on shared and
// aliased registers; and their twins: each call once more, alone, on fresh
// objects that hold the same argument values.

import (
	"bufio"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"

	ristretto "github.com/bwesterb/go-ristretto"
)

var obsTables bool

func tableHash(t *ristretto.ScalarMultTable) string {
	h := sha256.New()
	for i := range t {
		for k := range t[i] {
			n := &t[i][k]
			for _, f := range []string{feHex(&n.YPlusX), feHex(&n.YMinusX), feHex(&n.XY2D)} {
				h.Write([]byte(f))
			}
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

type planCall struct {
	Op  string   `json:"op"`
	R   string   `json:"r"`
	A   []string `json:"a"`
	Cls string   `json:"cls"`
	N   int      `json:"n"`
}
type planCase struct {
	Init  [][2]string `json:"init"`
	Calls []planCall  `json:"calls"`
}

// Twin is what a call depends on.
type Twin struct {
	ID  int      `json:"id"`
	Op  string   `json:"op"`
	R   string   `json:"r"` // kind
	Old string   `json:"old"`
	K   []string `json:"k"` // kinds of the arguments
	A   []string `json:"a"` // their memory
	In  string   `json:"in"`
	N   int      `json:"n"`
}

// what the receiver holds before matters to these only
var keepsOld = map[string]bool{"PCondSet": true, "SCondSet": true, "SSetBytesStrict": true,
	"SUnmarshalBinary": true, "SUnmarshalText": true}

func fill(b []byte, v byte) {
	for i := range b {
		b[i] = v
	}
}

// classes of values, by name; the memory of each
func (g *gen) pointClasses() map[string]string {
	h := &hist{newMach(), g}
	raw := map[string]string{}
	save := func(c, r string) { raw[c] = hex.EncodeToString(h.mem(r)) }
	h.op("PZero", "p1")
	save("zero", "p1")
	h.do("PRerand", "p1", nil, le32(mod(g.bits(250), bigP)), 1+2*g.pick(2))
	save("zeroT", "p1")
	h.op("PBase", "p1")
	save("base", "p1")
	h.op("PNeg", "p2", "p1")
	h.do("PRerand", "p2", nil, le32(mod(g.bits(250), bigP)), g.pick(4)|4)
	save("nbase", "p2")
	h.op("PDouble", "p2", "p1")
	save("two", "p2")
	h.do("PElligator", "p3", nil, g.bytes(32), 0)
	save("r1", "p3")
	h.do("PRerand", "p3", nil, le32(mod(g.bits(250), bigP)), 1+g.pick(3))
	save("r1T", "p3")
	h.do("PSetBytes", "p4", nil, le32(g.element()), 0)
	save("r2", "p4")
	h.do("PSetBytes", "p4", nil, le32(new(big.Int).Sub(bigP, g.element())), 0)
	save("bad", "p4")
	return raw
}

func (g *gen) classRaw() map[string]string {
	raw := map[string]string{}
	for c, v := range g.pointClasses() {
		raw["p:"+c] = v
	}
	sc := func(c string, v *big.Int) {
		m := newMach()
		m.need("s1")
		m.do("SLoad", "s1", nil, le32(v), 0)
		raw["s:"+c] = hex.EncodeToString(m.mem("s1"))
	}
	sc("0", new(big.Int))
	sc("1", big.NewInt(1))
	sc("l-1", new(big.Int).Sub(bigL, bigOne))
	sc("small", big.NewInt(int64(2+g.pick(15))))
	sc("top", new(big.Int).Add(pow2(252), g.bits(124)))
	sc("r1", mod(g.bits(256), bigL))
	sc("r2", g.scalar())
	for k, ini := range map[string]string{"tbase": "base", "tr1": "r1"} {
		m := newMach()
		m.need("p1")
		m.load("p1", raw["p:"+ini])
		m.do("TCompute", "t1", []string{"p1"}, nil, 0)
		raw["t:"+k] = hex.EncodeToString(m.mem("t1"))
	}
	return raw
}

func (m *mach) load(name, raw string) {
	m.need(name)
	b, _ := hex.DecodeString(raw)
	if len(b) == len(m.mem(name)) {
		copy(m.mem(name), b)
	}
	copy(m.snap[name], m.mem(name))
}

func (m *mach) loadClass(name, cls string, raw map[string]string) {
	m.need(name)
	switch cls {
	case "fresh", "":
	case "ones":
		fill(m.mem(name), 0xff)
	default:
		r, ok := raw[name[:1]+":"+cls]
		if !ok {
			fmt.Fprintln(os.Stderr, "no class", name, cls)
			os.Exit(3)
		}
		m.load(name, r)
	}
	copy(m.snap[name], m.mem(name))
}

type inputs map[string][]byte

func (g *gen) inputs() inputs {
	e1, e2 := le32(g.element()), le32(g.element())
	b64 := base64.RawURLEncoding.EncodeToString
	class := func(want string) []byte {
		for {
			s := mod(g.field(), bigP)
			if c, _, _ := decodeClass(s); c == want {
				return le32(s)
			}
		}
	}
	high := append([]byte(nil), e1...)
	high[31] |= 0x80
	r := inputs{"": nil, "e1": e1, "e2": e2, "ezero": make([]byte, 32), "odd": class("negative"), "nonsquare": class("nonsquare"),
		"range": le32(new(big.Int).Add(bigP, big.NewInt(int64(g.pick(19))))), "high": high,
		"t1": []byte(b64(e1)), "t2": []byte(b64(e2)), "hex1": []byte(hex.EncodeToString(e1)),
		"thex64": []byte(b64(g.bytes(48))), "short": []byte(b64(e1))[:40], "long": []byte(b64(e1) + "AAAA"),
		"junk": []byte(strings.Repeat("!", 43)), "todd": []byte(b64(class("negative"))), "empty": {},
		"zeros": make([]byte, 32), "ones": []byte(strings.Repeat("\xff", 32)), "l": le32(bigL),
		"l-1": le32(new(big.Int).Sub(bigL, bigOne)), "r1": g.bytes(32), "m1": []byte("m"), "m32": g.bytes(32),
		"m200": g.bytes(200), "d1": g.bytes(16), "d2": g.bytes(16)}
	// texts as people write them
	nl := b64(e1)
	k := 1 + g.pick(41)
	r["tnl"] = []byte(nl[:k] + "\r\n" + nl[k:] + "\n")
	r["tpad"] = []byte(nl + "=")
	r["tstd"] = []byte(base64.RawStdEncoding.EncodeToString(e1))
	r["hexup"] = []byte(strings.ToUpper(hex.EncodeToString(e1)))
	r["any1"], r["any2"] = g.text(e1), g.text(g.bytes(32))
	r["b33"] = append(append([]byte(nil), e1...), byte(g.pick(256)))
	for _, k := range []string{"m32", "m200", "r1", "d1"} {
		b := append([]byte(nil), r[k]...)
		b[1+g.pick(len(b)-2)] ^= 1 << uint(g.pick(8))
		r[k+"x"] = b
	}
	return r
}

// input of the length the operation takes
func (in inputs) get(op, cls string) []byte {
	b := in[cls]
	n := map[string]int{"SSetReduced": 64, "SSetUint64": 8, "PSetLizard": 16}[op]
	if n == 0 {
		return b
	}
	r := make([]byte, 0, n)
	for len(r) < n {
		r = append(r, b...)
	}
	return r[:n]
}

func readLines(file string, f func([]byte)) {
	fh, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<24), 1<<24)
	for sc.Scan() {
		f(sc.Bytes())
	}
	if sc.Err() != nil {
		fmt.Fprintln(os.Stderr, sc.Err())
		os.Exit(3)
	}
}

// runPlan performs the planned calls.  Events get the number of their line;
// tw gets what each call depends on.
func runPlan(g *gen, file, tw string) {
	obsTables = true
	var cases []planCase
	readLines(file, func(b []byte) {
		var c planCase
		if json.Unmarshal(b, &c) == nil && len(c.Calls) > 0 {
			cases = append(cases, c)
		}
	})
	g.Shuffle(len(cases), func(i, k int) { cases[i], cases[k] = cases[k], cases[i] })
	tf, err := os.Create(tw)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	twOut := bufio.NewWriterSize(tf, 1<<20)
	enc := json.NewEncoder(twOut)
	id := 0
	var raw map[string]string
	var in inputs
	for k, c := range cases {
		if k%200 == 0 {
			raw, in = g.classRaw(), g.inputs()
		}
		m := newMach()
		for _, x := range c.Init {
			m.loadClass(x[0], x[1], raw)
		}
		id++ // the line "begin"
		for _, call := range c.Calls {
			if call.Op == "load" && !m.dead {
				m.loadClass(call.R, call.Cls, raw)
				m.invalid[call.R] = call.Cls == "bad" || call.Cls == "ones"
				continue
			}
			usable := true
			for _, x := range call.A {
				usable = usable && !m.invalid[x]
			}
			if !usable || m.dead { // a decoding the plan thought would succeed failed: not ours
				break
			}
			t := Twin{ID: id, Op: call.Op, In: hex.EncodeToString(in.get(call.Op, call.Cls)), N: call.N, K: []string{}, A: []string{}}
			for _, x := range append([]string{call.R}, call.A...) {
				m.need(x)
			}
			for _, x := range call.A {
				t.K = append(t.K, x[:1])
				t.A = append(t.A, hex.EncodeToString(m.mem(x)))
			}
			if call.R != "" {
				t.R = call.R[:1]
				if keepsOld[call.Op] {
					t.Old = hex.EncodeToString(m.mem(call.R))
				}
			}
			enc.Encode(t)
			id++
			m.do(call.Op, call.R, call.A, in.get(call.Op, call.Cls), call.N)
		}
		if len(m.events) == 0 { // keep the numbering
			id--
			continue
		}
		emit(m.events)
	}
	twOut.Flush()
	tf.Close()
}

// runTwin performs each call alone, in another order.
func runTwin(g *gen, file string) {
	obsTables = true
	var ts []Twin
	readLines(file, func(b []byte) {
		var t Twin
		if json.Unmarshal(b, &t) == nil {
			ts = append(ts, t)
		}
	})
	g.Shuffle(len(ts), func(i, k int) { ts[i], ts[k] = ts[k], ts[i] })
	enc := json.NewEncoder(out)
	for _, t := range ts {
		m := newMach()
		var as []string
		for k, kind := range t.K {
			n := fmt.Sprintf("%s%d", kind, 10+k)
			m.load(n, t.A[k])
			as = append(as, n)
		}
		r := ""
		if t.R != "" {
			r = t.R + "1"
			m.need(r)
			if t.Old != "" {
				m.load(r, t.Old)
			}
		}
		b, _ := hex.DecodeString(t.In)
		ev := m.do(t.Op, r, as, b, t.N)
		nEv++
		enc.Encode(struct {
			ID int   `json:"id"`
			E  Event `json:"e"`
		}{t.ID, *ev})
	}
}
