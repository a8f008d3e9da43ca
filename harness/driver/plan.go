package main

// Plans made by TLC from the specification: witnesses of the transitions of
// the recodings (RecodePlan), sequences of limb classes (CarryPlan), runs of
// limbs of a reduced number (ReducePlan).  Each
// is turned into operands; the operations on them are screened like the hot
// loops, and a sample is recorded anyway.

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

type planLine struct {
	Alg string `json:"alg"`
	W   int    `json:"w"`
	Pos int    `json:"pos"`
	S   string `json:"s"`
	Pat string `json:"pat"`

	From, Moved, To, Scale string
	Tor, Sign              int
}

func readPlan(file string) (r []planLine) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var l planLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			fmt.Fprintln(os.Stderr, "plan:", err)
			os.Exit(3)
		}
		r = append(r, l)
	}
	return
}

var planRuns = map[string]func(g *gen, ls []planLine){
	"C01": func(g *gen, ls []planLine) { planPair(g, ls, "C01") },
	"C13": func(g *gen, ls []planLine) { planPair(g, ls, "C13") },
	"C04": planMul,
	"C05": planScalar,
	"C06": planImport,
	"C09": func(g *gen, ls []planLine) {
		planEqual(g, ls)
		planPair(g, ls, "C09")
	},
	"C12": planField,
}

var planStart = -1

// planFull says that enough has been recorded
func planFull() bool {
	if planStart < 0 {
		planStart = nHist
	}
	return nHist-planStart > 2000
}

func (l *planLine) scalar(g *gen) *big.Int {
	b, _ := hex.DecodeString(l.S)
	v := bigOfLE(b)
	if g.pick(2) == 0 { // something above it
		t := new(big.Int).Lsh(g.raw(253), uint(l.Pos)+5)
		t = mod(t, pow2(252)).Add(mod(t, pow2(252)), v)
		if t.Cmp(bigL) < 0 {
			v = t
		}
	}
	return v
}

func planMul(g *gen, ls []planLine) {
	base := newComb(affBase)
	every := len(ls)/40 + 1
	var p ristretto.Point
	var tab ristretto.ScalarMultTable
	var s *big.Int
	var c *comb
	for n := range ls {
		if planFull() {
			return
		}
		if ls[n].S == "" {
			continue
		}
		if n%1500 == 0 {
			s = g.element()
			_, x, y := decodeClass(s)
			c = newComb(aff{x, y})
			ok := false
			if safe(func() { ok = p.SetBytes(arr32(le32(s))); tab.Compute(&p) }) || !ok {
				return
			}
		}
		v := ls[n].scalar(g)
		mulAll(g, base, c, s, &p, &tab, v, n%every == 0)
	}
}

// patterns of limb classes, least significant limb first

func (g *gen) u32() uint32 {
	switch g.pick(6) {
	case 0:
		return 0
	case 1:
		return 0xffffffff
	case 2:
		return uint32(g.pick(4))
	case 3:
		return -uint32(1 + g.pick(4))
	}
	return g.Uint32()
}

func bigOfLimbs(v [8]uint32) *big.Int {
	r := new(big.Int)
	for i := 7; i >= 0; i-- {
		r.Lsh(r, 32)
		r.Or(r, big.NewInt(int64(v[i])))
	}
	return r
}

func limbsOf(v *big.Int) (r [8]uint32) {
	s := scalarOf(v)
	copy(r[:], s[:])
	return
}

// rel draws x with the given relation to y, at most max; ok if there is one
func (g *gen) rel(c byte, y, max uint32) (uint32, bool) {
	switch c {
	case '<':
		if y == 0 {
			return 0, false
		}
		t := y
		if max < t-1 {
			t = max + 1
		}
		return []uint32{t - 1, 0, uint32(g.Int63n(int64(t)))}[g.pick(3)], true
	case '>':
		if y >= max {
			return 0, false
		}
		d := uint32(g.Int63n(int64(max - y)))
		return y + 1 + []uint32{0, max - y - 1, d}[g.pick(3)], true
	}
	return y, y <= max
}

// a and b below l with the given relations of their limbs
func (g *gen) pairRel(pat string) (*big.Int, *big.Int, bool) {
	var x, y [8]uint32
	for i := 0; i < 8; i++ {
		max := uint32(0xffffffff)
		y[i] = g.u32()
		if i == 7 {
			max = 0x0fffffff
			y[i] &= max
		}
		ok := false
		for k := 0; k < 8 && !ok; k++ {
			x[i], ok = g.rel(pat[i], y[i], max)
			if !ok {
				y[i] = g.Uint32() & max
			}
		}
		if !ok {
			return nil, nil, false
		}
	}
	return bigOfLimbs(x), bigOfLimbs(y), true
}

// a and b below l with limb sums below, at or above 2^32-1
func (g *gen) pairSum(pat string) (*big.Int, *big.Int) {
	var x, y [8]uint32
	for i := 0; i < 7; i++ {
		y[i] = g.u32()
		switch pat[i] {
		case '=':
			x[i] = ^y[i]
		case '<':
			if y[i] == 0xffffffff {
				y[i]--
			}
			x[i] = uint32(g.Int63n(int64(^y[i])))
			if g.pick(3) == 0 {
				x[i] = ^y[i] - 1
			}
		case '>':
			if y[i] == 0 {
				y[i]++
			}
			x[i] = ^y[i] + 1 + uint32(g.Int63n(int64(y[i])))
			if g.pick(3) == 0 {
				x[i] = ^y[i] + 1
			}
		}
	}
	x[7], y[7] = g.u32()&0x0fffffff, g.u32()&0x0fffffff
	return bigOfLimbs(x), bigOfLimbs(y)
}

// a number whose limbs relate to those of l as the pattern says
func (g *gen) relL(pat string, top uint32) (*big.Int, bool) {
	l := limbsOf(bigL)
	var x [8]uint32
	for i := 0; i < 8; i++ {
		max := uint32(0xffffffff)
		if i == 7 {
			max = top
		}
		var ok bool
		if x[i], ok = g.rel(pat[i], l[i], max); !ok {
			return nil, false
		}
	}
	return bigOfLimbs(x), true
}

// a and b below l for which a-b underflows to a number whose limbs have the
// given sums with those of l
func (g *gen) pairFix(pat string) (*big.Int, *big.Int, bool) {
	l := limbsOf(bigL)
	var t [8]uint32
	for i := 0; i < 7; i++ {
		var ok bool
		if t[i], ok = g.rel(pat[i], ^l[i], 0xffffffff); !ok {
			return nil, nil, false
		}
	}
	t[7] = 0xf0000000 + g.u32()&0x0fffffff
	if pat[7] == '<' {
		t[7] = 0xefffffff
	}
	d := new(big.Int).Sub(pow2(256), bigOfLimbs(t)) // b - a
	if d.Cmp(bigL) >= 0 {
		return nil, nil, false
	}
	a := mod(g.raw(253), new(big.Int).Sub(bigL, d))
	return a, new(big.Int).Add(a, d), true
}

func planScalar(g *gen, ls []planLine) {
	try := func(op string, v ...*big.Int) {
		var s [3]ristretto.Scalar
		for i := range v {
			s[i] = scalarOf(v[i])
		}
		var r ristretto.Scalar
		t := new(big.Int)
		pan := safe(func() {
			switch op {
			case "SSub":
				r.Sub(&s[0], &s[1])
				t.Sub(v[0], v[1])
			case "SAdd":
				r.Add(&s[0], &s[1])
				t.Add(v[0], v[1])
			case "SNeg":
				r.Neg(&s[0])
				t.Neg(v[0])
			case "SMulAdd":
				r.MulAdd(&s[0], &s[1], &s[2])
				t.Add(t.Mul(v[0], v[1]), v[2])
			case "SMulSub":
				r.MulSub(&s[0], &s[1], &s[2])
				t.Sub(t.Mul(v[0], v[1]), v[2])
			case "SMul":
				r.Mul(&s[0], &s[1])
				t.Mul(v[0], v[1])
			case "SSquare":
				r.Square(&s[0])
				t.Mul(v[0], v[0])
			case "SInverse":
				r.Inverse(&s[0])
				t.ModInverse(v[0], bigL)
			}
		})
		nScreened++
		if pan || bigOfScalar(&r).Cmp(mod(t, bigL)) != 0 || g.pick(9000) == 0 {
			g.history(func(h *hist) {
				names := []string{"s0", "s1", "s2"}[:len(v)]
				for i, n := range names {
					h.sload(n, v[i])
				}
				h.op(op, "s3", names...)
			})
		}
	}
	for n := range ls {
		if planFull() {
			return
		}
		p := ls[n].Pat
		if ls[n].Alg == "reduce" {
			for k := 0; k < 6; k++ {
				g.leadTo(g.limb21(p), try)
			}
			continue
		}
		if len(p) != 8 {
			continue
		}
		for k := 0; k < 8; k++ {
			if x, y, ok := g.pairRel(p); ok {
				try("SSub", x, y)
				try("SMulSub", bigOne, x, y)
				try("SAdd", x, y)
			}
			if x, y, ok := g.pairFix(p); ok {
				try("SSub", x, y)
				try("SMulSub", x, bigOne, y)
			}
			if p[7] == '<' {
				x, y := g.pairSum(p)
				try("SAdd", x, y)
				try("SMulAdd", bigOne, x, y)
			}
			// sums that relate to l in the given way
			if x, ok := g.relL(p, 0x1fffffff); ok && x.Cmp(new(big.Int).Lsh(bigL, 1)) < 0 {
				lo := new(big.Int).Sub(x, bigL)
				lo.Add(lo, bigOne)
				if lo.Sign() < 0 {
					lo.SetInt64(0)
				}
				hi := new(big.Int).Set(x) // a in [lo, hi]
				if hi.Cmp(bigL) >= 0 {
					hi.Sub(bigL, bigOne)
				}
				if hi.Cmp(lo) >= 0 {
					a := new(big.Int).Sub(hi, lo)
					a = mod(g.raw(253), a.Add(a, bigOne)).Add(mod(g.raw(253), a), lo)
					if a.Cmp(hi) > 0 {
						a = hi
					}
					b := new(big.Int).Sub(x, a)
					if b.Sign() >= 0 && b.Cmp(bigL) < 0 {
						try("SAdd", a, b)
						try("SMulAdd", a, bigOne, b)
					}
				}
			}
			// zero limbs
			var z [8]uint32
			for i := range z {
				if p[i] != '=' {
					z[i] = g.u32()
				}
			}
			z[7] &= 0x0fffffff
			try("SNeg", bigOfLimbs(z))
		}
	}
}

// a reduced number with the given 21-bit limbs
func (g *gen) limb21(pat string) *big.Int {
	r := new(big.Int)
	for i := range pat {
		l := new(big.Int).Rsh(bigL, uint(21*i))
		d := int64(l.And(l, big.NewInt(0x1fffff)).Int64())
		switch pat[i] {
		case '0':
			d = 0
		case '1':
			d = 0x1fffff
		case 'r':
			d = int64(g.u32() & 0x1fffff)
			switch g.pick(8) {
			case 0:
				d = int64(g.pick(3))
			case 1:
				d = 0x1fffff - int64(g.pick(3))
			}
		}
		r.Add(r, new(big.Int).Lsh(big.NewInt(d), uint(21*i)))
	}
	return mod(r, bigL)
}

// operands that lead to a given result
func (g *gen) leadTo(r *big.Int, try func(op string, v ...*big.Int)) {
	a, b := mod(g.raw(253), bigL), mod(g.raw(253), bigL)
	switch g.pick(5) {
	case 0:
		a = mod(new(big.Int).Sub(bigL, g.raw(1+g.pick(60))), bigL)
	case 1:
		a = new(big.Int).Add(bigOne, g.raw(1+g.pick(252)))
		a = mod(a, bigL)
	}
	if g.pick(4) == 0 {
		b = g.limb21("111111111111")
	}
	if a.Sign() != 0 {
		try("SMul", a, mod(new(big.Int).Mul(r, new(big.Int).ModInverse(a, bigL)), bigL))
	}
	ab := new(big.Int).Mul(a, b)
	try("SMulAdd", a, b, mod(new(big.Int).Sub(r, ab), bigL))
	try("SMulSub", a, b, mod(new(big.Int).Sub(ab, r), bigL))
	try("SAdd", a, mod(new(big.Int).Sub(r, a), bigL))
	try("SSub", a, mod(new(big.Int).Sub(a, r), bigL))
	if q := new(big.Int).ModSqrt(r, bigL); q != nil {
		try("SSquare", q)
	}
	if r.Sign() != 0 {
		try("SInverse", new(big.Int).ModInverse(r, bigL))
	}
}

func planImport(g *gen, ls []planLine) {
	for n := range ls {
		if planFull() {
			return
		}
		p := ls[n].Pat
		if ls[n].Alg == "reduce" {
			for k := 0; k < 8; k++ {
				r := g.limb21(p)
				w := new(big.Int).Mul(bigL, g.raw(1+g.pick(259)))
				w = mod(w.Add(w, r), pow2(512))
				b := leOfBig(w, 64)[:64]
				var s ristretto.Scalar
				nScreened++
				if safe(func() { s.SetReduced(arr64(b)) }) || bigOfScalar(&s).Cmp(mod(w, bigL)) != 0 || g.pick(3000) == 0 {
					g.history(func(h *hist) { h.do("SSetReduced", "s0", nil, b, 0) })
				}
			}
			continue
		}
		if len(p) != 8 {
			continue
		}
		for k := 0; k < 12; k++ {
			x, ok := g.relL(p, []uint32{0x0fffffff, 0x10000000, 0x1fffffff, 0xffffffff}[g.pick(4)])
			if !ok {
				continue
			}
			c := le32(x)
			rec := g.pick(9000) == 0
			var r ristretto.Scalar
			if safe(func() { r.SetBytes(arr32(c)) }) || bigOfScalar(&r).Cmp(mod(mod(x, pow2(253)), bigL)) != 0 || rec {
				g.history(func(h *hist) { h.do("SSetBytes", "s0", nil, c, 0) })
			}
			old := g.scalar()
			r = scalarOf(old)
			ok = false
			if safe(func() { ok = r.SetBytesStrict(arr32(c)) }) || ok != (x.Cmp(bigL) < 0) || ok && bigOfScalar(&r).Cmp(x) != 0 ||
				!ok && bigOfScalar(&r).Cmp(old) != 0 || rec {
				g.history(func(h *hist) {
					h.sload("s0", old)
					h.do("SSetBytesStrict", "s0", nil, c, 0)
				})
			}
			// the same class, one or many multiples of l higher
			w := new(big.Int).Mul(bigL, g.raw(1+g.pick(258)))
			w = mod(w.Add(w, x), pow2(512))
			if g.pick(6) == 0 {
				w = x
			}
			b := leOfBig(w, 64)[:64]
			if safe(func() { r.SetReduced(arr64(b)) }) || bigOfScalar(&r).Cmp(mod(w, bigL)) != 0 || rec {
				g.history(func(h *hist) { h.do("SSetReduced", "s0", nil, b, 0) })
			}
			nScreened += 3
		}
	}
}

// scalars equal but for some limbs, or zero but for some limbs
func planEqual(g *gen, ls []planLine) {
	for n := range ls {
		if planFull() {
			return
		}
		p := ls[n].Pat
		if len(p) != 8 {
			continue
		}
		for k := 0; k < 2; k++ {
			x := limbsOf(g.scalar())
			y := x
			var z [8]uint32
			for i := range x {
				if p[i] == '=' {
					continue
				}
				b := uint32(1) << uint(g.pick(32))
				if p[i] == '>' {
					b = g.Uint32()
				}
				y[i] ^= b
				z[i] ^= b
			}
			y[7] &= 0x0fffffff
			x[7] &= 0x0fffffff
			z[7] &= 0x0fffffff
			s, t, u := ristretto.Scalar(x), ristretto.Scalar(y), ristretto.Scalar(z)
			eq, nz := 0, 0
			if x == y {
				eq = 1
			}
			if z != [8]uint32{} {
				nz = 1
			}
			nScreened += 3
			if safe(func() {
				if s.Equals(&t) != (eq == 1) || int(s.EqualsI(&t)) != eq || int(u.IsNonZeroI()) != nz {
					panic("differs")
				}
			}) || g.pick(9000) == 0 {
				g.history(func(h *hist) {
					h.sload("s0", bigOfLimbs(x))
					h.sload("s1", bigOfLimbs(y))
					h.sload("s2", bigOfLimbs(z))
					h.ask("SEquals", "s0", "s1")
					h.ask("SEqualsI", "s0", "s1")
					h.ask("SIsNonZeroI", "s2")
				})
			}
		}
	}
}

// field elements whose limbs (51 bits, or 26 and 25) are small, all ones or
// anything; the pattern twice gives ten limbs
func (g *gen) fieldPat(p string) *big.Int {
	r := new(big.Int)
	widths := []int{51, 51, 51, 51, 51}
	if len(p) == 8 {
		widths = []int{26, 25, 26, 25, 26, 25, 26, 25, 26, 25}
	}
	pos := 0
	for i, w := range widths {
		v := g.bits(w)
		switch p[i%len(p)] {
		case '=':
			v = new(big.Int).Sub(pow2(w), bigOne)
			if i == 0 {
				v.Sub(v, big.NewInt(int64(g.pick(40))))
			}
		case '<':
			v = big.NewInt(int64(g.pick(2)))
			if i == 0 {
				v = big.NewInt(int64(g.pick(40)))
			}
		}
		r.Or(r, v.Lsh(v, uint(pos)))
		pos += w
	}
	return r
}

func planField(g *gen, ls []planLine) {
	try := func(op string, how int, v ...*big.Int) {
		var f [2]ed.FieldElement
		var w [2]*big.Int
		for i := range v {
			w[i] = mod(v[i], bigP)
		}
		var r ed.FieldElement
		t := new(big.Int)
		var b [32]byte
		flags := true
		pan := safe(func() {
			for i := range v {
				f[i].SetBytes(arr32(le32(v[i])))
				if how >= 0 && i == 0 {
					loosen(&f[i], how)
				}
			}
			switch op {
			case "FAdd":
				r.Add(&f[0], &f[1])
				t.Add(w[0], w[1])
			case "FSub":
				r.Sub(&f[0], &f[1])
				t.Sub(w[0], w[1])
			case "FNeg":
				r.Neg(&f[0])
				t.Neg(w[0])
			case "FMul":
				r.Mul(&f[0], &f[1])
				t.Mul(w[0], w[1])
			case "FSquare":
				r.Square(&f[0])
				t.Mul(w[0], w[0])
			case "FBytes":
				r.Set(&f[0])
				t.Set(w[0])
			}
			b = r.Bytes()
			t = mod(t, bigP)
			flags = int(r.IsNegativeI()) == int(t.Bit(0)) && (r.IsNonZeroI() == 1) == (t.Sign() != 0) && (r.IsOneI() == 1) == (t.Cmp(bigOne) == 0)
		})
		nScreened++
		if pan || !flags || bigOfLE(b[:]).Cmp(t) != 0 || g.pick(12000) == 0 {
			g.history(func(h *hist) {
				names := []string{"f0", "f1"}[:len(v)]
				for i, n := range names {
					h.do("FSetBytes", n, nil, le32(v[i]), 0)
					if how >= 0 && i == 0 {
						h.do("FLoosen", n, nil, nil, how)
					}
				}
				if op == "FBytes" {
					h.op("FSet", "f2", "f0")
				} else {
					h.op(op, "f2", names...)
				}
				for _, q := range []string{"FBytes", "FIsNegativeI", "FIsNonZeroI", "FIsOneI"} {
					h.ask(q, "f2")
				}
			})
		}
	}
	for n := range ls {
		if planFull() {
			return
		}
		p := ls[n].Pat
		if p == "" {
			continue
		}
		reps := 1
		if len(p) == 5 {
			reps = 10
		}
		for k := 0; k < reps; k++ {
			r := g.fieldPat(p)
			rp := mod(r, bigP)
			how := g.pick(6) - 2
			try("FBytes", how, r)
			y := mod(g.field(), bigP)
			try("FAdd", how, subp(r, y), y) // the result has the limbs of r
			try("FSub", how, addp(r, y), y)
			try("FNeg", how, subp(new(big.Int), r))
			try("FNeg", how, r)
			try("FAdd", how, r, y)
			try("FSub", how, y, r)
			try("FSquare", how, r)
			try("FMul", how, r, g.fieldPat(p))
			if y.Sign() != 0 {
				try("FMul", how, y, mulp(rp, invm(y)))
			}
		}
	}
}

// planPair makes the pairs of points of PairPlan.
func planPair(g *gen, ls []planLine, prop string) {
	old, every := sink, len(ls)/30+1
	defer func() { sink = old }()
	for n := range ls {
		l := &ls[n]
		if l.Alg != "pair" {
			continue
		}
		if planFull() {
			return
		}
		sink = func(m *mach) {
			nScreened += len(m.events)
			if n%every == 0 || suspicious(m.events) {
				emit(m.events)
			}
		}
		for k := 0; k < 2; k++ {
			if prop == "C13" {
				g.history(func(h *hist) { h.xpair(l) })
			} else {
				g.history(func(h *hist) { h.ppair(l, prop) })
			}
		}
	}
}

// the factor that brings the point at X, Y, Z, T to agree with the other in one respect
func (l *planLine) factor(g *gen, r, q *ed.ExtendedPoint) *big.Int {
	of := func(p *ed.ExtendedPoint) *big.Int {
		X, Y, Z, T := feBig(&p.X), feBig(&p.Y), feBig(&p.Z), feBig(&p.T)
		return map[string]*big.Int{"X": X, "Y": Y, "Z": Z, "T": T, "s": addp(Y, X), "d": subp(Y, X), "u": addp(Z, Y), "v": subp(Z, Y)}[l.Scale]
	}
	f := bigOne
	switch l.Scale {
	case "1":
	case "-1":
		f = negp(bigOne)
	case "i":
		f = bigI
	case "-i":
		f = negp(bigI)
	case "r":
		f = mod(g.field(), bigP)
	default:
		c, d := of(r), of(q)
		if c.Sign() != 0 && d.Sign() != 0 {
			f = mulp(d, invp(c))
		}
	}
	if l.Sign < 0 {
		f = negp(f)
	}
	if f.Sign() == 0 {
		f = bigOne
	}
	return f
}

func (h *hist) ppair(l *planLine, prop string) {
	switch l.From {
	case "zero":
		h.op("PZero", "p0")
	case "torsion":
		h.op("PZero", "p0")
		h.do("PRerand", "p0", nil, le32(bigOne), 1+h.pick(3))
	case "base":
		h.op("PBase", "p0")
	case "decoded":
		h.do("PSetBytes", "p0", nil, le32(h.element()), 0)
	case "map":
		h.do("PElligator", "p0", nil, h.b32(), 0)
	case "sum":
		h.do("PElligator", "p0", nil, h.b32(), 0)
		h.op("PBase", "p1")
		h.op("PAdd", "p0", "p0", "p1")
	}
	switch l.Moved {
	case "scaled":
		h.do("PRerand", "p0", nil, le32(h.factor(nil)), h.pick(4))
	case "loose":
		h.do("PRerand", "p0", nil, le32(bigOne), 4)
	}
	switch l.To {
	case "same":
		h.op("PSet", "p1", "p0")
	case "neg":
		h.op("PNeg", "p1", "p0")
	case "double":
		h.op("PDouble", "p1", "p0")
	case "half": // p0 is twice p1
		h.op("PSet", "p1", "p0")
		h.op("PDouble", "p0", "p0")
	case "next":
		h.op("PBase", "p1")
		h.op("PAdd", "p1", "p1", "p0")
	case "other":
		h.point("p1")
	}
	if h.dead || h.invalid["p0"] || h.invalid["p1"] {
		return
	}
	r, q := (*ed.ExtendedPoint)(h.p["p1"]), (*ed.ExtendedPoint)(h.p["p0"])
	// the torsion point first: the factor is for what it gives
	if l.Tor != 0 {
		h.do("PRerand", "p1", nil, le32(bigOne), l.Tor)
	}
	if h.dead {
		return
	}
	if l.Scale != "1" || l.Sign < 0 {
		h.do("PRerand", "p1", nil, le32(l.factor(h.gen, r, q)), 4*h.pick(2))
	}
	if prop == "C09" {
		for _, op := range []string{"PEquals", "PEqualsI"} {
			h.ask(op, "p0", "p1")
			h.ask(op, "p1", "p0")
		}
		h.op("PSet", "p2", "p0")
		h.do("PCondSet", "p2", a("p1"), nil, h.pick(2))
		return
	}
	h.op("PAdd", "p2", "p0", "p1")
	h.op("PAdd", "p2", "p1", "p0")
	h.op("PSub", "p2", "p0", "p1")
	h.op("PSub", "p2", "p1", "p0")
	h.op("PDouble", "p2", "p1")
	h.op("PNeg", "p2", "p1")
	h.op([]string{"PAdd", "PSub"}[h.pick(2)], []string{"p0", "p1"}[h.pick(2)], "p0", "p1")
}

// the same at the level of the curve, with all the forms of points
func (h *hist) xpair(l *planLine) {
	switch l.From {
	case "zero":
		h.op("XZero", "x0")
	case "torsion":
		h.op([]string{"XTorsion1", "XTorsion2", "XTorsion3"}[h.pick(3)], "x0")
	case "base":
		h.op("XBase", "x0")
	default:
		h.ext("x0", l.From == "decoded")
	}
	switch l.Moved {
	case "scaled":
		h.do("XRerand", "x0", nil, le32(h.factor(nil)), 0)
	case "loose":
		h.do("XRerand", "x0", nil, le32(bigOne), 4)
	}
	switch l.To {
	case "same":
		h.op("XSet", "x1", "x0")
	case "neg":
		h.op("XNeg", "x1", "x0")
	case "double":
		h.op("XDouble", "x1", "x0")
	case "half":
		h.op("XSet", "x1", "x0")
		h.op("XDouble", "x0", "x0")
	case "next":
		h.op("XBase", "x1")
		h.op("XAdd", "x1", "x1", "x0")
	case "other":
		h.ext("x1", h.pick(2) == 0)
	}
	if l.Tor != 0 {
		h.op([]string{"XTorsion1", "XTorsion2", "XTorsion3"}[l.Tor-1], "x2")
		h.op("XAdd", "x1", "x1", "x2")
	}
	if h.dead {
		return
	}
	if l.Scale != "1" || l.Sign < 0 {
		h.do("XRerand", "x1", nil, le32(l.factor(h.gen, h.x["x1"], h.x["x0"])), 4*h.pick(2))
	}
	h.op("XAdd", "x2", "x0", "x1")
	h.op("XSub", "x2", "x1", "x0")
	h.op("XDouble", "x2", "x1")
	h.op("CAdd", "c0", "x1", "x0")
	h.op("CSub", "c1", "x0", "x1")
	h.op("CDoubleX", "c2", "x1")
	h.op("XSetCompleted", "x2", []string{"c0", "c1", "c2"}[h.pick(3)])
	h.op("NSetExtended", "n0", "x1")
	h.op([]string{"CAddNiels", "CSubNiels"}[h.pick(2)], "c0", "x0", "n0")
	h.op("JSetExtended", "j0", "x1")
	h.op("CDouble", "c1", "j0")
	h.op("JSetCompleted", "j0", "c0")
}
