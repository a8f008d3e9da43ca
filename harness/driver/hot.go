package main

// Hot loops: many scalar and field operations against math/big, without the
// cost of recording.  Operands on which the two differ are put through the
// recorder, and the specification judges the recording.

import (
	"math/big"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

var hotLoops = map[string]func(g *gen, end time.Time){
	"C05": hotScalar,
	"C06": hotImport,
	"C12": hotField,
	"C04": hotMul,
	"all": hotAll,
}

func hotAll(g *gen, end time.Time) {
	d := time.Until(end) / 4
	for k, f := range []func(*gen, time.Time){hotScalar, hotImport, hotMul, hotField} {
		f(g, end.Add(-time.Duration(3-k)*d))
	}
}

// safe runs f and says whether it panicked
func safe(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}

func scalarOf(v *big.Int) (s ristretto.Scalar) {
	b := le32(v)
	for i := 0; i < 8; i++ {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return
}
func bigOfScalar(s *ristretto.Scalar) *big.Int {
	var b [32]byte
	for i := 0; i < 8; i++ {
		for k := 0; k < 4; k++ {
			b[31-4*i-k] = byte(s[i] >> uint(8*k))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

func hotScalar(g *gen, end time.Time) {
	const pool = 64
	var vals [pool]*big.Int
	var scs [pool]ristretto.Scalar
	ops := []string{"SAdd", "SSub", "SMul", "SMulAdd", "SMulSub", "SSquare", "SNeg"}
	for time.Now().Before(end) {
		for i := range vals {
			vals[i] = g.scalar()
			if i > 2 {
				switch g.pick(4) {
				case 0:
					vals[i] = mod(new(big.Int).Sub(g.scalar(), vals[g.pick(i)]), bigL)
				case 1:
					if w := vals[g.pick(i)]; w.Sign() != 0 {
						vals[i] = mod(new(big.Int).Mul(g.scalar(), new(big.Int).ModInverse(w, bigL)), bigL)
					}
				}
			}
			scs[i] = scalarOf(vals[i])
		}
		t := new(big.Int)
		for n := 0; n < 8000; n++ {
			x, y, z, op := g.pick(pool), g.pick(pool), g.pick(pool), g.pick(len(ops))
			var r ristretto.Scalar
			pan := safe(func() {
				switch op {
				case 0:
					r.Add(&scs[x], &scs[y])
					t.Add(vals[x], vals[y])
				case 1:
					r.Sub(&scs[x], &scs[y])
					t.Sub(vals[x], vals[y])
				case 2:
					r.Mul(&scs[x], &scs[y])
					t.Mul(vals[x], vals[y])
				case 3:
					r.MulAdd(&scs[x], &scs[y], &scs[z])
					t.Add(t.Mul(vals[x], vals[y]), vals[z])
				case 4:
					r.MulSub(&scs[x], &scs[y], &scs[z])
					t.Sub(t.Mul(vals[x], vals[y]), vals[z])
				case 5:
					r.Square(&scs[x])
					t.Mul(vals[x], vals[x])
				case 6:
					r.Neg(&scs[x])
					t.Neg(vals[x])
				}
			})
			nScreened++
			if pan || bigOfScalar(&r).Cmp(t.Mod(t, bigL)) != 0 {
				g.history(func(h *hist) {
					h.sload("s0", vals[x])
					h.sload("s1", vals[y])
					h.sload("s2", vals[z])
					n := map[string]int{"SAdd": 2, "SSub": 2, "SMul": 2, "SMulAdd": 3, "SMulSub": 3, "SSquare": 1, "SNeg": 1}[ops[op]]
					h.op(ops[op], "s3", []string{"s0", "s1", "s2"}[:n]...)
				})
			}
		}
	}
}

func hotImport(g *gen, end time.Time) {
	for time.Now().Before(end) {
		for n := 0; n < 500; n++ {
			var r ristretto.Scalar
			b := g.any512()
			if safe(func() { r.SetReduced(arr64(b)) }) || bigOfScalar(&r).Cmp(mod(bigOfLE(b), bigL)) != 0 {
				g.history(func(h *hist) { h.do("SSetReduced", "s0", nil, b, 0) })
			}
			c := g.any256()
			v := bigOfLE(c)
			if safe(func() { r.SetBytes(arr32(c)) }) || bigOfScalar(&r).Cmp(mod(mod(v, pow2(253)), bigL)) != 0 {
				g.history(func(h *hist) { h.do("SSetBytes", "s0", nil, c, 0) })
			}
			old := g.scalar()
			r = scalarOf(old)
			ok := false
			if safe(func() { ok = r.SetBytesStrict(arr32(c)) }) || ok != (v.Cmp(bigL) < 0) || ok && bigOfScalar(&r).Cmp(v) != 0 || !ok && bigOfScalar(&r).Cmp(old) != 0 {
				g.history(func(h *hist) {
					h.sload("s0", old)
					h.do("SSetBytesStrict", "s0", nil, c, 0)
				})
			}
			w := mod(v, bigL)
			r = scalarOf(w)
			var out [32]byte
			if safe(func() { r.BytesInto(&out) }) || out != *arr32(le32(w)) {
				g.history(func(h *hist) {
					h.sload("s0", w)
					h.ask("SBytesInto", "s0")
				})
			}
			nScreened += 4
		}
	}
}

func hotField(g *gen, end time.Time) {
	const pool = 48
	var vals [pool]*big.Int
	var raw [pool][]byte
	var how [pool]int
	var fes [pool]ed.FieldElement
	ops := []string{"FMul", "FSquare", "FDoubledSquare", "FAdd", "FSub", "FNeg", "FEqualsI", "FBytes"}
	arity := []int{2, 1, 1, 2, 2, 1, 2, 1}
	for time.Now().Before(end) {
		for i := range vals {
			v := g.field()
			if i > 2 {
				w := vals[g.pick(i)]
				switch g.pick(6) {
				case 0:
					v = subp(v, w)
				case 1:
					v = subp(w, v)
				case 2:
					if w.Sign() != 0 {
						v = mulp(v, invm(w))
					}
				case 3:
					v = w
				}
			}
			raw[i] = le32(v)
			vals[i] = mod(low255(raw[i]), bigP)
			how[i] = g.pick(8) - 4
			safe(func() {
				fes[i].SetBytes(arr32(raw[i]))
				if how[i] >= 0 {
					loosen(&fes[i], how[i])
				}
			})
		}
		t := new(big.Int)
		for n := 0; n < 6000; n++ {
			x, y, op := g.pick(pool), g.pick(pool), g.pick(len(ops))
			var r ed.FieldElement
			X, Y := &fes[x], &fes[y]
			bad := false
			var b [32]byte
			pan := safe(func() {
				switch op {
				case 0:
					r.Mul(X, Y)
					t.Mul(vals[x], vals[y])
				case 1:
					r.Square(X)
					t.Mul(vals[x], vals[x])
				case 2:
					r.DoubledSquare(X)
					t.Mul(vals[x], vals[x])
					t.Lsh(t, 1)
				case 3:
					r.Add(X, Y)
					t.Add(vals[x], vals[y])
				case 4:
					r.Sub(X, Y)
					t.Sub(vals[x], vals[y])
				case 5:
					r.Neg(X)
					t.Neg(vals[x])
				case 6:
					bad = (X.EqualsI(Y) == 1) != (vals[x].Cmp(vals[y]) == 0)
					r.Set(X)
					t.Set(vals[x])
				case 7:
					r.Set(X)
					t.Set(vals[x])
				}
				b = r.Bytes()
			})
			nScreened++
			if pan || bad || bigOfLE(b[:]).Cmp(t.Mod(t, bigP)) != 0 {
				g.history(func(h *hist) {
					for k, i := range []int{x, y} {
						f := []string{"f0", "f1"}[k]
						h.do("FSetBytes", f, nil, raw[i], 0)
						if how[i] >= 0 {
							h.do("FLoosen", f, nil, nil, how[i])
						}
					}
					args := []string{"f0", "f1"}[:arity[op]]
					if x == y && arity[op] == 2 {
						args = []string{"f0", "f0"}
					}
					if ops[op] == "FEqualsI" || ops[op] == "FBytes" {
						h.ask(ops[op], args...)
					} else {
						h.op(ops[op], "f2", args...)
					}
				})
			}
		}
	}
}

// comb holds d * 256^k * P for all bytes d, so that a multiple of P costs 32 additions
type comb struct {
	p   aff
	tab [32][256][3]*big.Int
}

func newComb(p aff) *comb {
	c := &comb{p: p}
	b := [3]*big.Int{p.x, p.y, bigOne}
	for k := range c.tab {
		acc := [3]*big.Int{new(big.Int), bigOne, bigOne}
		for d := range c.tab[k] {
			c.tab[k][d] = acc
			acc[0], acc[1], acc[2] = projAdd(acc[0], acc[1], acc[2], b[0], b[1], b[2])
		}
		b = acc
	}
	return c
}

// is says whether (X : Y : Z) is the element n*P
func (c *comb) is(v *ristretto.Point, n []byte) bool {
	X, Y, Z := new(big.Int), bigOne, bigOne
	for k, d := range n {
		if d != 0 {
			t := c.tab[k][d]
			X, Y, Z = projAdd(X, Y, Z, t[0], t[1], t[2])
		}
	}
	x, y, z, t := feBig(&v.X), feBig(&v.Y), feBig(&v.Z), feBig(&v.T)
	if z.Sign() == 0 || mulp(x, y).Cmp(mulp(z, t)) != 0 {
		return false
	}
	// on the curve: (y^2 - x^2) z^2 = z^4 + d x^2 y^2
	x2, y2, z2 := mulp(x, x), mulp(y, y), mulp(z, z)
	if mulp(subp(y2, x2), z2).Cmp(addp(mulp(z2, z2), mulp(bigD, mulp(x2, y2)))) != 0 {
		return false
	}
	return mulp(X, y).Cmp(mulp(Y, x)) == 0 || mulp(Y, y).Cmp(mulp(X, x)) == 0
}

func hotMul(g *gen, end time.Time) {
	base := newComb(affBase)
	for time.Now().Before(end) {
		s := g.element()
		_, x, y := decodeClass(s)
		c := newComb(aff{x, y})
		var p ristretto.Point
		var tab ristretto.ScalarMultTable
		ok := false
		if safe(func() { ok = p.SetBytes(arr32(le32(s))); tab.Compute(&p) }) || !ok {
			return
		}
		for n := 0; n < 400 && time.Now().Before(end); n++ {
			v := g.scalar()
			mulAll(g, base, c, s, &p, &tab, v, false)
		}
	}
}

// mulAll: all multiplications by v, of the point p with encoding s and table tab
func mulAll(g *gen, base, c *comb, s *big.Int, p *ristretto.Point, tab *ristretto.ScalarMultTable, v *big.Int, rec bool) {
	b := le32(v)
	sc := scalarOf(v)
	for k, op := range []string{"PMul", "PPubMul", "PMulTable", "PPubMulTable", "PMulBase", "PPubMulBase"} {
		var r ristretto.Point
		cc := c
		pan := safe(func() {
			switch k {
			case 0:
				r.ScalarMult(p, &sc)
			case 1:
				r.PublicScalarMult(p, &sc)
			case 2:
				r.ScalarMultTable(tab, &sc)
			case 3:
				r.PublicScalarMultTable(tab, &sc)
			case 4:
				r.ScalarMultBase(&sc)
				cc = base
			case 5:
				r.PublicScalarMultBase(&sc)
				cc = base
			}
		})
		nScreened++
		if pan || !cc.is(&r, b) || rec {
			g.history(func(h *hist) {
				h.do("PSetBytes", "p0", nil, le32(s), 0)
				h.sload("s0", v)
				switch k {
				case 0, 1:
					h.op(op, "p1", "p0", "s0")
				case 2, 3:
					h.op("TCompute", "t0", "p0")
					h.op(op, "p1", "t0", "s0")
				default:
					h.op(op, "p1", "s0")
				}
			})
		}
	}
}
