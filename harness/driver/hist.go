package main

// Histories: sequences of operations on a machine, with helpers that bring
// registers into interesting states.

import (
	"fmt"
	"math/big"

	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

type hist struct {
	*mach
	*gen
}

var sink func(m *mach) // takes a finished history

func (g *gen) history(f func(h *hist)) {
	h := &hist{newMach(), g}
	f(h)
	sink(h.mach)
}

func a(s ...string) []string { return s }

func (h *hist) sload(r string, v *big.Int)             { h.do("SLoad", r, nil, le32(v), 0) }
func (h *hist) fload(r string, v *big.Int)             { h.do("FLoad", r, nil, le32(v), 0) }
func (h *hist) op(op, r string, args ...string) *Event { return h.do(op, r, args, nil, 0) }
func (h *hist) ask(op string, args ...string) *Event   { return h.do(op, "", args, nil, h.pick(256)) }

// xload loads the affine point of an encodable number as an extended point
func (h *hist) xload(r string, x, y *big.Int) {
	h.do("XLoad", r, nil, append(le32(x), le32(y)...), 0)
}

func feBig(f *ed.FieldElement) *big.Int { b := f.Bytes(); return bigOfLE(b[:]) }

// a factor that gives the coordinate c a value with structured limbs
func (g *gen) factor(c *big.Int) *big.Int {
	t := mod(g.field(), bigP)
	if t.Sign() == 0 {
		t = big.NewInt(1)
	}
	if g.pick(5) == 0 { // 1, i, -1, -i
		t = new(big.Int).Exp(bigI, big.NewInt(int64(g.pick(4))), bigP)
	}
	if c == nil || c.Sign() == 0 || g.pick(4) == 0 {
		return t
	}
	return mulp(t, invp(c))
}

// rerand moves the point in register r to another representative.
func (h *hist) rerand(r string) {
	if h.dead {
		return
	}
	p := h.p[r]
	n := h.pick(4)
	if h.pick(3) == 0 {
		n |= 4
	}
	h.do("PRerand", r, nil, le32(h.factor(h.coord(&p.X, &p.Y, &p.Z, &p.T))), n)
}

// a coordinate, or what the formulas make of two
func (g *gen) coord(X, Y, Z, T *ed.FieldElement) *big.Int {
	switch g.pick(8) {
	case 0:
		return addp(feBig(Y), feBig(X))
	case 1:
		return subp(feBig(Y), feBig(X))
	case 2:
		return addp(feBig(Z), feBig(Y))
	case 3:
		return subp(feBig(Z), feBig(Y))
	}
	return feBig([]*ed.FieldElement{X, Y, Z, T}[g.pick(4)])
}

// samecoord scales r so that a coordinate is that of q, or its negation.
func (h *hist) samecoord(r, q string) {
	if h.dead {
		return
	}
	k := h.pick(4)
	of := func(p *ed.ExtendedPoint) *big.Int { return feBig([]*ed.FieldElement{&p.X, &p.Y, &p.Z, &p.T}[k]) }
	c, d := of((*ed.ExtendedPoint)(h.p[r])), of((*ed.ExtendedPoint)(h.p[q]))
	if c.Sign() == 0 || d.Sign() == 0 {
		return
	}
	l := mulp(d, invp(c))
	if h.pick(2) == 0 {
		l = negp(l)
	}
	h.do("PRerand", r, nil, le32(l), h.pick(8))
}

func (h *hist) xrerand(r string) {
	if h.dead {
		return
	}
	p := h.x[r]
	n := 0
	if h.pick(3) == 0 {
		n = 4
	}
	h.do("XRerand", r, nil, le32(h.factor(h.coord(&p.X, &p.Y, &p.Z, &p.T))), n)
}

// point brings register r to some valid point.
func (h *hist) point(r string) {
	switch h.pick(12) {
	case 0:
		h.op("PZero", r)
	case 1:
		h.op("PBase", r)
	case 2:
		h.sload("sz", h.scalar())
		h.op([]string{"PMulBase", "PPubMulBase"}[h.pick(2)], r, "sz")
	case 3, 4:
		h.do("PSetBytes", r, nil, le32(h.element()), 0)
	case 5:
		h.do("PSetLizard", r, nil, h.data16(), 0)
	case 6:
		h.do("PDeriveDalek", r, nil, h.message(), 0)
	case 7: // small multiples of the base point
		h.sload("sz", big.NewInt(int64(h.pick(9))))
		h.op("PMulBase", r, "sz")
		if h.pick(2) == 0 {
			h.op("PNeg", r, r)
		}
	default:
		h.do("PElligator", r, nil, h.b32(), 0)
	}
	switch h.pick(6) {
	case 0, 1, 2:
		h.rerand(r)
	case 3:
		h.op("PDouble", r, r)
	case 4:
		h.op("PNeg", r, r)
	}
}

// related brings r to an element related to that of q: the same, the
// opposite, the double, a neighbour, another representative.
func (h *hist) related(r, q string) {
	switch h.pick(5) {
	case 0, 1:
		h.op("PSet", r, q)
	case 2:
		h.op("PNeg", r, q)
	case 3:
		h.op("PDouble", r, q)
	case 4:
		h.op("PBase", r)
		h.op("PAdd", r, r, q)
	}
	if h.pick(3) != 0 {
		h.rerand(r)
	}
	if h.pick(4) == 0 {
		h.samecoord(r, q)
	}
}

func (h *hist) points(rs ...string) {
	for i, r := range rs {
		if i > 0 && h.pick(2) == 0 {
			h.related(r, rs[h.pick(i)])
		} else {
			h.point(r)
		}
	}
}

// scalars brings registers to reduced values, some of them related.
func (h *hist) scalars(rs ...string) {
	var vals []*big.Int
	for i, r := range rs {
		v := h.scalar()
		if i > 0 {
			w := vals[h.pick(i)]
			switch h.pick(10) {
			case 0: // the sum is a chosen value
				v = mod(new(big.Int).Sub(h.scalar(), w), bigL)
			case 1:
				v = mod(new(big.Int).Sub(w, h.scalar()), bigL)
			case 2: // the product is
				if w.Sign() != 0 {
					v = mod(new(big.Int).Mul(h.scalar(), new(big.Int).ModInverse(w, bigL)), bigL)
				}
			case 3:
				v = new(big.Int).Set(w)
			case 4:
				v = mod(new(big.Int).Neg(w), bigL)
			case 5:
				v = mod(new(big.Int).Add(w, big.NewInt(int64(h.pick(3)-1))), bigL)
			}
			if i > 1 && h.pick(4) == 0 { // ab + c or ab - c is a chosen value
				ab := new(big.Int).Mul(vals[0], vals[1])
				if h.pick(2) == 0 {
					v = mod(new(big.Int).Sub(h.scalar(), ab), bigL)
				} else {
					v = mod(new(big.Int).Sub(ab, h.scalar()), bigL)
				}
			}
		}
		vals = append(vals, v)
		h.sload(r, v)
	}
}

// fieldReg loads a field element, sometimes in a loose form.
func (h *hist) fieldReg(r string) {
	h.fload(r, h.field())
	if h.pick(2) == 0 {
		h.do("FLoosen", r, nil, nil, h.pick(4))
	}
}

// ext brings r to some point of the curve: n says whether it must be even
func (h *hist) ext(r string, even bool) {
	k := 12
	if even {
		k = 8
	}
	switch h.pick(k) {
	case 0:
		h.op([]string{"XZero", "XTorsion1", "XTorsion2", "XTorsion3"}[h.pick(4)], r)
	case 1:
		h.op("XBase", r)
	case 2:
		h.do("XBaseMul", r, nil, le32(h.scalar()), 0)
	case 3:
		h.do("XSetRistretto", r, nil, le32(h.element()), 0)
	case 4:
		h.fload("fz", h.field())
		h.op("CElligator", "cz", "fz")
		h.op("XSetCompleted", r, "cz")
	case 5, 6, 7:
		_, x, y := decodeClass(h.element())
		h.xload(r, x, y)
		if h.pick(2) == 0 {
			h.op([]string{"XTorsion1", "XTorsion2", "XTorsion3"}[h.pick(3)], "xz")
			h.op("XAdd", r, r, "xz")
		}
	default: // any point of the curve: y with (y^2-1)/(d y^2+1) square
		for {
			y := mod(h.field(), bigP)
			y2 := mulp(y, y)
			x2 := mulp(subp(y2, bigOne), invp(addp(mulp(bigD, y2), bigOne)))
			x := sqrtp(x2)
			if x == nil {
				continue
			}
			if h.pick(2) == 0 {
				x = subp(new(big.Int), x)
			}
			h.xload(r, x, y)
			break
		}
	}
	switch h.pick(5) {
	case 0, 1:
		h.xrerand(r)
	case 2:
		h.op("XNeg", r, r)
	}
}

func (h *hist) reg(letter string, n int) string { return fmt.Sprintf("%s%d", letter, h.pick(n)) }
