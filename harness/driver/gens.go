package main

// Generators of histories, one per property.

import (
	"encoding/base64"
	"encoding/hex"
	"math/big"
)

var generators = map[string]func(g *gen){}

func init() {
	generators["C01"] = genC01
	generators["C02"] = genC02
	generators["C03"] = genC03
	generators["C04"] = genC04
	generators["C05"] = genC05
	generators["C06"] = genC06
	generators["C07"] = genC07
	generators["C08"] = genC08
	generators["C09"] = genC09
	generators["C11"] = genC11
	generators["C12"] = genC12
	generators["C13"] = genC13
	generators["all"] = genAll
}

// genAll takes the histories of all properties in turn.
func genAll(g *gen) {
	for _, f := range []func(*gen){genC01, genC02, genC03, genC05, genC06, genC07, genC08, genC09, genC11, genC12, genC13, genC04} {
		f(g)
	}
}

func genC01(g *gen) {
	for k := 0; k < 40*g.scale; k++ {
		g.history(func(h *hist) {
			h.points("p0", "p1", "p2")
			for n := 0; n < 12; n++ {
				r, x, y := h.reg("p", 3), h.reg("p", 3), h.reg("p", 3)
				switch h.pick(13) {
				case 0:
					h.op("PZero", r)
				case 1:
					h.op("PBase", r)
				case 2:
					h.op("PSet", r, x)
				case 3, 4:
					h.op("PNeg", r, x)
				case 5, 6:
					h.op("PDouble", r, x)
				case 7, 8, 9:
					h.op("PAdd", r, x, y)
				case 10, 11:
					h.op("PSub", r, x, y)
				case 12:
					h.related(r, x)
				}
			}
		})
	}
	for k := 0; k < 4*g.scale; k++ { // l P = 0 by way of the group operations alone
		g.history(func(h *hist) {
			h.point("p0")
			h.op("PSet", "p1", "p0")
			for b := bigL.BitLen() - 2; b >= 0; b-- {
				h.op("PDouble", "p1", "p1")
				if bigL.Bit(b) == 1 {
					h.op("PAdd", "p1", "p1", "p0")
				}
				if h.pick(40) == 0 {
					h.rerand("p1")
				}
			}
			h.op("PZero", "p2")
			h.op("PSub", "p2", "p2", "p1")
		})
	}
}

func genC02(g *gen) {
	enc := []string{"PBytes", "PBytesInto", "PMarshalBinary", "PMarshalText", "PString"}
	for k := 0; k < 70*g.scale; k++ {
		g.history(func(h *hist) {
			h.point("p0")
			switch h.pick(4) {
			case 0: // the result of arithmetic
				h.point("p1")
				h.op([]string{"PAdd", "PSub"}[h.pick(2)], "p0", "p0", "p1")
			case 1: // the neutral element, arrived at in some way
				h.op("PSub", "p0", "p0", "p0")
			}
			for n := 0; n < 4; n++ {
				h.ask(enc[h.pick(5)], "p0")
				h.rerand("p0")
			}
			e := h.ask("PBytes", "p0")
			if h.dead {
				return
			}
			b, err := hex.DecodeString(e.Out)
			if err == nil && len(b) == 32 {
				h.do("PSetBytes", "p1", nil, b, 0)
				if !h.dead && !h.invalid["p1"] {
					h.ask("PBytes", "p1")
					h.ask("PEquals", "p0", "p1")
				}
			}
		})
	}
	for k := 0; k < 8*g.scale; k++ {
		g.history(func(h *hist) {
			h.ext("x0", true)
			h.ask("XRistretto", "x0")
			h.xrerand("x0")
			h.ask("XRistrettoInto", "x0")
		})
	}
	// every representative of every small multiple of the base point and of zero
	g.history(func(h *hist) {
		h.op("PZero", "p0")
		h.op("PBase", "p2")
		for n := 0; n < 12; n++ {
			for t := 0; t < 4; t++ {
				h.op("PSet", "p1", "p0")
				h.do("PRerand", "p1", nil, le32(big.NewInt(int64(1+n*t))), t)
				h.ask("PBytes", "p1")
				h.op("PNeg", "p1", "p1")
				h.ask("PBytesInto", "p1")
			}
			h.op("PAdd", "p0", "p0", "p2")
		}
	})
}

func genC03(g *gen) {
	for k := 0; k < 110*g.scale; k++ {
		g.history(func(h *hist) {
			if h.pick(2) == 0 {
				h.point("p0")
			}
			for n := 0; n < 6; n++ {
				b := h.encoding()
				switch h.pick(6) {
				case 0:
					h.do("PUnmarshalBinary", "p0", nil, b, 0)
				case 1:
					h.do("XSetRistretto", "x0", nil, b, 0)
					continue
				default:
					h.do("PSetBytes", "p0", nil, b, 0)
				}
				if h.dead {
					return
				}
				if !h.invalid["p0"] && h.pick(2) == 0 {
					h.ask("PBytes", "p0")
				}
			}
		})
	}
	g.history(func(h *hist) { // wrong lengths
		for n := 0; n < 70; n++ {
			b := make([]byte, n)
			if n >= 32 {
				copy(b, le32(g.element()))
			}
			h.do("PUnmarshalBinary", "p0", nil, b, 0)
		}
	})
	// the numbers below 64, around p, around 2^255, 2^256 and their negatives mod 2^256
	for _, c := range []*big.Int{new(big.Int), bigP, pow2(255), pow2(256), subp(new(big.Int), bigI), bigI,
		new(big.Int).Add(bigP, pow2(255))} {
		c := c
		g.history(func(h *hist) {
			for n := int64(-24); n <= 24; n++ {
				v := mod(new(big.Int).Add(c, big.NewInt(n)), pow2(256))
				h.do("PSetBytes", "p0", nil, le32(v), 0)
			}
		})
	}
	// one element with every single bit flipped
	g.history(func(h *hist) {
		s := h.element()
		for k := 0; k < 256; k++ {
			if g.scale < 4 && g.pick(4) != 0 {
				continue
			}
			v := new(big.Int).Set(s)
			h.do("PSetBytes", "p0", nil, le32(v.SetBit(v, k, 1-v.Bit(k))), 0)
		}
	})
}

// digitScalars cover every signed digit at every position of the base-16 and
// base-32 recodings, and the odd digits of the 5-NAF.
func digitScalars() []*big.Int {
	var r []*big.Int
	for _, w := range []uint{4, 5} {
		h := int64(1) << (w - 1)
		for d := -h; d <= h; d++ {
			for _, alt := range []int64{0, 1, -1} { // the digit everywhere, or next to another
				v := new(big.Int)
				pos := 0
				for k := uint(0); k+w <= 252; k += w {
					x := d
					if alt != 0 && pos%2 == 1 {
						x = alt * (h - 1 - d%h)
					}
					v.Add(v, new(big.Int).Lsh(big.NewInt(x), k))
					pos++
				}
				r = append(r, mod(v, bigL))
			}
		}
	}
	for k := 0; k <= 252; k++ {
		r = append(r, mod(pow2(k), bigL), mod(new(big.Int).Sub(pow2(k), bigOne), bigL))
	}
	return r
}

func (h *hist) allMults(p, s string) {
	r := func() string {
		if h.pick(3) == 0 {
			return p
		}
		return "p7"
	}
	ops := h.Perm(4)
	for _, k := range ops {
		switch k {
		case 0:
			x := r()
			if x == p { // keep the operand
				h.op("PSet", "p6", p)
				h.op("PMul", "p6", "p6", s)
			} else {
				h.op("PMul", x, p, s)
			}
		case 1:
			x := r()
			if x == p {
				h.op("PSet", "p6", p)
				h.op("PPubMul", "p6", "p6", s)
			} else {
				h.op("PPubMul", x, p, s)
			}
		case 2:
			h.op("PMulTable", "p7", "t0", s)
		case 3:
			h.op("PPubMulTable", "p7", "t0", s)
		}
	}
}

func genC04(g *gen) {
	for k := 0; k < 40*g.scale; k++ {
		g.history(func(h *hist) {
			h.points("p0", "p7")
			h.op("TCompute", "t0", "p0")
			for n := 0; n < 6; n++ {
				h.sload("s0", h.scalar())
				switch h.pick(6) {
				case 0:
					h.op("PMulBase", "p7", "s0")
					h.op("PPubMulBase", "p7", "s0")
				case 5: // the table is used for a point that looks like the one before
					switch h.pick(2) {
					case 0:
						h.op("PNeg", "p1", "p0")
					default:
						h.related("p1", "p0")
					}
					h.op("TCompute", "t0", "p1")
					h.op("PMulTable", "p7", "t0", "s0")
					h.op("PPubMulTable", "p7", "t0", "s0")
					h.op("TCompute", "t0", "p0")
					h.op("PMulTable", "p7", "t0", "s0")
					h.op("PPubMulTable", "p7", "t0", "s0")
				case 1: // move the point, recompute the table or keep the old one
					h.op("TCompute", "t1", "p0")
					h.rerand("p0")
					h.op("TCompute", "t0", "p0")
					h.allMults("p0", "s0")
					h.op("PMulTable", "p7", "t1", "s0")
				default:
					h.allMults("p0", "s0")
				}
			}
		})
	}
	// edges of the scalars on zero, base and a random point
	g.history(func(h *hist) {
		h.op("PZero", "p0")
		h.op("PBase", "p1")
		h.point("p2")
		h.op("PDouble", "p7", "p2")
		h.op("TCompute", "t0", "p0")
		h.op("TCompute", "t1", "p1")
		h.op("TCompute", "t2", "p2")
		for _, d := range []int64{0, 1, 2, 3, 15, 16, 17, 31, 32, 33, -1, -2, -16} {
			h.sload("s0", mod(big.NewInt(d), bigL))
			for _, n := range []string{"0", "1", "2"} {
				h.op("PMul", "p7", "p"+n, "s0")
				h.op("PPubMul", "p7", "p"+n, "s0")
				h.op("PMulTable", "p7", "t"+n, "s0")
				h.op("PPubMulTable", "p7", "t"+n, "s0")
			}
			h.op("PMulBase", "p7", "s0")
			h.op("PPubMulBase", "p7", "s0")
		}
	})
	ds := digitScalars()
	perm := g.Perm(len(ds))
	for k := 0; k < len(ds); k += 30 {
		g.history(func(h *hist) {
			h.point("p0")
			h.point("p7")
			h.op("TCompute", "t0", "p0")
			for n := k; n < k+30 && n < len(ds); n++ {
				h.sload("s0", ds[perm[n]])
				if perm[n] < 34*3+32 || g.scale > 3 {
					h.op("PMulBase", "p7", "s0")
					h.op("PPubMulBase", "p7", "s0")
					h.allMults("p0", "s0")
				} else {
					switch h.pick(3) {
					case 0:
						h.op("PMulBase", "p7", "s0")
						h.op("PPubMulBase", "p7", "s0")
					case 1:
						h.op("PMul", "p7", "p0", "s0")
						h.op("PPubMul", "p7", "p0", "s0")
					default:
						h.op("PMulTable", "p7", "t0", "s0")
						h.op("PPubMulTable", "p7", "t0", "s0")
					}
				}
			}
		})
	}
}

func genC05(g *gen) {
	for k := 0; k < 300*g.scale; k++ {
		g.history(func(h *hist) {
			h.scalars("s0", "s1", "s2")
			for n := 0; n < 10; n++ {
				r, x, y, z := h.reg("s", 4), h.reg("s", 3), h.reg("s", 3), h.reg("s", 3)
				switch h.pick(16) {
				case 0:
					h.op([]string{"SZero", "SOne"}[h.pick(2)], r)
				case 1:
					h.op("SSet", r, x)
				case 2, 3, 4:
					h.op("SAdd", r, x, y)
				case 5, 6, 7:
					h.op("SSub", r, x, y)
				case 8:
					h.op("SNeg", r, x)
				case 9, 10:
					h.op("SMul", r, x, y)
				case 11:
					h.op("SSquare", r, x)
				case 12, 13:
					h.op("SMulAdd", r, x, y, z)
				case 14:
					h.op("SMulSub", r, x, y, z)
				case 15:
					h.inverse(r, x)
				}
			}
		})
	}
	// all small and all large values against each other
	g.history(func(h *hist) {
		vals := []int64{0, 1, 2, -1, -2}
		for _, x := range vals {
			for _, y := range vals {
				h.sload("s0", mod(big.NewInt(x), bigL))
				h.sload("s1", mod(big.NewInt(y), bigL))
				for _, op := range []string{"SAdd", "SSub", "SMul"} {
					h.op(op, "s3", "s0", "s1")
				}
				for _, z := range vals {
					h.sload("s2", mod(big.NewInt(z), bigL))
					h.op("SMulAdd", "s3", "s0", "s1", "s2")
					h.op("SMulSub", "s3", "s0", "s1", "s2")
				}
			}
			h.op("SNeg", "s3", "s0")
			h.op("SSquare", "s3", "s0")
			h.inverse("s3", "s0")
		}
	})
}

func (h *hist) inverse(r, x string) {
	if h.dead {
		return
	}
	if s := h.s[x]; s != nil && *s != (scalarZero) {
		h.op("SInverse", r, x)
	}
}

func genC06(g *gen) {
	for k := 0; k < 160*g.scale; k++ {
		g.history(func(h *hist) {
			h.scalars("s0", "s1")
			for n := 0; n < 8; n++ {
				r := h.reg("s", 2)
				switch h.pick(12) {
				case 0, 1:
					h.do("SSetBytes", r, nil, h.any256(), 0)
				case 2, 3, 4:
					h.do("SSetBytesStrict", r, nil, h.any256(), 0)
				case 5, 6:
					h.do("SSetReduced", r, nil, h.any512(), 0)
				case 7:
					sign := 1 - 2*h.pick(2)
					h.do("SSetBigInt", r, nil, h.anyInt(), sign)
				case 8:
					h.do("SSetUint64", r, nil, leOfBig(h.raw(64), 8), 0)
				case 9:
					h.do("SUnmarshalBinary", r, nil, h.any256(), 0)
				default:
					h.export(r)
				}
				if h.pick(3) == 0 {
					h.export(r)
				}
			}
		})
	}
	for _, c := range []*big.Int{new(big.Int), bigL, pow2(252), pow2(253), pow2(254), pow2(255), pow2(256),
		new(big.Int).Mul(bigL, big.NewInt(2)), new(big.Int).Mul(bigL, big.NewInt(8)), new(big.Int).Mul(bigL, big.NewInt(15))} {
		c := c
		g.history(func(h *hist) {
			for n := int64(-3); n <= 3; n++ {
				v := new(big.Int).Add(c, big.NewInt(n))
				w := mod(v, pow2(256))
				h.sload("s0", h.scalar())
				h.do("SSetBytesStrict", "s0", nil, le32(w), 0)
				h.do("SSetBytes", "s0", nil, le32(w), 0)
				h.do("SSetReduced", "s0", nil, leOfBig(w, 64), 0)
				h.do("SUnmarshalBinary", "s0", nil, le32(w), 0)
				sign := 1
				if v.Sign() < 0 {
					sign = -1
				}
				h.do("SSetBigInt", "s0", nil, leOfBig(new(big.Int).Abs(v), 32), sign)
				h.export("s0")
			}
		})
	}
	g.history(func(h *hist) {
		h.sload("s0", h.scalar())
		for n := 0; n < 70; n++ {
			h.do("SUnmarshalBinary", "s0", nil, h.bytes(n), 0)
		}
	})
}

func (h *hist) export(r string) {
	h.ask([]string{"SBytes", "SBytesInto", "SBigInt", "SMarshalBinary"}[h.pick(4)], r)
}

func (g *gen) any256() []byte {
	switch g.pick(6) {
	case 0:
		return le32(g.near(bigL, 256))
	case 1:
		return le32(g.scalar())
	case 2:
		v := g.near(bigL, 253)
		v.Or(v, new(big.Int).Lsh(g.bits(3), 253))
		return le32(v)
	default:
		return le32(g.raw(256))
	}
}

func (g *gen) any512() []byte {
	switch g.pick(6) {
	case 0: // k l + small
		v := new(big.Int).Mul(bigL, g.raw(259))
		v.Add(v, big.NewInt(int64(g.pick(7)-3)))
		return leOfBig(mod(v, pow2(512)), 64)
	case 1: // q l + r of the classes
		v := new(big.Int).Mul(bigL, g.raw(259))
		return leOfBig(mod(v.Add(v, g.scalar()), pow2(512)), 64)
	default:
		return leOfBig(g.raw(512), 64)
	}
}

func (g *gen) anyInt() []byte {
	n := []int{1, 8, 64, 128, 252, 253, 255, 256, 257, 300, 512, 513, 600, 1024, 2000}[g.pick(15)]
	if g.pick(12) == 0 { // long ones
		n = []int{2049, 4100, 8200, 16500, 66000}[g.pick(5)]
	}
	v := g.raw(n)
	if g.pick(3) == 0 {
		v.Mul(v, bigL)
		v.Add(v, big.NewInt(int64(g.pick(3))))
	}
	return leOfBig(v, 1)
}

func elligatorSpecials() []*big.Int {
	var r []*big.Int
	neg := func(x *big.Int) *big.Int { return subp(new(big.Int), x) }
	base := []*big.Int{new(big.Int), bigOne, bigI, bigSqrtID, bigSqrtIOverD, big.NewInt(2), invp(big.NewInt(2))}
	// r = i r0^2 hits -1, -d, -1/d, 1, d, ...
	for _, c := range []*big.Int{neg(bigOne), neg(bigD), neg(invp(bigD)), bigOne, bigD, invp(bigD), bigI, neg(bigI)} {
		if s := sqrtp(mulp(c, invp(bigI))); s != nil {
			base = append(base, s)
		}
	}
	for _, v := range base {
		r = append(r, v, mod(neg(v), bigP))
	}
	return r
}

func genC07(g *gen) {
	for k := 0; k < 70*g.scale; k++ {
		g.history(func(h *hist) {
			if h.pick(2) == 0 {
				h.point("p0")
				h.scalars("s0")
			}
			for n := 0; n < 8; n++ {
				switch h.pick(8) {
				case 0:
					h.do("PDerive", "p0", nil, h.message(), 0)
				case 1:
					h.do("PDeriveDalek", "p0", nil, h.message(), 0)
				case 2:
					h.do("SDerive", "s0", nil, h.message(), 0)
				case 3:
					h.do("SDeriveShort", "s0", nil, h.message(), 0)
				case 4:
					h.fieldReg("f0")
					h.op("CElligator", "c0", "f0")
				default:
					h.do("PElligator", "p0", nil, h.b32(), 0)
				}
			}
		})
	}
	for k := 0; k < 2; k++ { // long messages
		g.history(func(h *hist) {
			n := 1<<uint(17+h.pick(5)) + h.pick(3) - 1
			if h.pick(2) == 0 {
				n += h.pick(5000)
			}
			k := h.pick(4)
			h.do([]string{"PDerive", "PDeriveDalek", "SDerive", "SDeriveShort"}[k], []string{"p0", "p0", "s0", "s0"}[k], nil, h.bytes(n), 0)
		})
	}
	g.history(func(h *hist) {
		for _, v := range elligatorSpecials() {
			for _, add := range []*big.Int{new(big.Int), pow2(255)} {
				h.do("PElligator", "p0", nil, le32(new(big.Int).Add(v, add)), 0)
				if v.Cmp(big.NewInt(19)) < 0 { // the same number with p added
					h.do("PElligator", "p0", nil, le32(new(big.Int).Add(new(big.Int).Add(v, bigP), add)), 0)
				}
			}
			h.fload("f0", v)
			h.op("CElligator", "c0", "f0")
			h.do("FLoosen", "f0", nil, nil, 0)
			h.op("CElligator", "c0", "f0")
		}
		for n := int64(0); n < 20; n++ {
			h.do("PElligator", "p0", nil, le32(new(big.Int).Sub(pow2(255), big.NewInt(n))), 0)
			h.do("PElligator", "p0", nil, le32(big.NewInt(n)), 0)
		}
	})
	for n := 0; n < 300; n += 1 + g.pick(3) { // messages of every length
		if n%10 < 10 {
			n := n
			g.history(func(h *hist) {
				b := h.bytes(n)
				h.do("PDerive", "p0", nil, b, 0)
				h.do("PDeriveDalek", "p0", nil, b, 0)
				h.do("SDerive", "s0", nil, b, 0)
				h.do("SDeriveShort", "s0", nil, b, 0)
			})
		}
	}
}

func genC08(g *gen) {
	liz := []string{"PLizard", "PLizardInto"}
	for k := 0; k < 60*g.scale; k++ {
		g.history(func(h *hist) {
			if h.pick(3) == 0 {
				h.point("p0")
			}
			h.do("PSetLizard", "p0", nil, h.data16(), 0)
			h.ask(liz[h.pick(2)], "p0")
			h.rerand("p0")
			h.ask(liz[h.pick(2)], "p0")
			h.rerand("p0")
			h.ask(liz[h.pick(2)], "p0")
			e := h.ask("PBytes", "p0")
			if b, err := hex.DecodeString(e.Out); err == nil && len(b) == 32 {
				h.do("PSetBytes", "p1", nil, b, 0)
				if !h.dead && !h.invalid["p1"] {
					h.ask(liz[h.pick(2)], "p1")
				}
			}
			if h.pick(2) == 0 { // no longer data
				h.op("PNeg", "p0", "p0")
				h.ask(liz[h.pick(2)], "p0")
			}
		})
	}
	for k := 0; k < 30*g.scale; k++ {
		g.history(func(h *hist) {
			h.point("p0")
			h.ask(liz[h.pick(2)], "p0")
			h.ext("x0", true)
			h.ask("XElligatorInverse", "x0")
			h.xrerand("x0")
			h.ask("XElligatorInverse", "x0")
			switch h.pick(4) {
			case 0:
				h.op("XNeg", "x0", "x0")
				h.ask("XElligatorInverse", "x0")
			case 1:
				h.op("XTorsion2", "xz")
				h.op("XAdd", "x0", "x0", "xz")
				h.ask("XElligatorInverse", "x0")
			}
		})
	}
	g.history(func(h *hist) {
		for _, op := range []string{"XZero", "XTorsion1", "XTorsion2", "XTorsion3"} {
			h.op(op, "x0")
			h.ask("XElligatorInverse", "x0")
			h.do("XRerand", "x0", nil, le32(big.NewInt(7)), 4)
			h.ask("XElligatorInverse", "x0")
		}
		for t := 0; t < 4; t++ {
			h.op("PZero", "p0")
			h.do("PRerand", "p0", nil, le32(big.NewInt(int64(t+1))), t)
			h.ask("PLizard", "p0")
			h.ask("PLizardInto", "p0")
		}
		for _, v := range elligatorSpecials() { // images of exceptional elements
			h.fload("f0", v)
			h.op("CElligator", "c0", "f0")
			h.op("XSetCompleted", "x0", "c0")
			h.ask("XElligatorInverse", "x0")
			h.do("PElligator", "p0", nil, le32(v), 0)
			h.ask("PLizard", "p0")
		}
	})
	// almost Lizard: the Elligator image of an element with one check bit off
	for k := 0; k < 8*g.scale; k++ {
		g.history(func(h *hist) {
			d := h.data16()
			h.do("PSetLizard", "p0", nil, d, 0)
			v := lizardNum(d)
			j := h.pick(256)
			switch h.pick(4) {
			case 0:
				j = h.pick(64)
			case 1:
				j = 192 + h.pick(64)
			}
			v.SetBit(v, j, 1-v.Bit(j))
			h.do("PElligator", "p0", nil, le32(v), 0)
			h.ask(liz[h.pick(2)], "p0")
			h.rerand("p0")
			h.ask(liz[h.pick(2)], "p0")
		})
	}
	g.history(func(h *hist) {
		for _, b := range []byte{0, 1, 0x7f, 0x80, 0xff} {
			d := make([]byte, 16)
			for i := range d {
				d[i] = b
			}
			h.do("PSetLizard", "p0", nil, d, 0)
			h.ask("PLizard", "p0")
			h.rerand("p0")
			h.ask("PLizardInto", "p0")
		}
	})
}

func genC09(g *gen) {
	for k := 0; k < 70*g.scale; k++ {
		g.history(func(h *hist) {
			h.points("p0", "p1")
			for n := 0; n < 6; n++ {
				x, y := h.reg("p", 2), h.reg("p", 2)
				switch h.pick(8) {
				case 0, 1:
					h.ask("PEquals", x, y)
				case 2, 3:
					h.ask("PEqualsI", x, y)
				case 4, 5:
					h.related("p0", "p1")
					h.ask([]string{"PEquals", "PEqualsI"}[h.pick(2)], "p0", "p1")
					h.ask([]string{"PEquals", "PEqualsI"}[h.pick(2)], "p1", "p0")
				default:
					h.do("PCondSet", x, a(y), nil, h.pick(2))
				}
			}
		})
	}
	for k := 0; k < 110*g.scale; k++ {
		g.history(func(h *hist) {
			h.scalars("s0", "s1")
			for n := 0; n < 8; n++ {
				x, y := h.reg("s", 2), h.reg("s", 2)
				switch h.pick(6) {
				case 0:
					h.ask("SEquals", x, y)
				case 1:
					h.ask("SEqualsI", x, y)
				case 2:
					h.ask("SIsNonZeroI", x)
				case 3: // differ in one bit
					v := h.scalar()
					w := new(big.Int).Set(v)
					w.SetBit(w, h.pick(252), uint(h.pick(2)))
					h.sload("s0", v)
					h.sload("s1", mod(w, bigL))
					h.ask("SEquals", "s0", "s1")
					h.ask("SEqualsI", "s1", "s0")
				case 4:
					h.do("SCondSet", x, a(y), nil, h.pick(2))
				case 5:
					h.sload(x, pow2(h.pick(252)))
					h.ask("SIsNonZeroI", x)
				}
			}
		})
	}
	// every single bit
	g.history(func(h *hist) {
		h.sload("s1", h.bits(250))
		h.op("SZero", "s2")
		h.ask("SIsNonZeroI", "s2")
		h.ask("SEqualsI", "s2", "s2")
		for k := 0; k < 252; k++ {
			h.sload("s0", pow2(k))
			h.ask("SIsNonZeroI", "s0")
			h.ask("SEqualsI", "s0", "s2")
			h.ask("SEquals", "s2", "s0")
		}
	})
	// the neutral element in all its forms, equal or not
	g.history(func(h *hist) {
		h.point("p2")
		h.op("PBase", "p3")
		for t := 0; t < 4; t++ {
			for u := 0; u < 4; u++ {
				h.op("PZero", "p0")
				h.op("PZero", "p1")
				h.do("PRerand", "p0", nil, le32(h.factor(nil)), t)
				h.do("PRerand", "p1", nil, le32(h.factor(nil)), u)
				h.ask("PEqualsI", "p0", "p1")
				h.ask("PEquals", "p0", "p2")
				h.ask("PEqualsI", "p3", "p0")
				h.op("PSet", "p0", "p2")
				h.op("PSet", "p1", "p2")
				h.do("PRerand", "p0", nil, le32(h.factor(nil)), t)
				h.do("PRerand", "p1", nil, le32(h.factor(nil)), u)
				h.ask("PEqualsI", "p0", "p1")
				h.op("PNeg", "p1", "p1")
				h.ask("PEqualsI", "p0", "p1")
				h.op("PDouble", "p1", "p0")
				h.ask("PEqualsI", "p0", "p1")
			}
		}
	})
	for k := 0; k < 10*g.scale; k++ {
		g.history(func(h *hist) {
			h.ext("x0", true)
			h.ext("x1", true)
			h.ask("XRistrettoEqualsI", "x0", "x1")
			h.op("XTorsion"+[]string{"1", "2", "3"}[h.pick(3)], "x2")
			h.op("XAdd", "x1", "x0", "x2")
			h.ask("XRistrettoEqualsI", "x0", "x1")
			h.xrerand("x1")
			h.ask("XRistrettoEqualsI", "x1", "x0")
			h.do("XCondSet", "x1", a("x2"), nil, h.pick(2))
			h.do("XCondSet", "x0", a("x1"), nil, h.pick(2))
		})
	}
}

// text returns a text near those of 32 bytes.
func (g *gen) text(b []byte) []byte {
	std := base64.RawURLEncoding
	t := []byte(std.EncodeToString(b))
	switch g.pick(22) {
	case 0, 1, 2:
		return t
	case 3:
		return []byte(hex.EncodeToString(b))
	case 4: // upper-case hex digits
		t = []byte(hex.EncodeToString(b))
		for i := range t {
			if t[i] >= 'a' && g.pick(2) == 0 {
				t[i] -= 32
			}
		}
		return t
	case 5:
		return []byte(base64.URLEncoding.EncodeToString(b)) // padded
	case 6:
		return []byte(base64.RawStdEncoding.EncodeToString(b)) // + and / for - and _
	case 7: // trailing bits set: 32 bytes leave 4 unused... of the last symbol
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		t[len(t)-1] = al[g.pick(64)]
		return t
	case 8: // one symbol replaced
		t[g.pick(len(t))] = byte(g.pick(256))
		return t
	case 9: // dropped
		k := g.pick(len(t))
		return append(t[:k:k], t[k+1:]...)
	case 10: // inserted
		k := g.pick(len(t) + 1)
		return append(append(append([]byte{}, t[:k]...), byte("A\n\r =-_+/\x00é"[g.pick(11)])), t[k:]...)
	case 11: // newlines, anywhere, are skipped by encoding/base64
		var r []byte
		for _, c := range t {
			if g.pick(8) == 0 {
				r = append(r, "\r\n"[g.pick(2)])
			}
			r = append(r, c)
		}
		return r
	case 12: // other lengths
		return []byte(std.EncodeToString(g.bytes(g.pick(100))))
	case 13: // 64 symbols that are base64, not hex
		return []byte(std.EncodeToString(g.bytes(48)))
	case 14: // 64 bytes: 43 symbols and newlines
		r := append([]byte{}, t...)
		for len(r) < 64 {
			k := g.pick(len(r) + 1)
			r = append(r[:k:k], append([]byte{"\r\n"[g.pick(2)]}, r[k:]...)...)
		}
		return r
	case 15: // nearly hex
		t = []byte(hex.EncodeToString(b))
		t[g.pick(64)] = "gGzZ-_ \n/:@`"[g.pick(12)]
		return t
	case 16: // hex of other lengths
		return []byte(hex.EncodeToString(g.bytes([]int{0, 16, 24, 31, 33, 48, 64}[g.pick(7)])))
	case 17:
		return g.bytes(g.pick(90))
	case 18: // longer than 32 bytes decoded
		return []byte(std.EncodeToString(append(append([]byte{}, b...), g.bytes(1+g.pick(40))...)))
	case 19: // all in one symbol
		t = make([]byte, g.pick(130))
		x := "A_-a\n\r0="[g.pick(8)]
		for i := range t {
			t[i] = x
		}
		return t
	case 20:
		return []byte("0x" + hex.EncodeToString(b))
	default:
		r := []byte(std.EncodeToString(b[:31]))
		return r
	}
}

func genC11(g *gen) {
	for k := 0; k < 150*g.scale; k++ {
		g.history(func(h *hist) {
			h.point("p0")
			h.scalars("s0")
			for n := 0; n < 6; n++ {
				switch h.pick(10) {
				case 0, 1:
					h.do("PUnmarshalText", "p1", nil, h.text(le32(h.element())), 0)
				case 2:
					h.do("PUnmarshalText", "p1", nil, h.text(h.encoding()), 0)
				case 3, 4:
					h.do("SUnmarshalText", "s0", nil, h.text(h.any256()), 0)
				case 5:
					h.do("SUnmarshalBinary", "s0", nil, h.any256(), 0)
				case 6:
					h.do("PUnmarshalBinary", "p1", nil, h.encoding(), 0)
				case 7:
					h.do([]string{"PUnmarshalBinary", "PUnmarshalText"}[h.pick(2)], "p1", nil, h.bytes(h.pick(70)), 0)
					h.do([]string{"SUnmarshalBinary", "SUnmarshalText"}[h.pick(2)], "s0", nil, h.bytes(h.pick(70)), 0)
				case 8:
					h.roundtripText("p0", "p1", []string{"PMarshalText", "PString", "PMarshalBinary"}[h.pick(3)])
				case 9:
					h.roundtripText("s0", "s1", []string{"SMarshalText", "SString", "SMarshalBinary"}[h.pick(3)])
				}
			}
		})
	}
	for _, ty := range []string{"P", "S"} { // every length
		ty := ty
		g.history(func(h *hist) {
			r := map[string]string{"P": "p1", "S": "s1"}[ty]
			if ty == "S" {
				h.sload("s1", h.scalar())
			}
			for n := 0; n < 110; n++ {
				h.do(ty+"UnmarshalText", r, nil, []byte(base64.RawURLEncoding.EncodeToString(make([]byte, n))), 0)
				if n%3 == 0 {
					h.do(ty+"UnmarshalText", r, nil, make([]byte, n), 0)
					h.do(ty+"UnmarshalBinary", r, nil, make([]byte, n), 0)
				}
			}
		})
	}
	for k := 0; k < 2*g.scale; k++ { // every byte at a place of a good text, and trailing symbols
		g.history(func(h *hist) {
			v := h.element()
			w := le32(h.scalar())
			h.sload("s1", h.scalar())
			t := []byte(base64.RawURLEncoding.EncodeToString(le32(v)))
			u := []byte(base64.RawURLEncoding.EncodeToString(w))
			x := []byte(hex.EncodeToString(le32(v)))
			i, j, l := h.pick(43), h.pick(43), h.pick(64)
			if k == 0 {
				i, j = 42, 42
			}
			for c := 0; c < 256; c++ {
				t[i], u[j], x[l] = byte(c), byte(c), byte(c)
				h.do("PUnmarshalText", "p1", nil, t, 0)
				h.do("SUnmarshalText", "s1", nil, u, 0)
				h.do("PUnmarshalText", "p1", nil, x, 0)
			}
		})
	}
}

func (h *hist) roundtripText(from, to, op string) {
	if h.dead {
		return
	}
	e := h.ask(op, from)
	b, err := hex.DecodeString(e.Out)
	if err != nil {
		return
	}
	kind := "UnmarshalText"
	if op[1:] == "MarshalBinary" {
		kind = "UnmarshalBinary"
	}
	h.do(op[:1]+kind, to, nil, b, 0)
}

func genC12(g *gen) {
	un := []string{"FNeg", "FSquare", "FDoubledSquare", "FInverse", "FExp22523", "FSqrt", "FInvSqrt", "FInvSqrtI", "FAbs", "FSet"}
	bin := []string{"FAdd", "FSub", "FMul"}
	qs := []string{"FBytes", "FBytesInto", "FBigInt", "FString", "FIsNegativeI", "FIsNonZeroI", "FIsOneI"}
	for k := 0; k < 200*g.scale; k++ {
		g.history(func(h *hist) {
			h.fieldReg("f0")
			h.fieldReg("f1")
			if h.pick(2) == 0 && !h.dead { // a chosen sum, difference or product
				w, t := feBig(h.f["f0"]), h.field()
				v := []*big.Int{subp(t, w), subp(w, t), mod(new(big.Int).Neg(w), bigP), w, addp(w, bigOne)}[h.pick(5)]
				if h.pick(2) == 0 && w.Sign() != 0 {
					v = mulp(t, invp(w))
				}
				h.fload("f1", v)
				if h.pick(2) == 0 {
					h.do("FLoosen", "f1", nil, nil, h.pick(4))
				}
			}
			for n := 0; n < 8; n++ {
				r, x, y := h.reg("f", 3), h.reg("f", 2), h.reg("f", 2)
				if h.pick(4) > 0 {
					r = "f2"
				}
				switch h.pick(9) {
				case 0, 1:
					h.op(un[h.pick(len(un))], r, x)
				case 2, 3, 4:
					h.op(bin[h.pick(3)], r, x, y)
				case 5, 6:
					h.ask(qs[h.pick(len(qs))], x)
				case 7:
					h.ask([]string{"FEqualsI", "FEquals"}[h.pick(2)], x, y)
				case 8:
					switch h.pick(4) {
					case 0:
						h.do("FCondSet", x, a(y), nil, h.pick(2))
					case 1:
						h.do("FSetBytes", x, nil, h.b32(), 0)
					case 2:
						h.do("FSetBigInt", x, nil, h.anyInt(), 1-2*h.pick(2))
					case 3:
						h.op([]string{"FZero", "FOne", "FI"}[h.pick(3)], x)
					}
					if h.pick(2) == 0 {
						h.do("FLoosen", x, nil, nil, h.pick(4))
					}
				}
			}
		})
	}
	// the boundary: 0, p, 2^255 and what is near, tight and loose
	g.history(func(h *hist) {
		for _, c := range []*big.Int{new(big.Int), bigP, pow2(255), new(big.Int).Rsh(bigP, 1)} {
			for n := int64(-20); n <= 20; n += 1 + int64(g.pick(3)) {
				v := mod(new(big.Int).Add(c, big.NewInt(n)), pow2(256))
				for l := -1; l < 4; l++ {
					h.do("FSetBytes", "f0", nil, le32(v), 0)
					if l >= 0 {
						h.do("FLoosen", "f0", nil, nil, l)
					}
					for _, q := range qs {
						h.ask(q, "f0")
					}
					h.op("FNeg", "f1", "f0")
					h.ask("FEqualsI", "f0", "f1")
					h.op("FAdd", "f2", "f0", "f1")
					h.ask("FIsNonZeroI", "f2")
					h.op("FSub", "f2", "f0", "f0")
					h.op("FAbs", "f1", "f0")
				}
			}
		}
	})
}

func genC13(g *gen) {
	for k := 0; k < 60*g.scale; k++ {
		g.history(func(h *hist) {
			h.ext("x0", false)
			h.ext("x1", false)
			if h.pick(4) == 0 {
				h.op([]string{"XSet", "XNeg", "XDouble"}[h.pick(3)], "x1", "x0")
			}
			h.op("NSetExtended", "n0", "x1")
			h.op("JSetExtended", "j0", "x0")
			h.op("CAdd", "c0", "x0", "x1")
			for n := 0; n < 12; n++ {
				r, x, y := h.reg("x", 3), h.reg("x", 2), h.reg("x", 2)
				switch h.pick(21) {
				case 0:
					h.op("XAdd", r, x, y)
				case 1:
					h.op("XSub", r, x, y)
				case 2:
					h.op("XDouble", r, x)
				case 3:
					h.op("XNeg", r, x)
				case 4:
					h.op("CAdd", "c0", x, y)
				case 5:
					h.op("CSub", "c0", x, y)
				case 6:
					h.op("CDoubleX", "c0", x)
				case 7:
					h.op("CDouble", "c0", "j0")
				case 8:
					h.op("CAddNiels", "c0", x, "n0")
				case 9:
					h.op("CSubNiels", "c0", x, "n0")
				case 10, 11:
					h.op("XSetCompleted", r, "c0")
				case 12:
					h.op("JSetCompleted", "j0", "c0")
				case 13:
					h.op("JSetExtended", "j0", x)
				case 14:
					h.op("NSetExtended", "n0", x)
				case 15:
					h.op("NNeg", []string{"n0", "n1"}[h.pick(2)], "n0")
				case 16:
					h.op("NSet", "n1", "n0")
					if h.pick(2) == 0 {
						h.op("NSet", "n2", "n0")
					}
					h.op("NZero", "n2")
					h.do("NCondSet", "n1", a([]string{"n0", "n2"}[h.pick(2)]), nil, h.pick(2))
				case 17:
					h.op([]string{"XZero", "XBase", "XTorsion1", "XTorsion2", "XTorsion3"}[h.pick(5)], r)
				case 18:
					h.op("XSet", r, x)
				case 19:
					h.do("XCondSet", x, a(y), nil, h.pick(2))
				case 20:
					if h.pick(2) == 0 {
						h.op("JSetExtended", "j1", x)
					}
					h.op("JZero", "j1")
					h.op("CDouble", "c1", "j1")
				}
			}
		})
	}
	for k := 0; k < 18*g.scale; k++ { // scalar multiples of exact points
		g.history(func(h *hist) {
			h.ext("x0", h.pick(2) == 0)
			h.op("UCompute", "u0", "x0")
			for n := 0; n < 3; n++ {
				s := h.scalar()
				if h.pick(3) == 0 {
					s = h.raw(253)
				}
				b := le32(s)
				switch h.pick(4) {
				case 0:
					h.do("XMul", "x1", a("x0"), b, 0)
					h.do("XVarMul", "x1", a("x0"), b, 0)
				case 1:
					h.do("XTMul", "x1", a("u0"), b, 0)
					h.do("XTVarMul", "x1", a("u0"), b, 0)
				case 2:
					h.do("XBaseMul", "x1", nil, b, 0)
					h.do("XBaseVarMul", "x1", nil, b, 0)
				case 3:
					h.op("XSet", "x2", "x0")
					h.do([]string{"XMul", "XVarMul"}[h.pick(2)], "x2", a("x2"), b, 0)
				}
			}
		})
	}
	for k := 0; k < 25*g.scale; k++ { // the Jacobi quartic, encodings
		g.history(func(h *hist) {
			h.ext("x0", true)
			e := h.ask("XToQuartic", "x0")
			if h.dead {
				return
			}
			rv := append([]string(nil), e.Rv...)
			for i := 0; i+1 < len(rv); i += 2 {
				b1, _ := hex.DecodeString(rv[i])
				b2, _ := hex.DecodeString(rv[i+1])
				if !onQuartic(bigOfLE(b1), bigOfLE(b2)) {
					continue
				}
				h.do("QLoad", "q0", nil, append(b1, b2...), 0)
				if h.pick(4) == 0 {
					h.ask("QString", "q0")
				}
				h.op("CQuartic", "c0", "q0")
				h.op("QDual", []string{"q0", "q1"}[h.pick(2)], "q0")
				h.op("XSetCompleted", "x1", "c0")
			}
			h.ask("XElligatorInverse", "x0")
			h.fieldReg("f0")
			h.op("CElligator", "c0", "f0")
			h.op("XSetCompleted", "x1", "c0")
			h.ask("XRistretto", "x1")
			h.ask("XString", []string{"x0", "x1"}[h.pick(2)])
			h.ask("CString", "c0")
			h.ask("XRistrettoEqualsI", "x0", "x1")
			h.do("XSetRistretto", "x2", nil, h.encoding(), 0)
		})
	}
	g.history(func(h *hist) { // torsion against everything
		ts := []string{"XZero", "XTorsion1", "XTorsion2", "XTorsion3", "XBase"}
		for _, t := range ts {
			for _, u := range ts {
				h.op(t, "x0")
				h.op(u, "x1")
				h.op("XAdd", "x2", "x0", "x1")
				h.op("XSub", "x2", "x0", "x1")
				h.op("NSetExtended", "n0", "x1")
				h.op("CAddNiels", "c0", "x0", "n0")
				h.op("CSubNiels", "c0", "x0", "n0")
				if t != "XBase" {
					h.ask("XToQuartic", "x0")
				}
			}
		}
	})
	ds := digitScalars()
	g.history(func(h *hist) {
		h.ext("x0", false)
		h.op("UCompute", "u0", "x0")
		for k := 0; k < 60*g.scale && k < len(ds); k++ {
			b := le32(ds[h.pick(len(ds))])
			if k < 33 {
				b = le32(ds[k*3])
			}
			h.do([]string{"XTMul", "XTVarMul"}[h.pick(2)], "x1", a("u0"), b, 0)
			h.do([]string{"XBaseMul", "XBaseVarMul"}[h.pick(2)], "x1", nil, b, 0)
			h.do([]string{"XMul", "XVarMul"}[h.pick(2)], "x1", a("x0"), b, 0)
		}
	})
}
