package main

// A second opinion in math/big, used only to select which of very many
// histories are worth recording.  It decides nothing: a history it suspects
// is written to the trace and judged against the TLA+ specification.

import (
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"strings"
)

type aff struct{ x, y *big.Int }

type ref struct {
	pt  map[string]aff      // p, x, c, j, n, t, u
	nm  map[string]*big.Int // s, f
	qu  map[string]aff      // q
	liz map[string]bool     // points that carry Lizard data
}

func newRef() *ref {
	return &ref{map[string]aff{}, map[string]*big.Int{}, map[string]aff{}, map[string]bool{}}
}

var affZero = aff{new(big.Int), big.NewInt(1)}
var affBase, affBaseT3 aff
var sqrtADm1 *big.Int

func negp(x *big.Int) *big.Int { return subp(new(big.Int), x) }
func invm(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		return new(big.Int)
	}
	return new(big.Int).ModInverse(x, bigP)
}

func edAdd(p, q aff) aff {
	xy, yx := mulp(p.x, q.y), mulp(p.y, q.x)
	xx, yy := mulp(p.x, q.x), mulp(p.y, q.y)
	k := mulp(bigD, mulp(xx, yy))
	d1, d2 := addp(bigOne, k), subp(bigOne, k)
	i := invm(mulp(d1, d2))
	return aff{mulp(addp(xy, yx), mulp(i, d2)), mulp(addp(yy, xx), mulp(i, d1))}
}
func edNeg(p aff) aff { return aff{negp(p.x), p.y} }

func projAdd(X1, Y1, Z1, X2, Y2, Z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
	A := mulp(Z1, Z2)
	B := mulp(A, A)
	C := mulp(X1, X2)
	D := mulp(Y1, Y2)
	E := mulp(bigD, mulp(C, D))
	F := subp(B, E)
	G := addp(B, E)
	H := subp(subp(mulp(addp(X1, Y1), addp(X2, Y2)), C), D)
	return mulp(A, mulp(F, H)), mulp(A, mulp(G, addp(D, C))), mulp(F, G)
}

func edMul(n *big.Int, p aff) aff { // projective double-and-add
	X, Y, Z := new(big.Int), big.NewInt(1), big.NewInt(1)
	for k := n.BitLen() - 1; k >= 0; k-- {
		X, Y, Z = projAdd(X, Y, Z, X, Y, Z)
		if n.Bit(k) == 1 {
			X, Y, Z = projAdd(X, Y, Z, p.x, p.y, bigOne)
		}
	}
	i := invm(Z)
	return aff{mulp(X, i), mulp(Y, i)}
}

func initRef() {
	y := mulp(big.NewInt(4), invp(big.NewInt(5)))
	y2 := mulp(y, y)
	x := even(sqrtp(mulp(subp(y2, bigOne), invp(addp(mulp(bigD, y2), bigOne)))))
	affBase = aff{x, y}
	affBaseT3 = edAdd(affBase, aff{negp(bigI), new(big.Int)})
	sqrtADm1 = even(sqrtp(subp(negp(bigD), bigOne)))
	sqrtADm1 = negp(sqrtADm1)
}

func sameElt(p, q aff) bool {
	return mulp(p.x, q.y).Cmp(mulp(p.y, q.x)) == 0 || mulp(p.y, q.y).Cmp(mulp(p.x, q.x)) == 0
}

// encode: the s of the smallest description: try the representatives
func refEncode(p aff) *big.Int {
	if p.x.Sign() == 0 || p.y.Sign() == 0 {
		return new(big.Int)
	}
	q := p
	if mulp(q.x, q.y).Bit(0) == 1 {
		q = aff{mulp(bigI, q.y), mulp(bigI, q.x)}
	}
	if q.x.Bit(0) == 1 {
		q = aff{negp(q.x), negp(q.y)}
	}
	// s = abs(sqrt((1-y)/(1+y)))
	s := sqrtp(mulp(subp(bigOne, q.y), invm(addp(bigOne, q.y))))
	if s == nil {
		return big.NewInt(-1)
	}
	return even(s)
}

func sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	if u.Sign() == 0 {
		return true, new(big.Int)
	}
	if v.Sign() == 0 {
		return false, new(big.Int)
	}
	q := mulp(u, invm(v))
	if r := sqrtp(q); r != nil {
		return true, even(r)
	}
	return false, even(sqrtp(mulp(q, bigI)))
}

func refMap(t *big.Int) aff {
	t = mod(t, bigP)
	r := mulp(bigI, mulp(t, t))
	u := mulp(addp(r, bigOne), subp(bigOne, mulp(bigD, bigD)))
	v := mulp(subp(negp(bigOne), mulp(r, bigD)), addp(r, bigD))
	sq, s := sqrtRatio(u, v)
	c := negp(bigOne)
	if !sq {
		s = negp(even(mulp(s, t)))
		c = r
	}
	dm1 := subp(bigD, bigOne)
	n := subp(mulp(mulp(c, subp(r, bigOne)), mulp(dm1, dm1)), v)
	s2 := mulp(s, s)
	w0 := mulp(big.NewInt(2), mulp(s, v))
	w1 := mulp(n, sqrtADm1)
	w2 := subp(bigOne, s2)
	w3 := addp(bigOne, s2)
	return aff{mulp(w0, invm(w1)), mulp(w2, invm(w3))}
}

func low255(b []byte) *big.Int { return mod(bigOfLE(b), pow2(255)) }

func hexN(s string) *big.Int { b, _ := hex.DecodeString(s); return bigOfLE(b) }

func extOK(rv []string) (aff, bool) {
	X, Y, Z, T := hexN(rv[0]), hexN(rv[1]), hexN(rv[2]), hexN(rv[3])
	if Z.Sign() == 0 || mulp(X, Y).Cmp(mulp(Z, T)) != 0 {
		return aff{}, false
	}
	i := invm(Z)
	p := aff{mulp(X, i), mulp(Y, i)}
	x2, y2 := mulp(p.x, p.x), mulp(p.y, p.y)
	return p, subp(y2, x2).Cmp(addp(bigOne, mulp(bigD, mulp(x2, y2)))) == 0
}

func eqAff(p, q aff) bool { return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0 }

func refDecode(b []byte) (aff, bool) {
	c, x, y := decodeClass(bigOfLE(b))
	if c != "ok" {
		return aff{}, false
	}
	return aff{x, y}, true
}

func refText(t []byte, hexToo bool) ([]byte, bool) {
	if hexToo && len(t) == 64 {
		if b, err := hex.DecodeString(string(t)); err == nil {
			return b, true
		}
	}
	b, err := base64.RawURLEncoding.DecodeString(string(t))
	return b, err == nil && len(b) == 32
}

// step advances the model by a recorded event and says whether all is well.
// known=false: the model has no opinion.
func (r *ref) step(e *Event) (good bool) {
	if e.Pan != "" || len(e.Chg) > 0 || !e.Ret {
		return false
	}
	in, _ := hex.DecodeString(e.In)
	if e.Op != "PRerand" && e.R != "" {
		r.liz[e.R] = e.Op == "PSetLizard"
	}
	P := func(k int) aff { return r.pt[e.A[k]] }
	S := func(k int) *big.Int { return r.nm[e.A[k]] }
	pt := func(q aff) bool {
		g, ok := extOK(e.Rv)
		r.pt[e.R] = q
		return ok && sameElt(g, q)
	}
	ext := func(q aff) bool {
		g, ok := extOK(e.Rv)
		r.pt[e.R] = q
		return ok && eqAff(g, q)
	}
	comp := func(q aff) bool {
		X, Y, Z, T := hexN(e.Rv[0]), hexN(e.Rv[1]), hexN(e.Rv[2]), hexN(e.Rv[3])
		r.pt[e.R] = q
		return Z.Sign() != 0 && T.Sign() != 0 && X.Cmp(mulp(q.x, Z)) == 0 && Y.Cmp(mulp(q.y, T)) == 0
	}
	proj := func(q aff) bool {
		X, Y, Z := hexN(e.Rv[0]), hexN(e.Rv[1]), hexN(e.Rv[2])
		r.pt[e.R] = q
		return Z.Sign() != 0 && X.Cmp(mulp(q.x, Z)) == 0 && Y.Cmp(mulp(q.y, Z)) == 0
	}
	niels := func(q aff) bool {
		r.pt[e.R] = q
		return hexN(e.Rv[0]).Cmp(addp(q.y, q.x)) == 0 && hexN(e.Rv[1]).Cmp(subp(q.y, q.x)) == 0 &&
			hexN(e.Rv[2]).Cmp(mulp(mulp(big.NewInt(2), bigD), mulp(q.x, q.y))) == 0
	}
	num := func(v *big.Int) bool { r.nm[e.R] = v; return hexN(e.Rv[0]).Cmp(v) == 0 }
	sc := func(v *big.Int) bool { return num(mod(v, bigL)) }
	fe := func(v *big.Int) bool { return num(mod(v, bigP)) }
	mul := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	same := func() bool {
		k := len(e.Rv) / 2
		for i := 0; i < k; i++ {
			if e.Rv[i] != e.Rv[i+k] {
				return false
			}
		}
		return true
	}
	b01n := func(b bool) bool { return e.Out == b01(b) }
	n256 := func(v *big.Int) bool { return e.Out == hex.EncodeToString(le32(v)) }
	switch e.Op {
	case "PZero":
		return pt(affZero)
	case "PBase":
		return pt(affBase)
	case "PSet":
		return pt(P(0))
	case "PAdd":
		return pt(edAdd(P(0), P(1)))
	case "PSub":
		return pt(edAdd(P(0), edNeg(P(1))))
	case "PNeg":
		return pt(edNeg(P(0)))
	case "PDouble":
		return pt(edAdd(P(0), P(0)))
	case "PMul", "PPubMul", "PMulTable", "PPubMulTable":
		return pt(edMul(S(1), P(0)))
	case "PMulBase", "PPubMulBase":
		return pt(edMul(S(0), affBase))
	case "TCompute", "UCompute":
		r.pt[e.R] = P(0)
		return true
	case "PElligator":
		return pt(refMap(low255(in)))
	case "PDerive":
		h := sha512.Sum512(in)
		return pt(refMap(low255(h[:32])))
	case "PDeriveDalek":
		h := sha512.Sum512(in)
		return pt(edAdd(refMap(low255(h[:32])), refMap(low255(h[32:]))))
	case "PSetLizard":
		return pt(refMap(lizardNum(in)))
	case "PSetBytes", "PUnmarshalBinary", "XSetRistretto", "PUnmarshalText":
		ok := len(in) == 32
		if e.Op == "PUnmarshalText" {
			in, ok = refText(in, true)
		}
		var q aff
		if ok {
			q, ok = refDecode(in)
		}
		if !ok {
			delete(r.pt, e.R)
			return !e.Ok
		}
		g := e.Ok && pt(q)
		if e.Op == "XSetRistretto" {
			if o, k := extOK(e.Rv); k {
				r.pt[e.R] = o
			}
		}
		return g
	case "PCondSet":
		q := r.pt[e.R]
		if e.N == 1 {
			q = P(0)
		}
		return pt(q) && same()
	case "PRerand":
		return pt(r.pt[e.R])
	case "PBytes", "PBytesInto", "PMarshalBinary", "XRistretto", "XRistrettoInto":
		return n256(new(big.Int).Abs(refEncode(P(0))))
	case "PMarshalText", "PString":
		return e.Out == hex.EncodeToString([]byte(base64.RawURLEncoding.EncodeToString(le32(new(big.Int).Abs(refEncode(P(0)))))))
	case "PEquals", "PEqualsI", "XRistrettoEqualsI":
		return b01n(sameElt(P(0), P(1)))
	case "PLizard", "PLizardInto":
		// the data, if any, must map to the point; absence is checked only
		// where the history says so (see genC08)
		if e.Ok {
			b, _ := hex.DecodeString(e.Out)
			return len(b) == 16 && sameElt(refMap(lizardNum(b)), P(0))
		}
		return !r.liz[e.A[0]]

	case "SLoad":
		return sc(bigOfLE(in))
	case "SZero":
		return sc(new(big.Int))
	case "SOne":
		return sc(bigOne)
	case "SSet":
		return sc(S(0))
	case "SAdd":
		return sc(new(big.Int).Add(S(0), S(1)))
	case "SSub":
		return sc(new(big.Int).Sub(S(0), S(1)))
	case "SNeg":
		return sc(new(big.Int).Neg(S(0)))
	case "SMul":
		return sc(mul(S(0), S(1)))
	case "SSquare":
		return sc(mul(S(0), S(0)))
	case "SMulAdd":
		return sc(new(big.Int).Add(mul(S(0), S(1)), S(2)))
	case "SMulSub":
		return sc(new(big.Int).Sub(mul(S(0), S(1)), S(2)))
	case "SInverse":
		return sc(new(big.Int).ModInverse(S(0), bigL))
	case "SSetBytes":
		return sc(mod(bigOfLE(in), pow2(253)))
	case "SSetReduced":
		return sc(bigOfLE(in))
	case "SSetUint64":
		return sc(bigOfLE(in))
	case "SSetBigInt":
		v := bigOfLE(in)
		if e.N < 0 {
			v.Neg(v)
		}
		return sc(v)
	case "SDerive":
		h := sha512.Sum512(in)
		return sc(bigOfLE(h[:]))
	case "SDeriveShort":
		h := sha512.Sum512(in)
		return sc(bigOfLE(h[:16]))
	case "SSetBytesStrict", "SUnmarshalBinary", "SUnmarshalText":
		old := r.nm[e.R]
		if old == nil {
			old = new(big.Int)
		}
		ok := len(in) == 32
		if e.Op == "SUnmarshalText" {
			in, ok = refText(in, false)
		}
		var v *big.Int
		if ok {
			v = bigOfLE(in)
			if e.Op == "SSetBytesStrict" {
				ok = v.Cmp(bigL) < 0
			} else {
				v = mod(v, pow2(253))
			}
		}
		if !ok {
			return !e.Ok && sc(old)
		}
		return e.Ok && sc(v)
	case "SCondSet":
		v := r.nm[e.R]
		if v == nil {
			v = new(big.Int)
		}
		if e.N == 1 {
			v = S(0)
		}
		return sc(v) && same()
	case "SBytes", "SBytesInto", "SMarshalBinary", "SBigInt":
		return n256(S(0))
	case "SMarshalText", "SString":
		return e.Out == hex.EncodeToString([]byte(base64.RawURLEncoding.EncodeToString(le32(S(0)))))
	case "SEquals", "SEqualsI":
		return b01n(S(0).Cmp(S(1)) == 0)
	case "SIsNonZeroI":
		return b01n(S(0).Sign() != 0)

	case "FLoad", "FSetBytes":
		return fe(low255(in))
	case "FZero":
		return fe(new(big.Int))
	case "FOne":
		return fe(bigOne)
	case "FI":
		return fe(bigI)
	case "FSet":
		return fe(S(0))
	case "FAdd":
		return fe(new(big.Int).Add(S(0), S(1)))
	case "FSub":
		return fe(new(big.Int).Sub(S(0), S(1)))
	case "FNeg":
		return fe(new(big.Int).Neg(S(0)))
	case "FMul":
		return fe(mul(S(0), S(1)))
	case "FSquare":
		return fe(mul(S(0), S(0)))
	case "FDoubledSquare":
		return fe(mul(big.NewInt(2), mul(S(0), S(0))))
	case "FInverse":
		return fe(invm(S(0)))
	case "FExp22523":
		return fe(new(big.Int).Exp(S(0), new(big.Int).Sub(pow2(252), big.NewInt(3)), bigP))
	case "FAbs":
		return fe(even(S(0)))
	case "FSetBigInt":
		v := bigOfLE(in)
		if e.N < 0 {
			v.Neg(v)
		}
		return fe(v)
	case "FCondSet":
		v := r.nm[e.R]
		if e.N == 1 {
			v = S(0)
		}
		return fe(v) && same()
	case "FLoosen":
		return fe(r.nm[e.R])
	case "FSqrt", "FInvSqrt", "FInvSqrtI":
		av := S(0)
		got := hexN(e.Rv[0])
		r.nm[e.R] = got
		if av.Sign() == 0 {
			return got.Sign() == 0
		}
		sq := sqrtp(av) != nil
		switch e.Op {
		case "FSqrt":
			return !sq || got.Bit(0) == 0 && mulp(got, got).Cmp(av) == 0
		case "FInvSqrt":
			return !sq || mulp(mulp(got, got), av).Cmp(bigOne) == 0
		}
		w := av
		if !sq {
			w = mulp(av, bigI)
		}
		return b01n(sq) && mulp(mulp(got, got), w).Cmp(bigOne) == 0
	case "FBytes", "FBytesInto", "FBigInt", "FString":
		return n256(S(0))
	case "FIsNegativeI":
		return b01n(S(0).Bit(0) == 1)
	case "FIsNonZeroI":
		return b01n(S(0).Sign() != 0)
	case "FIsOneI":
		return b01n(S(0).Cmp(bigOne) == 0)
	case "FEqualsI", "FEquals":
		return b01n(S(0).Cmp(S(1)) == 0)

	case "XLoad":
		return ext(aff{bigOfLE(in[:32]), bigOfLE(in[32:])})
	case "XZero", "JZero", "NZero":
		switch e.Op[0] {
		case 'X':
			return ext(affZero)
		case 'J':
			return proj(affZero)
		}
		return niels(affZero)
	case "XBase":
		return ext(affBaseT3)
	case "XTorsion1":
		return ext(aff{new(big.Int), negp(bigOne)})
	case "XTorsion2":
		return ext(aff{bigI, new(big.Int)})
	case "XTorsion3":
		return ext(aff{negp(bigI), new(big.Int)})
	case "XSet", "XSetCompleted":
		return ext(P(0))
	case "XAdd":
		return ext(edAdd(P(0), P(1)))
	case "XSub":
		return ext(edAdd(P(0), edNeg(P(1))))
	case "XDouble":
		return ext(edAdd(P(0), P(0)))
	case "XNeg":
		return ext(edNeg(P(0)))
	case "XMul", "XVarMul", "XTMul", "XTVarMul":
		return ext(edMul(bigOfLE(in), P(0)))
	case "XBaseMul", "XBaseVarMul":
		return ext(edMul(bigOfLE(in), affBaseT3))
	case "XCondSet":
		q := r.pt[e.R]
		if e.N == 1 {
			q = P(0)
		}
		return ext(q) && same()
	case "XRerand":
		return ext(r.pt[e.R])
	case "CAdd", "CAddNiels":
		return comp(edAdd(P(0), P(1)))
	case "CSub", "CSubNiels":
		return comp(edAdd(P(0), edNeg(P(1))))
	case "CDoubleX", "CDouble":
		return comp(edAdd(P(0), P(0)))
	case "CElligator":
		Z, T := hexN(e.Rv[2]), hexN(e.Rv[3])
		if Z.Sign() == 0 || T.Sign() == 0 {
			return false
		}
		q := aff{mulp(hexN(e.Rv[0]), invm(Z)), mulp(hexN(e.Rv[1]), invm(T))}
		r.pt[e.R] = q
		return sameElt(q, refMap(S(0)))
	case "JSetExtended", "JSetCompleted":
		return proj(P(0))
	case "NSet", "NSetExtended":
		return niels(P(0))
	case "NNeg":
		return niels(edNeg(P(0)))
	case "NCondSet":
		q := r.pt[e.R]
		if e.N == 1 {
			q = P(0)
		}
		return niels(q) && same()
	case "QLoad":
		r.qu[e.R] = aff{bigOfLE(in[:32]), bigOfLE(in[32:])}
		return true
	case "QDual":
		q := r.qu[e.A[0]]
		r.qu[e.R] = aff{negp(q.x), negp(q.y)}
		return hexN(e.Rv[0]).Cmp(negp(q.x)) == 0 && hexN(e.Rv[1]).Cmp(negp(q.y)) == 0
	case "CQuartic":
		q := r.qu[e.A[0]]
		s2 := mulp(q.x, q.x)
		x := mulp(mulp(big.NewInt(2), q.x), invm(mulp(sqrtADm1, q.y)))
		y := mulp(subp(bigOne, s2), invm(addp(bigOne, s2)))
		return comp(aff{x, y})
	case "XToQuartic":
		ys := map[string]bool{}
		for i := 0; i+1 < len(e.Rv); i += 2 {
			if !onQuartic(hexN(e.Rv[i]), hexN(e.Rv[i+1])) {
				return false
			}
			s := hexN(e.Rv[i])
			s2 := mulp(s, s)
			q := aff{mulp(mulp(big.NewInt(2), s), invm(mulp(sqrtADm1, hexN(e.Rv[i+1])))), mulp(subp(bigOne, s2), invm(addp(bigOne, s2)))}
			if !sameElt(q, P(0)) {
				return false
			}
			ys[q.x.String()+","+q.y.String()] = true
		}
		n := 4
		if sameElt(P(0), affZero) {
			n = 3
		}
		return len(ys) == n
	case "KMulti":
		k := len(e.A) / 2
		q := affZero
		for i := 0; i < k; i++ {
			q = edAdd(q, edMul(S(k+i), P(i)))
		}
		return pt(q)
	case "KQuartic":
		s, t := bigOfLE(in[:32]), bigOfLE(in[32:])
		s2 := mulp(s, s)
		return ext(aff{mulp(mulp(big.NewInt(2), s), invm(mulp(sqrtADm1, t))), mulp(subp(bigOne, s2), invm(addp(bigOne, s2)))})
	case "KTriple":
		return fe(mul(big.NewInt(3), S(0)))
	case "KSqrt", "KSqrtI":
		v, x := hexN(e.Rv[0]), S(0)
		r.nm[e.R] = v
		sq := big.Jacobi(x, bigP) >= 0
		if e.Op == "KSqrt" && !sq {
			return true
		}
		if !sq {
			x = mulp(bigI, x)
		}
		return mulp(v, v).Cmp(x) == 0 && (e.Op == "KSqrt" || x.Sign() == 0 || b01n(sq))
	case "KIsNeutral":
		return b01n(sameElt(P(0), affZero))
	case "KIsOne":
		return b01n(S(0).Cmp(bigOne) == 0)
	case "KBit":
		return e.Out == fmt.Sprint(S(0).Bit(e.N))
	case "KBitLen":
		return e.Out == fmt.Sprint(S(0).BitLen())
	case "KWindow3", "KWindow5", "KSlide":
		w := map[string]uint{"KWindow3": 3, "KWindow5": 5, "KSlide": 1}[e.Op]
		b, _ := hex.DecodeString(e.Out)
		v := new(big.Int)
		for i := len(b) - 1; i >= 0; i-- {
			v.Lsh(v, w).Add(v, big.NewInt(int64(b[i])-128))
			if d := int(b[i]) - 128; e.Op == "KSlide" && d != 0 && (d&1 == 0 || d >= 1<<(e.N-1) || d <= -1<<(e.N-1)) {
				return false
			}
		}
		return v.Cmp(S(0)) == 0
	case "XString":
		return len(e.Rv) == 4 && ext(P(0)) && n256(refEncode(P(0)))
	case "CString":
		return len(e.Rv) == 4 && comp(P(0)) && n256(refEncode(P(0)))
	case "QString":
		return len(e.Rv) == 2 && hexN(e.Rv[0]).Cmp(r.qu[e.A[0]].x) == 0 && hexN(e.Rv[1]).Cmp(r.qu[e.A[0]].y) == 0
	case "XElligatorInverse":
		for _, h := range e.Rv {
			v := hexN(h)
			if v.Bit(0) == 1 || !sameElt(refMap(v), P(0)) {
				return false
			}
		}
		return true // completeness is for the specification to judge
	}
	return !strings.HasPrefix(e.Op, "?")
}

// suspicious says whether the second opinion differs from the recording.
var debugRef = os.Getenv("DEBUG_REF") != ""

func suspicious(evs []Event) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	r := newRef()
	for i := range evs {
		if !r.step(&evs[i]) {
			if debugRef {
				fmt.Fprintf(os.Stderr, "suspicious: %+v\n", evs[i])
			}
			return true
		}
	}
	return false
}
