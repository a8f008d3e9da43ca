//go:build cref

package main

// The C reference implementation (package cref) under the recorder: through
// its Go wrapper where there is one, else through its C functions.

// #cgo LDFLAGS: -Wl,--unresolved-symbols=ignore-all
// #include "cref.h"
import "C"

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"unsafe"

	"github.com/bwesterb/go-ristretto/cref"
)

type crefMach struct {
	p map[string]*cref.GroupGe
	s map[string]*cref.GroupScalar
	f map[string]*cref.Fe25519
}

func init() {
	newBackend = func() backend {
		return &crefMach{map[string]*cref.GroupGe{}, map[string]*cref.GroupScalar{}, map[string]*cref.Fe25519{}}
	}
	generators["C18"] = genC18
	planRuns["C18"] = planC18
}

// the witnesses through the recodings and the multiplications of the C code
func planC18(g *gen, ls []planLine) {
	old, every := sink, len(ls)/40+1
	defer func() { sink = old }()
	for n := range ls {
		if planFull() {
			return
		}
		sink = func(m *mach) {
			nScreened += len(m.events)
			if n%every == 0 || suspicious(m.events) {
				emit(m.events)
			}
		}
		if ls[n].S == "" {
			g.history(func(h *hist) { h.cpattern(ls[n]) })
			continue
		}
		v := ls[n].scalar(g)
		g.history(func(h *hist) {
			h.do("SSetBytes", "s0", nil, le32(v), 0)
			for _, op := range []string{"KWindow3", "KWindow5", "KSlide"} {
				h.do(op, "", a("s0"), nil, 5)
			}
			if n%16 == 0 {
				h.cpoint("p0")
				h.op("PMul", "p2", "p0", "s0")
				h.op("PMulBase", "p3", "s0")
				h.do("KMulti", "p4", a("p0", "p3", "s0", "s0"), nil, 0)
			}
		})
	}
}

// operands of a sequence of limb classes, or of runs of limbs of the result
func (h *hist) cpattern(l planLine) {
	load := func(v ...*big.Int) []string {
		names := []string{"s0", "s1"}[:len(v)]
		for i, n := range names {
			h.do("SSetBytes", n, nil, le32(v[i]), 0)
		}
		return names
	}
	if l.Alg == "reduce" {
		r := h.limb21(l.Pat)
		h.leadTo(r, func(op string, v ...*big.Int) {
			switch op {
			case "SMul", "SAdd", "SSub", "SSquare":
				h.op(op, "s2", load(v...)...)
			}
		})
		w := new(big.Int).Mul(bigL, h.raw(1+h.pick(259)))
		h.do("SSetReduced", "s2", nil, leOfBig(mod(w.Add(w, r), pow2(512)), 64)[:64], 0)
		return
	}
	if len(l.Pat) == 8 {
		if x, y, ok := h.pairRel(l.Pat); ok {
			h.op("SSub", "s2", load(x, y)...)
			h.op("SAdd", "s2", "s0", "s1")
			h.ask("SEquals", "s0", "s1")
		}
		if x, y, ok := h.pairFix(l.Pat); ok {
			h.op("SSub", "s2", load(x, y)...)
		}
		x := limbsOf(h.scalar())
		var y, z [8]uint32
		y = x
		for i := range x {
			if l.Pat[i] != '=' {
				y[i] ^= 1 << uint(h.pick(32))
				z[i] = 1 << uint(h.pick(32))
			}
		}
		x[7], y[7], z[7] = x[7]&0x0fffffff, y[7]&0x0fffffff, z[7]&0x0fffffff
		h.ask("SEquals", load(bigOfLimbs(x), bigOfLimbs(y))...)
		load(bigOfLimbs(z))
		h.ask("SIsNonZeroI", "s0")
		h.ask("KIsOne", "s0")
		h.op("SNeg", "s2", "s0")
	}
	f := func(n string, v *big.Int) { h.do("FSetBytes", n, nil, le32(v), 0) }
	r := h.fieldPat(l.Pat)
	y := mod(h.field(), bigP)
	f("f0", r)
	f("f1", y)
	h.do([]string{"FAdd", "FSub"}[h.pick(2)], "f2", a("f0", "f1"), nil, h.pick(2))
	h.ask([]string{"FBytes", "FIsNegativeI", "FIsNonZeroI", "FIsOneI"}[h.pick(4)], "f2")
	h.op("FMul", "f2", "f0", "f2")
	h.op("FSquare", "f2", "f0")
	h.op("FNeg", "f2", "f0")
	f("f0", subp(r, y)) // the result has the limbs of r
	h.do("FAdd", "f2", a("f0", "f1"), nil, h.pick(2))
	h.ask("FBytes", "f2")
	f("f0", addp(r, y))
	h.do("FSub", "f2", a("f0", "f1"), nil, h.pick(2))
	h.ask([]string{"FBytes", "FIsNegativeI", "FIsNonZeroI", "FIsOneI"}[h.pick(4)], "f2")
	if y.Sign() != 0 {
		f("f0", mulp(mod(r, bigP), invm(y)))
		h.op("FMul", "f2", "f0", "f1")
		f("f0", r)
		h.ask("FEquals", "f0", "f2")
		h.ask("FBytes", "f2")
	}
}

func (m *crefMach) need(name string) {
	switch name[0] {
	case 'p':
		m.p[name] = new(cref.GroupGe)
	case 's':
		m.s[name] = new(cref.GroupScalar)
	case 'f':
		m.f[name] = new(cref.Fe25519)
	default:
		panic("register " + name)
	}
}

func (m *crefMach) mem(name string) []byte {
	switch name[0] {
	case 'p':
		return mem(m.p[name])
	case 's':
		return mem(m.s[name])
	}
	return mem(m.f[name])
}

func cfe(f *cref.Fe25519) *C.fe25519          { return (*C.fe25519)(unsafe.Pointer(f)) }
func cge(p *cref.GroupGe) *C.group_ge         { return (*C.group_ge)(unsafe.Pointer(p)) }
func csc(s *cref.GroupScalar) *C.group_scalar { return (*C.group_scalar)(unsafe.Pointer(s)) }

func cfeHex(f *cref.Fe25519) string {
	var b [32]byte
	f.Pack(&b)
	return hex.EncodeToString(b[:])
}

func cfeBig(f *cref.Fe25519) *big.Int { return hexN(cfeHex(f)) }

func cfeSet(f *cref.Fe25519, v *big.Int) { f.Unpack(arr32(le32(v))) }

func (m *crefMach) observe(name string) []string {
	switch name[0] {
	case 'p':
		v := *m.p[name]
		return []string{cfeHex(v.X()), cfeHex(v.Y()), cfeHex(v.Z()), cfeHex(v.T())}
	case 's':
		var b [32]byte
		m.s[name].Pack(&b)
		for i, v := range csc(m.s[name]).v { // the digits themselves: bytes
			if v > 255 {
				return []string{fmt.Sprintf("%064x", i)}
			}
		}
		return []string{hex.EncodeToString(b[:])}
	}
	v := *m.f[name]
	return []string{cfeHex(&v)}
}

// what stands for functions and values that are gone
func absent(a ...interface{}) C.int { panic(skipOp{}) }
func nothing() unsafe.Pointer       { panic(skipOp{}) }

func cDigits(ds []C.schar) string {
	s := ""
	for _, d := range ds {
		s += fmt.Sprintf("%02x", uint8(int(d)+128))
	}
	return s
}

func (m *crefMach) exec(st Step, in []byte, ev *Event) {
	P := func(k int) *cref.GroupGe { return m.p[st.A[k]] }
	S := func(k int) *cref.GroupScalar { return m.s[st.A[k]] }
	F := func(k int) *cref.Fe25519 { return m.f[st.A[k]] }
	p, s, f := m.p[st.R], m.s[st.R], m.f[st.R]
	asI := func(v C.int) { ev.Out = i32(int32(v)) }
	switch st.Op {
	case "PZero":
		*cge(p) = C.group_ge_neutral
	case "PBase":
		*cge(p) = C.group_ge_base
	case "PSet":
		*p = *P(0)
	case "PSetBytes":
		ev.Ok = p.Unpack(arr32(in)) == 0
	case "PElligator":
		var r0 cref.Fe25519
		r0.Unpack(arr32(in))
		p.Elligator(&r0)
	case "PAdd":
		if st.N == 1 {
			C.group_ge_add_publicinputs(cge(p), cge(P(0)), cge(P(1)))
		} else {
			p.Add(P(0), P(1))
		}
	case "PNeg":
		if st.N == 1 {
			C.group_ge_negate_publicinputs(cge(p), cge(P(0)))
		} else {
			p.Neg(P(0))
		}
	case "PDouble":
		if st.N == 1 {
			C.group_ge_double_publicinputs(cge(p), cge(P(0)))
		} else {
			p.Double(P(0))
		}
	case "PMul":
		p.ScalarMult(P(0), S(1))
	case "PPubMul":
		C.group_ge_scalarmult_publicinputs(cge(p), cge(P(0)), csc(S(1)))
	case "PMulBase":
		C.group_ge_scalarmult_base(cge(p), csc(S(0)))
	case "PPubMulBase":
		C.group_ge_scalarmult_base_publicinputs(cge(p), csc(S(0)))
	case "KMulti":
		k := len(st.A) / 2
		ps, ss := make([]C.group_ge, k+1), make([]C.group_scalar, k+1)
		for i := 0; i < k; i++ {
			ps[i], ss[i] = *cge(P(i)), *csc(S(k + i))
		}
		if st.N == 1 {
			C.group_ge_multiscalarmult_publicinputs(cge(p), &ps[0], &ss[0], C.ulonglong(k))
		} else {
			C.group_ge_multiscalarmult(cge(p), &ps[0], &ss[0], C.ulonglong(k))
		}
	case "KQuartic":
		var a, b cref.Fe25519
		a.Unpack(arr32(in[:32]))
		b.Unpack(arr32(in[32:]))
		C.group_ge_from_jacobi_quartic(cge(p), cfe(&a), cfe(&b))
	case "PRerand": // as rerand of the Go library, with numbers
		X, Y, Z, T := cfeBig(p.X()), cfeBig(p.Y()), cfeBig(p.Z()), cfeBig(p.T())
		if st.N&1 != 0 {
			X, Y, T = mulp(Y, bigI), mulp(X, bigI), negp(T)
		}
		if st.N&2 != 0 {
			X, Y = negp(X), negp(Y)
		}
		l := low255(in)
		cfeSet(p.X(), mulp(X, l))
		cfeSet(p.Y(), mulp(Y, l))
		cfeSet(p.Z(), mulp(Z, l))
		cfeSet(p.T(), mulp(T, l))
	case "PBytes":
		var b [32]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		P(0).Pack(&b)
		ev.Out = hx(b[:])
	case "PEquals":
		asI(C.group_ge_equals(cge(P(0)), cge(P(1))))
	case "PEqualsI":
		asI(C.group_ge_equals_publicinputs(cge(P(0)), cge(P(1))))
	case "KIsNeutral":
		if st.N%2 == 1 {
			asI(C.group_ge_isneutral_publicinputs(cge(P(0))))
		} else {
			asI(C.group_ge_isneutral(cge(P(0))))
		}

	case "SSetBytes":
		s.Unpack(arr32(in))
	case "SSetReduced":
		C.scalar_from64bytes(csc(s), (*C.uchar)(&arr64(in)[0]))
	case "SZero":
		C.group_scalar_setzero(csc(s))
	case "SOne":
		C.group_scalar_setone(csc(s))
	case "SSet":
		*s = *S(0)
	case "SAdd":
		C.group_scalar_add(csc(s), csc(S(0)), csc(S(1)))
	case "SSub":
		C.group_scalar_sub(csc(s), csc(S(0)), csc(S(1)))
	case "SMul":
		C.group_scalar_mul(csc(s), csc(S(0)), csc(S(1)))
	case "SSquare":
		C.group_scalar_square(csc(s), csc(S(0)))
	case "SNeg":
		C.group_scalar_negate(csc(s), csc(S(0)))
	case "SInverse":
		C.group_scalar_invert(csc(s), csc(S(0)))
	case "SBytes":
		var b [32]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		S(0).Pack(&b)
		ev.Out = hx(b[:])
	case "SEquals":
		asI(C.group_scalar_equals(csc(S(0)), csc(S(1))))
	case "SIsNonZeroI":
		asI(1 - C.group_scalar_iszero(csc(S(0))))
	case "KIsOne":
		asI(C.group_scalar_isone(csc(S(0))))
	case "KBit":
		asI(C.scalar_tstbit(csc(S(0)), C.uint(st.N)))
	case "KBitLen":
		asI(C.scalar_bitlen(csc(S(0))))
	case "KWindow3":
		var r [85]C.schar
		C.scalar_window3(&r[0], csc(S(0)))
		ev.Out = cDigits(r[:])
	case "KWindow5":
		var r [51]C.schar
		C.scalar_window5(&r[0], csc(S(0)))
		ev.Out = cDigits(r[:])
	case "KSlide":
		var r [256]C.schar
		C.scalar_slide(&r[0], csc(S(0)), C.int(st.N))
		ev.Out = cDigits(r[:])

	case "FLoad", "FSetBytes":
		f.Unpack(arr32(in))
	case "FZero":
		C.fe25519_setzero(cfe(f))
	case "FOne":
		C.fe25519_setone(cfe(f))
	case "FI":
		*cfe(f) = C.fe25519_sqrtm1
	case "FSet":
		*f = *F(0)
	case "FAdd":
		if st.A[0] == st.A[1] && st.N == 1 {
			C.fe25519_double(cfe(f), cfe(F(0)))
		} else {
			C.fe25519_add(cfe(f), cfe(F(0)), cfe(F(1)))
		}
	case "FSub":
		C.fe25519_sub(cfe(f), cfe(F(0)), cfe(F(1)))
	case "FNeg":
		C.fe25519_neg(cfe(f), cfe(F(0)))
	case "FMul":
		C.fe25519_mul(cfe(f), cfe(F(0)), cfe(F(1)))
	case "FSquare":
		C.fe25519_square(cfe(f), cfe(F(0)))
	case "FDoubledSquare":
		C.fe25519_square_double(cfe(f), cfe(F(0)))
	case "FInverse":
		C.fe25519_invert(cfe(f), cfe(F(0)))
	case "FExp22523":
		C.fe25519_pow2523(cfe(f), cfe(F(0)))
	case "FInvSqrt":
		C.fe25519_invsqrt(cfe(f), cfe(F(0)))
	case "FInvSqrtI":
		asI(C.fe25519_invsqrti(cfe(f), cfe(F(0))))
	case "KTriple":
		C.fe25519_triple(cfe(f), cfe(F(0)))
	case "KSqrt":
		C.fe25519_sqrt(cfe(f), cfe(F(0)))
	case "KSqrtI":
		asI(C.fe25519_sqrti(cfe(f), cfe(F(0))))
	case "FCondSet":
		C.fe25519_cmov(cfe(f), cfe(F(0)), C.uchar(st.N))
	case "FBytes":
		var b [32]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		F(0).Pack(&b)
		ev.Out = hx(b[:])
	case "FIsNegativeI":
		if st.N%2 == 1 {
			asI(C.int(C.fe25519_getparity(cfe(F(0)))))
		} else {
			asI(C.fe25519_isnegative(cfe(F(0))))
		}
	case "FIsNonZeroI":
		asI(1 - C.fe25519_iszero(cfe(F(0))))
	case "FIsOneI":
		asI(C.fe25519_isone(cfe(F(0))))
	case "FEquals":
		asI(C.fe25519_iseq_vartime(cfe(F(0)), cfe(F(1))))
	case "FEqualsI":
		asI(C.fe25519_iseq(cfe(F(0)), cfe(F(1))))
	default:
		fmt.Fprintln(os.Stderr, "unknown operation", st.Op)
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- histories

func (h *hist) cscalar(r string) {
	v := h.scalar()
	if h.pick(4) == 0 { // not reduced, up to 253 bits
		v = mod(h.raw(253), pow2(253))
	}
	b := le32(v)
	if h.pick(6) == 0 { // the high bits are ignored
		b[31] |= byte(h.pick(8)) << 5
	}
	h.do("SSetBytes", r, nil, b, 0)
}

func (h *hist) crerand(r string) {
	if h.dead || h.invalid[r] {
		return
	}
	p := h.b.(*crefMach).p[r]
	c := []*cref.Fe25519{p.X(), p.Y(), p.Z(), p.T()}[h.pick(4)]
	h.do("PRerand", r, nil, le32(h.factor(cfeBig(c))), h.pick(4))
}

func (h *hist) cpoint(r string) {
	switch h.pick(10) {
	case 0:
		h.op("PZero", r)
	case 1:
		h.op("PBase", r)
	case 2:
		h.cscalar("sz")
		h.op("PMulBase", r, "sz")
	case 3, 4, 5:
		h.do("PSetBytes", r, nil, le32(h.element()), 0)
	case 6:
		h.do("SSetBytes", "sz", nil, le32(big.NewInt(int64(h.pick(9)))), 0)
		h.op("PMulBase", r, "sz")
	default:
		h.do("PElligator", r, nil, h.b32(), 0)
	}
	switch h.pick(6) {
	case 0, 1, 2:
		h.crerand(r)
	case 3:
		h.op("PDouble", r, r)
	case 4:
		h.op("PNeg", r, r)
	}
}

func (h *hist) cpoints(rs ...string) {
	for i, r := range rs {
		h.cpoint(r)
		if i > 0 && h.pick(3) == 0 {
			q := rs[h.pick(i)]
			switch h.pick(4) {
			case 0, 1:
				h.op("PSet", r, q)
			case 2:
				h.op("PNeg", r, q)
			case 3:
				h.op("PDouble", r, q)
			}
			h.crerand(r)
		}
	}
}

func genC18(g *gen) {
	// group operations, encodings
	for k := 0; k < 40*g.scale; k++ {
		g.history(func(h *hist) {
			h.cpoints("p0", "p1", "p2")
			for n := 0; n < 9; n++ {
				r, x, y := h.reg("p", 3), h.reg("p", 3), h.reg("p", 3)
				switch h.pick(10) {
				case 0:
					h.do("PNeg", r, a(x), nil, h.pick(4))
				case 1, 2:
					h.do("PDouble", r, a(x), nil, h.pick(4))
				case 3, 4, 5:
					h.do("PAdd", r, a(x, y), nil, h.pick(4))
				case 6:
					h.crerand(r)
				case 7:
					h.ask("PBytes", x)
				case 8:
					h.ask([]string{"PEquals", "PEqualsI"}[h.pick(2)], x, y)
				case 9:
					h.ask("KIsNeutral", x)
				}
			}
			h.ask("PBytes", "p0")
		})
	}
	// unpacking of canonical field elements, valid or not
	for k := 0; k < 60*g.scale; k++ {
		g.history(func(h *hist) {
			for n := 0; n < 4; n++ {
				b := h.encoding()
				b[31] &= 127
				v := mod(bigOfLE(b), bigP)
				h.do("PSetBytes", "p0", nil, le32(v), 0)
				if !h.dead && !h.invalid["p0"] {
					h.ask("PBytes", "p0")
				}
			}
		})
	}
	// the map
	for k := 0; k < 30*g.scale; k++ {
		g.history(func(h *hist) {
			for n := 0; n < 3; n++ {
				b := h.b32()
				if h.pick(5) == 0 {
					s := elligatorSpecials()
					b = le32(s[h.pick(len(s))])
				}
				h.do("PElligator", "p0", nil, b, 0)
			}
			h.ask("PBytes", "p0")
			// a point of the quartic, from the map's own inverse direction
			if s, t, ok := h.quarticPoint(); ok {
				h.do("KQuartic", "p1", nil, append(le32(s), le32(t)...), 0)
			}
		})
	}
	// multiplication
	for k := 0; k < 12*g.scale; k++ {
		g.history(func(h *hist) {
			h.cpoint("p0")
			h.cpoint("p1")
			h.cscalar("s0")
			h.cscalar("s1")
			if h.pick(3) == 0 {
				ds := digitScalars()
				h.do("SSetBytes", "s0", nil, le32(ds[h.pick(len(ds))]), 0)
			}
			h.op("PMul", "p2", "p0", "s0")
			h.op([]string{"PMulBase", "PPubMulBase"}[h.pick(2)], "p3", "s0")
			h.op([]string{"PMul", "PPubMul"}[h.pick(2)], "p0", "p0", "s1")
			if h.pick(2) == 0 {
				h.do("KMulti", "p4", [][]string{a("p1", "p2", "s1", "s0"), a("p0", "s1"), a("p1", "p1", "p0", "s0", "s1", "s0")}[h.pick(3)], nil, h.pick(2))
			}
			h.op("PMul", "p1", "p1", "s0")
			h.ask("PBytes", "p2")
		})
	}
	g.history(func(h *hist) { h.do("KMulti", "p4", nil, nil, 0) })
	// every digit of the base table
	for k := 0; k < 6*g.scale; k++ {
		g.history(func(h *hist) {
			v := new(big.Int)
			for i := 0; i < 84; i++ {
				v.Add(v, new(big.Int).Lsh(big.NewInt(int64(h.pick(8))), uint(3*i)))
			}
			h.do("SSetBytes", "s0", nil, le32(v), 0)
			h.op("PMulBase", "p0", "s0")
		})
	}
	// scalars
	for k := 0; k < 40*g.scale; k++ {
		g.history(func(h *hist) {
			for i := 0; i < 3; i++ {
				h.cscalar(fmt.Sprintf("s%d", i))
			}
			for n := 0; n < 8; n++ {
				r, x, y := h.reg("s", 3), h.reg("s", 3), h.reg("s", 3)
				switch h.pick(14) {
				case 0, 1:
					h.op("SAdd", r, x, y)
				case 2, 3:
					h.op("SSub", r, x, y)
				case 4, 5:
					h.op("SMul", r, x, y)
				case 6:
					h.op([]string{"SSquare", "SNeg"}[h.pick(2)], r, x)
				case 7:
					h.do("SSetReduced", r, nil, h.any512(), 0)
				case 8:
					if h.observe(x)[0] != hex.EncodeToString(make([]byte, 32)) && h.pick(3) == 0 {
						h.op("SInverse", r, x)
					}
				case 9:
					h.ask("SBytes", x)
				case 10:
					h.ask("SEquals", x, y)
				case 11:
					h.ask([]string{"SIsNonZeroI", "KIsOne", "KBitLen"}[h.pick(3)], x)
				case 12:
					h.do([]string{"KWindow3", "KWindow5", "KSlide"}[h.pick(3)], "", a(x), nil, 2+h.pick(7))
				case 13:
					if h.pick(4) == 0 {
						h.op([]string{"SZero", "SOne"}[h.pick(2)], r)
					} else {
						h.do("KBit", "", a(x), nil, h.pick(256))
					}
				}
			}
		})
	}
	// the field; sums and differences are multiplied, packed or compared, not added again
	un := []string{"FSquare", "FDoubledSquare", "FInverse", "FExp22523", "FInvSqrt", "FInvSqrtI", "KSqrt", "KSqrtI"}
	for k := 0; k < 60*g.scale; k++ {
		g.history(func(h *hist) {
			loose := map[string]bool{}
			for i := 0; i < 3; i++ {
				h.do("FSetBytes", fmt.Sprintf("f%d", i), nil, h.b32(), 0)
			}
			for n := 0; n < 9; n++ {
				r, x, y := h.reg("f", 3), h.reg("f", 3), h.reg("f", 3)
				switch h.pick(12) {
				case 0, 1, 2:
					if !loose[x] && !loose[y] {
						if r != x && h.pick(4) == 0 { // no overlap: not promised
							h.op("KTriple", r, x)
						} else {
							h.do([]string{"FAdd", "FSub", "FSub"}[h.pick(3)], r, a(x, y), nil, h.pick(2))
						}
						loose[r] = true
					}
				case 3, 4, 5:
					h.op("FMul", r, x, y)
					loose[r] = false
				case 6, 7:
					h.op(un[h.pick(len(un))], r, x)
					loose[r] = false
				case 8:
					if !loose[x] {
						h.op("FNeg", r, x)
						loose[r] = false
					}
				case 9:
					h.ask([]string{"FBytes", "FIsNegativeI", "FIsNonZeroI", "FIsOneI"}[h.pick(4)], x)
				case 10:
					if !loose[x] && !loose[y] {
						h.ask([]string{"FEquals", "FEqualsI"}[h.pick(2)], x, y)
					}
				case 11:
					switch h.pick(3) {
					case 0:
						h.do("FCondSet", r, a(x), nil, h.pick(2))
						loose[r] = loose[r] || loose[x]
					case 1:
						h.op([]string{"FZero", "FOne", "FI"}[h.pick(3)], r)
						loose[r] = false
					case 2:
						h.do("FSetBytes", r, nil, h.b32(), 0)
						loose[r] = false
					}
				}
			}
		})
	}
}

// quarticPoint finds a point of the quartic above some point of the curve:
// s with y = (1-s^2)/(1+s^2) a y-coordinate, and its t.
func (g *gen) quarticPoint() (s, t *big.Int, ok bool) {
	for n := 0; n < 8; n++ {
		s = mod(g.field(), bigP)
		s2 := mulp(s, s)
		den := addp(bigOne, s2)
		if den.Sign() == 0 {
			continue
		}
		y := mulp(subp(bigOne, s2), invp(den))
		y2 := mulp(y, y)
		d := addp(bigOne, mulp(bigD, y2))
		x2 := mulp(subp(y2, bigOne), invp(d))
		x := sqrtp(x2)
		if x == nil || x.Sign() == 0 {
			continue
		}
		if g.pick(2) == 0 {
			x = negp(x)
		}
		t = mulp(mulp(big.NewInt(2), s), invp(mulp(sqrtADm1, x)))
		if onQuartic(s, t) {
			return s, t, true
		}
	}
	return nil, nil, false
}
