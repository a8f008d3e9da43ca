package main

// Values: the classes of inputs from which histories are built.  Everything
// here is plain math/big; nothing calls the library.

import (
	"math/big"
	"math/rand"
	"os"
	"strings"
)

var (
	bigP, bigL, bigD, bigI, bigSqrtID, bigSqrtIOverD, bigAMinusD *big.Int
	bigOne                                                       = big.NewInt(1)
)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func mod(x, m *big.Int) *big.Int  { return new(big.Int).Mod(x, m) }
func mulp(x, y *big.Int) *big.Int { return mod(new(big.Int).Mul(x, y), bigP) }
func addp(x, y *big.Int) *big.Int { return mod(new(big.Int).Add(x, y), bigP) }
func subp(x, y *big.Int) *big.Int { return mod(new(big.Int).Sub(x, y), bigP) }
func invp(x *big.Int) *big.Int {
	return new(big.Int).Exp(x, new(big.Int).Sub(bigP, big.NewInt(2)), bigP)
}
func le32(x *big.Int) []byte    { return leOfBig(x, 32)[:32] }
func sqrtp(x *big.Int) *big.Int { return new(big.Int).ModSqrt(x, bigP) }
func even(x *big.Int) *big.Int {
	if x.Bit(0) == 1 {
		return new(big.Int).Sub(bigP, x)
	}
	return x
}

func init() {
	bigP = new(big.Int).Sub(pow2(255), big.NewInt(19))
	bigL, _ = new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	bigL.Add(bigL, pow2(252))
	bigD = mulp(big.NewInt(-121665), invp(big.NewInt(121666)))
	bigI = even(new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(bigP, bigOne), 2), bigP))
	bigSqrtID = even(sqrtp(mulp(bigI, bigD)))
	bigSqrtIOverD = even(sqrtp(mulp(bigI, invp(bigD))))
	initRef()
}

// values that occur in the sources of late, and their neighbours: they bias
// the inputs
var lits []*big.Int

func init() {
	for _, x := range strings.Fields(os.Getenv("VDICT")) {
		if v, ok := new(big.Int).SetString(x, 16); ok {
			lits = append(lits, v, new(big.Int).Add(v, bigOne))
			if v.Sign() > 0 {
				lits = append(lits, new(big.Int).Sub(v, bigOne))
			}
		}
	}
}

func (g *gen) lit() *big.Int { return new(big.Int).Set(lits[g.pick(len(lits))]) }

type gen struct {
	*rand.Rand
	scale int // budget: number of histories scales with it
	last  []byte
}

func (g *gen) pick(n int) int { return g.Intn(n) }

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

func (g *gen) bits(n int) *big.Int {
	b := g.bytes((n + 7) / 8)
	return mod(new(big.Int).SetBytes(b), pow2(n))
}

// limb of w bits: extreme, near a power of two, or random
func (g *gen) limb(w int) *big.Int {
	top := pow2(w)
	if len(lits) > 0 && g.pick(4) == 0 {
		return mod(g.lit(), top)
	}
	switch g.pick(8) {
	case 0:
		return big.NewInt(0)
	case 1:
		return new(big.Int).Sub(top, bigOne)
	case 2:
		return new(big.Int).Sub(top, big.NewInt(int64(1+g.pick(20))))
	case 3:
		return big.NewInt(int64(g.pick(20)))
	case 4:
		return pow2(g.pick(w))
	case 5:
		return new(big.Int).Sub(top, pow2(g.pick(w)))
	default:
		return g.bits(w)
	}
}

// limbs builds a number of n bits from limbs of the given widths, cycled.
func (g *gen) limbs(n int, widths ...int) *big.Int {
	r := new(big.Int)
	one := g.pick(3) == 0 // mostly a constant limb
	fixed := g.limb(62)
	for pos, k := 0, 0; pos < n; k++ {
		w := widths[k%len(widths)]
		v := g.limb(w)
		if one && g.pick(5) != 0 {
			v = mod(fixed, pow2(w))
		}
		r.Or(r, v.Lsh(v, uint(pos)))
		pos += w
	}
	return mod(r, pow2(n))
}

// digits builds a number of n bits from w-bit digits of a small alphabet.
func (g *gen) digits(n, w int) *big.Int {
	h := int64(1) << uint(w-1)
	alpha := []int64{0, h - 1, h, h + 1, 2*h - 1, 1, 2*h - 2}
	a := make([]int64, 1+g.pick(3))
	for i := range a {
		a[i] = alpha[g.pick(len(alpha))]
	}
	r := new(big.Int)
	for pos := 0; pos < n; pos += w {
		d := a[g.pick(len(a))]
		if g.pick(30) == 0 {
			d = int64(g.pick(int(2 * h)))
		}
		v := big.NewInt(d)
		r.Or(r, v.Lsh(v, uint(pos)))
	}
	return mod(r, pow2(n))
}

// runs builds a number of n bits from runs of equal bits.
func (g *gen) runs(n int) *big.Int {
	r := new(big.Int)
	bit := g.pick(2)
	for pos := 0; pos < n; {
		k := 1 + g.pick(40)
		if g.pick(4) == 0 {
			k = 1 + g.pick(150)
		}
		for ; k > 0 && pos < n; k-- {
			r.SetBit(r, pos, uint(bit))
			pos++
		}
		bit = 1 - bit
	}
	return r
}

func (g *gen) sparse(n int) *big.Int {
	r := new(big.Int)
	for k := 1 + g.pick(5); k > 0; k-- {
		r.SetBit(r, g.pick(n), 1)
	}
	if g.pick(2) == 0 {
		r.Xor(r, new(big.Int).Sub(pow2(n), bigOne))
	}
	return r
}

// like: m with one digit of width w moved, what follows random or extreme
func (g *gen) near(m *big.Int, n int) *big.Int {
	w := []int{8, 16, 21, 32, 51, 64}[g.pick(6)]
	k := g.pick((n + w - 1) / w)
	hi := new(big.Int).Rsh(m, uint(k*w))
	hi.Add(hi, big.NewInt(int64(g.pick(3)-1)))
	var lo *big.Int
	switch g.pick(4) {
	case 0:
		lo = new(big.Int)
	case 1:
		lo = new(big.Int).Sub(pow2(k*w), bigOne)
	case 2:
		lo = mod(m, pow2(k*w))
	default:
		lo = g.bits(k*w + 1)
	}
	return mod(new(big.Int).Add(hi.Lsh(hi, uint(k*w)), mod(lo, pow2(k*w))), pow2(n))
}

// raw: a number of n bits of any class
func (g *gen) raw(n int) *big.Int {
	if len(lits) > 0 && g.pick(12) == 0 {
		v := g.lit()
		if g.pick(2) == 0 {
			v.Lsh(v, uint(g.pick(n)))
		}
		if g.pick(2) == 0 {
			v.Xor(v, g.raw(n))
		}
		return mod(v, pow2(n))
	}
	switch g.pick(13) {
	case 0:
		return mod(big.NewInt(int64(g.pick(48))), pow2(n))
	case 1:
		return mod(new(big.Int).Sub(pow2(n), big.NewInt(int64(1+g.pick(48)))), pow2(n))
	case 2:
		return mod(new(big.Int).Add(pow2(g.pick(n)), big.NewInt(int64(g.pick(5)-2))), pow2(n))
	case 3:
		return g.limbs(n, 32)
	case 4:
		return g.limbs(n, 21)
	case 5:
		return g.limbs(n, 51)
	case 6:
		return g.limbs(n, 26, 25)
	case 7:
		return g.limbs(n, 8)
	case 8:
		return g.digits(n, 4+g.pick(2))
	case 9:
		return g.runs(n)
	case 10:
		return g.sparse(n)
	default:
		return g.bits(n)
	}
}

// scalar in [0, l)
func (g *gen) scalar() *big.Int {
	switch g.pick(14) {
	case 0:
		return big.NewInt(int64(g.pick(40)))
	case 1:
		return new(big.Int).Sub(bigL, big.NewInt(int64(1+g.pick(40))))
	case 2: // [2^252, l)
		return new(big.Int).Add(pow2(252), mod(g.raw(128), new(big.Int).Sub(bigL, pow2(252))))
	case 3:
		return mod(g.near(bigL, 253), bigL)
	case 4: // l/2, l/3, ...
		k := big.NewInt(int64(2 + g.pick(33)))
		v := new(big.Int).Mul(bigL, big.NewInt(int64(g.pick(32))))
		v.Div(v, k).Add(v, big.NewInt(int64(g.pick(3))))
		return mod(v, bigL)
	case 5:
		return g.bits(252)
	default:
		return mod(g.raw(252+g.pick(2)), bigL)
	}
}

// field element of 255 bits, not always below p
func (g *gen) field() *big.Int {
	switch g.pick(12) {
	case 0:
		return mod(big.NewInt(int64(g.pick(60)-30)), bigP)
	case 1:
		return new(big.Int).Add(bigP, big.NewInt(int64(g.pick(19))))
	case 2:
		s := []*big.Int{bigI, bigD, bigSqrtID, bigSqrtIOverD, addp(bigD, bigOne), subp(bigD, bigOne), invp(bigD),
			mulp(bigI, bigD), new(big.Int).Rsh(bigP, 1), addp(bigD, bigD), invp(big.NewInt(2))}[g.pick(11)]
		if g.pick(2) == 0 {
			s = subp(new(big.Int), s)
		}
		return new(big.Int).Set(s)
	case 3:
		return g.near(bigP, 255)
	default:
		return g.raw(255)
	}
}

// an even field element below p
func (g *gen) evenField() *big.Int { return even(mod(g.field(), bigP)) }

// any 32 bytes
func (g *gen) b32() []byte {
	v := g.field()
	if g.pick(3) == 0 {
		v.SetBit(v, 255, uint(g.pick(2)))
	}
	if g.pick(12) == 0 {
		v = g.raw(256)
	}
	return le32(v)
}

// --- a model of decoding, used only to make interesting inputs

// decodable returns for s the point (x, y) it encodes if s were acceptable:
// the class of the failure otherwise.
func decodeClass(s *big.Int) (string, *big.Int, *big.Int) {
	if s.Cmp(bigP) >= 0 {
		return "range", nil, nil
	}
	if s.Bit(0) == 1 {
		return "negative", nil, nil
	}
	ss := mulp(s, s)
	u1 := subp(bigOne, ss)
	u2 := addp(bigOne, ss)
	u2s := mulp(u2, u2)
	v := subp(mulp(subp(new(big.Int), bigD), mulp(u1, u1)), u2s)
	q := mulp(v, u2s)
	if q.Sign() == 0 {
		return "zero", nil, nil
	}
	r := sqrtp(invp(q))
	if r == nil {
		return "nonsquare", nil, nil
	}
	dx := mulp(r, u2)
	dy := mulp(mulp(r, dx), v)
	x := even(mulp(mulp(big.NewInt(2), s), dx))
	y := mulp(u1, dy)
	if mulp(x, y).Bit(0) == 1 {
		return "xy", x, y
	}
	if y.Sign() == 0 {
		return "y0", x, y
	}
	return "ok", x, y
}

// element returns the encoding of some group element, as a number.
func (g *gen) element() *big.Int {
	for {
		s := g.evenField()
		if c, _, _ := decodeClass(s); c == "ok" {
			return s
		}
	}
}

// encoding returns 32 bytes that encode an element, or nearly do.
func (g *gen) encoding() []byte {
	switch g.pick(16) {
	case 0, 1, 2, 3:
		return le32(g.element())
	case 4: // high bit
		v := g.element()
		return le32(v.SetBit(v, 255, 1))
	case 5: // p - s
		return le32(new(big.Int).Sub(bigP, g.element()))
	case 6: // s + p, for s < 19 (some of them elements: 0, 2?, ...)
		return le32(new(big.Int).Add(bigP, big.NewInt(int64(g.pick(19)))))
	case 7: // one bit off
		v := g.element()
		k := g.pick(256)
		return le32(v.SetBit(v, k, 1-v.Bit(k)))
	case 8: // 0, 1, -1, i, ...: y = 0 or x = 0
		v := []*big.Int{big.NewInt(0), big.NewInt(1), subp(big.NewInt(0), bigOne), bigI, subp(new(big.Int), bigI),
			big.NewInt(2), bigP, new(big.Int).Add(bigP, bigOne), pow2(255), new(big.Int).Add(pow2(255), subp(new(big.Int), bigOne)),
			new(big.Int).Sub(pow2(256), bigOne), new(big.Int).Sub(pow2(255), bigOne)}[g.pick(12)]
		return le32(v)
	case 9: // even and of a chosen class
		want := []string{"xy", "nonsquare", "xy"}[g.pick(3)]
		for {
			s := g.evenField()
			if c, _, _ := decodeClass(s); c == want {
				return le32(s)
			}
		}
	case 10: // odd, otherwise fine or not
		v := new(big.Int).Sub(bigP, g.element())
		if g.pick(2) == 0 {
			v.SetBit(v, 255, 1)
		}
		return le32(v)
	case 11: // between p and 2^255, or with the high bit
		v := g.near(bigP, 256)
		return le32(v)
	default:
		return g.b32()
	}
}

// message of interesting length
func (g *gen) message() []byte {
	n := 0
	switch g.pick(6) {
	case 0:
		n = g.pick(4)
	case 1:
		n = []int{16, 31, 32, 33, 55, 56, 63, 64, 65, 110, 111, 112, 113, 119, 127, 128, 129, 239, 240, 255, 256, 257, 300, 1000}[g.pick(24)]
	case 2:
		n = g.pick(300)
	default:
		n = g.pick(70)
	}
	if g.pick(40) == 0 {
		n = []int{1023, 1024, 1025, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 16384, 32768, 32769, 65535, 65536, 65537}[g.pick(16)]
	}
	if len(lits) > 0 && g.pick(4) == 0 {
		if v := g.lit(); v.IsInt64() && (v.Int64() < 1<<15 || v.Int64() < 1<<21 && g.pick(20) == 0) {
			n = max(0, int(v.Int64())+g.pick(3)-1)
		}
	}
	if len(g.last) > 2 && g.pick(5) == 0 { // the last message but for one byte
		b := append([]byte(nil), g.last...)
		b[g.pick(len(b))] ^= 1 << uint(g.pick(8))
		g.last = b
		return b
	}
	b := g.bytes(n)
	if n < 1000 {
		g.last = b
	}
	if g.pick(5) == 0 {
		for i := range b {
			b[i] = byte([]int{0, 255, 97}[i%3%(1+n%3)])
		}
	}
	return b
}

func (g *gen) data16() []byte {
	b := le32(g.raw(128))[:16]
	if g.pick(3) == 0 {
		b = g.bytes(16)
	}
	return b
}
