// The recorder: executes operations of go-ristretto on named registers through
// its exported API and records what it observes, one event per operation, for
// validation against the TLA+ specification (spec/Machine.tla).
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

// Event is one line of a trace.
type Event struct {
	Op  string   `json:"op"`
	R   string   `json:"r"`
	A   []string `json:"a"`
	In  string   `json:"in"`
	N   int      `json:"n"`
	Out string   `json:"out"`
	Ok  bool     `json:"ok"`
	Rv  []string `json:"rv"`
	Ret bool     `json:"ret"`
	Chg []string `json:"chg"`
	Pan string   `json:"pan"`

	leak string // digest of what the call shows (instrumented builds)
}

// Step asks for one operation.
type Step struct {
	Op string
	R  string
	A  []string
	In []byte
	N  int
}

func (e *Event) step() Step {
	in, _ := hex.DecodeString(e.In)
	return Step{e.Op, e.R, e.A, in, e.N}
}

var curF *os.File

type mach struct {
	p map[string]*ristretto.Point
	s map[string]*ristretto.Scalar
	t map[string]*ristretto.ScalarMultTable
	f map[string]*ed.FieldElement
	x map[string]*ed.ExtendedPoint
	c map[string]*ed.CompletedPoint
	j map[string]*ed.ProjectivePoint
	n map[string]*ed.NielsPoint
	u map[string]*ed.ScalarMultTable
	q map[string]*ed.JacobiPoint

	snap    map[string][]byte // memory of every register after the last operation
	names   []string
	invalid map[string]bool // points a failed decoding left unusable
	events  []Event
	noChg   bool   // concurrent use: other goroutines own shared registers
	held    []held // results given to the caller, overwritten
	reuse   bool
	pat     byte
	inbuf   []byte // memory of arguments, used again
	in16    [16]byte
	in32    [32]byte
	in64    [64]byte
	bi      big.Int
	dead    bool // an operation panicked; the history ends there
	b       backend
}

type held struct {
	b   []byte
	pat byte
}

var machs int32

func newMach() *mach {
	m := &mach{p: map[string]*ristretto.Point{}, s: map[string]*ristretto.Scalar{},
		t: map[string]*ristretto.ScalarMultTable{}, f: map[string]*ed.FieldElement{},
		x: map[string]*ed.ExtendedPoint{}, c: map[string]*ed.CompletedPoint{},
		j: map[string]*ed.ProjectivePoint{}, n: map[string]*ed.NielsPoint{},
		u: map[string]*ed.ScalarMultTable{}, q: map[string]*ed.JacobiPoint{},
		snap: map[string][]byte{}, invalid: map[string]bool{}}
	m.reuse = atomic.AddInt32(&machs, 1)%4 != 0
	if newBackend != nil {
		m.b = newBackend()
	}
	return m
}

var pristineBase = ed.BaseScalarMultTable // copied before the first operation

func mem[T any](v *T) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(v)), unsafe.Sizeof(*v))
}

func (m *mach) mem(name string) []byte {
	if m.b != nil {
		return m.b.mem(name)
	}
	switch name[0] {
	case 'p':
		return mem(m.p[name])
	case 's':
		return mem(m.s[name])
	case 't':
		return mem(m.t[name])
	case 'f':
		return mem(m.f[name])
	case 'x':
		return mem(m.x[name])
	case 'c':
		return mem(m.c[name])
	case 'j':
		return mem(m.j[name])
	case 'n':
		return mem(m.n[name])
	case 'u':
		return mem(m.u[name])
	case 'q':
		return mem(m.q[name])
	}
	panic("register " + name)
}

// need makes sure that the register exists; a new one is a zero value of Go.
func (m *mach) need(name string) {
	if name == "" {
		return
	}
	if _, ok := m.snap[name]; ok {
		return
	}
	if m.b != nil {
		m.b.need(name)
		m.snap[name] = append([]byte(nil), m.mem(name)...)
		m.names = append(m.names, name)
		return
	}
	switch name[0] {
	case 'p':
		m.p[name] = new(ristretto.Point)
	case 's':
		m.s[name] = new(ristretto.Scalar)
	case 't':
		m.t[name] = new(ristretto.ScalarMultTable)
	case 'f':
		m.f[name] = new(ed.FieldElement)
	case 'x':
		m.x[name] = new(ed.ExtendedPoint)
	case 'c':
		m.c[name] = new(ed.CompletedPoint)
	case 'j':
		m.j[name] = new(ed.ProjectivePoint)
	case 'n':
		m.n[name] = new(ed.NielsPoint)
	case 'u':
		m.u[name] = new(ed.ScalarMultTable)
	case 'q':
		m.q[name] = new(ed.JacobiPoint)
	}
	m.snap[name] = append([]byte(nil), m.mem(name)...)
	m.names = append(m.names, name)
}

func feHex(f *ed.FieldElement) string {
	b := f.Bytes()
	return hex.EncodeToString(b[:])
}

func scHex(s *ristretto.Scalar) string { // straight from the limbs
	var b [32]byte
	for i := 0; i < 8; i++ {
		for k := 0; k < 4; k++ {
			b[4*i+k] = byte(s[i] >> uint(8*k))
		}
	}
	return hex.EncodeToString(b[:])
}

// observe gives the value of a register without touching it.
func (m *mach) observe(name string) []string {
	if m.b != nil {
		return m.b.observe(name)
	}
	switch name[0] {
	case 'p':
		v := *m.p[name]
		return []string{feHex(&v.X), feHex(&v.Y), feHex(&v.Z), feHex(&v.T)}
	case 's':
		return []string{scHex(m.s[name])}
	case 'f':
		v := *m.f[name]
		return []string{feHex(&v)}
	case 'x':
		v := *m.x[name]
		return []string{feHex(&v.X), feHex(&v.Y), feHex(&v.Z), feHex(&v.T)}
	case 'c':
		v := *m.c[name]
		return []string{feHex(&v.X), feHex(&v.Y), feHex(&v.Z), feHex(&v.T)}
	case 'j':
		v := *m.j[name]
		return []string{feHex(&v.X), feHex(&v.Y), feHex(&v.Z)}
	case 'n':
		v := *m.n[name]
		return []string{feHex(&v.YPlusX), feHex(&v.YMinusX), feHex(&v.XY2D)}
	case 'q':
		v := *m.q[name]
		return []string{feHex(&v.S), feHex(&v.T)}
	}
	return nil
}

// sameValue says "~" if the register changed in memory but not in value.
func (m *mach) sameValue(name string) string {
	if name[0] == 't' || name[0] == 'u' {
		return ""
	}
	now := append([]byte(nil), m.mem(name)...)
	defer copy(m.mem(name), now)
	v := strings.Join(m.observe(name), " ")
	copy(m.mem(name), m.snap[name])
	if strings.Join(m.observe(name), " ") == v {
		return "~"
	}
	return ""
}

// progress for the watchdog
var opStarted int64 // unix nanoseconds of the running operation, 0 when idle
var opRunning atomic.Value

func (m *mach) do(op, r string, a []string, in []byte, n int) *Event {
	return m.step(Step{op, r, a, in, n})
}

func (m *mach) step(st Step) *Event {
	if m.dead {
		return &Event{}
	}
	m.need(st.R)
	for _, a := range st.A {
		m.need(a)
	}
	ev := Event{Op: st.Op, R: st.R, A: st.A, In: hex.EncodeToString(st.In), N: st.N, Ok: true, Ret: true,
		Rv: []string{}, Chg: []string{}}
	if ev.A == nil {
		ev.A = []string{}
	}
	if strings.HasSuffix(st.Op, "CondSet") { // what every coordinate must be afterwards
		src := st.R
		if st.N == 1 {
			src = st.A[0]
		}
		ev.Rv = m.observe(src)
	}
	// the caller's buffer: part of a larger one, whose rest is not the library's either
	whole := m.whole(len(st.In) + 48)
	for i := range whole {
		whole[i] = byte(0xc3 + 7*i)
	}
	in := whole[:copy(whole, st.In)]
	keep := append([]byte(nil), whole...)
	if m.noChg { // the very buffer, which others read at the same time
		in = st.In
	}
	if curF != nil { // the history so far, with this operation as if it never returned
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		enc.Encode(beginLine)
		for _, e := range m.events {
			enc.Encode(e)
		}
		c := ev
		c.Pan, c.Rv = "crash", []string{}
		enc.Encode(c)
		curF.WriteAt(buf.Bytes(), 0)
		curF.Truncate(int64(buf.Len()))
	}
	if !m.noChg {
		current.Store(m)
		opRunning.Store(ev)
		atomic.StoreInt64(&opStarted, time.Now().UnixNano())
	}
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case skipOp:
				ev.Op = ""
			default:
				ev.Pan = "panic: " + fmt.Sprint(x)
			}
		}()
		if leakReset != nil {
			leakReset()
			defer leakStop()
		}
		if m.b != nil {
			m.b.exec(st, in, &ev)
		} else {
			m.exec(st, in, &ev)
		}
	}()
	if leakReset != nil {
		ev.leak = leakDigest()
	}
	if !m.noChg {
		atomic.StoreInt64(&opStarted, 0)
	}
	if ev.Op == "" { // there is no such operation: the history ends before it
		m.dead = true
		return &ev
	}
	if !bytes.Equal(whole, keep) {
		ev.Chg = append(ev.Chg, "in")
	}
	if !m.noChg {
		for i := range in { // the library must not have kept the caller's buffer
			in[i] ^= 0x5a
		}
		for _, h := range m.held { // what earlier calls returned is the caller's
			for _, v := range h.b {
				if v != h.pat {
					ev.Chg = append(ev.Chg, "out")
					break
				}
			}
			fill(h.b, h.pat)
		}
		if len(m.held) > 16 {
			m.held = append([]held(nil), m.held[8:]...)
		}
		for _, name := range m.names {
			now := m.mem(name)
			if name != st.R && !bytes.Equal(now, m.snap[name]) {
				ev.Chg = append(ev.Chg, name+m.sameValue(name))
			}
		}
		if !bytes.Equal(mem(&ed.BaseScalarMultTable), mem(&pristineBase)) {
			ev.Chg = append(ev.Chg, "BaseScalarMultTable")
			ed.BaseScalarMultTable = pristineBase
		}
		for _, name := range m.names {
			copy(m.snap[name], m.mem(name))
		}
	}
	if ev.Pan == "" && st.R != "" {
		if obsTables && st.R[0] == 't' {
			ev.Rv = append(ev.Rv, tableHash(m.t[st.R]))
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					ev.Pan = "panic in Bytes: " + fmt.Sprint(x)
				}
			}()
			ev.Rv = append(m.observe(st.R), ev.Rv...)
		}()
		if ev.Rv == nil {
			ev.Rv = []string{}
		}
		if st.R[0] == 'p' || st.R[0] == 'x' {
			m.invalid[st.R] = !ev.Ok
		}
	}
	if ev.Pan != "" {
		m.dead = true
	}
	m.events = append(m.events, ev)
	return &m.events[len(m.events)-1]
}

// skipOp is the panic of an operation that does not exist in this build.
type skipOp struct{}

func arr16(b []byte) *[16]byte { var r [16]byte; copy(r[:], b); return &r }
func arr32(b []byte) *[32]byte { var r [32]byte; copy(r[:], b); return &r }
func arr64(b []byte) *[64]byte { var r [64]byte; copy(r[:], b); return &r }

// Most histories pass arguments in memory that held earlier ones.
func (m *mach) again() bool { return !m.noChg && m.reuse }
func (m *mach) whole(n int) []byte {
	if !m.again() {
		return make([]byte, n)
	}
	if len(m.inbuf) < n {
		m.inbuf = make([]byte, n+256)
	}
	return m.inbuf[:n:n]
}
func (m *mach) arr16(in []byte) *[16]byte {
	switch {
	case m.noChg:
		return (*[16]byte)(in)
	case m.again():
		m.in16 = *arr16(in)
		return &m.in16
	}
	return arr16(in)
}
func (m *mach) arr32(in []byte) *[32]byte {
	if m.again() {
		m.in32 = *arr32(in)
		return &m.in32
	}
	return arr32(in)
}
func (m *mach) arr64(in []byte) *[64]byte {
	switch {
	case m.noChg:
		return (*[64]byte)(in)
	case m.again():
		m.in64 = *arr64(in)
		return &m.in64
	}
	return arr64(in)
}
func (m *mach) bigOf(in []byte) *big.Int {
	if m.again() {
		return m.bi.Set(bigOfLE(in))
	}
	return bigOfLE(in)
}

// scramble an argument after the call: the library must not have kept it.
func (m *mach) scramble(b []byte) {
	for i := range b {
		b[i] ^= 0x96
	}
}

// hx writes a result, and keeps it to see that no later call changes it.
func (m *mach) hx(b []byte) string {
	r := hx(b)
	if !m.noChg && len(b) > 0 {
		m.pat++
		fill(b, m.pat)
		m.held = append(m.held, held{b, m.pat})
	}
	return r
}

func hx(b []byte) string {
	r := hex.EncodeToString(b)
	for i := range b { // the caller owns the result: overwriting it must change nothing
		b[i] = 0xa5
	}
	return r
}

func b01(b bool) string {
	if b {
		return "1"
	}
	return "0"
}
func i32(v int32) string { return fmt.Sprint(v) }

func leOfBig(v *big.Int, n int) []byte {
	b := v.Bytes()
	l := len(b)
	if l < n {
		l = n
	}
	r := make([]byte, l)
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func bigOfLE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func (m *mach) exec(st Step, in []byte, ev *Event) {
	P := func(k int) *ristretto.Point { return m.p[st.A[k]] }
	S := func(k int) *ristretto.Scalar { return m.s[st.A[k]] }
	F := func(k int) *ed.FieldElement { return m.f[st.A[k]] }
	X := func(k int) *ed.ExtendedPoint { return m.x[st.A[k]] }
	C := func(k int) *ed.CompletedPoint { return m.c[st.A[k]] }
	p, s, t, f := m.p[st.R], m.s[st.R], m.t[st.R], m.f[st.R]
	x, c, j, n, u, q := m.x[st.R], m.c[st.R], m.j[st.R], m.n[st.R], m.u[st.R], m.q[st.R]
	retP := func(v *ristretto.Point) { ev.Ret = v == p }
	retS := func(v *ristretto.Scalar) { ev.Ret = v == s }
	retF := func(v *ed.FieldElement) { ev.Ret = v == f }
	retX := func(v *ed.ExtendedPoint) { ev.Ret = v == x }
	retC := func(v *ed.CompletedPoint) { ev.Ret = v == c }
	retJ := func(v *ed.ProjectivePoint) { ev.Ret = v == j }
	retN := func(v *ed.NielsPoint) { ev.Ret = v == n }
	// copyIn gives the array form of an input and puts changes back for the frame check
	a32 := func() (*[32]byte, func()) {
		if m.noChg {
			return (*[32]byte)(in), func() {}
		}
		b := m.arr32(in)
		return b, func() { copy(in, b[:]); m.scramble(b[:]) }
	}

	switch st.Op {
	// --- points
	case "PZero":
		retP(p.SetZero())
	case "PBase":
		retP(p.SetBase())
	case "PSet":
		retP(p.Set(P(0)))
	case "PAdd":
		retP(p.Add(P(0), P(1)))
	case "PSub":
		retP(p.Sub(P(0), P(1)))
	case "PNeg":
		retP(p.Neg(P(0)))
	case "PDouble":
		retP(p.Double(P(0)))
	case "PMul":
		retP(p.ScalarMult(P(0), S(1)))
	case "PPubMul":
		retP(p.PublicScalarMult(P(0), S(1)))
	case "PMulTable":
		retP(p.ScalarMultTable(m.t[st.A[0]], S(1)))
	case "PPubMulTable":
		retP(p.PublicScalarMultTable(m.t[st.A[0]], S(1)))
	case "PMulBase":
		retP(p.ScalarMultBase(S(0)))
	case "PPubMulBase":
		retP(p.PublicScalarMultBase(S(0)))
	case "TCompute":
		t.Compute(P(0))
	case "PElligator":
		b, back := a32()
		retP(p.SetElligator(b))
		back()
	case "PDerive":
		retP(p.Derive(in))
	case "PDeriveDalek":
		retP(p.DeriveDalek(in))
	case "PSetLizard":
		b := m.arr16(in)
		retP(p.SetLizard(b))
		if !m.noChg {
			copy(in, b[:])
			m.scramble(b[:])
		}
	case "PSetBytes":
		b, back := a32()
		ev.Ok = p.SetBytes(b)
		back()
	case "PUnmarshalBinary":
		ev.Ok = p.UnmarshalBinary(in) == nil
	case "PUnmarshalText":
		ev.Ok = p.UnmarshalText(in) == nil
	case "PCondSet":
		p.ConditionalSet(P(0), int32(st.N))
	case "PBytes":
		ev.Out = m.hx(P(0).Bytes())
	case "PBytesInto":
		var b [32]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		ev.Ret = P(0).BytesInto(&b) == P(0)
		ev.Out = m.hx(b[:])
	case "PMarshalBinary":
		b, err := P(0).MarshalBinary()
		ev.Out = m.hx(b)
		ev.Ok = err == nil
		if err != nil {
			ev.Out = "error"
		}
	case "PMarshalText":
		b, err := P(0).MarshalText()
		ev.Out = m.hx(b)
		if err != nil {
			ev.Out = "error"
		}
	case "PString":
		ev.Out = m.hx([]byte(P(0).String()))
	case "PEquals":
		ev.Out = b01(P(0).Equals(P(1)))
	case "PEqualsI":
		ev.Out = i32(P(0).EqualsI(P(1)))
	case "PLizard":
		b := P(0).Lizard()
		ev.Ok = b != nil
		ev.Out = m.hx(b)
	case "PLizardInto":
		var b [16]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		ev.Ok = P(0).LizardInto(&b) == nil
		ev.Out = m.hx(b[:])

	// --- scalars
	case "SLoad": // the recorder sets the limbs itself
		for i := 0; i < 8; i++ {
			s[i] = uint32(in[4*i]) | uint32(in[4*i+1])<<8 | uint32(in[4*i+2])<<16 | uint32(in[4*i+3])<<24
		}
	case "SZero":
		retS(s.SetZero())
	case "SOne":
		retS(s.SetOne())
	case "SSet":
		retS(s.Set(S(0)))
	case "SAdd":
		retS(s.Add(S(0), S(1)))
	case "SSub":
		retS(s.Sub(S(0), S(1)))
	case "SNeg":
		retS(s.Neg(S(0)))
	case "SMul":
		retS(s.Mul(S(0), S(1)))
	case "SSquare":
		retS(s.Square(S(0)))
	case "SMulAdd":
		retS(s.MulAdd(S(0), S(1), S(2)))
	case "SMulSub":
		retS(s.MulSub(S(0), S(1), S(2)))
	case "SInverse":
		retS(s.Inverse(S(0)))
	case "SSetBytes":
		b, back := a32()
		retS(s.SetBytes(b))
		back()
	case "SSetBytesStrict":
		b, back := a32()
		ev.Ok = s.SetBytesStrict(b)
		back()
	case "SSetReduced":
		b := m.arr64(in)
		retS(s.SetReduced(b))
		if !m.noChg {
			copy(in, b[:])
			m.scramble(b[:])
		}
	case "SSetBigInt":
		v := m.bigOf(in)
		if st.N < 0 {
			v.Neg(v)
		}
		w := new(big.Int).Set(v)
		retS(s.SetBigInt(v))
		if v.Cmp(w) != 0 {
			ev.Chg = append(ev.Chg, "in")
		}
	case "SSetUint64":
		retS(s.SetUint64(bigOfLE(in).Uint64()))
	case "SDerive":
		retS(s.Derive(in))
	case "SDeriveShort":
		retS(s.DeriveShort(in))
	case "SCondSet":
		s.ConditionalSet(S(0), int32(st.N))
	case "SUnmarshalBinary":
		ev.Ok = s.UnmarshalBinary(in) == nil
	case "SUnmarshalText":
		ev.Ok = s.UnmarshalText(in) == nil
	case "SBytes":
		ev.Out = m.hx(S(0).Bytes())
	case "SBytesInto":
		var b [32]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		ev.Ret = S(0).BytesInto(&b) == S(0)
		ev.Out = m.hx(b[:])
	case "SMarshalBinary":
		b, err := S(0).MarshalBinary()
		ev.Out = m.hx(b)
		if err != nil {
			ev.Out = "error"
		}
	case "SBigInt":
		v := S(0).BigInt()
		if v.Sign() < 0 {
			ev.Out = "negative"
		} else {
			ev.Out = hex.EncodeToString(leOfBig(v, 32))
		}
		v.SetInt64(-5)
	case "SMarshalText":
		b, err := S(0).MarshalText()
		ev.Out = m.hx(b)
		if err != nil {
			ev.Out = "error"
		}
	case "SString":
		ev.Out = m.hx([]byte(S(0).String()))
	case "SEquals":
		ev.Out = b01(S(0).Equals(S(1)))
	case "SEqualsI":
		ev.Out = i32(S(0).EqualsI(S(1)))
	case "SIsNonZeroI":
		ev.Out = i32(S(0).IsNonZeroI())

	// --- the field
	case "FLoad", "FSetBytes":
		b, back := a32()
		retF(f.SetBytes(b))
		back()
	case "FZero":
		retF(f.SetZero())
	case "FOne":
		retF(f.SetOne())
	case "FI":
		retF(f.SetI())
	case "FSet":
		retF(f.Set(F(0)))
	case "FAdd":
		retF(f.Add(F(0), F(1)))
	case "FSub":
		retF(f.Sub(F(0), F(1)))
	case "FNeg":
		retF(f.Neg(F(0)))
	case "FMul":
		retF(f.Mul(F(0), F(1)))
	case "FSquare":
		retF(f.Square(F(0)))
	case "FDoubledSquare":
		retF(f.DoubledSquare(F(0)))
	case "FInverse":
		retF(f.Inverse(F(0)))
	case "FExp22523":
		retF(f.Exp22523(F(0)))
	case "FSqrt":
		retF(f.Sqrt(F(0)))
	case "FInvSqrt":
		retF(f.InvSqrt(F(0)))
	case "FInvSqrtI":
		ev.Out = i32(f.InvSqrtI(F(0)))
	case "FAbs":
		retF(f.Abs(F(0)))
	case "FCondSet":
		f.ConditionalSet(F(0), int32(st.N))
	case "FSetBigInt":
		v := m.bigOf(in)
		if st.N < 0 {
			v.Neg(v)
		}
		w := new(big.Int).Set(v)
		retF(f.SetBigInt(v))
		if v.Cmp(w) != 0 {
			ev.Chg = append(ev.Chg, "in")
		}
	case "FLoosen":
		loosen(f, st.N)
	case "FBytes":
		b := F(0).Bytes()
		ev.Out = m.hx(b[:])
	case "FBytesInto":
		var b [32]byte
		for i := range b {
			b[i] = byte(st.N)
		}
		ev.Ret = F(0).BytesInto(&b) == F(0)
		ev.Out = m.hx(b[:])
	case "FBigInt":
		v := F(0).BigInt()
		ev.Out = hex.EncodeToString(leOfBig(v, 32))
		v.SetInt64(-5)
	case "FString": // the decimal number it writes
		s := F(0).String()
		if v, ok := new(big.Int).SetString(s, 10); ok && v.Sign() >= 0 && v.String() == s {
			ev.Out = hex.EncodeToString(leOfBig(v, 32))
		} else {
			ev.Out = "not decimal"
		}
	case "FIsNegativeI":
		ev.Out = i32(F(0).IsNegativeI())
	case "FIsNonZeroI":
		ev.Out = i32(F(0).IsNonZeroI())
	case "FIsOneI":
		ev.Out = i32(F(0).IsOneI())
	case "FEqualsI":
		ev.Out = i32(F(0).EqualsI(F(1)))
	case "FEquals":
		ev.Out = b01(F(0).Equals(F(1)))

	// --- the curve
	case "XLoad":
		var t FEs
		t.x.SetBytes(arr32(in[:32]))
		t.y.SetBytes(arr32(in[32:]))
		x.X.Set(&t.x)
		x.Y.Set(&t.y)
		x.Z.SetOne()
		x.T.Mul(&t.x, &t.y)
	case "XZero":
		retX(x.SetZero())
	case "XBase":
		retX(x.SetBase())
	case "XTorsion1":
		retX(x.SetTorsion1())
	case "XTorsion2":
		retX(x.SetTorsion2())
	case "XTorsion3":
		retX(x.SetTorsion3())
	case "XSet":
		retX(x.Set(X(0)))
	case "XAdd":
		retX(x.Add(X(0), X(1)))
	case "XSub":
		retX(x.Sub(X(0), X(1)))
	case "XDouble":
		retX(x.Double(X(0)))
	case "XNeg":
		retX(x.Neg(X(0)))
	case "XSetCompleted":
		retX(x.SetCompleted(C(0)))
	case "XMul":
		b, back := a32()
		retX(x.ScalarMult(X(0), b))
		back()
	case "XVarMul":
		b, back := a32()
		retX(x.VarTimeScalarMult(X(0), b))
		back()
	case "XTMul":
		b, back := a32()
		m.u[st.A[0]].ScalarMult(x, b)
		back()
	case "XTVarMul":
		b, back := a32()
		m.u[st.A[0]].VarTimeScalarMult(x, b)
		back()
	case "XBaseMul":
		b, back := a32()
		ed.BaseScalarMultTable.ScalarMult(x, b)
		back()
	case "XBaseVarMul":
		b, back := a32()
		ed.BaseScalarMultTable.VarTimeScalarMult(x, b)
		back()
	case "XCondSet":
		retX(x.ConditionalSet(X(0), int32(st.N)))
	case "XSetRistretto":
		b, back := a32()
		ev.Ok = x.SetRistretto(b)
		back()
	case "UCompute":
		u.Compute(X(0))
	case "CAdd":
		retC(c.AddExtended(X(0), X(1)))
	case "CSub":
		retC(c.SubExtended(X(0), X(1)))
	case "CDoubleX":
		retC(c.DoubleExtended(X(0)))
	case "CDouble":
		retC(c.DoubleProjective(m.j[st.A[0]]))
	case "CAddNiels":
		retC(c.AddExtendedNiels(X(0), m.n[st.A[1]]))
	case "CSubNiels":
		retC(c.SubExtendedNiels(X(0), m.n[st.A[1]]))
	case "CQuartic":
		retC(c.SetJacobiQuartic(m.q[st.A[0]]))
	case "CElligator":
		retC(c.SetRistrettoElligator2(F(0)))
	case "JZero":
		retJ(j.SetZero())
	case "JSetExtended":
		retJ(j.SetExtended(X(0)))
	case "JSetCompleted":
		retJ(j.SetCompleted(C(0)))
	case "NZero":
		retN(n.SetZero())
	case "NSet":
		retN(n.Set(m.n[st.A[0]]))
	case "NNeg":
		retN(n.Neg(m.n[st.A[0]]))
	case "NSetExtended":
		retN(n.SetExtended(X(0)))
	case "NCondSet":
		retN(n.ConditionalSet(m.n[st.A[0]], int32(st.N)))
	case "QLoad":
		q.S.SetBytes(arr32(in[:32]))
		q.T.SetBytes(arr32(in[32:]))
	case "QDual":
		ev.Ret = q.Dual(m.q[st.A[0]]) == q
	case "XRistretto":
		ev.Out = m.hx(X(0).Ristretto())
	case "XRistrettoInto":
		var b [32]byte
		ev.Ret = X(0).RistrettoInto(&b) == X(0)
		ev.Out = m.hx(b[:])
	case "XRistrettoEqualsI":
		ev.Out = i32(X(0).RistrettoEqualsI(X(1)))
	case "XToQuartic":
		var qs [4]ed.JacobiPoint
		ev.Ret = X(0).ToJacobiQuarticRistretto(&qs) == X(0)
		for k := range qs {
			ev.Rv = append(ev.Rv, feHex(&qs[k].S), feHex(&qs[k].T))
		}
	case "XElligatorInverse":
		var fs [8]ed.FieldElement
		mask := X(0).RistrettoElligator2Inverse(&fs)
		if leakStop != nil {
			leakStop()
		}
		for k := range fs {
			if (mask>>uint(k))&1 == 1 {
				ev.Rv = append(ev.Rv, feHex(&fs[k]))
			}
		}

	case "XString":
		written(ev, X(0).String(), "ExtendedPoint", 4, true)
	case "CString":
		written(ev, C(0).String(), "CompletedPoint", 4, true)
	case "QString":
		written(ev, m.q[st.A[0]].String(), "JacobiPoint", 2, false)

	case "PRerand":
		rerand(&p.X, &p.Y, &p.Z, &p.T, in, st.N, true)
	case "XRerand":
		rerand(&x.X, &x.Y, &x.Z, &x.T, in, st.N, false)
	default:
		fmt.Fprintln(os.Stderr, "unknown operation", st.Op)
		os.Exit(3)
	}
}

// written reads a point as String writes it: Name(X, Y, ...; encoding).
func written(ev *Event, s, name string, n int, enc bool) {
	ev.Out = "malformed"
	s, ok := strings.CutPrefix(s, name+"(")
	s, ok2 := strings.CutSuffix(s, ")")
	if !ok || !ok2 {
		return
	}
	out := ""
	if enc {
		if s, out, ok = strings.Cut(s, "; "); !ok {
			return
		}
	}
	f := strings.Split(s, ", ")
	if len(f) != n {
		return
	}
	for _, d := range f {
		v, ok := new(big.Int).SetString(d, 10)
		if !ok || v.Sign() < 0 || v.BitLen() > 256 || v.String() != d {
			ev.Rv = []string{}
			return
		}
		ev.Rv = append(ev.Rv, hex.EncodeToString(leOfBig(v, 32)))
	}
	ev.Out = out
}

// FEs is a pair of field elements.
type FEs struct{ x, y ed.FieldElement }

// rerand gives a point another representation of the same group element:
// scaled by the field element in, moved by the 4-torsion point n&3 (only where
// cosets are compared), and with bit 2 of n with X and T in an unreduced form
// as the library's own Neg leaves them.
func rerand(X, Y, Z, T *ed.FieldElement, in []byte, n int, torsion bool) {
	var l, i ed.FieldElement
	l.SetBytes(arr32(in))
	if torsion {
		i.SetI()
		if n&1 != 0 { // + (i, 0): (x, y) -> (i y, i x), xy -> -xy
			var t ed.FieldElement
			t.Mul(X, &i)
			X.Mul(Y, &i)
			Y.Set(&t)
			T.Neg(T)
		}
		if n&2 != 0 { // + (0, -1): (x, y) -> (-x, -y)
			X.Neg(X)
			Y.Neg(Y)
		}
	}
	X.Mul(X, &l)
	Y.Mul(Y, &l)
	Z.Mul(Z, &l)
	T.Mul(T, &l)
	if n&4 != 0 {
		loosen(X, 0)
		loosen(T, 0)
	}
}

// loosen changes the limbs of f, not its value, by means of exported operations.
func loosen(f *ed.FieldElement, how int) {
	switch how {
	case 0: // -(-f)
		f.Neg(f)
		f.Neg(f)
	case 1: // f+1-1 by way of 1 + s^2 and 1 - s^2 of the quartic map, where f-1 is a square
		var t, one, s ed.FieldElement
		one.SetOne()
		t.Sub(f, &one)
		s.Sqrt(&t)
		var q ed.JacobiPoint
		q.S.Set(&s)
		q.T.SetOne()
		var c ed.CompletedPoint
		c.SetJacobiQuartic(&q)
		if c.T.EqualsI(f) == 1 {
			f.Set(&c.T) // 1 + s^2
			return
		}
		c.Y.Neg(&c.Y) // s^2 - 1
		if c.Y.EqualsI(f) == 1 {
			f.Set(&c.Y)
		}
	case 2, 3: // as a coordinate of a completed point: f = a+b or a-b, unreduced
		var x ed.ExtendedPoint
		var n ed.NielsPoint
		var c ed.CompletedPoint
		var half, one, t, k ed.FieldElement
		one.SetOne()
		half.Add(&one, &one)
		half.Inverse(&half)
		t.Mul(f, &half)
		// CompletedPoint.AddExtendedNiels: Z = 2 Z1 + XY2D T1, T = 2 Z1 - XY2D T1
		x.X.SetZero()
		x.Y.SetOne()
		n.YPlusX.SetOne()
		n.YMinusX.SetOne()
		n.XY2D.SetI()
		x.T.Mul(&n.XY2D, f)
		k.Mul(&n.XY2D, &x.T)
		k.Mul(&k, &half)
		if how == 2 {
			x.Z.Sub(&t, &k)
		} else {
			x.Z.Add(&t, &k)
		}
		c.AddExtendedNiels(&x, &n)
		if how == 2 {
			f.Set(&c.Z)
		} else {
			f.Set(&c.T)
		}
	}
}
