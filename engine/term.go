package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Sort of a term. SInt is a mathematical integer with a tracked interval: machine
// words are represented by it with explicit wrap-around (OWrapS/OWrapU).
type Sort uint8

const (
	SBool Sort = iota
	SInt
	SF64
	SF32
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // Int or Bool
	OLt
	OLe
	OAdd
	OSub
	OMul
	OFDivK // floor division by positive constant k
	OModK  // floor modulus by positive constant k
	OTDiv  // truncated division (Go), divisor known non-zero on the path
	OTRem
	OWrapS // two's complement wrap to k bits
	OWrapU
	OBand
	OBor
	OBxor
	// IEEE floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFSqrt
	OFNeg
	OFAbs
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OFToF32
	OFToF64
	OFFromInt // signed int -> float of the term's sort
	OFToInt   // trunc toward zero, in range of int64
	OFSame    // bit-level (structural) equality, NaN = NaN
	OFRTI     // round to integral, k = mode (0 floor,1 ceil,2 trunc)
	OISqrt    // floor of the square root of a non-negative Int
	OFBits    // IEEE bit pattern (unsigned)
	OFFromBits
	OFDivG  // floor division, symbolic positive divisor
	OFSign  // sign bit
	OPos    // identity, argument known to be >= 1 on the path
	ONonneg // identity, argument known to be >= 0 on the path
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OLt: "<", OLe: "<=", OAdd: "+", OSub: "-", OMul: "*"}

type Term struct {
	id     int
	op     Op
	sort   Sort
	args   []*Term
	k      *big.Int // constant / parameter
	f      float64  // FP constant
	b      bool     // Bool constant
	name   string
	lo, hi *big.Int
	nl     bool    // contains non-linear multiplication
	fp     bool    // contains FP
	bits   bool    // contains bit operations
	vars   []*Term // sorted set of variables (shared slices)
	size   int
	tzc    int
}

type Store struct {
	tab      map[string]*Term
	next     int
	tt, ff   *Term
	smallInt map[int64]*Term
}

func NewStore() *Store {
	s := &Store{tab: map[string]*Term{}, smallInt: map[int64]*Term{}}
	s.tt = s.mk(&Term{op: OConst, sort: SBool, b: true})
	s.ff = s.mk(&Term{op: OConst, sort: SBool, b: false})
	return s
}

func (s *Store) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op) + 1)
	sb.WriteByte(byte(t.sort) + 1)
	for _, a := range t.args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	if t.k != nil {
		sb.WriteByte('k')
		sb.WriteString(t.k.Text(62))
	}
	if t.op == OConst {
		if t.sort == SBool {
			if t.b {
				sb.WriteByte('T')
			} else {
				sb.WriteByte('F')
			}
		} else if t.sort == SF64 || t.sort == SF32 {
			bits := math.Float64bits(t.f)
			if math.IsNaN(t.f) {
				bits = 0x7ff8000000000001
			}
			sb.WriteString(strconv.FormatUint(bits, 36))
		}
	}
	if t.op == OVar {
		sb.WriteByte('v')
		sb.WriteString(t.name)
		if t.lo != nil {
			sb.WriteString("|" + t.lo.String() + "|" + t.hi.String())
		}
	}
	key := sb.String()
	if o, ok := s.tab[key]; ok {
		return o
	}
	t.id = s.next
	s.next++
	t.tzc = -1
	t.size = 1
	for _, a := range t.args {
		t.nl = t.nl || a.nl
		t.fp = t.fp || a.fp
		t.bits = t.bits || a.bits
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.sort == SF64 || t.sort == SF32 {
		t.fp = true
	}
	switch t.op {
	case OMul:
		if t.args[0].op != OConst && t.args[1].op != OConst {
			t.nl = true
		}
	case OTDiv, OTRem:
		t.nl = true
		t.bits = true
	case OBand, OBor, OBxor:
		t.bits = true
	case OISqrt, OFDivG:
		t.nl = true
	}
	// variable sets
	if t.op == OVar {
		t.vars = []*Term{t}
	} else {
		var best []*Term
		for _, a := range t.args {
			best = unionVars(best, a.vars)
		}
		t.vars = best
	}
	s.tab[key] = t
	return t
}

func unionVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks while merging
	i, j := 0, 0
	out := make([]*Term, 0, len(a)+len(b))
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

var (
	big0  = big.NewInt(0)
	big1  = big.NewInt(1)
	bigm1 = big.NewInt(-1)
)

func pow2(k int) *big.Int { return new(big.Int).Lsh(big1, uint(k)) }

func (s *Store) Bool(b bool) *Term {
	if b {
		return s.tt
	}
	return s.ff
}
func (s *Store) Int(i int64) *Term {
	if t, ok := s.smallInt[i]; ok {
		return t
	}
	t := s.Big(big.NewInt(i))
	if i > -4096 && i < 4096 {
		s.smallInt[i] = t
	}
	return t
}
func (s *Store) Big(b *big.Int) *Term {
	return s.mk(&Term{op: OConst, sort: SInt, k: b, lo: b, hi: b})
}
func (s *Store) F64(f float64) *Term { return s.mk(&Term{op: OConst, sort: SF64, f: f}) }
func (s *Store) F32(f float64) *Term {
	return s.mk(&Term{op: OConst, sort: SF32, f: float64(float32(f))})
}
func (s *Store) Var(name string, sort Sort, lo, hi *big.Int) *Term {
	return s.mk(&Term{op: OVar, sort: sort, name: name, lo: lo, hi: hi})
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.b }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && !t.b }

func (s *Store) Not(a *Term) *Term {
	if a.isConst() {
		return s.Bool(!a.b)
	}
	if a.op == ONot {
		return a.args[0]
	}
	if a.op == OLt {
		return s.Le(a.args[1], a.args[0])
	}
	if a.op == OLe {
		return s.Lt(a.args[1], a.args[0])
	}
	return s.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}
func (s *Store) And(ts ...*Term) *Term { return s.nary(OAnd, ts) }
func (s *Store) Or(ts ...*Term) *Term  { return s.nary(OOr, ts) }
func (s *Store) nary(op Op, ts []*Term) *Term {
	absorb, neutral := s.ff, s.tt
	if op == OOr {
		absorb, neutral = s.tt, s.ff
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == neutral || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		if seen[s.Not(t)] {
			return false
		}
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return absorb
		}
	}
	if len(out) == 0 {
		return neutral
	}
	if len(out) == 1 {
		return out[0]
	}
	return s.mk(&Term{op: op, sort: SBool, args: out})
}
func (s *Store) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isTrue() {
			return s.Or(c, b)
		}
		if a.isFalse() {
			return s.And(s.Not(c), b)
		}
		if b.isTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.isFalse() {
			return s.And(c, a)
		}
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}
	if a.sort == SInt {
		t.lo = minB(a.lo, b.lo)
		t.hi = maxB(a.hi, b.hi)
	}
	return s.mk(t)
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func (s *Store) Eq(a, b *Term) *Term {
	if a == b {
		return s.tt
	}
	if a.sort == SBool {
		if a.isConst() {
			if a.b {
				return b
			}
			return s.Not(b)
		}
		if b.isConst() {
			return s.Eq(b, a)
		}
	} else {
		if a.hi.Cmp(b.lo) < 0 || b.hi.Cmp(a.lo) < 0 {
			return s.ff
		}
		if a.isConst() && b.isConst() {
			return s.Bool(a.k.Cmp(b.k) == 0)
		}
		// ite with constant leaves
		if b.isConst() && a.op == OIte {
			return s.iteCmp(OEq, a, b)
		}
		if a.isConst() && b.op == OIte {
			return s.iteCmp(OEq, b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

// iteCmp pushes equality with a constant into an ite when a branch is decided.
func (s *Store) iteCmp(op Op, it, c *Term) *Term {
	x, y := it.args[1], it.args[2]
	dx := x.isConst() || x.hi.Cmp(c.lo) < 0 || c.hi.Cmp(x.lo) < 0
	dy := y.isConst() || y.hi.Cmp(c.lo) < 0 || c.hi.Cmp(y.lo) < 0
	if dx || dy {
		return s.Ite(it.args[0], s.Eq(x, c), s.Eq(y, c))
	}
	a, b := it, c
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}
func (s *Store) Lt(a, b *Term) *Term {
	if a == b {
		return s.ff
	}
	if a.hi.Cmp(b.lo) < 0 {
		return s.tt
	}
	if a.lo.Cmp(b.hi) >= 0 {
		return s.ff
	}
	return s.mk(&Term{op: OLt, sort: SBool, args: []*Term{a, b}})
}
func (s *Store) Le(a, b *Term) *Term {
	if a == b {
		return s.tt
	}
	if a.hi.Cmp(b.lo) <= 0 {
		return s.tt
	}
	if a.lo.Cmp(b.hi) > 0 {
		return s.ff
	}
	return s.mk(&Term{op: OLe, sort: SBool, args: []*Term{a, b}})
}
func (s *Store) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Big(new(big.Int).Add(a.k, b.k))
	}
	if a.isConst() && a.k.Sign() == 0 {
		return b
	}
	if b.isConst() && b.k.Sign() == 0 {
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OAdd && a.args[1].isConst() {
		return s.Add(a.args[0], s.Big(new(big.Int).Add(a.args[1].k, b.k)))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return s.mk(&Term{op: OAdd, sort: SInt, args: []*Term{a, b}, lo: new(big.Int).Add(a.lo, b.lo), hi: new(big.Int).Add(a.hi, b.hi)})
}
func (s *Store) Sub(a, b *Term) *Term {
	if a == b {
		return s.Int(0)
	}
	if b.isConst() {
		return s.Add(a, s.Big(new(big.Int).Neg(b.k)))
	}
	return s.mk(&Term{op: OSub, sort: SInt, args: []*Term{a, b}, lo: new(big.Int).Sub(a.lo, b.hi), hi: new(big.Int).Sub(a.hi, b.lo)})
}
func (s *Store) Neg(a *Term) *Term { return s.Mul(s.Int(-1), a) }
func (s *Store) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Big(new(big.Int).Mul(a.k, b.k))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k.Sign() == 0 {
			return a
		}
		if a.k.Cmp(big1) == 0 {
			return b
		}
		if b.op == OMul && b.args[0].isConst() {
			return s.Mul(s.Big(new(big.Int).Mul(a.k, b.args[0].k)), b.args[1])
		}
		if a.k.Cmp(bigm1) == 0 && b.op == OSub {
			return s.Sub(b.args[1], b.args[0])
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	// pull constants out of products
	if !a.isConst() {
		if a.op == OMul && a.args[0].isConst() {
			return s.Mul(a.args[0], s.Mul(a.args[1], b))
		}
		if b.op == OMul && b.args[0].isConst() {
			return s.Mul(b.args[0], s.Mul(a, b.args[1]))
		}
	}
	p := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
	lo, hi := p[0], p[0]
	for _, x := range p[1:] {
		lo = minB(lo, x)
		hi = maxB(hi, x)
	}
	if a == b {
		// square
		if a.lo.Sign() < 0 && a.hi.Sign() > 0 {
			lo = big0
		} else {
			lo = minB(p[0], p[3])
		}
		hi = maxB(p[0], p[3])
	}
	return s.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}, lo: lo, hi: hi})
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean: b>0 => floor
	_ = m
	return q
}

func (s *Store) FDivK(a *Term, k *big.Int) *Term {
	if k.Cmp(big1) == 0 {
		return a
	}
	if a.isConst() {
		return s.Big(floorDiv(a.k, k))
	}
	lo, hi := floorDiv(a.lo, k), floorDiv(a.hi, k)
	if lo.Cmp(hi) == 0 {
		return s.Big(lo)
	}
	return s.mk(&Term{op: OFDivK, sort: SInt, args: []*Term{a}, k: k, lo: lo, hi: hi})
}
func (s *Store) ModK(a *Term, k *big.Int) *Term {
	if a.isConst() {
		return s.Big(new(big.Int).Mod(a.k, k))
	}
	if a.lo.Sign() >= 0 && a.hi.Cmp(k) < 0 {
		return a
	}
	q0, q1 := floorDiv(a.lo, k), floorDiv(a.hi, k)
	if q0.Cmp(q1) == 0 {
		return s.Sub(a, s.Big(new(big.Int).Mul(q0, k)))
	}
	return s.mk(&Term{op: OModK, sort: SInt, args: []*Term{a}, k: k, lo: big0, hi: new(big.Int).Sub(k, big1)})
}

// TDiv is Go's truncated division; the divisor must be non-zero on the path.
func (s *Store) TDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Big(new(big.Int).Quo(a.k, b.k))
	}
	if b.isConst() {
		if b.k.Sign() < 0 {
			return s.Neg(s.TDiv(a, s.Big(new(big.Int).Neg(b.k))))
		}
		if a.lo.Sign() >= 0 {
			return s.FDivK(a, b.k)
		}
		return s.Ite(s.Le(s.Int(0), a), s.FDivK(a, b.k), s.Neg(s.FDivK(s.Neg(a), b.k)))
	}
	m := maxB(new(big.Int).Abs(a.lo), new(big.Int).Abs(a.hi))
	lo, hi := new(big.Int).Neg(m), m
	if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = big0
	}
	return s.mk(&Term{op: OTDiv, sort: SInt, args: []*Term{a, b}, lo: lo, hi: hi})
}
func (s *Store) TRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Big(new(big.Int).Rem(a.k, b.k))
	}
	if b.isConst() {
		k := new(big.Int).Abs(b.k)
		if a.lo.Sign() >= 0 {
			return s.ModK(a, k)
		}
		return s.Ite(s.Le(s.Int(0), a), s.ModK(a, k), s.Neg(s.ModK(s.Neg(a), k)))
	}
	m := maxB(new(big.Int).Abs(b.lo), new(big.Int).Abs(b.hi))
	lo, hi := new(big.Int).Neg(m), m
	if a.lo.Sign() >= 0 {
		lo = big0
	}
	return s.mk(&Term{op: OTRem, sort: SInt, args: []*Term{a, b}, lo: lo, hi: hi})
}

func rangeS(w int) (lo, hi *big.Int) {
	return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), big1)
}
func rangeU(w int) (lo, hi *big.Int) { return big0, new(big.Int).Sub(pow2(w), big1) }

// Wrap reduces a to the range of a w-bit (un)signed machine integer.
func (s *Store) Wrap(a *Term, w int, signed bool) *Term {
	var lo, hi *big.Int
	if signed {
		lo, hi = rangeS(w)
	} else {
		lo, hi = rangeU(w)
	}
	if a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0 {
		return a
	}
	if a.isConst() {
		m := new(big.Int).Mod(a.k, pow2(w))
		if signed && m.Cmp(hi) > 0 {
			m.Sub(m, pow2(w))
		}
		return s.Big(m)
	}
	op := OWrapU
	if signed {
		op = OWrapS
	}
	return s.mk(&Term{op: op, sort: SInt, args: []*Term{a}, k: big.NewInt(int64(w)), lo: lo, hi: hi})
}

func (s *Store) BitOp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return s.Big(evalBit(op, a.k, b.k))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() && a.k.Sign() == 0 {
		if op == OBand {
			return a
		}
		return b
	}
	// mask 2^n-1
	if op == OBand && a.isConst() && a.k.Sign() > 0 {
		p := new(big.Int).Add(a.k, big1)
		if new(big.Int).And(p, a.k).Sign() == 0 {
			return s.ModK(b, p)
		}
	}
	w := maxI(swidth(a), swidth(b))
	lo, hi := rangeS(w)
	if a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		lo = big0
		if op == OBand {
			hi = minB(a.hi, b.hi)
		}
	} else if op == OBand && (a.lo.Sign() >= 0 || b.lo.Sign() >= 0) {
		lo = big0
		if a.lo.Sign() >= 0 {
			hi = a.hi
		} else {
			hi = b.hi
		}
	}
	return s.mk(&Term{op: op, sort: SInt, args: []*Term{a, b}, lo: lo, hi: hi})
}
func evalBit(op Op, a, b *big.Int) *big.Int {
	switch op {
	case OBand:
		return new(big.Int).And(a, b)
	case OBor:
		return new(big.Int).Or(a, b)
	}
	return new(big.Int).Xor(a, b)
}
func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// swidth: bits of the smallest signed bit-vector holding the interval.
func swidth(t *Term) int {
	n := 1
	for _, b := range []*big.Int{t.lo, t.hi} {
		w := b.BitLen() + 1
		if b.Sign() < 0 {
			// -2^k needs k+1 bits
			w = new(big.Int).Not(b).BitLen() + 1
		}
		if w > n {
			n = w
		}
	}
	return n
}

// tz: number of trailing zero bits guaranteed for an Int term.
func (t *Term) tz() int {
	if t.tzc >= 0 {
		return t.tzc
	}
	r := 0
	switch t.op {
	case OConst:
		if t.k.Sign() == 0 {
			r = 1 << 20
		} else {
			r = int(t.k.TrailingZeroBits())
		}
	case OMul:
		r = t.args[0].tz() + t.args[1].tz()
	case OAdd, OSub:
		r = minInt(t.args[0].tz(), t.args[1].tz())
	case ONonneg:
		r = t.args[0].tz()
	case OIte:
		r = minInt(t.args[1].tz(), t.args[2].tz())
	}
	if r > 1<<20 {
		r = 1 << 20
	}
	t.tzc = r
	return r
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- FP terms

func (s *Store) FP(op Op, sort Sort, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isConst() {
			all = false
		}
	}
	t := &Term{op: op, sort: sort, args: args, k: nil}
	if sort == SInt {
		t.lo, t.hi = rangeS(64)
	}
	if all {
		v := evalOp(t, constVals(args))
		return s.fromCV(v, sort)
	}
	if op == OFSame && args[0] == args[1] {
		return s.tt
	}
	if (op == OFAdd || op == OFMul || op == OFEq || op == OFSame) && args[0].id > args[1].id {
		t.args = []*Term{args[1], args[0]}
	}
	return s.mk(t)
}
func (s *Store) FPK(op Op, sort Sort, k int64, args ...*Term) *Term {
	t := &Term{op: op, sort: sort, args: args, k: big.NewInt(k)}
	if args[0].isConst() {
		return s.fromCV(evalOp(t, constVals(args)), sort)
	}
	return s.mk(t)
}

type CV struct {
	b bool
	i *big.Int
	f float64
}

func (s *Store) fromCV(v CV, sort Sort) *Term {
	switch sort {
	case SBool:
		return s.Bool(v.b)
	case SInt:
		return s.Big(v.i)
	case SF64:
		return s.F64(v.f)
	}
	return s.F32(v.f)
}
func constVals(args []*Term) []CV {
	out := make([]CV, len(args))
	for i, a := range args {
		out[i] = CV{b: a.b, i: a.k, f: a.f}
	}
	return out
}

func rnd(sort Sort, f float64) float64 {
	if sort == SF32 {
		return float64(float32(f))
	}
	return f
}

func evalOp(t *Term, a []CV) CV {
	switch t.op {
	case ONot:
		return CV{b: !a[0].b}
	case OAnd:
		for _, x := range a {
			if !x.b {
				return CV{b: false}
			}
		}
		return CV{b: true}
	case OOr:
		for _, x := range a {
			if x.b {
				return CV{b: true}
			}
		}
		return CV{b: false}
	case OIte:
		if a[0].b {
			return a[1]
		}
		return a[2]
	case OEq:
		if t.args[0].sort == SBool {
			return CV{b: a[0].b == a[1].b}
		}
		return CV{b: a[0].i.Cmp(a[1].i) == 0}
	case OLt:
		return CV{b: a[0].i.Cmp(a[1].i) < 0}
	case OLe:
		return CV{b: a[0].i.Cmp(a[1].i) <= 0}
	case OAdd:
		return CV{i: new(big.Int).Add(a[0].i, a[1].i)}
	case OSub:
		return CV{i: new(big.Int).Sub(a[0].i, a[1].i)}
	case OMul:
		return CV{i: new(big.Int).Mul(a[0].i, a[1].i)}
	case OFDivK:
		return CV{i: floorDiv(a[0].i, t.k)}
	case OModK:
		return CV{i: new(big.Int).Mod(a[0].i, t.k)}
	case OTDiv:
		if a[1].i.Sign() == 0 {
			return CV{i: big0}
		}
		return CV{i: new(big.Int).Quo(a[0].i, a[1].i)}
	case OTRem:
		if a[1].i.Sign() == 0 {
			return CV{i: big0}
		}
		return CV{i: new(big.Int).Rem(a[0].i, a[1].i)}
	case OWrapS, OWrapU:
		w := int(t.k.Int64())
		m := new(big.Int).Mod(a[0].i, pow2(w))
		if t.op == OWrapS && m.Cmp(pow2(w-1)) >= 0 {
			m.Sub(m, pow2(w))
		}
		return CV{i: m}
	case OBand, OBor, OBxor:
		return CV{i: evalBit(t.op, a[0].i, a[1].i)}
	case OFAdd:
		return CV{f: rnd(t.sort, a[0].f+a[1].f)}
	case OFSub:
		return CV{f: rnd(t.sort, a[0].f-a[1].f)}
	case OFMul:
		return CV{f: rnd(t.sort, a[0].f*a[1].f)}
	case OFDiv:
		return CV{f: rnd(t.sort, a[0].f/a[1].f)}
	case OFSqrt:
		return CV{f: rnd(t.sort, math.Sqrt(a[0].f))}
	case OFNeg:
		return CV{f: -a[0].f}
	case OFAbs:
		return CV{f: math.Abs(a[0].f)}
	case OFEq:
		return CV{b: a[0].f == a[1].f}
	case OFLt:
		return CV{b: a[0].f < a[1].f}
	case OFLe:
		return CV{b: a[0].f <= a[1].f}
	case OFSame:
		return CV{b: math.Float64bits(a[0].f) == math.Float64bits(a[1].f) || (math.IsNaN(a[0].f) && math.IsNaN(a[1].f))}
	case OFIsNaN:
		return CV{b: math.IsNaN(a[0].f)}
	case OFIsInf:
		return CV{b: math.IsInf(a[0].f, 0)}
	case OFToF32:
		return CV{f: float64(float32(a[0].f))}
	case OFToF64:
		return CV{f: a[0].f}
	case OFFromInt:
		bf := new(big.Float).SetInt(a[0].i)
		if t.sort == SF32 {
			f, _ := bf.Float32()
			return CV{f: float64(f)}
		}
		f, _ := bf.Float64()
		return CV{f: f}
	case OFToInt:
		if math.IsNaN(a[0].f) || math.Abs(a[0].f) >= 9.3e18 {
			return CV{i: new(big.Int).Neg(pow2(63))}
		}
		bi, _ := new(big.Float).SetFloat64(a[0].f).Int(nil)
		return CV{i: bi}
	case OPos:
		return CV{i: maxB(a[0].i, big1)}
	case ONonneg:
		return CV{i: maxB(a[0].i, big0)}
	case OISqrt:
		if a[0].i.Sign() < 0 {
			return CV{i: big0}
		}
		return CV{i: new(big.Int).Sqrt(a[0].i)}
	case OFDivG:
		if a[1].i.Sign() <= 0 {
			return CV{i: big0}
		}
		return CV{i: floorDiv(a[0].i, a[1].i)}
	case OFSign:
		return CV{b: math.Signbit(a[0].f)}
	case OFBits:
		if t.args[0].sort == SF32 {
			return CV{i: new(big.Int).SetUint64(uint64(math.Float32bits(float32(a[0].f))))}
		}
		return CV{i: new(big.Int).SetUint64(math.Float64bits(a[0].f))}
	case OFFromBits:
		if t.sort == SF32 {
			return CV{f: float64(math.Float32frombits(uint32(a[0].i.Uint64())))}
		}
		return CV{f: math.Float64frombits(a[0].i.Uint64())}
	case OFRTI:
		switch t.k.Int64() {
		case 0:
			return CV{f: math.Floor(a[0].f)}
		case 1:
			return CV{f: math.Ceil(a[0].f)}
		}
		return CV{f: math.Trunc(a[0].f)}
	}
	panic(fmt.Sprint("evalOp ", t.op))
}

// Model assigns values to variables by name; missing variables take a default.
type Model map[string]CV

func defaultCV(t *Term) CV {
	if t.sort == SInt {
		if t.lo.Sign() > 0 {
			return CV{i: t.lo}
		}
		if t.hi.Sign() < 0 {
			return CV{i: t.hi}
		}
		return CV{i: big0}
	}
	return CV{}
}

func (m Model) eval(t *Term, memo map[*Term]CV) CV {
	switch t.op {
	case OConst:
		return CV{b: t.b, i: t.k, f: t.f}
	case OVar:
		if v, ok := m[t.name]; ok {
			return v
		}
		return defaultCV(t)
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var v CV
	switch t.op {
	case OIte:
		if m.eval(t.args[0], memo).b {
			v = m.eval(t.args[1], memo)
		} else {
			v = m.eval(t.args[2], memo)
		}
	default:
		args := make([]CV, len(t.args))
		for i, a := range t.args {
			args[i] = m.eval(a, memo)
		}
		v = evalOp(t, args)
	}
	memo[t] = v
	return v
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			return fmt.Sprint(t.b)
		case SInt:
			return t.k.String()
		}
		return fmt.Sprint(t.f)
	case OVar:
		return t.name
	}
	if t.size > 200 {
		return fmt.Sprintf("<term %d size %d>", t.id, t.size)
	}
	n := opNames[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d", t.op)
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	if t.k != nil {
		sb.WriteString("_" + t.k.String())
	}
	for _, a := range t.args {
		sb.WriteString(" " + a.String())
	}
	return sb.String() + ")"
}

// ISqrt is the integer square root of a term known to be non-negative.
func (s *Store) ISqrt(a *Term) *Term {
	lo, hi := maxB(a.lo, big0), maxB(a.hi, big0)
	if a.isConst() {
		return s.Big(new(big.Int).Sqrt(lo))
	}
	return s.mk(&Term{op: OISqrt, sort: SInt, args: []*Term{a}, lo: new(big.Int).Sqrt(lo), hi: new(big.Int).Sqrt(hi)})
}

// FDiv is floor division by a term known to be positive.
func (s *Store) FDiv(a, b *Term) *Term {
	if b.isConst() {
		return s.FDivK(a, b.k)
	}
	bl := maxB(b.lo, big1)
	bh := maxB(b.hi, big1)
	c := []*big.Int{floorDiv(a.lo, bl), floorDiv(a.lo, bh), floorDiv(a.hi, bl), floorDiv(a.hi, bh)}
	lo, hi := c[0], c[0]
	for _, x := range c[1:] {
		lo, hi = minB(lo, x), maxB(hi, x)
	}
	if lo.Cmp(hi) == 0 {
		return s.Big(lo)
	}
	return s.mk(&Term{op: OFDivG, sort: SInt, args: []*Term{a, b}, lo: lo, hi: hi})
}

func (s *Store) FBits(a *Term) *Term {
	if a.op == OFFromBits {
		return a.args[0]
	}
	w := 64
	if a.sort == SF32 {
		w = 32
	}
	if a.isConst() {
		return s.Big(evalOp(&Term{op: OFBits, args: []*Term{a}}, constVals([]*Term{a})).i)
	}
	lo, hi := rangeU(w)
	return s.mk(&Term{op: OFBits, sort: SInt, args: []*Term{a}, lo: lo, hi: hi})
}
func (s *Store) FFromBits(a *Term, sort Sort) *Term {
	if a.op == OFBits && a.args[0].sort == sort {
		return a.args[0]
	}
	return s.FP(OFFromBits, sort, a)
}
