package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// XF abstracts one float64 value f computed by the program: the real number
//
//	v = n * sqrt(root) * 2^e / (dk * prod(den))
//
// together with a bound |f - v| <= err derived from the IEEE-754 rounding of every
// operation that produced it (err = 0: f is exactly v). root, dk, den are positive.
type XF struct {
	id   int
	n    *Term
	e    int
	den  []*Term
	dk   *big.Int
	root *Term
	err  float64
	mag  float64 // upper bound of |v|
	pure bool    // correctly rounded square root of an exact value
	rel  float64 // |f - v| <= rel*|v|; negative: no such bound is known
	op   byte    // the operation that produced it, for the value-dependent error bound
	a, b *XF
	es   *XF     // value-dependent error bound (see esym), once computed
	ms   *XF     // value-dependent magnitude bound (see msym), once computed
	cap  float64 // a magnitude bound known from the operands, if positive
	lob  float64 // bounds of the computed float f, if hasB
	hib  float64
	hasB bool
}

// bounds returns known bounds of the computed float.
func (x *XF) bounds() (lo, hi float64) {
	if x.hasB {
		return x.lob, x.hib
	}
	return math.Inf(-1), math.Inf(1)
}

func (x *XF) bound2(lo, hi float64) {
	l, h := x.bounds()
	x.lob, x.hib, x.hasB = math.Max(l, lo), math.Min(h, hi), true
}

type xfStore struct {
	tab  map[string]*XF
	next int
}

func newXfStore() *xfStore { return &xfStore{tab: map[string]*XF{}} }

func bigToF(b *big.Int) float64 {
	f, _ := new(big.Float).SetInt(b).Float64()
	return f
}
func absMax(t *Term) float64 {
	return math.Max(math.Abs(bigToF(t.lo)), math.Abs(bigToF(t.hi))) * (1 + 1e-15)
}

// magnitude bound of the represented real
func (x *XF) bound() float64 {
	m := absMax(x.n)
	if x.root != nil {
		m *= math.Sqrt(absMax(x.root)) * (1 + 1e-15)
	}
	if x.dk != nil {
		m /= bigToF(x.dk)
	}
	for _, d := range x.den {
		if l := bigToF(d.lo); l > 1 {
			m /= l
		}
	}
	return math.Ldexp(m*(1+1e-12), x.e)
}

// smallest non-zero magnitude (when the numerator is known to be non-zero)
func (x *XF) minNonZero() float64 {
	m := 1.0
	if x.n.lo.Sign() > 0 {
		m = bigToF(x.n.lo)
	} else if x.n.hi.Sign() < 0 {
		m = -bigToF(x.n.hi)
	} else if z := x.n.tz(); z > 0 && z < 2000 {
		m = math.Ldexp(1, z)
	}
	if x.root != nil {
		m *= math.Sqrt(math.Max(1, bigToF(x.root.lo)))
	}
	if x.dk != nil {
		m /= bigToF(x.dk)
	}
	for _, d := range x.den {
		m /= absMax(d)
	}
	return math.Ldexp(m*(1-1e-12), x.e)
}

func halfUlp(m float64) float64 {
	if m == 0 {
		return 0
	}
	if math.IsInf(m, 0) || math.IsNaN(m) {
		return math.Inf(1)
	}
	return math.Ldexp(1, math.Ilogb(m)-53)
}

func (p *Path) xkey(op string, ids ...int) string {
	var sb strings.Builder
	sb.WriteString(op)
	for _, i := range ids {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(i))
	}
	return sb.String()
}

// xmk finishes an XF: normalises, adds the rounding error of the producing operation
// (unless exactOp), interns it. Returns float64 for exact constants.
func (p *Path) xmk(key string, x *XF, errIn float64, exactOp bool) Value {
	w := p.w
	if o, ok := w.xf.tab[key]; ok {
		return p.xout(o)
	}
	if x.dk != nil && x.dk.Cmp(big1) == 0 {
		x.dk = nil
	}
	x.n = w.solver.canon(x.n)
	// cancel a numerator that is itself a denominator factor
	x.cancel(w.st)
	if x.n.isConst() && x.n.k.Sign() == 0 {
		x.den, x.dk, x.root, x.e = nil, nil, nil, 0
	}
	if z := x.n.tz(); x.n.isConst() && z > 0 && z < 1<<19 {
		x.n = w.st.Big(new(big.Int).Rsh(x.n.k, uint(z)))
		x.e += z
	}
	x.mag = x.bound()
	if x.cap > 0 && x.cap < x.mag {
		x.mag = x.cap
	}
	x.err = errIn
	if !exactOp {
		exact := false
		if errIn == 0 && len(x.den) == 0 && x.dk == nil && x.root == nil {
			m := maxB(new(big.Int).Abs(x.n.lo), new(big.Int).Abs(x.n.hi))
			tz := x.n.tz()
			if tz < 1<<19 {
				m = new(big.Int).Rsh(m, uint(tz))
			}
			exact = m.Cmp(pow2(53)) <= 0
		}
		if !exact {
			x.err = (errIn + halfUlp(x.mag+errIn)) * (1 + 1e-12)
			if x.rel >= 0 {
				x.rel = (x.rel + math.Ldexp(1, -53)) * (1 + 1e-12)
			}
		}
	}
	switch {
	case x.err == 0:
		x.rel = 0
	case x.rel >= 0:
		if math.IsInf(x.err, 0) || math.IsNaN(x.err) || x.mag > math.MaxFloat64/4 || x.minNonZero() < math.Ldexp(1, -1020) || x.rel > 1e-3 {
			x.rel = -1 // overflow or underflow is possible
		} else if r := x.rel * x.mag * (1 + 1e-12); r < x.err {
			x.err = r
		}
	}
	if x.n.hi.BitLen() > 6000 || x.n.lo.BitLen() > 6000 {
		panic(unsupported("float term too large"))
	}
	x.id = w.xf.next
	w.xf.next++
	w.xf.tab[key] = x
	return p.xout(x)
}
func (p *Path) xout(x *XF) Value {
	if x.err == 0 && x.root == nil && len(x.den) == 0 && x.dk == nil && x.n.isConst() {
		f, acc := new(big.Float).SetMantExp(new(big.Float).SetInt(x.n.k), x.e).Float64()
		if acc == big.Exact {
			return f
		}
	}
	return x
}

// strip removes wrappers that are identities on the current path.
func strip(t *Term) *Term {
	for t.op == OPos || t.op == ONonneg {
		t = t.args[0]
	}
	return t
}

// divOut divides the product n by the factor d when d occurs in it.
func (st *Store) divOut(n, d *Term) (*Term, bool) {
	if strip(n) == strip(d) {
		return st.Int(1), true
	}
	if n.op == OMul {
		if q, ok := st.divOut(n.args[0], d); ok {
			return st.Mul(q, n.args[1]), true
		}
		if q, ok := st.divOut(n.args[1], d); ok {
			return st.Mul(n.args[0], q), true
		}
	}
	if n.op == OIte {
		if q, ok := st.divOut(n.args[1], d); ok {
			if r, ok := st.divOut(n.args[2], d); ok {
				return st.Ite(n.args[0], q, r), true
			}
		}
	}
	return nil, false
}

func (x *XF) cancel(st *Store) {
	for again := len(x.den) > 0; again; {
		again = false
		for i, d := range x.den {
			q, ok := st.divOut(x.n, d)
			if !ok {
				continue
			}
			x.n = q
			x.den = append(append([]*Term{}, x.den[:i]...), x.den[i+1:]...)
			again = true
			break
		}
	}
}

// toXF views a float value as an XF.
func (p *Path) toXF(v Value) *XF {
	switch v := v.(type) {
	case *XF:
		return v
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			panic(fmt.Sprint("toXF of ", v))
		}
		key := "c" + strconv.FormatUint(math.Float64bits(v+0), 36)
		if v == 0 {
			key = "c0"
		}
		if o, ok := p.w.xf.tab[key]; ok {
			return o
		}
		x := &XF{n: p.w.st.Int(0)}
		if v != 0 {
			fr, ex := math.Frexp(v)
			m := big.NewInt(int64(fr * (1 << 53)))
			ex -= 53
			z := m.TrailingZeroBits()
			x.n = p.w.st.Big(new(big.Int).Rsh(m, z))
			x.e = ex + int(z)
		}
		x.mag = math.Abs(v)
		x.id = p.w.xf.next
		p.w.xf.next++
		p.w.xf.tab[key] = x
		return x
	}
	panic(unsupported(fmt.Sprintf("toXF %T", v)))
}

func (p *Path) xFromInt(t *Term) Value {
	key := "i" + strconv.Itoa(t.id)
	return p.xmk(key, &XF{n: t}, 0, false)
}

func isPow2(v Value) bool {
	f, ok := v.(float64)
	if !ok || f == 0 || math.IsInf(f, 0) || math.IsNaN(f) {
		return false
	}
	fr, _ := math.Frexp(math.Abs(f))
	return fr == 0.5
}
func isSpecial(v Value) bool {
	f, ok := v.(float64)
	return ok && (math.IsInf(f, 0) || math.IsNaN(f))
}

// xspecial handles operations in which one operand is a concrete infinity or NaN.
func (p *Path) xspecial(op Op, a, b Value) Value {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	if oka && math.IsNaN(fa) || okb && math.IsNaN(fb) {
		return math.NaN()
	}
	switch op {
	case OFAdd, OFSub:
		if oka && math.IsInf(fa, 0) {
			return fa
		}
		if op == OFSub {
			return -fb
		}
		return fb
	case OFMul:
		inf, x := fa, b
		if !(oka && math.IsInf(fa, 0)) {
			inf, x = fb, a
		}
		s := p.xsign(x)
		if s == 0 {
			return math.NaN()
		}
		return inf * float64(s)
	case OFDiv:
		if oka && math.IsInf(fa, 0) {
			s := p.xsign(b)
			if s < 0 {
				return -fa
			}
			return fa
		}
		return 0.0
	}
	panic("xspecial")
}

// xsign decides the sign of a value by branching.
func (p *Path) xsign(v Value) int {
	if f, ok := v.(float64); ok {
		switch {
		case f > 0:
			return 1
		case f < 0:
			return -1
		}
		return 0
	}
	lt, gt := p.xcmp(v, 0.0)
	if p.branch(gt) {
		return 1
	}
	if p.branch(lt) {
		return -1
	}
	return 0
}

func lcmDen(a, b []*Term) (l, fa, fb []*Term) {
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].id < b[j].id:
			l = append(l, a[i])
			fb = append(fb, a[i])
			i++
		case i >= len(a) || b[j].id < a[i].id:
			l = append(l, b[j])
			fa = append(fa, b[j])
			j++
		default:
			l = append(l, a[i])
			i++
			j++
		}
	}
	return
}
func (p *Path) prod(t *Term, fs []*Term) *Term {
	for _, f := range fs {
		t = p.w.st.Mul(t, f)
	}
	return t
}
func dkOf(d *big.Int) *big.Int {
	if d == nil {
		return big1
	}
	return d
}

// common brings two values to the same scale, denominators and (absent) roots.
func (p *Path) common(a, b *XF) (na, nb *Term, e int, den []*Term, dk *big.Int) {
	st := p.w.st
	e = minInt(a.e, b.e)
	if a.n.isConst() && a.n.k.Sign() == 0 {
		e = b.e
	} else if b.n.isConst() && b.n.k.Sign() == 0 {
		e = a.e
	}
	sc := func(x *XF) *Term {
		if x.e <= e {
			return x.n
		}
		if x.e-e > 5000 {
			panic(unsupported("exponent range"))
		}
		return st.Mul(st.Big(pow2(x.e-e)), x.n)
	}
	na, nb = sc(a), sc(b)
	var fa, fb []*Term
	den, fa, fb = lcmDen(a.den, b.den)
	na, nb = p.prod(na, fa), p.prod(nb, fb)
	da, db := dkOf(a.dk), dkOf(b.dk)
	g := new(big.Int).GCD(nil, nil, da, db)
	na = st.Mul(st.Big(new(big.Int).Quo(db, g)), na)
	nb = st.Mul(st.Big(new(big.Int).Quo(da, g)), nb)
	dk = new(big.Int).Quo(new(big.Int).Mul(da, db), g)
	return
}

// derooted replaces sqrt(root) by a scaled integer square root with an error bound.
func (p *Path) derooted(x *XF) *XF {
	if x.root == nil {
		return x
	}
	key := p.xkey("deroot", x.id)
	if o, ok := p.w.xf.tab[key]; ok {
		return o
	}
	st := p.w.st
	k := 44 - x.root.hi.BitLen()/2
	if k < 8 {
		k = 8
	}
	s := st.ISqrt(st.Mul(st.Big(pow2(2*k)), x.root))
	y := &XF{n: st.Mul(x.n, s), e: x.e - k, den: x.den, dk: x.dk}
	coef := (&XF{n: x.n, e: x.e, den: x.den, dk: x.dk}).bound()
	y.mag = y.bound()
	y.err = (x.err + coef*math.Ldexp(1, -k)) * (1 + 1e-12)
	y.rel = -1
	y.id = p.w.xf.next
	p.w.xf.next++
	p.w.xf.tab[key] = y
	return y
}

func (p *Path) xadd(av, bv Value, sub bool) Value {
	if f, ok := bv.(float64); ok && f == 0 {
		return av
	}
	if f, ok := av.(float64); ok && f == 0 {
		if sub {
			return p.xneg(bv)
		}
		return bv
	}
	a, b := p.toXF(av), p.toXF(bv)
	op := "+"
	if sub {
		op = "-"
		if a.id == b.id {
			return 0.0
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	key := p.xkey(op, a.id, b.id)
	if o, ok := p.w.xf.tab[key]; ok {
		return p.xout(o)
	}
	root := a.root
	if a.root != b.root {
		a, b = p.derooted(a), p.derooted(b)
		root = nil
	}
	na, nb, e, den, dk := p.common(a, b)
	var n *Term
	if sub {
		n = p.w.st.Sub(na, nb)
	} else {
		n = p.w.st.Add(na, nb)
	}
	x := &XF{n: n, e: e, den: den, dk: dk, root: root, rel: -1, op: op[0], a: a, b: b}
	if a.err == 0 && b.err == 0 {
		x.rel = 0
	} else if a.rel >= 0 && b.rel >= 0 {
		bl, bh := b.n.lo.Sign(), b.n.hi.Sign()
		if sub {
			bl, bh = -bh, -bl
		}
		if a.n.lo.Sign() >= 0 && bl >= 0 || a.n.hi.Sign() <= 0 && bh <= 0 {
			x.rel = math.Max(a.rel, b.rel)
		}
	}
	return p.xmk(key, x, a.err+b.err, false)
}

func (p *Path) xneg(v Value) Value {
	if f, ok := v.(float64); ok {
		return -f
	}
	a := v.(*XF)
	return p.xmk(p.xkey("neg", a.id), &XF{n: p.w.st.Neg(a.n), e: a.e, den: a.den, dk: a.dk, root: a.root, rel: a.rel, op: 'n', a: a}, a.err, true)
}

func (p *Path) xmul(av, bv Value) Value {
	for _, v := range []Value{av, bv} {
		if f, ok := v.(float64); ok && f == 0 {
			return 0.0
		}
	}
	if f, ok := av.(float64); ok && f == 1 {
		return bv
	}
	if f, ok := bv.(float64); ok && f == 1 {
		return av
	}
	exact := isPow2(av) || isPow2(bv)
	a, b := p.toXF(av), p.toXF(bv)
	if a.id > b.id {
		a, b = b, a
	}
	key := p.xkey("*", a.id, b.id)
	if o, ok := p.w.xf.tab[key]; ok {
		return p.xout(o)
	}
	st := p.w.st
	x := &XF{n: st.Mul(a.n, b.n), e: a.e + b.e, dk: new(big.Int).Mul(dkOf(a.dk), dkOf(b.dk))}
	x.den = mergeDen(a.den, b.den)
	switch {
	case a.root == nil:
		x.root = b.root
	case b.root == nil:
		x.root = a.root
	case a.root == b.root:
		// sqrt(r)^2 = r, cancelling a denominator factor where possible
		done := false
		for i, d := range x.den {
			if d == a.root {
				x.den = append(append([]*Term{}, x.den[:i]...), x.den[i+1:]...)
				done = true
				break
			}
		}
		if !done {
			x.n = st.Mul(x.n, a.root)
		}
	default:
		a, b = p.derooted(a), p.derooted(b)
		x.n, x.e = st.Mul(a.n, b.n), a.e+b.e
	}
	x.cap = a.mag * b.mag * (1 + 1e-12)
	err := (a.mag*b.err + b.mag*a.err + a.err*b.err) * (1 + 1e-12)
	x.rel, x.op, x.a, x.b = relProd(a.rel, b.rel), '*', a, b
	r := p.xmk(key, x, err, exact)
	// multiplying by a positive constant is monotone, rounding included
	for _, o := range [][2]Value{{av, bv}, {bv, av}} {
		f, ok := o[0].(*XF)
		c, ok2 := o[1].(float64)
		if rx, ok3 := r.(*XF); ok && ok2 && ok3 && c > 0 && f.hasB {
			rx.bound2(f.lob*c, f.hib*c)
		}
	}
	return r
}
func mergeDen(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := append(append([]*Term{}, a...), b...)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// relProd is the relative error of a product or quotient of two values.
func relProd(a, b float64) float64 {
	if a < 0 || b < 0 {
		return -1
	}
	return (a + b + 2*a*b) * (1 + 1e-9)
}

// xdiv divides; the zero divisor is split off by branching.
func (p *Path) xdiv(av, bv Value) Value {
	st := p.w.st
	if fb, ok := bv.(float64); ok {
		if fb == 0 {
			switch s := p.xsign(av); {
			case s == 0:
				return math.NaN()
			case s > 0:
				return math.Inf(1) * math.Copysign(1, fb)
			default:
				return math.Inf(-1) * math.Copysign(1, fb)
			}
		}
		if fb == 1 {
			return av
		}
	}
	b := p.toXF(bv)
	lt, gt := p.xcmp(b, 0.0)
	zero := st.And(st.Not(lt), st.Not(gt))
	if p.branch(zero) {
		s := p.xsign(av)
		if s == 0 {
			return math.NaN()
		}
		return math.Inf(s)
	}
	if f, ok := av.(float64); ok && f == 0 {
		return 0.0
	}
	a := p.toXF(av)
	key := p.xkey("/", a.id, b.id)
	if o, ok := p.w.xf.tab[key]; ok {
		return p.xout(o)
	}
	if a.id == b.id {
		return 1.0
	}
	if b.root != nil && a.root != nil && a.root != b.root {
		a = p.derooted(a)
	}
	// |b| = sgn(n) * n; 1/sqrt(r) = sqrt(r)/r
	bn := b.n
	an := a.n
	if bn.lo.Sign() < 0 {
		if bn.hi.Sign() <= 0 {
			bn = st.Neg(bn)
			an = st.Neg(an)
		} else {
			neg := st.Lt(bn, st.Int(0))
			pb := st.Ite(neg, st.Neg(bn), bn)
			an = st.Ite(neg, st.Neg(an), an)
			bn = pb
		}
	}
	x := &XF{n: an, e: a.e - b.e, den: a.den}
	// multiply by b's denominators
	x.n = st.Mul(st.Big(dkOf(b.dk)), x.n)
	for _, d := range b.den {
		found := false
		for i, q := range x.den {
			if q == d {
				x.den = append(append([]*Term{}, x.den[:i]...), x.den[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			x.n = st.Mul(x.n, d)
		}
	}
	dk := dkOf(a.dk)
	extra := []*Term{}
	addDen := func(t *Term) {
		if t.isConst() {
			k := new(big.Int).Set(t.k)
			z := k.TrailingZeroBits()
			k.Rsh(k, z)
			x.e -= int(z)
			dk = new(big.Int).Mul(dk, k)
			return
		}
		if t.op == OMul && t.args[0].isConst() && t.args[0].k.Sign() > 0 {
			k := new(big.Int).Set(t.args[0].k)
			z := k.TrailingZeroBits()
			k.Rsh(k, z)
			x.e -= int(z)
			dk = new(big.Int).Mul(dk, k)
			t = t.args[1]
		}
		if t.lo.Sign() <= 0 {
			// known to be at least 1 on this path
			t = p.positive(t)
		}
		extra = append(extra, t)
	}
	addDen(bn)
	x.root = a.root
	if b.root != nil {
		if a.root == b.root {
			x.root = nil
		} else {
			x.root = b.root
			addDen(b.root)
		}
	}
	x.den = mergeDen(x.den, sortedTerms(extra))
	// reduce constants
	x.dk = dk
	if dk.Cmp(big1) != 0 && x.n.op == OMul && x.n.args[0].isConst() {
		g := new(big.Int).GCD(nil, nil, dk, new(big.Int).Abs(x.n.args[0].k))
		if g.Cmp(big1) > 0 {
			x.dk = new(big.Int).Quo(dk, g)
			x.n = st.Mul(st.Big(new(big.Int).Quo(x.n.args[0].k, g)), x.n.args[1])
		}
	}
	// error: |a/b - a'/b'| <= (ea + |v| eb) / (|b| - eb)
	x.cancel(st)
	mag := x.bound()
	err := 0.0
	if a.err != 0 || b.err != 0 {
		bm := b.minNonZero() - b.err
		if bm <= 0 {
			err = math.Inf(1)
		} else {
			err = (a.err + mag*b.err) / bm * (1 + 1e-12)
		}
	}
	if math.IsInf(err, 0) {
		p.imprecise++
	}
	x.rel, x.op, x.a, x.b = -1, '/', a, b
	if b.rel >= 0 && b.rel < 1e-3 {
		x.rel = relProd(a.rel, b.rel*(1+2*b.rel))
		if x.rel >= 0 && math.IsInf(err, 0) {
			err = x.rel * mag * (1 + 1e-12)
			p.imprecise--
		}
	}
	return p.xmk(key, x, err, isPow2(bv))
}
func sortedTerms(t []*Term) []*Term {
	sort.Slice(t, func(i, j int) bool { return t[i].id < t[j].id })
	return t
}

// positive returns t restricted to values >= 1 (the path condition must imply it).
func (p *Path) positive(t *Term) *Term {
	if t.lo.Sign() > 0 {
		return t
	}
	st := p.w.st
	// max(t,1) keeps the interval information without changing the value on this path
	r := st.Ite(st.Le(st.Int(1), t), t, st.Int(1))
	if r.op == OIte {
		key := "pos" + strconv.Itoa(t.id)
		if o, ok := p.w.pos[key]; ok {
			return o
		}
		n := &Term{op: OPos, sort: SInt, args: []*Term{t}, lo: big1, hi: maxB(t.hi, big1)}
		o := st.mk(n)
		p.w.pos[key] = o
		return o
	}
	return r
}

func (p *Path) xsqrt(v Value) Value {
	if f, ok := v.(float64); ok {
		return math.Sqrt(f)
	}
	a := v.(*XF)
	if p.branch(func() *Term { lt, _ := p.xcmp(a, 0.0); return lt }()) {
		return math.NaN()
	}
	key := p.xkey("sqrt", a.id)
	if o, ok := p.w.xf.tab[key]; ok {
		return p.xout(o)
	}
	st := p.w.st
	a = p.derooted(a)
	// sqrt(n 2^e/(dk den)) = sqrt(n*dk*den*2^(e mod 2)) 2^(e div 2) / (dk den)
	r := a.n
	e := a.e
	if e&1 != 0 {
		r = st.Mul(st.Int(2), r)
		e--
	}
	r = st.Mul(st.Big(dkOf(a.dk)), r)
	r = p.prod(r, a.den)
	// pull out an even power of two
	if z := r.tz() &^ 1; z > 0 && z < 1<<19 && r.op == OMul && r.args[0].isConst() {
		k := new(big.Int).Rsh(r.args[0].k, uint(z))
		if new(big.Int).Lsh(k, uint(z)).Cmp(r.args[0].k) == 0 {
			r = st.Mul(st.Big(k), r.args[1])
			e += z
		}
	}
	x := &XF{n: st.Int(1), e: e / 2, den: a.den, dk: a.dk, root: r}
	if r.isConst() {
		q := new(big.Int).Sqrt(r.k)
		if new(big.Int).Mul(q, q).Cmp(r.k) == 0 {
			x.n, x.root = st.Big(q), nil
		}
	}
	if x.root != nil && r.lo.Sign() <= 0 {
		// value zero allowed: keep the radicand non-negative
		x.root = p.nonneg(r)
	}
	err := 0.0
	if a.err != 0 {
		// |sqrt(a') - sqrt(a)| <= err/sqrt(max(a, err))
		m := a.minPos()
		if m > 4*a.err {
			err = a.err / math.Sqrt(m) * (1 + 1e-12)
		} else {
			err = math.Sqrt(a.err) * (1 + 1e-12)
		}
	}
	x.pure = a.err == 0 && len(a.den) == 0 && a.dk == nil
	x.rel, x.op, x.a = a.rel, 's', a
	if a.rel >= 0 && a.rel < 1e-3 {
		x.rel = a.rel * (0.5 + a.rel)
		if r := x.rel * x.bound() * (1 + 1e-12); r < err {
			err = r
		}
	}
	return p.xmk(key, x, err, false)
}
func (x *XF) minPos() float64 {
	if x.n.lo.Sign() > 0 {
		return x.minNonZero()
	}
	return 0
}

// nonneg: the term, known to be >= 0 on this path.
func (p *Path) nonneg(t *Term) *Term {
	if t.lo.Sign() >= 0 {
		return t
	}
	st := p.w.st
	return st.mk(&Term{op: ONonneg, sort: SInt, args: []*Term{t}, lo: big0, hi: maxB(t.hi, big0)})
}

func (p *Path) xabs(v Value) Value {
	if f, ok := v.(float64); ok {
		return math.Abs(f)
	}
	a := v.(*XF)
	st := p.w.st
	n := a.n
	if n.lo.Sign() < 0 {
		if n.hi.Sign() <= 0 {
			n = st.Neg(n)
		} else {
			n = st.Ite(st.Lt(n, st.Int(0)), st.Neg(n), n)
		}
	}
	return p.xmk(p.xkey("abs", a.id), &XF{n: n, e: a.e, den: a.den, dk: a.dk, root: a.root, rel: a.rel, op: 'n', a: a}, a.err, true)
}

// xite selects between two values.
func (p *Path) xite(c *Term, av, bv Value) (Value, bool) {
	if isSpecial(av) || isSpecial(bv) {
		return nil, false
	}
	a, b := p.toXF(av), p.toXF(bv)
	if a.id == b.id {
		return av, true
	}
	if a.root != b.root || len(a.den) > 0 || len(b.den) > 0 {
		if a.root != b.root {
			return nil, false
		}
	}
	rel := math.Max(a.rel, b.rel)
	if a.rel < 0 || b.rel < 0 {
		rel = -1
	}
	na, nb, e, den, dk := p.common(a, b)
	return p.xmk(p.xkey("ite"+strconv.Itoa(c.id), a.id, b.id), &XF{n: p.w.st.Ite(c, na, nb), e: e, den: den, dk: dk, root: a.root, pure: a.pure && b.pure, rel: rel, op: 'i', a: a, b: b, cap: math.Max(a.mag, b.mag)}, math.Max(a.err, b.err), true), true
}

// xcmp returns the conditions a<b and a>b (mutually exclusive).
func (p *Path) xcmp(av, bv Value) (lt, gt *Term) {
	st := p.w.st
	for _, v := range []Value{av, bv} {
		if f, ok := v.(float64); ok && math.IsNaN(f) {
			return st.ff, st.ff
		}
	}
	if fa, ok := av.(float64); ok && math.IsInf(fa, 0) {
		if fb, ok := bv.(float64); ok && fb == fa {
			return st.ff, st.ff
		}
		return st.Bool(fa < 0), st.Bool(fa > 0)
	}
	if fb, ok := bv.(float64); ok && math.IsInf(fb, 0) {
		return st.Bool(fb > 0), st.Bool(fb < 0)
	}
	a, b := p.toXF(av), p.toXF(bv)
	if a.id == b.id {
		return st.ff, st.ff
	}
	if a.id > b.id {
		g, l := p.xcmp2(b, a)
		return l, g
	}
	return p.xcmp2(a, b)
}

func (p *Path) xcmp2(a, b *XF) (lt, gt *Term) {
	st := p.w.st
	// an upper bound of the computed value settles the comparison with a constant
	bounds := func(x *XF) (lo, hi float64) {
		if c, ok := p.xout(x).(float64); ok {
			return c, c
		}
		return x.bounds()
	}
	al, ah := bounds(a)
	bl, bh := bounds(b)
	if bh < al {
		return st.ff, st.tt
	}
	if ah < bl {
		return st.tt, st.ff
	}
	z := st.Int(0)
	E := (a.err + b.err) * (1 + 1e-12)
	// a relative error bound keeps the sign
	isZ := func(x *XF) bool { return x.n.isConst() && x.n.k.Sign() == 0 && x.err == 0 }
	if E > 0 && (isZ(a) && b.rel >= 0 || isZ(b) && a.rel >= 0) {
		x := a
		if isZ(a) {
			x = b
		}
		pos, neg := st.Lt(z, x.n), st.Lt(x.n, z)
		if x.root != nil {
			nz := st.Lt(z, x.root)
			pos, neg = st.And(nz, pos), st.And(nz, neg)
		}
		if x == a {
			return neg, pos
		}
		return pos, neg
	}
	if p.h.relerr && E > 0 {
		if lt, gt, ok := p.symCmp(a, b); ok {
			return lt, gt
		}
	}
	if a.root != nil || b.root != nil {
		if a.pure && b.pure && a.root != nil && b.root != nil && a.n == b.n && a.n.isConst() && a.e == b.e && a.root.hi.BitLen() <= 50 && b.root.hi.BitLen() <= 50 {
			return st.Lt(a.root, b.root), st.Lt(b.root, a.root)
		}
		if a.root != b.root {
			// exact comparison of one rooted value with zero
			if isZ(a) || isZ(b) {
				x := a
				if isZ(a) {
					x = b
				}
				if x.pure || x.err == 0 {
					pos := st.And(st.Lt(z, x.root), st.Lt(z, x.n))
					neg := st.And(st.Lt(z, x.root), st.Lt(x.n, z))
					if x == a {
						return neg, pos
					}
					return pos, neg
				}
			}
			if (a.root == nil) != (b.root == nil) {
				if b.root == nil {
					lt, gt = p.rootCmp(a, b, E)
				} else {
					gt, lt = p.rootCmp(b, a, E)
				}
				return p.amb(a, b, E, lt, gt)
			}
			a2, b2 := p.derooted(a), p.derooted(b)
			E = (a2.err + b2.err) * (1 + 1e-12)
			lt, gt = p.ratCmp(a2, b2, E)
			return p.amb(a, b, E, lt, gt)
		}
	}
	// same root (or none): sign of the coefficient difference, scaled by sqrt(root)
	if a.root != nil {
		ra := &XF{n: a.n, e: a.e, den: a.den, dk: a.dk}
		rb := &XF{n: b.n, e: b.e, den: b.den, dk: b.dk}
		if E > 0 {
			a2, b2 := p.derooted(a), p.derooted(b)
			E = (a2.err + b2.err) * (1 + 1e-12)
			lt, gt = p.ratCmp(a2, b2, E)
			return p.amb(a, b, E, lt, gt)
		}
		lt, gt = p.ratCmp(ra, rb, 0)
		nz := st.Lt(z, a.root)
		return st.And(nz, lt), st.And(nz, gt)
	}
	lt, gt = p.ratCmp(a, b, E)
	return p.amb(a, b, E, lt, gt)
}

// amb completes definite conditions with free outcomes in the undecided zone.
func (p *Path) amb(a, b *XF, E float64, lt, gt *Term) (*Term, *Term) {
	st := p.w.st
	if E == 0 || lt.isTrue() || gt.isTrue() {
		return lt, gt
	}
	av := p.ambVars(a, b)
	return st.Or(lt, st.And(st.Not(gt), av[0])), st.Or(gt, st.And(st.Not(lt), av[1], st.Not(av[0])))
}

func (p *Path) ambVars(a, b *XF) [2]*Term {
	st := p.w.st
	k := [2]int{a.id, b.id}
	av, ok := p.ambs[k]
	if !ok {
		i := len(p.ambs)
		av = [2]*Term{st.Var(fmt.Sprintf("amb!%dl", i), SBool, nil, nil), st.Var(fmt.Sprintf("amb!%dg", i), SBool, nil, nil)}
		p.ambs[k] = av
	}
	return av
}

// ratCmp: a-b < -E and a-b > E for rationals.
func (p *Path) ratCmp(a, b *XF, E float64) (lt, gt *Term) {
	st := p.w.st
	if math.IsInf(E, 0) || math.IsNaN(E) {
		return st.ff, st.ff
	}
	na, nb, e, den, dk := p.common(a, b)
	if df := p.w.solver.canon(st.Sub(na, nb)); df.isConst() {
		na, nb = df, st.Int(0)
	}
	if E == 0 {
		return st.Lt(na, nb), st.Lt(nb, na)
	}
	d := &XF{n: st.Sub(na, nb), e: e, den: den, dk: dk}
	if E < d.minNonZero() {
		return st.Lt(na, nb), st.Lt(nb, na)
	}
	// E = m 2^k, rounded up
	fr, ex := math.Frexp(E)
	m := big.NewInt(int64(math.Ceil(fr*(1<<30))) + 1)
	ex -= 30
	// n*2^e/(D) > m*2^ex   <=>  n*2^(e-ex) > m*D
	rhs := p.prod(st.Big(new(big.Int).Mul(m, dkOf(dk))), den)
	lhs := d.n
	if e >= ex {
		if e-ex > 5000 {
			panic(unsupported("exponent range"))
		}
		lhs = st.Mul(st.Big(pow2(e-ex)), lhs)
	} else {
		if ex-e > 5000 {
			panic(unsupported("exponent range"))
		}
		rhs = st.Mul(st.Big(pow2(ex-e)), rhs)
	}
	if len(den) == 0 {
		// constant threshold: reduce the scale again
		if e >= ex {
			q := floorDiv(rhs.k, pow2(e-ex))
			lhs, rhs = d.n, st.Big(q)
		}
	}
	return st.Lt(lhs, st.Neg(rhs)), st.Lt(rhs, lhs)
}

// rootCmp compares A*sqrt(r) with the rational b, margin E.
func (p *Path) rootCmp(a, b *XF, E float64) (lt, gt *Term) {
	st := p.w.st
	if math.IsInf(E, 0) || math.IsNaN(E) {
		return st.ff, st.ff
	}
	coef := &XF{n: a.n, e: a.e, den: a.den, dk: a.dk}
	// gt: A sqrt(r) > b+E ; lt: A sqrt(r) < b-E
	cmp := func(c *XF) (l, g *Term) {
		na, nb, _, _, _ := p.common(coef, c)
		z := st.Int(0)
		sa := st.Mul(st.Mul(na, na), a.root)
		sb := st.Mul(nb, nb)
		apos, bpos := st.Lt(z, na), st.Le(z, nb)
		g = st.Or(st.And(apos, bpos, st.Lt(sb, sa)), st.And(apos, st.Not(bpos)), st.And(st.Not(apos), st.Not(bpos), st.Lt(sa, sb)))
		l = st.Or(st.And(apos, bpos, st.Lt(sa, sb)), st.And(st.Not(apos), bpos, st.Not(st.And(st.Eq(sa, z), st.Eq(sb, z)))), st.And(st.Not(apos), st.Not(bpos), st.Lt(sb, sa)))
		return
	}
	shift := func(d float64) *XF {
		if d == 0 {
			return b
		}
		fr, ex := math.Frexp(math.Abs(d))
		m := int64(math.Ceil(fr*(1<<30))) + 1
		if d < 0 {
			m = -m
		}
		t := &XF{n: st.Int(m), e: ex - 30}
		na, nb, e, den, dk := p.common(b, t)
		return &XF{n: st.Add(na, nb), e: e, den: den, dk: dk}
	}
	_, gt = cmp(shift(E))
	lt, _ = cmp(shift(-E))
	return
}

// xtoint truncates toward zero (mode 2), floors (0) or ceils (1); result by branching when
// rounding could matter.
func (p *Path) xtoint(a *XF, mode int) Value {
	st := p.w.st
	b := a
	a = p.derooted(a)
	D := p.prod(st.Big(dkOf(a.dk)), a.den)
	n := a.n
	if a.e >= 0 {
		n = st.Mul(st.Big(pow2(a.e)), n)
	} else {
		D = st.Mul(st.Big(pow2(-a.e)), D)
	}
	fl := func(n *Term) *Term { return st.FDiv(n, D) }
	if a.err == 0 {
		switch mode {
		case 0:
			return p.simp(fl(n))
		case 1:
			return p.simp(st.Neg(fl(st.Neg(n))))
		}
		if n.lo.Sign() >= 0 {
			return p.simp(fl(n))
		}
		return p.simp(st.Ite(st.Le(st.Int(0), n), fl(n), st.Neg(fl(st.Neg(n)))))
	}
	// possible results lo..hi, decided one after the other with free outcomes near boundaries
	lo, hi := int64(math.Floor(-a.mag-a.err))-1, int64(math.Ceil(a.mag+a.err))+1
	if a.n.lo.Sign() >= 0 {
		lo = int64(math.Floor(-a.err)) - 1
	}
	wide := a.mag > 1e9
	if bl, bh := b.bounds(); bl > -1e9 && bh < 1e9 {
		wide = false
		if l := int64(math.Floor(bl)) - 1; l > lo || a.mag > 1e9 {
			lo = l
		}
		if h := int64(math.Ceil(bh)) + 1; h < hi || a.mag > 1e9 {
			hi = h
		}
	}
	if hi-lo > 4000 || wide {
		panic(unsupported("conversion of an inexact float to int over a wide range"))
	}
	for k := lo; k <= hi; k++ {
		// value below boundary?  floor: x < k+1 ; trunc: k>=0: x < k+1, k<0: x <= k ; ceil: x <= k
		bnd := float64(k + 1)
		strict := true
		if mode == 1 || mode == 2 && k < 0 {
			bnd, strict = float64(k), false
		}
		l, g := p.xcmp(a, bnd)
		c := l
		if !strict {
			c = st.Not(g)
		}
		if p.branch(c) {
			return k
		}
	}
	panic(pathEnd{})
}
