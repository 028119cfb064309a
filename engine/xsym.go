package main

import (
	"math"
	"math/big"
)

// Value-dependent error bounds: esym(x) is an exact non-negative value w with |f - v| <= w, built
// from the operands instead of from their largest possible magnitudes.

const symU = 0x1p-53

// symConst is a constant at least as large as f, with a short mantissa.
func (p *Path) symConst(f float64) *XF {
	if f == 0 {
		return p.toXF(0.0)
	}
	fr, ex := math.Frexp(f)
	m := int64(math.Ceil(fr * (1 << 10)))
	return p.toXF(math.Ldexp(float64(m), ex-10))
}

func isZeroX(x *XF) bool { return x.n.isConst() && x.n.k.Sign() == 0 }

// symRat gives a non-negative rational upper bound of a non-negative exact value.
func (p *Path) symRat(x *XF) *XF {
	if x.root == nil {
		return x
	}
	st := p.w.st
	k := 44 - x.root.hi.BitLen()/2
	if k < 8 {
		k = 8
	}
	s := st.Add(st.ISqrt(st.Mul(st.Big(pow2(2*k)), x.root)), st.Int(1))
	return p.symMk(&XF{n: st.Mul(x.n, s), e: x.e - k, den: x.den, dk: x.dk})
}

func (p *Path) symMk(x *XF) *XF {
	x.cancel(p.w.st)
	if x.n.hi.BitLen() > 3000 || x.n.lo.BitLen() > 3000 {
		return nil
	}
	x.mag = x.bound()
	x.id = -1
	return x
}

func (p *Path) symAdd(a, b *XF) *XF {
	if a == nil || b == nil {
		return nil
	}
	if isZeroX(a) {
		return b
	}
	if isZeroX(b) {
		return a
	}
	root := a.root
	if a.root != b.root {
		a, b = p.symRat(a), p.symRat(b)
		root = nil
		if a == nil || b == nil {
			return nil
		}
	}
	na, nb, e, den, dk := p.common(a, b)
	return p.symMk(&XF{n: p.w.st.Add(na, nb), e: e, den: den, dk: dk, root: root})
}

func (p *Path) symMul(a, b *XF) *XF {
	if a == nil || b == nil {
		return nil
	}
	if isZeroX(a) {
		return a
	}
	if isZeroX(b) {
		return b
	}
	st := p.w.st
	if a.root != nil && b.root != nil && a.root != b.root {
		a, b = p.symRat(a), p.symRat(b)
		if a == nil || b == nil {
			return nil
		}
	}
	x := &XF{n: st.Mul(a.n, b.n), e: a.e + b.e, dk: new(big.Int).Mul(dkOf(a.dk), dkOf(b.dk))}
	x.den = mergeDen(a.den, b.den)
	switch {
	case a.root == nil:
		x.root = b.root
	case b.root == nil:
		x.root = a.root
	default:
		done := false
		for i, d := range x.den {
			if d == a.root {
				x.den = append(append([]*Term{}, x.den[:i]...), x.den[i+1:]...)
				done = true
				break
			}
		}
		if !done {
			x.n = st.Mul(x.n, a.root)
		}
	}
	return p.symMk(x)
}

func (p *Path) symScale(x *XF, f float64) *XF {
	if x == nil {
		return nil
	}
	return p.symMul(p.symConst(f), x)
}

// msym: an exact non-negative value at least |v|.
func (p *Path) msym(x *XF) *XF {
	if x == nil {
		return nil
	}
	if x.ms != nil {
		return x.ms
	}
	st := p.w.st
	var m *XF
	switch {
	case x.n.lo.Sign() >= 0:
		m = p.symMk(&XF{n: x.n, e: x.e, den: x.den, dk: x.dk, root: x.root})
	case x.n.hi.Sign() <= 0:
		m = p.symMk(&XF{n: st.Neg(x.n), e: x.e, den: x.den, dk: x.dk, root: x.root})
	case (x.op == '+' || x.op == '-') && x.a != nil && x.n.op != OVar:
		m = p.symAdd(p.msym(x.a), p.msym(x.b))
	case x.op == '*' && x.a != nil:
		m = p.symMul(p.msym(x.a), p.msym(x.b))
	case x.op == 'n':
		m = p.msym(x.a)
	default:
		m = p.symMk(&XF{n: st.Ite(st.Lt(x.n, st.Int(0)), st.Neg(x.n), x.n), e: x.e, den: x.den, dk: x.dk, root: x.root})
	}
	x.ms = m
	return m
}

// esym: an exact non-negative value at least |f - v|, or nil.
func (p *Path) esym(x *XF) *XF {
	if x == nil {
		return nil
	}
	if x.es != nil {
		return x.es
	}
	var w *XF
	switch {
	case x.err == 0:
		w = p.toXF(0.0)
	case x.rel >= 0:
		w = p.symScale(p.msym(x), x.rel*(1+1e-9))
	case (x.op == '+' || x.op == '-') && x.mag < 1e300:
		// |fl(s)-s| <= u|s|, |s| <= |v| + Ea + Eb  (sums do not underflow)
		e := p.symAdd(p.esym(x.a), p.esym(x.b))
		w = p.symAdd(p.symScale(e, 1+1e-6), p.symScale(p.msym(x), symU))
	case x.op == '*' && x.mag < 1e300 && x.minNonZero() > 1e-280:
		ea, eb := p.esym(x.a), p.esym(x.b)
		ma, mb := p.msym(x.a), p.msym(x.b)
		e := p.symAdd(p.symMul(ma, eb), p.symMul(ea, p.symAdd(mb, eb)))
		w = p.symAdd(p.symScale(e, 1+1e-6), p.symScale(p.msym(x), symU))
		w = p.symAdd(w, p.symConst(1e-300))
	case x.op == '/' && x.b != nil && x.b.err == 0 && x.mag < 1e300 && x.minNonZero() > 1e-280 && x.b.root == nil && x.b.n.lo.Sign() > 0:
		// Ea/|b| + u|v|
		if ea := p.esym(x.a); ea != nil {
			b := x.b
			q := &XF{n: p.prod(p.w.st.Mul(p.w.st.Big(dkOf(b.dk)), ea.n), b.den), e: ea.e - b.e, den: mergeDen(ea.den, []*Term{b.n}), dk: ea.dk, root: ea.root}
			if b.n.isConst() {
				q.den, q.dk = ea.den, new(big.Int).Mul(dkOf(ea.dk), b.n.k)
			}
			w = p.symAdd(p.symScale(p.symMk(q), 1+1e-6), p.symScale(p.msym(x), symU))
			w = p.symAdd(w, p.symConst(1e-300))
		}
	case x.op == 'n':
		w = p.esym(x.a)
	case x.op == 'i':
		w = p.symAdd(p.esym(x.a), p.esym(x.b))
	}
	if w == nil {
		if math.IsInf(x.err, 0) || math.IsNaN(x.err) {
			return nil
		}
		w = p.symConst(x.err)
	}
	x.es = w
	return w
}

// symCmp gives the conditions under which a<b and a>b hold whatever the rounding.
func (p *Path) symCmp(a, b *XF) (lt, gt *Term, ok bool) {
	st := p.w.st
	E := p.symAdd(p.esym(a), p.esym(b))
	if E == nil {
		return
	}
	open := st.Lt(st.Int(0), E.n) // rounding happened at all
	if E.root != nil {
		open = st.And(open, st.Lt(st.Int(0), E.root))
	}
	lt, gt, ok = p.symCmp2(a, b, E)
	if !ok || lt.isTrue() || gt.isTrue() {
		return
	}
	av := p.ambVars(a, b)
	lt, gt = st.Or(lt, st.And(open, st.Not(gt), av[0])), st.Or(gt, st.And(open, st.Not(lt), av[1], st.Not(av[0])))
	return
}

func (p *Path) symCmp2(a, b, E *XF) (lt, gt *Term, ok bool) {
	st := p.w.st
	roots := map[*Term]bool{}
	none := false
	var root *Term
	for _, x := range []*XF{a, b, E} {
		if isZeroX(x) {
			continue
		}
		if x.root == nil {
			none = true
		} else {
			roots[x.root] = true
			root = x.root
		}
	}
	flat := func(x *XF) *XF {
		if x.root == nil {
			return x
		}
		return &XF{n: x.n, e: x.e, den: x.den, dk: x.dk}
	}
	sub := func(x, y *XF) *XF {
		nx, ny, e, den, dk := p.common(x, y)
		z := &XF{n: st.Sub(nx, ny), e: e, den: den, dk: dk}
		z.cancel(st)
		return z
	}
	neg := func(x *XF) *XF { return &XF{n: st.Neg(x.n), e: x.e, den: x.den, dk: x.dk, root: x.root} }
	less := func(x, y *XF) *Term { // rationals
		nx, ny, _, _, _ := p.common(x, y)
		return st.Lt(nx, ny)
	}
	switch {
	case len(roots) == 0 || len(roots) == 1 && !none:
		d := sub(flat(a), flat(b))
		e := flat(E)
		lt, gt = less(e, neg(d)), less(e, d)
		if root != nil {
			nz := st.Lt(st.Int(0), root)
			lt, gt = st.And(nz, lt), st.And(nz, gt)
		}
		return lt, gt, true
	case len(roots) == 1:
		// collect the coefficient of sqrt(root) and the rational rest of a-b-E and b-a-E
		coef, rest := &XF{n: st.Int(0)}, &XF{n: st.Int(0)}
		put := func(x *XF, sign bool) {
			if isZeroX(x) {
				return
			}
			y := flat(x)
			if sign {
				y = neg(y)
				y.root = nil
			}
			tgt := &rest
			if x.root != nil {
				tgt = &coef
			}
			*tgt = sub(*tgt, neg(y))
		}
		put(a, false)
		put(b, true)
		put(E, true)
		// coef*sqrt(root) + rest > 0
		gt = p.rootPos(coef, rest, root)
		coef, rest = &XF{n: st.Int(0)}, &XF{n: st.Int(0)}
		put(b, false)
		put(a, true)
		put(E, true)
		lt = p.rootPos(coef, rest, root)
		return lt, gt, true
	}
	return nil, nil, false
}

// rootPos: c*sqrt(r) + q > 0 for rationals c, q and r >= 0.
func (p *Path) rootPos(c, q *XF, r *Term) *Term {
	st := p.w.st
	nc, nq, _, _, _ := p.common(c, q)
	z := st.Int(0)
	sc, sq := st.Mul(st.Mul(nc, nc), r), st.Mul(nq, nq)
	cp, qp := st.Lt(z, nc), st.Lt(z, nq)
	cn, qn := st.Lt(nc, z), st.Lt(nq, z)
	rp := st.Lt(z, r)
	return st.Or(
		st.And(st.Not(cn), qp),
		st.And(cp, rp, st.Not(qn)),
		st.And(cp, qn, st.Lt(sq, sc)),
		st.And(cn, qp, st.Lt(sc, sq)),
	)
}
