package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value of the interpreted program:
//
//	bool | *Term(Bool)                 booleans
//	int64 | *Term(Int)                 integers (64-bit pattern for unsigned 64-bit types)
//	float64 | *XF | *Term(F64,F32)     floats
//	string | *SStr                     strings
//	*Value | *SymPtr                   pointers
//	[]Value                            slices
//	Struct, Arr                        aggregates
//	*MapV, *ChanV, Iface, Tuple
//	*ssa.Function, *ssa.Builtin, *Closure, *Native
type Value interface{}

type Struct []Value
type Arr []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Native struct {
	name string
	f    func(p *Path, args []Value) Value
}
type SStr struct{ b []Value } // each int64 or *Term
type SymPtr struct {
	elems []Value
	idx   *Term
	path  []int
}

// CastPtr is an unsafe.Pointer, or a pointer made from one.
type CastPtr struct {
	ptr      Value
	from, to types.Type
}
type mapEnt struct {
	k    Value
	v    Value
	dead bool
}
type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	n    int
	sym  bool // has symbolic keys
}
type ChanV struct {
	buf []Value
	cap int
}
type FileV struct {
	data []Value
	off  int
	name string
	out  bool
}
type mapIter struct {
	m    *MapV
	ents []*mapEnt
	i    int
}
type strIter struct {
	s Value
	i int
}

type targetPanic struct{ v Value }
type pathEnd struct{}
type unsupported string
type specAbort struct{ why string }
type stepLimit struct{}

func rtErr(s string) targetPanic { return targetPanic{Iface{rtErrType, s}} }

var rtErrType types.Type = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)

func under(t types.Type) types.Type { return t.Underlying() }

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return 0.0
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
		panic(unsupported("zero value of " + t.String()))
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Arr, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return a
	}
	panic(unsupported("zero value of " + t.String()))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		o := make(Struct, len(v))
		for i, x := range v {
			o[i] = copyVal(x)
		}
		return o
	case Arr:
		o := make(Arr, len(v))
		for i, x := range v {
			o[i] = copyVal(x)
		}
		return o
	}
	return v
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return int64(c.Uint64())
			}
			return c.Int64()
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(unsupported("constant of type " + c.Type().String()))
}

// intKind: width and signedness of an integer type.
func intKind(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isF32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func wrapInt(v int64, w int, signed bool) int64 {
	switch {
	case w == 64:
		return v
	case signed:
		sh := uint(64 - w)
		return v << sh >> sh
	default:
		return int64(uint64(v) & (1<<uint(w) - 1))
	}
}

// intTerm views an integer value of the given type as a term.
func (p *Path) intTerm(v Value, t types.Type) *Term {
	switch v := v.(type) {
	case int64:
		if _, s, _ := intKind(t); !s {
			return p.w.st.Big(new(big.Int).SetUint64(uint64(v)))
		}
		return p.w.st.Int(v)
	case *Term:
		return v
	}
	panic(unsupported(fmt.Sprintf("integer value %T", v)))
}

// simp turns constant terms back into plain values.
func (p *Path) simp(t *Term) Value {
	if !t.isConst() {
		return t
	}
	switch t.sort {
	case SBool:
		return t.b
	case SInt:
		if t.k.IsInt64() {
			return t.k.Int64()
		}
		if t.k.IsUint64() {
			return int64(t.k.Uint64())
		}
		return t
	case SF64, SF32:
		return t.f
	}
	return t
}
func (p *Path) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return p.w.st.Bool(v)
	case *Term:
		return v
	}
	panic(unsupported(fmt.Sprintf("bool value %T", v)))
}

// strings ---------------------------------------------------------

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}
func strBytes(v Value) []Value {
	switch v := v.(type) {
	case string:
		o := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			o[i] = int64(v[i])
		}
		return o
	case *SStr:
		return v.b
	}
	panic(unsupported(fmt.Sprintf("string value %T", v)))
}
func strAt(v Value, i int) Value {
	switch v := v.(type) {
	case string:
		return int64(v[i])
	case *SStr:
		return v.b[i]
	}
	panic("strAt")
}
func mkStr(b []Value) Value {
	raw := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(int64)
		if !ok {
			return &SStr{append([]Value{}, b...)}
		}
		raw[i] = byte(c)
	}
	return string(raw)
}
func strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(append([]Value{}, strBytes(a)...), strBytes(b)...))
}
func strSub(v Value, i, j int) Value {
	switch v := v.(type) {
	case string:
		return v[i:j]
	case *SStr:
		return mkStr(v.b[i:j])
	}
	panic("strSub")
}

func (p *Path) byteEq(a, b Value) *Term {
	x, xo := a.(int64)
	y, yo := b.(int64)
	if xo && yo {
		return p.w.st.Bool(x == y)
	}
	return p.w.st.Eq(p.intTerm(a, types.Typ[types.Uint8]), p.intTerm(b, types.Typ[types.Uint8]))
}
func (p *Path) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return p.w.st.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return p.w.st.ff
	}
	var ts []*Term
	for i, n := 0, strLen(a); i < n; i++ {
		t := p.byteEq(strAt(a, i), strAt(b, i))
		if t.isFalse() {
			return t
		}
		ts = append(ts, t)
	}
	return p.w.st.And(ts...)
}
func (p *Path) strLt(a, b Value) *Term {
	st := p.w.st
	n := minInt(strLen(a), strLen(b))
	r := st.Bool(strLen(a) < strLen(b))
	for i := n - 1; i >= 0; i-- {
		x, y := p.intTerm(strAt(a, i), types.Typ[types.Uint8]), p.intTerm(strAt(b, i), types.Typ[types.Uint8])
		r = st.Or(st.Lt(x, y), st.And(st.Eq(x, y), r))
	}
	return r
}

// equality --------------------------------------------------------

func (p *Path) eq(a, b Value, t types.Type) *Term {
	st := p.w.st
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return st.Eq(p.boolTerm(a), p.boolTerm(b))
		case u.Info()&types.IsInteger != 0:
			x, xo := a.(int64)
			y, yo := b.(int64)
			if xo && yo {
				return st.Bool(x == y)
			}
			return st.Eq(p.intTerm(a, t), p.intTerm(b, t))
		case u.Info()&types.IsFloat != 0:
			return p.feq(a, b)
		case u.Info()&types.IsString != 0:
			return p.strEq(a, b)
		}
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var ts []*Term
		for i := range x {
			if u.Field(i).Name() == "_" {
				continue
			}
			ts = append(ts, p.eq(x[i], y[i], u.Field(i).Type()))
		}
		return st.And(ts...)
	case *types.Array:
		x, y := a.(Arr), b.(Arr)
		var ts []*Term
		for i := range x {
			ts = append(ts, p.eq(x[i], y[i], u.Elem()))
		}
		return st.And(ts...)
	case *types.Interface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil {
			return st.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return st.ff
		}
		return p.eq(x.v, y.v, x.t)
	case *types.Slice:
		return st.Bool(a.([]Value) == nil && b.([]Value) == nil)
	case *types.Map:
		return st.Bool(a.(*MapV) == b.(*MapV))
	case *types.Chan:
		return st.Bool(a.(*ChanV) == b.(*ChanV))
	case *types.Signature:
		return st.Bool(isNilFunc(a) && isNilFunc(b))
	}
	if x, ok := a.(*SymPtr); ok {
		if y, ok := b.(*SymPtr); ok && x == y {
			return st.tt
		}
		if y, ok := b.(*Value); ok && y == nil {
			return st.ff
		}
		panic(unsupported("comparison of symbolic pointers"))
	}
	if _, ok := b.(*SymPtr); ok {
		return p.eq(b, a, t)
	}
	return st.Bool(a == b)
}
func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	}
	return false
}

// keyOf gives a canonical string for fully concrete map keys.
func keyOf(v Value) (string, bool) {
	switch v := v.(type) {
	case bool:
		return strconv.FormatBool(v), true
	case int64:
		return strconv.FormatInt(v, 10), true
	case float64:
		return "f" + strconv.FormatUint(math.Float64bits(v+0), 16), true
	case string:
		return "s" + v, true
	case Struct:
		return aggKey(v)
	case Arr:
		return aggKey(v)
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := keyOf(v.v)
		return v.t.String() + ":" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	}
	return "", false
}
func aggKey(vs []Value) (string, bool) {
	var sb strings.Builder
	for _, x := range vs {
		k, ok := keyOf(x)
		if !ok {
			return "", false
		}
		sb.WriteString(strconv.Itoa(len(k)))
		sb.WriteByte(':')
		sb.WriteString(k)
	}
	return sb.String(), true
}

func newMap() *MapV { return &MapV{idx: map[string]*mapEnt{}} }

func (p *Path) mapFind(m *MapV, k Value, kt types.Type) *mapEnt {
	if m == nil {
		return nil
	}
	ks, conc := keyOf(k)
	if conc && !m.sym {
		return m.idx[ks]
	}
	if conc {
		// an identical concrete key can be matched first (keys in a map are pairwise distinct)
		if e := m.idx[ks]; e != nil {
			return e
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if p.branch(p.eq(e.k, k, kt)) {
			return e
		}
	}
	return nil
}
func (p *Path) mapSet(m *MapV, k, v Value, kt types.Type) {
	if m == nil {
		panic(rtErr("assignment to entry in nil map"))
	}
	if p.spec > 0 {
		panic(specAbort{"map write"})
	}
	if f, ok := k.(float64); ok && math.IsNaN(f) {
		panic(unsupported("NaN map key"))
	}
	if e := p.mapFind(m, k, kt); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	if ks, ok := keyOf(k); ok {
		m.idx[ks] = e
	} else {
		m.sym = true
	}
}
func (p *Path) mapDelete(m *MapV, k Value, kt types.Type) {
	if m == nil {
		return
	}
	if p.spec > 0 {
		panic(specAbort{"map write"})
	}
	if e := p.mapFind(m, k, kt); e != nil {
		e.dead = true
		m.n--
		if ks, ok := keyOf(e.k); ok {
			delete(m.idx, ks)
		}
		live := m.ents[:0:0]
		for _, x := range m.ents {
			if !x.dead {
				live = append(live, x)
			}
		}
		m.ents = live
	}
}

func (p *Path) newIter(m *MapV) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	n := len(m.ents)
	it.ents = make([]*mapEnt, n)
	copy(it.ents, m.ents)
	switch k := p.mapOrder; {
	case k == 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
		}
	case k >= 2 && n > 1:
		// seeded permutation; a different one for every iteration on the path
		p.mapIters++
		r := uint64(k)*0x9E3779B97F4A7C15 + uint64(p.mapIters)*0xBF58476D1CE4E5B9
		for i := n - 1; i > 0; i-- {
			r ^= r << 13
			r ^= r >> 7
			r ^= r << 17
			j := int(r % uint64(i+1))
			it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
		}
	}
	return it
}
func (it *mapIter) next() (*mapEnt, bool) {
	for it.i < len(it.ents) {
		e := it.ents[it.i]
		it.i++
		if !e.dead {
			return e, true
		}
	}
	return nil, false
}

// merging -----------------------------------------------------------

// merge builds ite(c, a, b) for values of type t, if that is possible under the mode.
func (p *Path) merge(c *Term, a, b Value, mode int) (Value, bool) {
	st := p.w.st
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return x, true
			}
			return p.simp(st.Ite(c, st.Bool(x), st.Bool(y))), true
		case *Term:
			return p.simp(st.Ite(c, st.Bool(x), y)), true
		}
	case *Term:
		switch x.sort {
		case SBool:
			return p.simp(st.Ite(c, x, p.boolTerm(b))), true
		case SInt:
			if y, ok := b.(int64); ok {
				if mode < 2 {
					return nil, false
				}
				return st.Ite(c, x, st.Int(y)), true
			}
			if y, ok := b.(*Term); ok {
				if x == y {
					return x, true
				}
				if mode < 2 {
					return nil, false
				}
				return st.Ite(c, x, y), true
			}
		default:
			return p.simp(st.Ite(c, x, p.fpTerm(b, x.sort))), true
		}
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return x, true
			}
			if mode < 2 {
				return nil, false
			}
			return st.Ite(c, st.Int(x), st.Int(y)), true
		case *Term:
			if mode < 2 {
				return nil, false
			}
			return st.Ite(c, st.Int(x), y), true
		}
	case float64:
		if y, ok := b.(*Term); ok {
			return p.simp(st.Ite(c, p.fpTerm(x, y.sort), y)), true
		}
		if y, ok := b.(float64); ok && math.Float64bits(x) == math.Float64bits(y) {
			return x, true
		}
		if isSpecial(a) || isSpecial(b) {
			return nil, false
		}
		return p.xite(c, a, b)
	case *XF:
		if isSpecial(b) {
			return nil, false
		}
		if _, ok := b.(*Term); ok {
			return nil, false
		}
		return p.xite(c, a, b)
	case string, *SStr:
		if strLen(a) != strLen(b) {
			return nil, false
		}
		e := p.strEq(a, b)
		if e.isTrue() {
			return a, true
		}
		if mode < 2 {
			return nil, false
		}
		o := make([]Value, strLen(a))
		for i := range o {
			v, ok := p.merge(c, strAt(a, i), strAt(b, i), mode)
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return mkStr(o), true
	case Struct:
		y := b.(Struct)
		o := make(Struct, len(x))
		for i := range x {
			v, ok := p.merge(c, x[i], y[i], mode)
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Arr:
		y := b.(Arr)
		o := make(Arr, len(x))
		for i := range x {
			v, ok := p.merge(c, x[i], y[i], mode)
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case Tuple:
		y := b.(Tuple)
		o := make(Tuple, len(x))
		for i := range x {
			v, ok := p.merge(c, x[i], y[i], mode)
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	case []Value:
		y, ok := b.([]Value)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return nil, false
		}
		if len(x) == 0 && (x == nil) == (y == nil) && cap(x) == 0 {
			return x, true
		}
		if len(x) > 0 && &x[0] == &y[0] {
			return x, true
		}
		return nil, false
	case *Value:
		y, ok := b.(*Value)
		return a, ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return a, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return a, ok && x == y
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return a, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return a, true
		}
		if !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok2 := p.merge(c, x.v, y.v, mode)
		return Iface{x.t, v}, ok2
	case nil:
		return nil, b == nil
	}
	return nil, false
}

// fpTerm views a float value as an IEEE term.
func (p *Path) fpTerm(v Value, s Sort) *Term {
	switch v := v.(type) {
	case float64:
		if s == SF32 {
			return p.w.st.F32(v)
		}
		return p.w.st.F64(v)
	case *Term:
		return v
	}
	panic(unsupported("mixing exact and IEEE float models"))
}
func (p *Path) feq(a, b Value) *Term {
	st := p.w.st
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return st.Bool(x == y)
		}
	}
	if t := anyFP(a, b); t != nil {
		return st.FP(OFEq, SBool, p.fpTerm(a, t.sort), p.fpTerm(b, t.sort))
	}
	if isNaNv(a) || isNaNv(b) {
		return st.ff
	}
	lt, gt := p.xcmp(a, b)
	return st.And(st.Not(lt), st.Not(gt))
}
func isNaNv(v Value) bool {
	f, ok := v.(float64)
	return ok && math.IsNaN(f)
}
func anyFP(a, b Value) *Term {
	if t, ok := a.(*Term); ok {
		return t
	}
	if t, ok := b.(*Term); ok {
		return t
	}
	return nil
}
