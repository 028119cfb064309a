package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(p *Path, fn *ssa.Function, args []Value) (Value, bool)

func (e *Engine) intrinsic(fn *ssa.Function) intrinsicFn {
	if v, ok := e.intr.Load(fn); ok {
		return v.(intrinsicFn)
	}
	f := findIntrinsic(e, fn)
	e.intr.Store(fn, f)
	return f
}

func findIntrinsic(e *Engine, fn *ssa.Function) intrinsicFn {
	if fn.Synthetic == "package initializer" {
		if !e.isRepoPkg(fn.Pkg) {
			return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
				return nil, p.initRunning != fn
			}
		}
		return nil
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	name := o.String()
	if o.Pkg != nil && strings.HasSuffix(o.Pkg.Pkg.Path(), "/verifsym") {
		return symAPI[o.Name()]
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if o.Pkg != nil && o.Pkg.Pkg.Path() == "math" && o.Signature.Recv() == nil {
		if f := mathIntrinsic(o.Name()); f != nil {
			return f
		}
	}
	return nil
}

var deniedPkgs = map[string]bool{"runtime": true, "syscall": true, "reflect": true, "os": true, "time": true, "net": true, "internal/poll": true, "internal/syscall/unix": true, "internal/reflectlite": true, "internal/runtime/atomic": true, "fmt": true, "log": true, "os/exec": true, "testing": true, "os/signal": true, "internal/testlog": true, "sync/atomic": true, "encoding/json": true}

func (e *Engine) denied(fn *ssa.Function) bool {
	return fn.Pkg != nil && deniedPkgs[fn.Pkg.Pkg.Path()] && fn.Synthetic != "package initializer"
}

// helpers ----------------------------------------------------------------

func (p *Path) mkBool(t *Term) Value { return p.simp(t) }

var errNilIface = Iface{}

func mkErr(msg string) Iface { return Iface{rtErrType, msg} }

var int64T = types.Typ[types.Int]
var byteT = types.Typ[types.Uint8]

// byteIs branches on a byte being one of the given characters.
func (p *Path) byteIn(b Value, set string) bool {
	if c, ok := b.(int64); ok {
		return strings.IndexByte(set, byte(c)) >= 0
	}
	st := p.w.st
	var ts []*Term
	for i := 0; i < len(set); i++ {
		ts = append(ts, st.Eq(b.(*Term), st.Int(int64(set[i]))))
	}
	return p.branch(st.Or(ts...))
}

func (p *Path) indexByte(bs []Value, c Value) int {
	for i, b := range bs {
		if p.branch(p.byteEq(b, c)) {
			return i
		}
	}
	return -1
}

func (p *Path) matchAt(a, b []Value, i int) *Term {
	var ts []*Term
	for k := range b {
		t := p.byteEq(a[i+k], b[k])
		if t.isFalse() {
			return t
		}
		ts = append(ts, t)
	}
	return p.w.st.And(ts...)
}
func (p *Path) index(a, b []Value) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if p.branch(p.matchAt(a, b, i)) {
			return i
		}
	}
	return -1
}
func (p *Path) lastIndex(a, b []Value) int {
	for i := len(a) - len(b); i >= 0; i-- {
		if p.branch(p.matchAt(a, b, i)) {
			return i
		}
	}
	return -1
}

func bytesOf(v Value) []Value {
	switch x := v.(type) {
	case []Value:
		return x
	}
	return strBytes(v)
}

// fileOf gives the virtual file behind an *os.File value.
func fileOf(v Value) *FileV {
	f, _ := v.(*FileV)
	return f
}

func (p *Path) noSpec(what string) {
	if p.spec > 0 {
		panic(specAbort{what})
	}
}

func (p *Path) input(name, kind string, s Sort, lo, hi *big.Int) *Term {
	p.noSpec("input")
	n := p.inputName(name)
	t := p.w.st.Var(n, s, lo, hi)
	p.inputs = append(p.inputs, inputVar{name: n, kind: kind, t: t})
	return t
}

func (p *Path) inputInt(name string, lo, hi int64) Value {
	if lo == hi {
		p.noSpec("input")
		n := p.inputName(name)
		p.inputs = append(p.inputs, inputVar{name: n, kind: "int", t: p.w.st.Int(lo)})
		return lo
	}
	if lo > hi {
		panic(pathEnd{})
	}
	return p.input(name, "int", SInt, big.NewInt(lo), big.NewInt(hi))
}

func (p *Path) inputByte(name, alphabet string) Value {
	lo, hi := alphabet[0], alphabet[0]
	for i := range []byte(alphabet) {
		if alphabet[i] < lo {
			lo = alphabet[i]
		}
		if alphabet[i] > hi {
			hi = alphabet[i]
		}
	}
	v := p.inputInt(name, int64(lo), int64(hi))
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	st := p.w.st
	// contiguous runs of allowed bytes
	var ok2 []*Term
	in := [256]bool{}
	for i := range []byte(alphabet) {
		in[alphabet[i]] = true
	}
	for c := int(lo); c <= int(hi); c++ {
		if !in[c] {
			continue
		}
		e := c
		for e+1 <= int(hi) && in[e+1] {
			e++
		}
		ok2 = append(ok2, st.And(st.Le(st.Int(int64(c)), t), st.Le(t, st.Int(int64(e)))))
		c = e
	}
	c := st.Or(ok2...)
	// the default value of the variable may be outside the alphabet: fix the model, not the solver
	if !c.isTrue() && !p.model.eval(c, map[*Term]CV{}).b {
		if _, set := p.model[t.name]; !set {
			m := make(Model, len(p.model)+1)
			for k, v := range p.model {
				m[k] = v
			}
			m[t.name] = CV{i: big.NewInt(int64(alphabet[0]))}
			p.model = m
		}
	}
	p.assume(c)
	return t
}

func cstr(p *Path, v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic name"))
	}
	return s
}

var symAPI map[string]intrinsicFn

func init() {
	symAPI = map[string]intrinsicFn{
		"Int": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			return p.inputInt(cstr(p, a[0]), p.concInt(a[1]), p.concInt(a[2])), true
		},
		"Bool": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			return p.input(cstr(p, a[0]), "bool", SBool, nil, nil), true
		},
		"Byte": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			return p.inputByte(cstr(p, a[0]), cstr(p, a[1])), true
		},
		"Str": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			n := int(p.concInt(a[1]))
			b := make([]Value, n)
			for i := range b {
				b[i] = p.inputByte(cstr(p, a[0]), cstr(p, a[2]))
			}
			return mkStr(b), true
		},
		"Float64": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			if !p.h.ieee {
				panic(unsupported("Float64 outside an ieee harness"))
			}
			return p.input(cstr(p, a[0]), "f64", SF64, nil, nil), true
		},
		"Grid": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			v := p.inputInt(cstr(p, a[0]), p.concInt(a[1]), p.concInt(a[2]))
			ex := int(p.concInt(a[3]))
			if i, ok := v.(int64); ok {
				return math.Ldexp(float64(i), ex), true
			}
			if p.h.ieee {
				f := p.w.st.FP(OFFromInt, SF64, v.(*Term))
				if ex != 0 {
					f = p.w.st.FP(OFMul, SF64, f, p.w.st.F64(math.Ldexp(1, ex)))
				}
				return p.simp(f), true
			}
			f := p.xFromInt(v.(*Term))
			if ex != 0 {
				f = p.xmul(f, math.Ldexp(1, ex))
			}
			return f, true
		},
		"Assume": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.assume(p.boolTerm(a[0]))
			return nil, true
		},
		"Assert": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.assertion(p.boolTerm(a[0]), cstr(p, a[1]))
			return nil, true
		},
		"Cover": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.noSpec("cover")
			p.covers = append(p.covers, cstr(p, a[0]))
			return nil, true
		},
		"ObserveInt":   observe,
		"ObserveFloat": observe,
		"ObserveStr":   observe,
		"Tier": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			return int64(p.w.eng.tier), true
		},
		"Symbolic": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) { return true, true },
		"Catch": func(p *Path, _ *ssa.Function, a []Value) (v Value, ok bool) {
			p.noSpec("catch")
			d := p.depth
			pf := p.w.panicFrame
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(targetPanic); is {
						p.depth = d
						p.w.panicFrame = pf
						v, ok = true, true
						return
					}
					panic(r)
				}
			}()
			p.call(a[0], nil)
			return false, true
		},
		"Output": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.noSpec("output")
			oc, oo := p.capturing, p.out
			p.capturing, p.out = true, []Value{}
			p.call(a[0], nil)
			r := mkStr(p.out)
			p.capturing, p.out = oc, oo
			return r, true
		},
		"TempFile": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.noSpec("file")
			p.fileN++
			n := fmt.Sprintf("/virtual/in%d", p.fileN)
			p.files[n] = &FileV{data: append([]Value{}, strBytes(a[0])...), name: n}
			return n, true
		},
		"TempName": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.fileN++
			return fmt.Sprintf("/virtual/out%d", p.fileN), true
		},
		"MapOrder": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.mapOrder = int(p.concInt(a[0]))
			p.mapIters = 0
			return nil, true
		},
		"Merge": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			p.mergeMode = int(p.concInt(a[0]))
			return nil, true
		},
		"Concretize": func(p *Path, _ *ssa.Function, a []Value) (Value, bool) {
			return p.concInt(a[0]), true
		},
	}
}

func observe(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
	p.noSpec("observe")
	p.observes = append(p.observes, obs{label: cstr(p, a[0]), v: a[1]})
	return nil, true
}

func zeroN(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}
func noop(p *Path, fn *ssa.Function, a []Value) (Value, bool) { return zeroN(fn), true }

// sprint formats concrete values the way fmt does for simple kinds.
func (p *Path) goVal(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil, true
		}
		if x.t == rtErrType {
			s, ok := x.v.(string)
			return s, ok
		}
		switch y := x.v.(type) {
		case *SStr:
			return p.concStr(y), true
		case *Term:
			if y.sort == SInt {
				return p.concretize(y), true
			}
		case int64:
			switch x.t.Underlying().(*types.Basic).Kind() {
			case types.Uint8:
				return uint8(y), true
			case types.Int32:
				return rune(y), true
			}
			return y, true
		case string, bool, float64:
			if _, ok := x.t.(*types.Basic); ok {
				return y, true
			}
		}
	}
	return nil, false
}

func (p *Path) sprintf(format Value, args Value) (string, bool) {
	f, ok := format.(string)
	if !ok {
		return "", false
	}
	var gs []interface{}
	for _, a := range args.([]Value) {
		g, ok := p.goVal(a)
		if !ok {
			return "", false
		}
		gs = append(gs, g)
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), gs...), true
}

var intrinsics map[string]intrinsicFn

func init() {
	I := map[string]intrinsicFn{}
	intrinsics = I
	for _, n := range []string{"fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "log.Println", "log.Printf", "log.Print", "flag.Parse",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer"} {
		I[n] = noop
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		kind := n
		I[n] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if p.capturing {
				p.noSpec("output")
				args := a[len(a)-1].([]Value)
				if kind == "fmt.Printf" {
					p.out = append(p.out, p.fmtVerbs(p.concStr(a[0]), args)...)
				} else {
					for i, x := range args {
						if i > 0 && kind == "fmt.Println" {
							p.out = append(p.out, int64(' '))
						}
						p.out = append(p.out, p.fmtAny(x)...)
					}
					if kind == "fmt.Println" {
						p.out = append(p.out, int64('\n'))
					}
				}
			}
			return zeroN(fn), true
		}
	}
	I["fmt.Errorf"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := p.sprintf(a[0], a[1]); ok {
			return mkErr(s), true
		}
		return mkErr("error"), true
	}
	I["fmt.Sprintf"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if s, ok := p.sprintf(a[0], a[1]); ok {
			return s, true
		}
		panic(unsupported("fmt.Sprintf of symbolic or composite values"))
	}
	I["fmt.Sprint"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		var gs []interface{}
		for _, x := range a[0].([]Value) {
			g, ok := p.goVal(x)
			if !ok {
				panic(unsupported("fmt.Sprint of symbolic or composite values"))
			}
			gs = append(gs, g)
		}
		return fmt.Sprint(gs...), true
	}
	I["strconv.Itoa"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return p.decimal(a[0]), true
	}
	I["strconv.FormatInt"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if base := p.concInt(a[1]); base != 10 {
			return strconv.FormatInt(p.concInt(a[0]), int(base)), true
		}
		return p.decimal(a[0]), true
	}
	atoi := func(s string, bits int) (Value, Value) {
		v, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			return v, mkErr(err.Error())
		}
		return v, Iface{}
	}
	I["strconv.Atoi"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		v, e := atoi(p.concStr(a[0]), 64)
		return Tuple{v, e}, true
	}
	I["strconv.ParseInt"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		v, err := strconv.ParseInt(p.concStr(a[0]), int(p.concInt(a[1])), int(p.concInt(a[2])))
		if err != nil {
			return Tuple{v, mkErr(err.Error())}, true
		}
		return Tuple{v, Iface{}}, true
	}
	I["strconv.ParseFloat"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		v, err := strconv.ParseFloat(p.concStr(a[0]), int(p.concInt(a[1])))
		if err != nil {
			return Tuple{v, mkErr(err.Error())}, true
		}
		return Tuple{v, Iface{}}, true
	}
	// searching in (possibly symbolic) bytes
	idxB := func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return int64(p.indexByte(bytesOf(a[0]), a[1])), true
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		I[n] = idxB
	}
	lastB := func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		bs := bytesOf(a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if p.branch(p.byteEq(bs[i], a[1])) {
				return int64(i), true
			}
		}
		return int64(-1), true
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = lastB
	}
	idx := func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return int64(p.index(bytesOf(a[0]), bytesOf(a[1]))), true
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		I[n] = idx
	}
	I["strings.LastIndex"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return int64(p.lastIndex(bytesOf(a[0]), bytesOf(a[1]))), true
	}
	I["strings.Contains"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		var ts []*Term
		for i := 0; i+len(y) <= len(x); i++ {
			ts = append(ts, p.matchAt(x, y, i))
		}
		return p.simp(p.w.st.Or(ts...)), true
	}
	I["strings.Count"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(y) == 0 {
			return int64(len(x) + 1), true
		}
		n := 0
		for i := 0; i+len(y) <= len(x); {
			if p.branch(p.matchAt(x, y, i)) {
				n++
				i += len(y)
			} else {
				i++
			}
		}
		return int64(n), true
	}
	cnt := func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		n := 0
		for _, b := range bytesOf(a[0]) {
			if p.branch(p.byteEq(b, a[1])) {
				n++
			}
		}
		return int64(n), true
	}
	I["internal/bytealg.Count"] = cnt
	I["internal/bytealg.CountString"] = cnt
	eqb := func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(x) != len(y) {
			return false, true
		}
		return p.simp(p.matchAt(x, y, 0)), true
	}
	I["bytes.Equal"] = eqb
	I["internal/bytealg.Equal"] = eqb
	I["strings.HasPrefix"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(y) > len(x) {
			return false, true
		}
		return p.simp(p.matchAt(x, y, 0)), true
	}
	I["strings.HasSuffix"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		if len(y) > len(x) {
			return false, true
		}
		return p.simp(p.matchAt(x, y, len(x)-len(y))), true
	}
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	const ws = "\t\n\v\f\r "
	ascii := func(v Value) bool {
		for _, b := range strBytes(v) {
			switch c := b.(type) {
			case int64:
				if c >= 128 {
					return false
				}
			case *Term:
				if c.hi.Cmp(big.NewInt(127)) > 0 {
					return false
				}
			}
		}
		return true
	}
	trim := func(set string, left, right bool) func(p *Path, s Value) Value {
		return func(p *Path, s Value) Value {
			i, j := 0, strLen(s)
			for left && i < j && p.byteIn(strAt(s, i), set) {
				i++
			}
			for right && j > i && p.byteIn(strAt(s, j-1), set) {
				j--
			}
			return strSub(s, i, j)
		}
	}
	I["strings.TrimSpace"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if !ascii(a[0]) {
			if s, ok := a[0].(string); ok {
				return strings.TrimSpace(s), true
			}
			return strings.TrimSpace(p.concStr(a[0])), true
		}
		return trim(ws, true, true)(p, a[0]), true
	}
	for n, lr := range map[string][2]bool{"strings.Trim": {true, true}, "strings.TrimLeft": {true, false}, "strings.TrimRight": {false, true}} {
		lr := lr
		I[n] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			set, ok := a[1].(string)
			if !ok || !ascii(a[0]) || !ascii(set) {
				return nil, false
			}
			return trim(set, lr[0], lr[1])(p, a[0]), true
		}
	}
	I["unicode.IsSpace"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if t, ok := a[0].(*Term); ok {
			if t.hi.Cmp(big.NewInt(127)) > 0 {
				return nil, false
			}
			st := p.w.st
			var ts []*Term
			for i := 0; i < len(ws); i++ {
				ts = append(ts, st.Eq(t, st.Int(int64(ws[i]))))
			}
			return p.simp(st.Or(ts...)), true
		}
		return nil, false
	}
	caseMap := func(lo, hi byte, delta int64) intrinsicFn {
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if !ascii(a[0]) {
				return nil, false
			}
			st := p.w.st
			var o []Value
			for _, b := range strBytes(a[0]) {
				switch c := b.(type) {
				case int64:
					if c >= int64(lo) && c <= int64(hi) {
						c += delta
					}
					o = append(o, c)
				case *Term:
					in := st.And(st.Le(st.Int(int64(lo)), c), st.Le(c, st.Int(int64(hi))))
					o = append(o, p.simp(st.Ite(in, st.Add(c, st.Int(delta)), c)))
				}
			}
			return mkStr(o), true
		}
	}
	I["strings.ToUpper"] = caseMap('a', 'z', -32)
	I["strings.ToLower"] = caseMap('A', 'Z', 32)
	I["strings.EqualFold"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, ok := I["strings.ToUpper"](p, fn, a[:1])
		y, ok2 := I["strings.ToUpper"](p, fn, a[1:])
		if !ok || !ok2 {
			return nil, false
		}
		return p.simp(p.strEq(x, y)), true
	}
	I["strings.Join"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		var o []Value
		for i, s := range a[0].([]Value) {
			if i > 0 {
				o = append(o, strBytes(a[1])...)
			}
			o = append(o, strBytes(s)...)
		}
		return mkStr(o), true
	}
	I["strings.Repeat"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		n := p.concInt(a[1])
		if n < 0 {
			panic(targetPanic{Iface{rtErrType, "strings: negative Repeat count"}})
		}
		var o []Value
		for i := int64(0); i < n; i++ {
			o = append(o, strBytes(a[0])...)
		}
		return mkStr(o), true
	}
	I["strings.ReplaceAll"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s, old, nw := strBytes(a[0]), strBytes(a[1]), strBytes(a[2])
		if len(old) == 0 {
			return nil, false
		}
		var o []Value
		for i := 0; i < len(s); {
			if i+len(old) <= len(s) && p.branch(p.matchAt(s, old, i)) {
				o = append(o, nw...)
				i += len(old)
			} else {
				o = append(o, s[i])
				i++
			}
		}
		return mkStr(o), true
	}
	I["strings.Split"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s, sep := strBytes(a[0]), strBytes(a[1])
		if len(sep) == 0 {
			return nil, false
		}
		out := []Value{}
		st := 0
		for i := 0; i+len(sep) <= len(s); {
			if p.branch(p.matchAt(s, sep, i)) {
				out = append(out, mkStr(s[st:i]))
				i += len(sep)
				st = i
			} else {
				i++
			}
		}
		return append(out, mkStr(s[st:])), true
	}
	I["strings.Fields"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if !ascii(a[0]) {
			return nil, false
		}
		s := strBytes(a[0])
		out := []Value{}
		st := -1
		for i := range s {
			if p.byteIn(s[i], ws) {
				if st >= 0 {
					out = append(out, mkStr(s[st:i]))
					st = -1
				}
			} else if st < 0 {
				st = i
			}
		}
		if st >= 0 {
			out = append(out, mkStr(s[st:]))
		}
		return out, true
	}
	// strings.Builder and bytes.Buffer (append-only use)
	bufOf := func(p *Path, v Value) *Value {
		ptr := v.(*Value)
		if ptr == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		return &(*ptr).(Struct)[1]
	}
	app := func(p *Path, v Value, bs []Value) {
		b := bufOf(p, v)
		old, _ := (*b).([]Value)
		p.write(b, append(old[:len(old):len(old)], bs...))
	}
	I["(*strings.Builder).WriteString"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		app(p, a[0], strBytes(a[1]))
		return Tuple{int64(strLen(a[1])), Iface{}}, true
	}
	I["(*strings.Builder).Write"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		app(p, a[0], a[1].([]Value))
		return Tuple{int64(len(a[1].([]Value))), Iface{}}, true
	}
	I["(*strings.Builder).WriteByte"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		app(p, a[0], []Value{a[1]})
		return Iface{}, true
	}
	I["(*strings.Builder).WriteRune"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s := p.convert(a[1], types.Typ[types.Int32], types.Typ[types.String])
		app(p, a[0], strBytes(s))
		return Tuple{int64(strLen(s)), Iface{}}, true
	}
	I["(*strings.Builder).String"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		b, _ := (*bufOf(p, a[0])).([]Value)
		return mkStr(b), true
	}
	I["(*strings.Builder).Len"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		b, _ := (*bufOf(p, a[0])).([]Value)
		return int64(len(b)), true
	}
	I["(*strings.Builder).Reset"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		p.write(bufOf(p, a[0]), []Value(nil))
		return nil, true
	}
	I["(*strings.Builder).Grow"] = noop
	I["strings.Clone"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) { return a[0], true }
	// files
	I["os.Open"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		p.noSpec("file")
		n := p.concStr(a[0])
		f, ok := p.files[n]
		if !ok {
			return Tuple{(*Value)(nil), mkErr("open " + n + ": no such file or directory")}, true
		}
		return Tuple{&FileV{data: f.data, name: n}, Iface{}}, true
	}
	I["os.ReadFile"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		n := p.concStr(a[0])
		f, ok := p.files[n]
		if !ok {
			return Tuple{[]Value(nil), mkErr("open " + n + ": no such file or directory")}, true
		}
		return Tuple{append([]Value{}, f.data...), Iface{}}, true
	}
	I["io/ioutil.ReadFile"] = I["os.ReadFile"]
	I["(*os.File).Read"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		p.noSpec("file")
		f := fileOf(a[0])
		if f == nil {
			return Tuple{int64(0), mkErr("invalid argument")}, true
		}
		b := a[1].([]Value)
		if len(b) == 0 {
			return Tuple{int64(0), Iface{}}, true
		}
		n := copy(b, f.data[f.off:])
		f.off += n
		if n == 0 {
			return Tuple{int64(0), p.ioEOF(fn)}, true
		}
		return Tuple{int64(n), Iface{}}, true
	}
	I["(*os.File).Close"] = noop
	I["(*os.File).Name"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) { return fileOf(a[0]).name, true }
	// sort.Slice: the library algorithm on a native swapper
	I["sort.Slice"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Iface).v.([]Value)
		swap := &Native{"swap", func(p *Path, x []Value) Value {
			i, j := p.concInt(x[0]), p.concInt(x[1])
			u, v := copyVal(s[i]), copyVal(s[j])
			p.storePtr(&s[i], v)
			p.storePtr(&s[j], u)
			return nil
		}}
		ls := Struct{a[1], swap}
		f := fn.Pkg.Func("pdqsort_func")
		lim := int64(0)
		for n := len(s); n > 0; n >>= 1 {
			lim++
		}
		p.callFn(f, []Value{ls, int64(0), int64(len(s)), lim}, nil)
		return nil, true
	}
	I["sort.SliceStable"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Iface).v.([]Value)
		swap := &Native{"swap", func(p *Path, x []Value) Value {
			i, j := p.concInt(x[0]), p.concInt(x[1])
			u, v := copyVal(s[i]), copyVal(s[j])
			p.storePtr(&s[i], v)
			p.storePtr(&s[j], u)
			return nil
		}}
		p.callFn(fn.Pkg.Func("stable_func"), []Value{Struct{a[1], swap}, int64(len(s))}, nil)
		return nil, true
	}
	I["sort.SliceIsSorted"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		s := a[0].(Iface).v.([]Value)
		for i := len(s) - 1; i > 0; i-- {
			r := p.call(a[1], []Value{int64(i), int64(i - 1)})
			if p.branch(p.boolTerm(r)) {
				return false, true
			}
		}
		return true, true
	}
	I["math/bits.Len"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if i, ok := a[0].(int64); ok {
			n := int64(0)
			for u := uint64(i); u > 0; u >>= 1 {
				n++
			}
			return n, true
		}
		return nil, false
	}
	I["math/bits.Len64"] = I["math/bits.Len"]
	// the glTF container: the document is kept, not serialised
	I["encoding/binary.Write"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		if x, ok := a[2].(Iface); ok {
			if b, ok := x.v.([]Value); ok && len(b) == 0 {
				return Iface{}, true
			}
		}
		return nil, false
	}
	// reflect is used by modeler for the length of a slice only
	I["reflect.ValueOf"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		x, ok := a[0].(Iface)
		if !ok || x.t == nil {
			panic(unsupported("reflect.ValueOf"))
		}
		if _, ok := x.t.Underlying().(*types.Slice); !ok {
			panic(unsupported("reflect.ValueOf of a " + x.t.String()))
		}
		return Struct{x, nil, int64(0)}, true
	}
	I["(reflect.Value).Kind"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) { return int64(23), true }
	I["(reflect.Value).Len"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return int64(len(a[0].(Struct)[0].(Iface).v.([]Value))), true
	}
	I["(reflect.Value).IsNil"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		return a[0].(Struct)[0].(Iface).v.([]Value) == nil, true
	}
	I["github.com/qmuntal/gltf.SaveBinary"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		p.noSpec("file")
		p.files[p.concStr(a[1])] = &FileV{data: []Value{a[0]}, out: true}
		return Iface{}, true
	}
	I["github.com/qmuntal/gltf.Save"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		panic(unsupported("gltf.Save"))
	}
	I["github.com/qmuntal/gltf.Open"] = func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
		f := p.files[p.concStr(a[0])]
		if f == nil || !f.out {
			return Tuple{(*Value)(nil), mkErr("no such file")}, true
		}
		return Tuple{f.data[0], Iface{}}, true
	}
}

func (p *Path) ioEOF(fn *ssa.Function) Value {
	for _, m := range p.w.eng.mods {
		if m.prog == fn.Prog {
			if io := m.pkgs["io"]; io != nil {
				return copyVal(*p.global(io.Var("EOF")))
			}
		}
	}
	panic(unsupported("io.EOF"))
}

// ---------------------------------------------------------------- math

func mathIntrinsic(name string) intrinsicFn {
	one := func(f func(float64) float64, sym intrinsicFn) intrinsicFn {
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if x, ok := a[0].(float64); ok {
				return f(x), true
			}
			if sym != nil {
				return sym(p, fn, a)
			}
			panic(unsupported("math." + name + " of a symbolic value"))
		}
	}
	fp1 := func(op Op, k int64, xf func(p *Path, v Value) Value) intrinsicFn {
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if t, ok := a[0].(*Term); ok {
				if op == OFRTI {
					return p.simp(p.w.st.FPK(op, t.sort, k, t)), true
				}
				return p.simp(p.w.st.FP(op, t.sort, t)), true
			}
			return xf(p, a[0]), true
		}
	}
	rti := func(mode int) func(p *Path, v Value) Value {
		return func(p *Path, v Value) Value {
			r := p.xtoint(v.(*XF), mode)
			if i, ok := r.(int64); ok {
				return float64(i)
			}
			return p.xFromInt(r.(*Term))
		}
	}
	switch name {
	case "Abs":
		return one(math.Abs, fp1(OFAbs, 0, func(p *Path, v Value) Value { return p.xabs(v) }))
	case "Sqrt", "sqrt":
		return one(math.Sqrt, fp1(OFSqrt, 0, func(p *Path, v Value) Value { return p.xsqrt(v) }))
	case "Floor", "floor":
		return one(math.Floor, fp1(OFRTI, 0, rti(0)))
	case "Ceil", "ceil":
		return one(math.Ceil, fp1(OFRTI, 1, rti(1)))
	case "Trunc", "trunc":
		return one(math.Trunc, fp1(OFRTI, 2, rti(2)))
	case "Sin":
		return one(math.Sin, nil)
	case "Cos":
		return one(math.Cos, nil)
	case "Tan":
		return one(math.Tan, nil)
	case "Atan":
		return one(math.Atan, nil)
	case "Asin":
		return one(math.Asin, nil)
	case "Acos":
		return one(math.Acos, nil)
	case "Exp":
		return one(math.Exp, nil)
	case "Log":
		return one(math.Log, nil)
	case "Log2":
		return one(math.Log2, nil)
	case "Log10":
		return one(math.Log10, nil)
	case "Cbrt":
		return one(math.Cbrt, nil)
	case "Sincos":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if x, ok := a[0].(float64); ok {
				s, c := math.Sincos(x)
				return Tuple{s, c}, true
			}
			panic(unsupported("math.Sincos of a symbolic value"))
		}
	case "Inf":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			if p.concInt(a[0]) >= 0 {
				return math.Inf(1), true
			}
			return math.Inf(-1), true
		}
	case "NaN":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) { return math.NaN(), true }
	case "IsNaN":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			switch x := a[0].(type) {
			case float64:
				return math.IsNaN(x), true
			case *Term:
				return p.simp(p.w.st.FP(OFIsNaN, SBool, x)), true
			}
			return false, true
		}
	case "IsInf":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			s := int(p.concInt(a[1]))
			switch x := a[0].(type) {
			case float64:
				return math.IsInf(x, s), true
			case *Term:
				st := p.w.st
				inf := st.FP(OFIsInf, SBool, x)
				switch {
				case s > 0:
					inf = st.And(inf, st.FP(OFLt, SBool, st.F64(0), x))
				case s < 0:
					inf = st.And(inf, st.FP(OFLt, SBool, x, st.F64(0)))
				}
				return p.simp(inf), true
			}
			return false, true
		}
	case "Signbit":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			switch x := a[0].(type) {
			case float64:
				return math.Signbit(x), true
			case *Term:
				return p.simp(p.w.st.FP(OFSign, SBool, x)), true
			}
			lt, _ := p.xcmp(a[0], 0.0)
			return p.simp(lt), true
		}
	case "Float64bits":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			switch x := a[0].(type) {
			case float64:
				return int64(math.Float64bits(x)), true
			case *Term:
				return p.simp(p.w.st.FBits(x)), true
			}
			panic(unsupported("bit pattern of an exact value"))
		}
	case "Float32bits":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			switch x := a[0].(type) {
			case float64:
				return int64(math.Float32bits(float32(x))), true
			case *Term:
				return p.simp(p.w.st.FBits(x)), true
			}
			panic(unsupported("bit pattern of an exact value"))
		}
	case "Float64frombits", "Float32frombits":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			s := SF64
			if name == "Float32frombits" {
				s = SF32
			}
			switch x := a[0].(type) {
			case int64:
				if s == SF32 {
					return float64(math.Float32frombits(uint32(x))), true
				}
				return math.Float64frombits(uint64(x)), true
			case *Term:
				return p.simp(p.w.st.FFromBits(x, s)), true
			}
			return nil, false
		}
	case "Max", "Min":
		isMin := name == "Min"
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			x, xo := a[0].(float64)
			y, yo := a[1].(float64)
			if xo && yo {
				if isMin {
					return math.Min(x, y), true
				}
				return math.Max(x, y), true
			}
			if t := anyFP(a[0], a[1]); t != nil {
				st := p.w.st
				u, v := p.fpTerm(a[0], t.sort), p.fpTerm(a[1], t.sort)
				if isMin {
					// NaN unless an operand is -Inf
					ninf := func(z *Term) *Term {
						return st.And(st.FP(OFIsInf, SBool, z), st.FP(OFLt, SBool, z, st.F64(0)))
					}
					r := st.Ite(st.FP(OFLt, SBool, u, v), u, st.Ite(st.FP(OFLt, SBool, v, u), v, st.Ite(st.FP(OFSign, SBool, u), u, v)))
					r = st.Ite(st.Or(st.FP(OFIsNaN, SBool, u), st.FP(OFIsNaN, SBool, v)), st.F64(math.NaN()), r)
					r = st.Ite(st.Or(ninf(u), ninf(v)), st.F64(math.Inf(-1)), r)
					return p.simp(r), true
				}
				pinf := func(z *Term) *Term {
					return st.And(st.FP(OFIsInf, SBool, z), st.FP(OFLt, SBool, st.F64(0), z))
				}
				r := st.Ite(st.FP(OFLt, SBool, v, u), u, st.Ite(st.FP(OFLt, SBool, u, v), v, st.Ite(st.FP(OFSign, SBool, u), v, u)))
				r = st.Ite(st.Or(st.FP(OFIsNaN, SBool, u), st.FP(OFIsNaN, SBool, v)), st.F64(math.NaN()), r)
				r = st.Ite(st.Or(pinf(u), pinf(v)), st.F64(math.Inf(1)), r)
				return p.simp(r), true
			}
			if isNaNv(a[0]) || isNaNv(a[1]) {
				return math.NaN(), true
			}
			return p.fminmax(isMin, a[0], a[1]), true
		}
	case "Hypot", "Pow", "Mod", "Atan2", "Nextafter", "Copysign", "Remainder", "Dim", "Ldexp":
		return func(p *Path, fn *ssa.Function, a []Value) (Value, bool) {
			x, xo := a[0].(float64)
			if name == "Ldexp" {
				if e, ok := a[1].(int64); ok && xo {
					return math.Ldexp(x, int(e)), true
				}
				if e, ok := a[1].(int64); ok && e > -1000 && e < 1000 {
					return p.fbinMul(a[0], math.Ldexp(1, int(e))), true
				}
				panic(unsupported("math.Ldexp"))
			}
			y, yo := a[1].(float64)
			if xo && yo {
				switch name {
				case "Hypot":
					return math.Hypot(x, y), true
				case "Pow":
					return math.Pow(x, y), true
				case "Mod":
					return math.Mod(x, y), true
				case "Atan2":
					return math.Atan2(x, y), true
				case "Nextafter":
					return math.Nextafter(x, y), true
				case "Copysign":
					return math.Copysign(x, y), true
				case "Remainder":
					return math.Remainder(x, y), true
				case "Dim":
					return math.Dim(x, y), true
				}
			}
			if name == "Hypot" && anyFP(a[0], a[1]) == nil && !isNaNv(a[0]) && !isNaNv(a[1]) {
				// within two ulps of the square root of the sum of squares, which is what the
				// real value is; it neither overflows nor underflows on the way
				v := p.xsqrt(p.xadd(p.xmul(a[0], a[0]), p.xmul(a[1], a[1]), false))
				if x, ok := v.(*XF); ok {
					z := *x
					z.err = (z.err + halfUlp(z.mag)) * 4
					if z.rel >= 0 {
						z.rel = (z.rel + math.Ldexp(1, -53)) * 4
					}
					z.op, z.a, z.b, z.es, z.ms, z.pure = 0, nil, nil, nil, nil, false
					return p.xmk(p.xkey("hypot", x.id), &z, z.err, true), true
				}
				return v, true
			}
			if name == "Pow" && yo {
				switch y {
				case 1:
					return a[0], true
				case 0.5:
					if _, ok := a[0].(*XF); ok {
						return p.xsqrt(a[0]), true
					}
				case -1:
					if _, ok := a[0].(*XF); ok {
						return p.xdiv(1.0, a[0]), true
					}
				case 3, 4:
					if _, ok := a[0].(*XF); ok {
						v := p.xmul(a[0], a[0])
						if y == 3 {
							v = p.xmul(v, a[0])
						} else {
							v = p.xmul(v, v)
						}
						if x, ok := v.(*XF); ok && x.err > 0 {
							z := *x
							z.err *= 4
							z.rel *= 4
							z.op, z.a, z.b, z.es, z.ms = 0, nil, nil, nil, nil
							return p.xmk(p.xkey("pow34", x.id), &z, z.err, true), true
						}
						return v, true
					}
				case 2:
					if _, ok := a[0].(*XF); ok {
						// correctly rounded for exact squares; within an ulp otherwise
						v := p.xmul(a[0], a[0])
						if x, ok := v.(*XF); ok && x.err > 0 {
							z := *x
							z.err *= 4
							z.rel *= 4
							z.op, z.a, z.b, z.es, z.ms = 0, nil, nil, nil, nil
							return p.xmk(p.xkey("pow2", x.id), &z, z.err, true), true
						}
						return v, true
					}
				}
			}
			panic(unsupported("math." + name + " of a symbolic value"))
		}
	}
	return nil
}

func (p *Path) fbinMul(x Value, k float64) Value {
	if t, ok := x.(*Term); ok {
		return p.simp(p.w.st.FP(OFMul, t.sort, t, p.fpTerm(k, t.sort)))
	}
	return p.xmul(x, k)
}

// fmtAny prints a value as Println and %v do; values of other kinds give a question mark.
func (p *Path) fmtAny(v Value) []Value {
	x, ok := v.(Iface)
	if !ok {
		return strBytes("?")
	}
	if x.t == nil {
		return strBytes("<nil>")
	}
	if x.t == rtErrType {
		return strBytes(x.v)
	}
	return p.fmtTyped(x.v, x.t)
}
func (p *Path) fmtTyped(v Value, t types.Type) []Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(t):
			return strBytes(v)
		case isBool(t):
			if p.branch(p.boolTerm(v)) {
				return strBytes("true")
			}
			return strBytes("false")
		}
		if i, ok := v.(int64); ok {
			if _, signed, _ := intKind(t); signed {
				return strBytes(strconv.FormatInt(i, 10))
			}
			return strBytes(strconv.FormatUint(uint64(i), 10))
		}
		if f, ok := v.(float64); ok && !isF32(t) {
			return strBytes(fmt.Sprint(f))
		}
		if tm, ok := v.(*Term); ok && tm.sort == SInt {
			return strBytes(p.decimal(tm))
		}
	case *types.Slice:
		if es, ok := v.([]Value); ok || v == nil {
			out := []Value{int64('[')}
			for i, e := range es {
				if i > 0 {
					out = append(out, int64(' '))
				}
				out = append(out, p.fmtTyped(e, u.Elem())...)
			}
			return append(out, int64(']'))
		}
	case *types.Struct:
		if es, ok := v.(Struct); ok {
			out := []Value{int64('{')}
			for i, e := range es {
				if i > 0 {
					out = append(out, int64(' '))
				}
				out = append(out, p.fmtTyped(e, u.Field(i).Type())...)
			}
			return append(out, int64('}'))
		}
	case *types.Interface:
		return p.fmtAny(v)
	}
	return strBytes("?")
}

// fmtVerbs handles the plain verbs %v %s %d %t.
func (p *Path) fmtVerbs(f string, args []Value) []Value {
	var out []Value
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' || i+1 >= len(f) {
			out = append(out, int64(f[i]))
			continue
		}
		i++
		switch f[i] {
		case '%':
			out = append(out, int64('%'))
		case 'v', 's', 'd', 't':
			if k < len(args) {
				out = append(out, p.fmtAny(args[k])...)
				k++
				continue
			}
			fallthrough
		default:
			panic(unsupported("format verb in captured output"))
		}
	}
	return out
}

// decimal writes an integer in decimal notation: the path splits on the sign and the number
// of digits, the digits stay symbolic.
func (p *Path) decimal(v Value) Value {
	t, ok := v.(*Term)
	if !ok {
		return strconv.FormatInt(p.concInt(v), 10)
	}
	st := p.w.st
	var o []Value
	if t.lo.Sign() < 0 && p.branch(st.Lt(t, st.Int(0))) {
		o = append(o, int64('-'))
		t = st.Neg(t)
	}
	n := 1
	for lim := int64(10); n < 19; n, lim = n+1, lim*10 {
		if p.branch(st.Lt(t, st.Int(lim))) {
			break
		}
	}
	ds := make([]Value, n)
	for i := n - 1; i >= 0; i-- {
		d := t
		if i > 0 {
			d = st.ModK(t, big.NewInt(10))
			t = st.FDivK(t, big.NewInt(10))
		}
		if d.isConst() {
			ds[i] = d.k.Int64() + '0'
		} else {
			ds[i] = st.Add(d, st.Int('0'))
		}
	}
	return mkStr(append(o, ds...))
}
