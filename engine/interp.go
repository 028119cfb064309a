package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- compiled functions

type opKind uint8

const (
	opNone opKind = iota
	opReg
	opConst
	opGlobal
)

type opref struct {
	kind opKind
	idx  int
	val  Value
	g    *ssa.Global
}
type cinstr struct {
	ins ssa.Instruction
	dst int
	ops []opref
}
type cblock struct {
	phis []cinstr
	ins  []cinstr
}
type fnInfo struct {
	fn     *ssa.Function
	n      int
	blocks []cblock
	params []int
	free   []int
	ipdom  []int // -1: exit
	rec    bool
}

var fnCache sync.Map // *ssa.Function -> *fnInfo
var buildMu sync.Mutex

func compile(fn *ssa.Function) *fnInfo {
	if c, ok := fnCache.Load(fn); ok {
		return c.(*fnInfo)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if c, ok := fnCache.Load(fn); ok {
		return c.(*fnInfo)
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	fi := &fnInfo{fn: fn}
	reg := map[ssa.Value]int{}
	num := func(v ssa.Value) int {
		if i, ok := reg[v]; ok {
			return i
		}
		i := fi.n
		fi.n++
		reg[v] = i
		return i
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, num(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, num(p))
	}
	ref := func(v ssa.Value) opref {
		switch v := v.(type) {
		case nil:
			return opref{}
		case *ssa.Const:
			return opref{kind: opConst, val: constVal(v)}
		case *ssa.Global:
			return opref{kind: opGlobal, g: v}
		case *ssa.Function:
			return opref{kind: opConst, val: v}
		case *ssa.Builtin:
			return opref{kind: opConst, val: v}
		}
		return opref{kind: opReg, idx: num(v)}
	}
	for _, b := range fn.Blocks {
		var cb cblock
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = num(v)
			}
			for _, o := range ins.Operands(nil) {
				if o == nil || *o == nil {
					ci.ops = append(ci.ops, opref{})
				} else {
					ci.ops = append(ci.ops, ref(*o))
				}
			}
			if _, ok := ins.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, ci)
			} else {
				cb.ins = append(cb.ins, ci)
			}
		}
		fi.blocks = append(fi.blocks, cb)
	}
	fi.ipdom = postdoms(fn)
	fnCache.Store(fn, fi)
	return fi
}

// postdoms computes immediate post-dominators (index, -1 for the virtual exit).
func postdoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// sets as bitmaps; functions are small
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			nw := append([]uint64{}, full...)
			if len(b.Succs) == 0 {
				for k := range nw {
					nw[k] = 0
				}
			}
			for _, s := range b.Succs {
				for k := range nw {
					nw[k] &= pd[s.Index][k]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					changed = true
					break
				}
			}
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]>>uint(j%64)&1 == 1 }
	cnt := func(i int) int {
		c := 0
		for j := 0; j < n; j++ {
			if has(i, j) {
				c++
			}
		}
		return c
	}
	out := make([]int, n)
	for i := range out {
		out[i] = -1
		best := -1
		for j := 0; j < n; j++ {
			if j != i && has(i, j) {
				if c := cnt(j); c > best {
					best = c
					out[i] = j
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- path state

type Decision struct {
	dir    bool
	val    *big.Int // for value splits
	forced bool
}
type inputVar struct {
	name string
	kind string // int bool f64 bytes
	t    *Term
	ts   []*Term
}
type failure struct {
	label string
	model Model
	kind  string // assert, panic, hang
	amb   bool
}

type Path struct {
	w           *Worker
	h           *Harness
	pc          []*Term
	pcSet       map[*Term]bool
	prefix      []Decision
	dec         []Decision
	pos         int
	model       Model
	inputs      []inputVar
	names       map[string]int
	ambs        map[[2]int][2]*Term
	globals     map[*ssa.Global]*Value
	spec        int
	log         []undo
	steps       int
	depth       int
	mapOrder    int
	mapIters    int
	mergeMode   int
	out         []Value // captured output, nil when not capturing
	capturing   bool
	files       map[string]*FileV
	fileN       int
	observes    []obs
	covers      []string
	imprecise   int
	unknowns    int
	asserts     int
	folded      int
	lastPos     token.Pos
	eqc         map[*Term]bool
	noPush      bool
	initRunning *ssa.Function
}
type obs struct {
	label string
	v     Value
	t     types.Type
}
type undo struct {
	ptr *Value
	old Value
}

type frame struct {
	fi        *fnInfo
	env       []Value
	block     int
	prev      int
	phisDone  bool
	defers    []func()
	result    Value
	panicking bool
	panicV    interface{}
	caller    *frame
	recovered bool
	returned  bool
	stop      int // join the current speculation runs to, -1: none
}

func (p *Path) write(ptr *Value, v Value) {
	if p.spec > 0 {
		p.log = append(p.log, undo{ptr, *ptr})
	}
	*ptr = v
}

// store writes v of type t through addr, keeping the identity of aggregate parts.
func (p *Path) storePtr(addr *Value, v Value) {
	switch o := (*addr).(type) {
	case Struct:
		if n, ok := v.(Struct); ok && len(n) == len(o) {
			n = copyVal(n).(Struct)
			for i := range o {
				p.storePtr(&o[i], n[i])
			}
			return
		}
	case Arr:
		if n, ok := v.(Arr); ok && len(n) == len(o) {
			n = copyVal(n).(Arr)
			for i := range o {
				p.storePtr(&o[i], n[i])
			}
			return
		}
	}
	p.write(addr, copyVal(v))
}

func (p *Path) store(addr Value, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		p.storePtr(a, v)
	case *SymPtr:
		for i := range a.elems {
			c := p.w.st.Eq(a.idx, p.w.st.Int(int64(i)))
			if c.isFalse() {
				continue
			}
			ptr := walk(&a.elems[i], a.path)
			m, ok := p.merge(c, v, *ptr, 2)
			if !ok {
				// concretise the index
				k := p.concretize(a.idx)
				p.storePtr(walk(&a.elems[k], a.path), v)
				return
			}
			p.storePtr(ptr, m)
		}
	default:
		panic(unsupported(fmt.Sprintf("store through %T", addr)))
	}
}
func walk(v *Value, path []int) *Value {
	for _, i := range path {
		switch x := (*v).(type) {
		case Struct:
			v = &x[i]
		case Arr:
			v = &x[i]
		}
	}
	return v
}
func (p *Path) load(addr Value) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		return copyVal(*a)
	case *SymPtr:
		var r Value
		first := true
		for i := len(a.elems) - 1; i >= 0; i-- {
			c := p.w.st.Eq(a.idx, p.w.st.Int(int64(i)))
			if c.isFalse() {
				continue
			}
			v := copyVal(*walk(&a.elems[i], a.path))
			if first {
				r = v
				first = false
				continue
			}
			m, ok := p.merge(c, v, r, 2)
			if !ok {
				k := p.concretize(a.idx)
				return copyVal(*walk(&a.elems[k], a.path))
			}
			r = m
		}
		if first {
			panic(pathEnd{})
		}
		return r
	case *FileV:
		return a
	case *CastPtr:
		return p.reinterpret(p.load(a.ptr), a.from, a.to)
	}
	panic(unsupported(fmt.Sprintf("load through %T", addr)))
}

// ---------------------------------------------------------------- decisions

// branch decides a condition on this path, scheduling the other outcome.
func (p *Path) branch(c *Term) bool {
	if c.isConst() {
		return c.b
	}
	if p.spec > 0 {
		panic(specAbort{"symbolic branch"})
	}
	if p.pcSet[c] {
		return true
	}
	if p.pcSet[p.w.st.Not(c)] {
		return false
	}
	return p.decide(c, nil)
}

func (p *Path) addPC(c *Term) {
	if c.isTrue() || p.pcSet[c] {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			p.addPC(a)
		}
		p.pcSet[c] = true
		return
	}
	p.pcSet[c] = true
	p.pc = append(p.pc, c)
}

var debugForks = os.Getenv("VERIF_FORKS") != ""

func (p *Path) decide(c *Term, val *big.Int) bool {
	st := p.w.st
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		cc := c
		if !d.dir {
			cc = st.Not(c)
		}
		if !d.forced {
			p.addPC(cc)
		} else {
			p.pcSet[cc] = true
		}
		return d.dir
	}
	p.w.checkTime()
	dir := p.model.eval(c, map[*Term]CV{}).b
	mine, other := c, st.Not(c)
	if !dir {
		mine, other = other, mine
	}
	v, m := p.w.solver.Check(p.pc, other, false)
	if v == Unknown {
		if mm, ok := p.pinned(p.pc, other, 2); ok {
			v, m = Sat, mm
		}
	}
	d := Decision{dir: dir, val: val}
	switch v {
	case Sat:
		if debugForks {
			fmt.Fprintln(os.Stderr, "fork", posOf(p.w.eng.progOf(p.h), p.lastPos))
		}
		od := append(append([]Decision{}, p.dec...), Decision{dir: !dir, val: val})
		p.w.eng.push(p.h, od, p.mergeModel(m))
		p.addPC(mine)
	case Unsat:
		d.forced = true
		p.pcSet[mine] = true
	default:
		p.unknowns++
		p.addPC(mine)
	}
	p.dec = append(p.dec, d)
	p.pos = len(p.dec)
	return dir
}

func (p *Path) mergeModel(m Model) Model {
	o := make(Model, len(p.model)+len(m))
	for k, v := range p.model {
		o[k] = v
	}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// concretize splits on the value of an integer term.
func (p *Path) concretize(t *Term) int64 {
	if t.isConst() {
		return t.k.Int64()
	}
	if p.spec > 0 {
		panic(specAbort{"concretisation"})
	}
	for n := 0; ; n++ {
		if n > 5000 {
			panic(unsupported("too many values to split"))
		}
		var v *big.Int
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos].val
		} else {
			v = p.model.eval(t, map[*Term]CV{}).i
		}
		if v == nil {
			panic(unsupported("decision replay out of step"))
		}
		c := p.w.st.Eq(t, p.w.st.Big(v))
		if c.isTrue() {
			return v.Int64()
		}
		if c.isFalse() {
			continue
		}
		if p.pcSet[c] {
			return v.Int64()
		}
		if p.decide(c, v) {
			return v.Int64()
		}
	}
}
func (p *Path) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return p.concretize(v)
	}
	panic(unsupported(fmt.Sprintf("integer %T", v)))
}

// concStr splits until a string is concrete.
func (p *Path) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(p.concInt(x))
		}
		return string(b)
	}
	panic(unsupported(fmt.Sprintf("string %T", v)))
}

// ---------------------------------------------------------------- execution

func (p *Path) get(fr *frame, o opref) Value {
	switch o.kind {
	case opReg:
		return fr.env[o.idx]
	case opConst:
		return o.val
	case opGlobal:
		return p.global(o.g)
	}
	return nil
}

func (p *Path) global(g *ssa.Global) *Value {
	if p.w.eng.isRepoPkg(g.Pkg) {
		if v, ok := p.globals[g]; ok {
			return v
		}
		v := new(Value)
		*v = zero(g.Type().Underlying().(*types.Pointer).Elem())
		p.globals[g] = v
		return v
	}
	p.w.initPkg(g.Pkg, p)
	if v, ok := p.w.globals[g]; ok {
		return v
	}
	v := new(Value)
	*v = zero(g.Type().Underlying().(*types.Pointer).Elem())
	p.w.globals[g] = v
	return v
}

const maxDepth = 400

func (p *Path) call(fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		return p.callFn(f, args, nil)
	case *Closure:
		return p.callFn(f.fn, args, f.env)
	case *Native:
		return f.f(p, args)
	case nil:
		panic(rtErr("invalid memory address or nil pointer dereference"))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fn)))
}

func (p *Path) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	if in := p.w.eng.intrinsic(fn); in != nil {
		if v, ok := in(p, fn, args); ok {
			return v
		}
	}
	fi := compile(fn)
	if len(fi.blocks) == 0 {
		panic(unsupported("function without body: " + fn.String()))
	}
	if fn.Pkg != nil && !p.w.eng.isRepoPkg(fn.Pkg) && p.w.eng.denied(fn) {
		panic(unsupported("call of " + fn.String()))
	}
	p.w.eng.noteFn(fi)
	p.depth++
	if p.depth > maxDepth {
		panic(stepLimit{})
	}
	fr := &frame{fi: fi, env: make([]Value, fi.n), prev: -1, stop: -1}
	for i, a := range args {
		fr.env[fi.params[i]] = a
	}
	for i, a := range env {
		fr.env[fi.free[i]] = a
	}
	p.runFrame(fr)
	p.depth--
	return fr.result
}

func (p *Path) runFrame(fr *frame) {
	d := p.depth
	defer func() {
		if fr.panicking {
			return
		}
	}()
	run := func() (tp *targetPanic) {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(targetPanic); ok {
					p.depth = d
					tp = &t
					return
				}
				panic(r)
			}
		}()
		p.exec(fr, -1)
		return nil
	}
	if !hasDefer(fr.fi) {
		p.exec(fr, -1)
		return
	}
	tp := run()
	if tp == nil {
		return // RunDefers executed explicitly
	}
	if p.spec > 0 {
		panic(specAbort{"panic"})
	}
	fr.panicking = true
	fr.panicV = tp.v
	p.runDefers(fr)
	if fr.panicking {
		panic(targetPanic{fr.panicV})
	}
	// recovered: results from named result variables via the Recover block
	if fr.fi.fn.Recover != nil {
		fr.block, fr.prev = fr.fi.fn.Recover.Index, -1
		p.exec(fr, -1)
	} else {
		res := fr.fi.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			fr.result = zero(res.At(0).Type())
		default:
			fr.result = zero(res)
		}
	}
}
func hasDefer(fi *fnInfo) bool { return fi.fn.Recover != nil }

func (p *Path) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		f := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			d := p.depth
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(targetPanic); ok {
						p.depth = d
						fr.panicking = true
						fr.panicV = t.v
						return
					}
					panic(r)
				}
			}()
			old := p.w.panicFrame
			p.w.panicFrame = fr
			defer func() { p.w.panicFrame = old }()
			f()
		}()
	}
}

// exec runs blocks until return, or until reaching block stop (-1: none).
func (p *Path) exec(fr *frame, stop int) {
	for {
		if fr.block == stop && stop >= 0 {
			return
		}
		cb := &fr.fi.blocks[fr.block]
		if len(cb.phis) > 0 && !fr.phisDone {
			preds := fr.fi.fn.Blocks[fr.block].Preds
			k := -1
			for i, b := range preds {
				if b.Index == fr.prev {
					k = i
					break
				}
			}
			if len(cb.phis) == 1 {
				fr.env[cb.phis[0].dst] = p.get(fr, cb.phis[0].ops[k])
			} else {
				vals := make([]Value, len(cb.phis))
				for i := range cb.phis {
					vals[i] = p.get(fr, cb.phis[i].ops[k])
				}
				for i := range cb.phis {
					fr.env[cb.phis[i].dst] = vals[i]
				}
			}
		}
		fr.phisDone = false
		next := -1
		for i := range cb.ins {
			ci := &cb.ins[i]
			p.steps++
			if p.steps > p.h.maxSteps {
				panic(stepLimit{})
			}
			switch ins := ci.ins.(type) {
			case *ssa.Jump:
				next = fr.fi.fn.Blocks[fr.block].Succs[0].Index
			case *ssa.If:
				c := p.get(fr, ci.ops[0])
				succs := fr.fi.fn.Blocks[fr.block].Succs
				if b, ok := c.(bool); ok {
					if b {
						next = succs[0].Index
					} else {
						next = succs[1].Index
					}
					break
				}
				p.lastPos = ins.Cond.Pos()
				ct := c.(*Term)
				if p.mergeMode > 0 && p.tryMerge(fr, ct, succs[0].Index, succs[1].Index) {
					if fr.returned {
						return
					}
					next = fr.block // tryMerge positioned the frame
					goto merged
				}
				if p.branch(ct) {
					next = succs[0].Index
				} else {
					next = succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = p.get(fr, ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range t {
						t[k] = p.get(fr, ci.ops[k])
					}
					fr.result = t
				}
				if stop >= 0 {
					panic(specAbort{"return in arm"})
				}
				fr.returned = true
				return
			case *ssa.Panic:
				if p.spec > 0 {
					panic(specAbort{"panic"})
				}
				panic(targetPanic{p.get(fr, ci.ops[0])})
			default:
				p.instr(fr, ci)
			}
		}
		fr.prev = fr.block
		fr.block = next
		continue
	merged:
		continue
	}
}

// tryMerge executes both arms of a branch speculatively up to their join and merges the
// results into conditional values. Returns false (with no effect) if that is impossible.
func (p *Path) tryMerge(fr *frame, c *Term, s0, s1 int) bool {
	from := fr.block
	join := fr.fi.ipdom[from]
	if join < 0 && (fr.stop >= 0 || len(fr.defers) > 0) || p.spec > 6 {
		return false
	}
	if p.pcSet[c] || p.pcSet[p.w.st.Not(c)] {
		return false
	}
	// only acyclic, small regions
	if !smallRegion(fr.fi, from, s0, join) || !smallRegion(fr.fi, from, s1, join) {
		return false
	}
	type armRes struct {
		pred   int
		phis   []Value
		writes map[*Value]Value
		order  []*Value
	}
	envSave := append([]Value{}, fr.env...)
	saveSteps, saveDepth, saveStop := p.steps, p.depth, fr.stop
	run := func(s int) (r *armRes) {
		base := len(p.log)
		p.spec++
		outLen := len(p.out)
		rollback := func() {
			for i := len(p.log) - 1; i >= base; i-- {
				*p.log[i].ptr = p.log[i].old
			}
			p.log = p.log[:base]
		}
		defer func() {
			p.spec--
			if e := recover(); e != nil {
				rollback()
				p.out = p.out[:outLen]
				p.depth = saveDepth
				switch e.(type) {
				case specAbort, targetPanic, unsupported:
					r = nil
					return
				}
				panic(e)
			}
		}()
		fr.block, fr.prev, fr.phisDone = s, from, false
		if join < 0 {
			fr.returned = false
			p.exec(fr, -1)
		} else {
			old := fr.stop
			fr.stop = join
			p.exec(fr, join)
			fr.stop = old
		}
		if len(p.out) != outLen {
			panic(specAbort{"output"})
		}
		res := &armRes{pred: fr.prev, writes: map[*Value]Value{}}
		if join < 0 {
			res.phis = []Value{fr.result}
		} else if fr.phisDone {
			// a nested merge ended at the same join: its phis are already in env
			for i := range fr.fi.blocks[join].phis {
				res.phis = append(res.phis, fr.env[fr.fi.blocks[join].phis[i].dst])
			}
		} else {
			preds := fr.fi.fn.Blocks[join].Preds
			k := -1
			for i, b := range preds {
				if b.Index == fr.prev {
					k = i
				}
			}
			for i := range fr.fi.blocks[join].phis {
				res.phis = append(res.phis, p.get(fr, fr.fi.blocks[join].phis[i].ops[k]))
			}
		}
		for i := base; i < len(p.log); i++ {
			ptr := p.log[i].ptr
			if _, ok := res.writes[ptr]; !ok {
				res.order = append(res.order, ptr)
			}
			res.writes[ptr] = nil
		}
		for ptr := range res.writes {
			res.writes[ptr] = *ptr
		}
		rollback()
		return res
	}
	restore := func() {
		copy(fr.env, envSave)
		fr.block, fr.phisDone, fr.returned, fr.stop = from, false, false, saveStop
		p.steps = saveSteps
	}
	prevSave := fr.prev
	a := run(s0)
	if a == nil {
		restore()
		fr.prev = prevSave
		return false
	}
	copy(fr.env, envSave)
	b := run(s1)
	restore()
	fr.prev = prevSave
	if b == nil {
		return false
	}
	phis := make([]Value, len(a.phis))
	for i := range phis {
		v, ok := p.merge(c, a.phis[i], b.phis[i], p.mergeMode)
		if !ok {
			return false
		}
		phis[i] = v
	}
	type wr struct {
		ptr *Value
		v   Value
	}
	var ws []wr
	add := func(ptr *Value) bool {
		va, ok := a.writes[ptr]
		if !ok {
			va = *ptr
		}
		vb, ok := b.writes[ptr]
		if !ok {
			vb = *ptr
		}
		v, ok := p.merge(c, va, vb, p.mergeMode)
		if !ok {
			return false
		}
		ws = append(ws, wr{ptr, v})
		return true
	}
	for _, ptr := range a.order {
		if !add(ptr) {
			return false
		}
	}
	for _, ptr := range b.order {
		if _, dup := a.writes[ptr]; dup {
			continue
		}
		if !add(ptr) {
			return false
		}
	}
	for _, w := range ws {
		p.write(w.ptr, w.v)
	}
	if join < 0 {
		fr.result, fr.returned = phis[0], true
		return true
	}
	for i := range phis {
		fr.env[fr.fi.blocks[join].phis[i].dst] = phis[i]
	}
	fr.block, fr.prev, fr.phisDone = join, from, true
	return true
}

// smallRegion: blocks reachable from s before join; acyclic and short.
func smallRegion(fi *fnInfo, from, s, join int) bool {
	seen := map[int]int{}
	count := 0
	var dfs func(b int) bool
	dfs = func(b int) bool {
		if b == join {
			return true
		}
		if b == from {
			return false
		}
		switch seen[b] {
		case 1:
			return false
		case 2:
			return true
		}
		seen[b] = 1
		count += len(fi.blocks[b].ins)
		if count > 60 {
			return false
		}
		bb := fi.fn.Blocks[b]
		if len(bb.Succs) == 0 {
			if join >= 0 {
				return false
			}
			_, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return)
			seen[b] = 2
			return ok
		}
		for _, x := range bb.Succs {
			if !dfs(x.Index) {
				return false
			}
		}
		seen[b] = 2
		return true
	}
	return dfs(s)
}

func (p *Path) idx(v Value, n int, what string) (int, *Term) {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			panic(rtErr(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return int(i), nil
	case *Term:
		st := p.w.st
		in := st.And(st.Le(st.Int(0), i), st.Lt(i, st.Int(int64(n))))
		if !p.branch(in) {
			panic(rtErr(fmt.Sprintf("index out of range with length %d", n)))
		}
		return -1, i
	}
	panic(unsupported(fmt.Sprintf("index %T", v)))
}

func (p *Path) instr(fr *frame, ci *cinstr) {
	set := func(v Value) { fr.env[ci.dst] = v }
	switch ins := ci.ins.(type) {
	case *ssa.BinOp:
		set(p.binop(ins.Op, ins.X.Type(), p.get(fr, ci.ops[0]), p.get(fr, ci.ops[1]), ins.Y.Type()))
	case *ssa.UnOp:
		set(p.unop(ins, p.get(fr, ci.ops[0])))
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(ins.Type().Underlying().(*types.Pointer).Elem())
		set(v)
	case *ssa.Store:
		addr, v := p.get(fr, ci.ops[0]), p.get(fr, ci.ops[1])
		p.store(addr, v)
	case *ssa.FieldAddr:
		switch a := p.get(fr, ci.ops[0]).(type) {
		case *Value:
			if a == nil {
				panic(rtErr("invalid memory address or nil pointer dereference"))
			}
			s, ok := (*a).(Struct)
			if !ok {
				panic(unsupported(fmt.Sprintf("field of %T", *a)))
			}
			set(&s[ins.Field])
		case *SymPtr:
			set(&SymPtr{a.elems, a.idx, append(append([]int{}, a.path...), ins.Field)})
		default:
			panic(unsupported(fmt.Sprintf("field address of %T", a)))
		}
	case *ssa.Field:
		set(p.get(fr, ci.ops[0]).(Struct)[ins.Field])
	case *ssa.IndexAddr:
		x := p.get(fr, ci.ops[0])
		iv := p.get(fr, ci.ops[1])
		switch x := x.(type) {
		case []Value:
			i, t := p.idx(iv, len(x), "")
			if t != nil {
				set(&SymPtr{elems: x, idx: t})
			} else {
				set(&x[i])
			}
		case *Value:
			if x == nil {
				panic(rtErr("invalid memory address or nil pointer dereference"))
			}
			a := (*x).(Arr)
			i, t := p.idx(iv, len(a), "")
			if t != nil {
				set(&SymPtr{elems: a, idx: t})
			} else {
				set(&a[i])
			}
		case *SymPtr:
			a, ok := (*walk(&x.elems[0], x.path)).(Arr)
			if !ok {
				panic(unsupported("symbolic pointer indexing"))
			}
			i, t := p.idx(iv, len(a), "")
			if t != nil {
				i = int(p.concretize(t))
			}
			set(&SymPtr{x.elems, x.idx, append(append([]int{}, x.path...), i)})
		default:
			panic(unsupported(fmt.Sprintf("index address of %T", x)))
		}
	case *ssa.Index:
		x := p.get(fr, ci.ops[0])
		iv := p.get(fr, ci.ops[1])
		switch x := x.(type) {
		case Arr:
			i, t := p.idx(iv, len(x), "")
			if t != nil {
				set(p.load(&SymPtr{elems: x, idx: t}))
			} else {
				set(x[i])
			}
		default:
			n := strLen(x)
			i, t := p.idx(iv, n, "")
			if t != nil {
				set(p.load(&SymPtr{elems: strBytes(x), idx: t}))
			} else {
				set(strAt(x, i))
			}
		}
	case *ssa.Lookup:
		x := p.get(fr, ci.ops[0])
		k := p.get(fr, ci.ops[1])
		if m, ok := x.(*MapV); ok {
			mt := ins.X.Type().Underlying().(*types.Map)
			e := p.mapFind(m, k, mt.Key())
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(mt.Elem())
			}
			if ins.CommaOk {
				set(Tuple{v, e != nil})
			} else {
				set(v)
			}
			return
		}
		i, t := p.idx(k, strLen(x), "")
		if t != nil {
			set(p.load(&SymPtr{elems: strBytes(x), idx: t}))
		} else {
			set(strAt(x, i))
		}
	case *ssa.MapUpdate:
		m := p.get(fr, ci.ops[0]).(*MapV)
		p.mapSet(m, p.get(fr, ci.ops[1]), p.get(fr, ci.ops[2]), ins.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeMap:
		set(newMap())
	case *ssa.MakeSlice:
		n := p.concInt(p.get(fr, ci.ops[0]))
		c := p.concInt(p.get(fr, ci.ops[1]))
		if n < 0 || n > 1<<26 {
			panic(rtErr("makeslice: len out of range"))
		}
		if c < n || c > 1<<26 {
			panic(rtErr("makeslice: cap out of range"))
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, n, c)
		full := s[:c]
		z := zero(et)
		switch z.(type) {
		case Struct, Arr:
			for i := range full {
				full[i] = copyVal(z)
			}
		default:
			for i := range full {
				full[i] = z
			}
		}
		set(s)
	case *ssa.MakeChan:
		set(&ChanV{cap: int(p.concInt(p.get(fr, ci.ops[0])))})
	case *ssa.Slice:
		set(p.slice(ins, p.get(fr, ci.ops[0]), p.get(fr, ci.ops[1]), p.get(fr, ci.ops[2]), p.get(fr, ci.ops[3])))
	case *ssa.Call:
		set(p.callCommon(fr, &ins.Call, ci.ops))
	case *ssa.Defer:
		f, args := p.prepCall(fr, &ins.Call, ci.ops)
		fr.defers = append(fr.defers, func() {
			if b, ok := f.(*ssa.Builtin); ok {
				p.builtin(b, args, &ins.Call)
				return
			}
			p.call(f, args)
		})
	case *ssa.RunDefers:
		p.runDefers(fr)
		if fr.panicking {
			panic(targetPanic{fr.panicV})
		}
	case *ssa.Extract:
		set(p.get(fr, ci.ops[0]).(Tuple)[ins.Index])
	case *ssa.MakeInterface:
		set(Iface{ins.X.Type(), p.get(fr, ci.ops[0])})
	case *ssa.ChangeInterface:
		set(p.get(fr, ci.ops[0]))
	case *ssa.ChangeType:
		set(p.get(fr, ci.ops[0]))
	case *ssa.TypeAssert:
		set(p.typeAssert(ins, p.get(fr, ci.ops[0])))
	case *ssa.Convert:
		set(p.convert(p.get(fr, ci.ops[0]), ins.X.Type(), ins.Type()))
	case *ssa.MultiConvert:
		set(p.convert(p.get(fr, ci.ops[0]), ins.X.Type(), ins.Type()))
	case *ssa.SliceToArrayPointer:
		s := p.get(fr, ci.ops[0]).([]Value)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			panic(rtErr("cannot convert slice to array pointer"))
		}
		v := new(Value)
		*v = Arr(s[:n:n])
		set(v)
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = p.get(fr, ci.ops[i+1])
		}
		set(&Closure{ins.Fn.(*ssa.Function), env})
	case *ssa.Range:
		x := p.get(fr, ci.ops[0])
		switch x := x.(type) {
		case *MapV:
			set(p.newIter(x))
		default:
			set(&strIter{s: x})
		}
	case *ssa.Next:
		switch it := p.get(fr, ci.ops[0]).(type) {
		case *mapIter:
			if p.spec > 0 {
				panic(specAbort{"iteration"})
			}
			if e, ok := it.next(); ok {
				set(Tuple{true, e.k, copyVal(e.v)})
			} else {
				mt := ins.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
				set(Tuple{false, zero(mt.Key()), zero(mt.Elem())})
			}
		case *strIter:
			if p.spec > 0 {
				panic(specAbort{"iteration"})
			}
			if it.i >= strLen(it.s) {
				set(Tuple{false, int64(0), int64(0)})
				return
			}
			b := strAt(it.s, it.i)
			i := it.i
			if t, ok := b.(*Term); ok {
				if t.hi.Cmp(big.NewInt(127)) > 0 {
					if !p.branch(p.w.st.Lt(t, p.w.st.Int(128))) {
						panic(unsupported("symbolic non-ASCII rune"))
					}
				}
				it.i++
				set(Tuple{true, int64(i), b})
				return
			}
			if b.(int64) < 128 {
				it.i++
				set(Tuple{true, int64(i), b})
				return
			}
			raw := make([]byte, 0, 4)
			for k := i; k < strLen(it.s) && k < i+4; k++ {
				raw = append(raw, byte(p.concInt(strAt(it.s, k))))
			}
			for _, r := range string(raw) {
				n := len(string(r))
				if r == 0xFFFD && !(len(raw) >= 3 && raw[0] == 0xEF && raw[1] == 0xBF && raw[2] == 0xBD) {
					n = 1
				}
				it.i += n
				set(Tuple{true, int64(i), int64(r)})
				break
			}
		}
	case *ssa.Send:
		c := p.get(fr, ci.ops[0]).(*ChanV)
		if c == nil || len(c.buf) >= c.cap {
			panic(unsupported("blocking channel send"))
		}
		c.buf = append(c.buf, p.get(fr, ci.ops[1]))
	case *ssa.Go:
		panic(unsupported("go statement"))
	case *ssa.Select:
		panic(unsupported("select"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
}

func (p *Path) prepCall(fr *frame, c *ssa.CallCommon, ops []opref) (Value, []Value) {
	recv := p.get(fr, ops[0])
	var args []Value
	if c.IsInvoke() {
		i, ok := recv.(Iface)
		if !ok || i.t == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		if i.t == rtErrType {
			return &Native{"Error", func(p *Path, a []Value) Value { return strCat("runtime error: ", a[0]) }}, []Value{i.v}
		}
		m := p.w.eng.lookupMethod(i.t, c.Method)
		if m == nil {
			panic(unsupported("method " + c.Method.Name() + " of " + i.t.String()))
		}
		args = append(args, i.v)
		for _, o := range ops[1:] {
			args = append(args, p.get(fr, o))
		}
		return m, args
	}
	for _, o := range ops[1:] {
		args = append(args, p.get(fr, o))
	}
	return recv, args
}

func (p *Path) callCommon(fr *frame, c *ssa.CallCommon, ops []opref) Value {
	f, args := p.prepCall(fr, c, ops)
	if b, ok := f.(*ssa.Builtin); ok {
		return p.builtin(b, args, c)
	}
	return p.call(f, args)
}

func (p *Path) typeAssert(ins *ssa.TypeAssert, v Value) Value {
	i := v.(Iface)
	ok := false
	var r Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil {
			if i.t == rtErrType {
				ok = it.NumMethods() == 0 || it.NumMethods() == 1 && it.Method(0).Name() == "Error"
			} else {
				ok = types.Implements(i.t, it)
			}
		}
		r = Iface{}
		if ok {
			r = i
		}
	} else {
		ok = i.t != nil && types.Identical(i.t, ins.AssertedType)
		if ok {
			r = i.v
		} else {
			r = zero(ins.AssertedType)
		}
	}
	if ins.CommaOk {
		return Tuple{r, ok}
	}
	if !ok {
		panic(rtErr("interface conversion"))
	}
	return r
}

func (p *Path) slice(ins *ssa.Slice, x, lo, hi, max Value) Value {
	var s []Value
	isStr := false
	n, c := 0, 0
	switch a := x.(type) {
	case []Value:
		s = a
		n, c = len(a), cap(a)
	case *Value:
		if a == nil {
			panic(rtErr("invalid memory address or nil pointer dereference"))
		}
		s = (*a).(Arr)
		n, c = len(s), len(s)
		s = s[:n:n]
	default:
		isStr = true
		n = strLen(x)
		c = n
	}
	l, h, m := int64(0), int64(n), int64(c)
	if lo != nil {
		l = p.concInt(lo)
	}
	if hi != nil {
		h = p.concInt(hi)
	}
	if max != nil {
		m = p.concInt(max)
	}
	if m < 0 || m > int64(c) || h < 0 || h > m || l < 0 || l > h {
		panic(rtErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, c)))
	}
	if isStr {
		return strSub(x, int(l), int(h))
	}
	if s == nil {
		return []Value(nil)
	}
	return s[l:h:m]
}

func (p *Path) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case []Value:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case Arr:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Arr)))
		case *ChanV:
			return int64(len(x.buf))
		}
		return int64(strLen(args[0]))
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return int64(cap(x))
		case Arr:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Arr)))
		case *ChanV:
			return int64(x.cap)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a := args[0].([]Value)
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = y
		default:
			add = strBytes(y)
		}
		if len(add) == 0 {
			return a
		}
		if len(a)+len(add) <= cap(a) {
			r := a[:len(a)+len(add)]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				p.write(&r[len(a)+i], tmp[i])
			}
			return r
		}
		nc := 2 * cap(a)
		if nc < len(a)+len(add) {
			nc = len(a) + len(add)
		}
		if nc < 4 {
			nc = 4
		}
		r := make([]Value, len(a)+len(add), nc)
		for i := range a {
			r[i] = a[i]
			switch a[i].(type) {
			case Struct, Arr:
				r[i] = copyVal(a[i])
			}
		}
		for i := range add {
			r[len(a)+i] = copyVal(add[i])
		}
		// zero the spare capacity
		et := args0Elem(c, a, add)
		if et != nil {
			z := zero(et)
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = copyVal(z)
			}
		} else {
			r = r[:len(r):len(r)]
		}
		return r
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case []Value:
			src = y
		default:
			src = strBytes(y)
		}
		n := minInt(len(dst), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			p.storePtr(&dst[i], tmp[i])
		}
		return int64(n)
	case "delete":
		p.mapDelete(args[0].(*MapV), args[1], c.Args[0].Type().Underlying().(*types.Map).Key())
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		fr := p.w.panicFrame
		if fr != nil && fr.panicking {
			fr.panicking = false
			return fr.panicV
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		return nil
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, y := range args[1:] {
			r = p.minmax(b.Name() == "min", r, y, t)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			x.ents, x.idx, x.n, x.sym = nil, map[string]*mapEnt{}, 0, false
			return nil
		case []Value:
			z := zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				p.storePtr(&x[i], z)
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*Value); ok && v == nil {
			panic(rtErr("value method called using nil pointer"))
		}
		return args[0]
	}
	panic(unsupported("builtin " + b.Name()))
}

func args0Elem(c *ssa.CallCommon, a, add []Value) types.Type {
	if c == nil {
		return nil
	}
	if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (p *Path) minmax(isMin bool, x, y Value, t types.Type) Value {
	st := p.w.st
	switch {
	case isFloat(t):
		if anyFP(x, y) != nil || isNaNv(x) || isNaNv(y) {
			if xf, ok := x.(float64); ok {
				if yf, ok := y.(float64); ok {
					if isMin {
						return math.Min(xf, yf)
					}
					return math.Max(xf, yf)
				}
			}
			panic(unsupported("IEEE min/max builtin"))
		}
		return p.fminmax(isMin, x, y)
	case isString(t):
		l := p.strLt(x, y)
		if p.branch(l) == isMin {
			return x
		}
		return y
	}
	a, b := p.intTerm(x, t), p.intTerm(y, t)
	if isMin {
		return p.simp(st.Ite(st.Le(a, b), a, b))
	}
	return p.simp(st.Ite(st.Le(a, b), b, a))
}

// fminmax for exact floats.
func (p *Path) fminmax(isMin bool, x, y Value) Value {
	if xf, ok := x.(float64); ok {
		if yf, ok := y.(float64); ok {
			if isMin {
				return math.Min(xf, yf)
			}
			return math.Max(xf, yf)
		}
	}
	lt, _ := p.xcmp(x, y)
	if !isMin {
		x, y = y, x
	}
	if lt.isConst() {
		if lt.b {
			return x
		}
		return y
	}
	if !isSpecial(x) && !isSpecial(y) {
		if v, ok := p.xite(lt, x, y); ok {
			if r, ok := v.(*XF); ok {
				// bounds of the computed result
				bounds := func(o Value) (lo, hi float64) {
					switch f := o.(type) {
					case float64:
						return f, f
					case *XF:
						return f.bounds()
					}
					return math.Inf(-1), math.Inf(1)
				}
				xl, xh := bounds(x)
				yl, yh := bounds(y)
				if isMin {
					r.bound2(math.Min(xl, yl), math.Min(xh, yh))
				} else {
					r.bound2(math.Max(xl, yl), math.Max(xh, yh))
				}
				if lo, hi := r.bounds(); !math.IsInf(lo, 0) && !math.IsInf(hi, 0) {
					r.mag = math.Min(r.mag, math.Max(math.Abs(lo), math.Abs(hi))*(1+1e-12)+r.err)
				}
			}
			return v
		}
	}
	if p.branch(lt) {
		return x
	}
	return y
}

// ---------------------------------------------------------------- operators

func (p *Path) unop(ins *ssa.UnOp, x Value) Value {
	switch ins.Op {
	case token.MUL:
		return p.load(x)
	case token.NOT:
		if b, ok := x.(bool); ok {
			return !b
		}
		return p.simp(p.w.st.Not(x.(*Term)))
	case token.SUB:
		t := ins.X.Type()
		if isFloat(t) {
			switch v := x.(type) {
			case float64:
				return -v
			case *XF:
				return p.xneg(v)
			case *Term:
				return p.simp(p.w.st.FP(OFNeg, v.sort, v))
			}
		}
		w, s, _ := intKind(t)
		if v, ok := x.(int64); ok {
			return wrapInt(-v, w, s)
		}
		return p.simp(p.w.st.Wrap(p.w.st.Neg(x.(*Term)), w, s))
	case token.XOR:
		w, s, _ := intKind(ins.X.Type())
		if v, ok := x.(int64); ok {
			return wrapInt(^v, w, s)
		}
		st := p.w.st
		return p.simp(st.Wrap(st.Sub(st.Int(-1), x.(*Term)), w, s))
	case token.ARROW:
		c := x.(*ChanV)
		if c == nil || len(c.buf) == 0 {
			panic(unsupported("blocking channel receive"))
		}
		v := c.buf[0]
		c.buf = c.buf[1:]
		if ins.CommaOk {
			return Tuple{v, true}
		}
		return v
	}
	panic(unsupported("unary " + ins.Op.String()))
}

func (p *Path) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return p.simp(p.eq(x, y, t))
	case token.NEQ:
		return p.simp(p.w.st.Not(p.eq(x, y, t)))
	}
	switch {
	case isFloat(t):
		return p.fbin(op, isF32(t), x, y)
	case isString(t):
		switch op {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return p.simp(p.strLt(x, y))
		case token.GTR:
			return p.simp(p.strLt(y, x))
		case token.LEQ:
			return p.simp(p.w.st.Not(p.strLt(y, x)))
		case token.GEQ:
			return p.simp(p.w.st.Not(p.strLt(x, y)))
		}
	case isBool(t):
		a, b := p.boolTerm(x), p.boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return p.simp(p.w.st.And(a, b))
		case token.OR, token.LOR:
			return p.simp(p.w.st.Or(a, b))
		}
	}
	w, s, ok := intKind(t)
	if !ok {
		panic(unsupported("binary " + op.String() + " on " + t.String()))
	}
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return intBin(op, a, b, w, s, yt)
		}
	}
	st := p.w.st
	a := p.intTerm(x, t)
	b := p.intTerm(y, yt)
	switch op {
	case token.ADD:
		return p.simp(st.Wrap(st.Add(a, b), w, s))
	case token.SUB:
		return p.simp(st.Wrap(st.Sub(a, b), w, s))
	case token.MUL:
		return p.simp(st.Wrap(st.Mul(a, b), w, s))
	case token.QUO, token.REM:
		if p.branch(st.Eq(b, st.Int(0))) {
			panic(rtErr("integer divide by zero"))
		}
		if op == token.QUO {
			return p.simp(st.Wrap(st.TDiv(a, b), w, s))
		}
		return p.simp(st.Wrap(st.TRem(a, b), w, s))
	case token.LSS:
		return p.simp(st.Lt(a, b))
	case token.LEQ:
		return p.simp(st.Le(a, b))
	case token.GTR:
		return p.simp(st.Lt(b, a))
	case token.GEQ:
		return p.simp(st.Le(b, a))
	case token.AND:
		return p.simp(st.Wrap(st.BitOp(OBand, a, b), w, s))
	case token.OR:
		return p.simp(st.Wrap(st.BitOp(OBor, a, b), w, s))
	case token.XOR:
		return p.simp(st.Wrap(st.BitOp(OBxor, a, b), w, s))
	case token.AND_NOT:
		return p.simp(st.Wrap(st.BitOp(OBand, a, st.Sub(st.Int(-1), b)), w, s))
	case token.SHL:
		k := p.concretize(b)
		if k < 0 {
			panic(rtErr("negative shift amount"))
		}
		if k >= int64(w) {
			return int64(0)
		}
		return p.simp(st.Wrap(st.Mul(st.Big(pow2(int(k))), a), w, s))
	case token.SHR:
		k := p.concretize(b)
		if k < 0 {
			panic(rtErr("negative shift amount"))
		}
		if k > 64 {
			k = 64
		}
		return p.simp(st.FDivK(a, pow2(int(k))))
	}
	panic(unsupported("binary " + op.String()))
}

func intBin(op token.Token, a, b int64, w int, s bool, yt types.Type) Value {
	u := func(v int64) uint64 { return uint64(v) }
	switch op {
	case token.ADD:
		return wrapInt(a+b, w, s)
	case token.SUB:
		return wrapInt(a-b, w, s)
	case token.MUL:
		return wrapInt(a*b, w, s)
	case token.QUO:
		if b == 0 {
			panic(rtErr("integer divide by zero"))
		}
		if s {
			if b == -1 {
				return wrapInt(-a, w, s)
			}
			return wrapInt(a/b, w, s)
		}
		return int64(u(a) / u(b))
	case token.REM:
		if b == 0 {
			panic(rtErr("integer divide by zero"))
		}
		if s {
			if b == -1 {
				return int64(0)
			}
			return a % b
		}
		return int64(u(a) % u(b))
	case token.AND:
		return a & b
	case token.OR:
		return wrapInt(a|b, w, s)
	case token.XOR:
		return wrapInt(a^b, w, s)
	case token.AND_NOT:
		return wrapInt(a&^b, w, s)
	case token.SHL, token.SHR:
		_, ys, _ := intKind(yt)
		if ys && b < 0 {
			panic(rtErr("negative shift amount"))
		}
		if op == token.SHL {
			if u(b) >= 64 {
				return int64(0)
			}
			return wrapInt(a<<u(b), w, s)
		}
		if s {
			if u(b) >= 64 {
				b = 63
			}
			return a >> u(b)
		}
		if u(b) >= 64 {
			return int64(0)
		}
		return int64(u(a) >> u(b))
	case token.LSS:
		if s {
			return a < b
		}
		return u(a) < u(b)
	case token.LEQ:
		if s {
			return a <= b
		}
		return u(a) <= u(b)
	case token.GTR:
		if s {
			return a > b
		}
		return u(a) > u(b)
	case token.GEQ:
		if s {
			return a >= b
		}
		return u(a) >= u(b)
	}
	panic(unsupported("integer " + op.String()))
}

func (p *Path) fbin(op token.Token, f32 bool, x, y Value) Value {
	a, aok := x.(float64)
	b, bok := y.(float64)
	if aok && bok {
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(a + b)
		case token.SUB:
			return r(a - b)
		case token.MUL:
			return r(a * b)
		case token.QUO:
			return r(a / b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	st := p.w.st
	if t := anyFP(x, y); t != nil {
		u, v := p.fpTerm(x, t.sort), p.fpTerm(y, t.sort)
		switch op {
		case token.ADD:
			return p.simp(st.FP(OFAdd, t.sort, u, v))
		case token.SUB:
			return p.simp(st.FP(OFSub, t.sort, u, v))
		case token.MUL:
			return p.simp(st.FP(OFMul, t.sort, u, v))
		case token.QUO:
			return p.simp(st.FP(OFDiv, t.sort, u, v))
		case token.LSS:
			return p.simp(st.FP(OFLt, SBool, u, v))
		case token.LEQ:
			return p.simp(st.FP(OFLe, SBool, u, v))
		case token.GTR:
			return p.simp(st.FP(OFLt, SBool, v, u))
		case token.GEQ:
			return p.simp(st.FP(OFLe, SBool, v, u))
		}
	}
	if f32 {
		panic(unsupported("float32 arithmetic on exact values"))
	}
	var o Op
	switch op {
	case token.ADD:
		o = OFAdd
	case token.SUB:
		o = OFSub
	case token.MUL:
		o = OFMul
	case token.QUO:
		o = OFDiv
	default:
		if isNaNv(x) || isNaNv(y) {
			return false
		}
		lt, gt := p.xcmp(x, y)
		switch op {
		case token.LSS:
			return p.simp(lt)
		case token.GTR:
			return p.simp(gt)
		case token.LEQ:
			return p.simp(st.Not(gt))
		case token.GEQ:
			return p.simp(st.Not(lt))
		}
		panic(unsupported("float " + op.String()))
	}
	if isSpecial(x) || isSpecial(y) {
		return p.xspecial(o, x, y)
	}
	switch o {
	case OFAdd:
		return p.xadd(x, y, false)
	case OFSub:
		return p.xadd(x, y, true)
	case OFMul:
		return p.xmul(x, y)
	}
	return p.xdiv(x, y)
}

func (p *Path) convert(v Value, from, to types.Type) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if isUnsafePtr(ut) {
		if pt, ok := uf.(*types.Pointer); ok {
			return &CastPtr{v, pt.Elem(), nil}
		}
		if isUnsafePtr(uf) {
			return v
		}
		panic(unsupported("unsafe pointer conversion"))
	}
	if isUnsafePtr(uf) {
		pt, ok := ut.(*types.Pointer)
		c, ok2 := v.(*CastPtr)
		if !ok || !ok2 {
			panic(unsupported("unsafe pointer conversion"))
		}
		if types.Identical(pt.Elem(), c.from) {
			return c.ptr
		}
		return &CastPtr{c.ptr, c.from, pt.Elem()}
	}
	if tw, ts, ok := intKind(to); ok {
		if _, _, ok := intKind(from); ok {
			if i, ok := v.(int64); ok {
				return wrapInt(i, tw, ts)
			}
			return p.simp(p.w.st.Wrap(v.(*Term), tw, ts))
		}
		if isFloat(from) {
			switch f := v.(type) {
			case float64:
				if !ts && tw == 64 {
					return int64(uint64(f))
				}
				return wrapInt(int64(f), tw, ts)
			case *XF:
				r := p.xtoint(f, 2)
				if i, ok := r.(int64); ok {
					return wrapInt(i, tw, ts)
				}
				return p.simp(p.w.st.Wrap(r.(*Term), tw, ts))
			case *Term:
				st := p.w.st
				lim := st.F64(9.2e18)
				if f.sort == SF32 {
					f = st.FP(OFToF64, SF64, f)
				}
				inr := st.And(st.FP(OFLt, SBool, f, lim), st.FP(OFLt, SBool, st.F64(-9.2e18), f))
				if !p.branch(inr) {
					// implementation-defined in Go; amd64 gives the minimum
					return wrapInt(math.MinInt64, tw, ts)
				}
				return p.simp(st.Wrap(st.FP(OFToInt, SInt, f), tw, ts))
			}
		}
		if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			panic(unsupported("unsafe pointer conversion"))
		}
	}
	if isFloat(to) {
		if _, s, ok := intKind(from); ok {
			if i, ok := v.(int64); ok {
				f := float64(i)
				if !s {
					f = float64(uint64(i))
				}
				if isF32(to) {
					f = float64(float32(f))
				}
				return f
			}
			t := v.(*Term)
			if isF32(to) {
				return p.simp(p.w.st.FP(OFFromInt, SF32, t))
			}
			if p.h.ieee {
				return p.simp(p.w.st.FP(OFFromInt, SF64, t))
			}
			return p.xFromInt(t)
		}
		if isFloat(from) {
			if isF32(to) == isF32(from) {
				return v
			}
			switch f := v.(type) {
			case float64:
				if isF32(to) {
					return float64(float32(f))
				}
				return f
			case *Term:
				if isF32(to) {
					return p.simp(p.w.st.FP(OFToF32, SF32, f))
				}
				return p.simp(p.w.st.FP(OFToF64, SF64, f))
			case *XF:
				if isF32(to) {
					x := *f
					e := f.err + math.Ldexp(halfUlp(f.mag+f.err), 29)
					if f.err == 0 && f.root == nil && len(f.den) == 0 && f.dk == nil {
						m := maxB(new(big.Int).Abs(f.n.lo), new(big.Int).Abs(f.n.hi))
						if m.BitLen() <= 24 {
							e = 0
						}
					}
					if e == 0 {
						return v
					}
					x.pure = false
					x.rel, x.op, x.a, x.b, x.es, x.ms = -1, 0, nil, nil, nil, nil
					return p.xmk(p.xkey("f32", f.id), &x, e, true)
				}
				return v
			}
		}
	}
	if isString(to) {
		switch u := uf.(type) {
		case *types.Slice:
			s := v.([]Value)
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return mkStr(s)
			}
			// runes
			var sb strings.Builder
			out := []Value{}
			sym := false
			for _, r := range s {
				if t, ok := r.(*Term); ok {
					if t.hi.Cmp(big.NewInt(127)) > 0 || t.lo.Sign() < 0 {
						if !p.branch(p.w.st.And(p.w.st.Le(p.w.st.Int(0), t), p.w.st.Lt(t, p.w.st.Int(128)))) {
							panic(unsupported("symbolic non-ASCII rune"))
						}
					}
					sym = true
					out = append(out, t)
					continue
				}
				e := string(rune(r.(int64)))
				sb.WriteString(e)
				out = append(out, strBytes(e)...)
			}
			if sym {
				return mkStr(out)
			}
			return sb.String()
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return v
			}
			if u.Info()&types.IsInteger != 0 {
				if t, ok := v.(*Term); ok {
					if !p.branch(p.w.st.And(p.w.st.Le(p.w.st.Int(0), t), p.w.st.Lt(t, p.w.st.Int(128)))) {
						panic(unsupported("symbolic non-ASCII rune"))
					}
					return &SStr{[]Value{t}}
				}
				return string(rune(v.(int64)))
			}
		}
	}
	if sl, ok := ut.(*types.Slice); ok && isString(from) {
		b := sl.Elem().Underlying().(*types.Basic)
		if b.Kind() == types.Uint8 {
			return append([]Value{}, strBytes(v)...)
		}
		out := []Value{}
		it := &strIter{s: v}
		_ = it
		for i := 0; i < strLen(v); {
			x := strAt(v, i)
			if t, ok := x.(*Term); ok {
				if t.hi.Cmp(big.NewInt(127)) > 0 && !p.branch(p.w.st.Lt(t, p.w.st.Int(128))) {
					panic(unsupported("symbolic non-ASCII rune"))
				}
				out = append(out, t)
				i++
				continue
			}
			if x.(int64) < 128 {
				out = append(out, x)
				i++
				continue
			}
			rs := []rune(p.concStr(strSub(v, i, minInt(i+4, strLen(v)))))
			out = append(out, int64(rs[0]))
			n := len(string(rs[0]))
			if rs[0] == 0xFFFD {
				n = 1
			}
			i += n
		}
		return out
	}
	if types.Identical(uf, ut) {
		return v
	}
	if _, ok := ut.(*types.Pointer); ok {
		if _, ok := uf.(*types.Pointer); ok {
			return v
		}
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	panic(unsupported("conversion " + from.String() + " to " + to.String()))
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// reinterpret reads the bits of a value as another type of the same layout.
func (p *Path) reinterpret(v Value, from, to types.Type) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if types.Identical(uf, ut) {
		return v
	}
	if af, ok := uf.(*types.Array); ok {
		if at, ok := ut.(*types.Array); ok && at.Len() == af.Len() {
			r := make(Arr, len(v.(Arr)))
			for i, x := range v.(Arr) {
				r[i] = p.reinterpret(x, af.Elem(), at.Elem())
			}
			return r
		}
	}
	fb, ok1 := uf.(*types.Basic)
	tb, ok2 := ut.(*types.Basic)
	if ok1 && ok2 {
		n := ""
		switch {
		case fb.Kind() == types.Float32 && tb.Kind() == types.Uint32:
			n = "Float32bits"
		case fb.Kind() == types.Float64 && tb.Kind() == types.Uint64:
			n = "Float64bits"
		case fb.Kind() == types.Uint32 && tb.Kind() == types.Float32:
			n = "Float32frombits"
		case fb.Kind() == types.Uint64 && tb.Kind() == types.Float64:
			n = "Float64frombits"
		}
		if n != "" {
			r, _ := mathIntrinsic(n)(p, nil, []Value{v})
			return r
		}
		wf, _, o1 := intKind(from)
		wt, ts, o2 := intKind(to)
		if o1 && o2 && wf == wt {
			if i, ok := v.(int64); ok {
				return wrapInt(i, wt, ts)
			}
			return p.simp(p.w.st.Wrap(v.(*Term), wt, ts))
		}
	}
	panic(unsupported("reading memory as another type"))
}
