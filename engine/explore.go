package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HStat collects what happened on one harness.
type HStat struct {
	Paths, Complete, Discarded, Inconclusive int64
	Unsupported, StepLimit, TimedOut         int64
	Unknown                                  int64 // branch alternatives the solver left open
	Asserts, Folded, AssertUnknown, Spurious int64
	Decisions                                int64
	Validated, Mismatch                      int64
	Steps                                    int64
	Imprecise                                int64
	Covers                                   map[string]int
	Notes                                    map[string]int
	Samples                                  []map[string]string
	Start, End                               time.Time
}

type task struct {
	h     *Harness
	dec   []Decision
	model Model
}

type Violation struct {
	Prop    string
	Harness string
	Label   string
	Kind    string
	Inputs  map[string]string
	Detail  string
}

func (v *Violation) key() string { return v.Harness + "/" + v.Label }

type timeUp struct{}

type Engine struct {
	verif, repo, work string
	tier              int
	seed              int
	mods              map[string]*Module
	hs                []*Harness
	deadline          time.Time
	mu                sync.Mutex
	cond              *sync.Cond
	queue             map[*Harness][]task
	running           map[*Harness]int
	active            int
	stop              bool
	violations        []*Violation
	vkeys             map[string]bool
	stats             SolverStats
	fns               sync.Map
	methods           sync.Map
	intr              sync.Map
	verbose           bool
	known             func(v *Violation) bool
	workers           int
	repoPkgs          sync.Map
	maxTasks          int
}

type Worker struct {
	eng        *Engine
	id         int
	st         *Store
	xf         *xfStore
	pos        map[string]*Term
	solver     *Solver
	globals    map[*ssa.Global]*Value
	inited     map[*ssa.Package]bool
	panicFrame *frame
	repl       *Replayer
	h          *Harness
	ticks      int
	rnd        *rand.Rand
}

func (w *Worker) reset() {
	w.st = NewStore()
	w.xf = newXfStore()
	w.pos = map[string]*Term{}
	procs := map[string]*Proc{}
	if w.solver != nil {
		procs = w.solver.procs
	}
	w.solver = NewSolver(w.st, &w.eng.stats)
	w.solver.procs = procs
	w.solver.dead = w.eng.deadline
	if w.eng.verbose {
		w.solver.log = func(s string) { fmt.Fprintln(os.Stderr, "solver:", s) }
	}
	w.globals = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]bool{}
}

func (w *Worker) checkTime() {
	if time.Now().After(w.eng.deadline) {
		panic(timeUp{})
	}
	if w.eng.stop {
		panic(timeUp{})
	}
}

func (e *Engine) isRepoPkg(p *ssa.Package) bool {
	if p == nil {
		return true
	}
	if v, ok := e.repoPkgs.Load(p); ok {
		return v.(bool)
	}
	path := p.Pkg.Path()
	r := false
	for _, m := range e.mods {
		if path == m.path || strings.HasPrefix(path, m.path+"/") {
			r = true
		}
	}
	e.repoPkgs.Store(p, r)
	return r
}

func (e *Engine) noteFn(fi *fnInfo) {
	if _, ok := e.fns.Load(fi.fn); !ok {
		e.fns.Store(fi.fn, true)
	}
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	type key struct {
		t types.Type
		m *types.Func
	}
	k := key{t, m}
	if f, ok := e.methods.Load(k); ok {
		return f.(*ssa.Function)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	var fn *ssa.Function
	for _, mod := range e.mods {
		prog := mod.prog
		sel := prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		fn = prog.MethodValue(sel)
		if fn != nil {
			break
		}
	}
	e.methods.Store(k, fn)
	return fn
}

// initPkg runs the initialiser of a package outside the repository, once per worker.
func (w *Worker) initPkg(pkg *ssa.Package, from *Path) {
	if pkg == nil || w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	h := *from.h
	h.maxSteps = 50000000
	q := newPath(w, &h, nil, Model{})
	q.noPush = true
	saved := w.panicFrame
	defer func() {
		w.panicFrame = saved
		if r := recover(); r != nil {
			switch r.(type) {
			case unsupported, targetPanic, pathEnd, stepLimit:
				return
			}
			panic(r)
		}
	}()
	q.initRunning = fn
	q.callFn(fn, nil, nil)
}

func newPath(w *Worker, h *Harness, dec []Decision, m Model) *Path {
	return &Path{w: w, h: h, prefix: dec, model: m, pcSet: map[*Term]bool{}, names: map[string]int{}, ambs: map[[2]int][2]*Term{}, globals: map[*ssa.Global]*Value{}, files: map[string]*FileV{}}
}

func (e *Engine) push(h *Harness, dec []Decision, m Model) {
	e.mu.Lock()
	e.queue[h] = append(e.queue[h], task{h, dec, m})
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() (task, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			e.stop = true
			e.cond.Broadcast()
			return task{}, false
		}
		var best *Harness
		for _, h := range e.hs {
			if len(e.queue[h]) == 0 {
				continue
			}
			if best == nil || e.running[h] < e.running[best] {
				best = h
			}
		}
		if best != nil {
			q := e.queue[best]
			t := q[len(q)-1]
			e.queue[best] = q[:len(q)-1]
			e.running[best]++
			e.active++
			if best.stat.Start.IsZero() {
				best.stat.Start = time.Now()
			}
			return t, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return task{}, false
		}
		e.cond.Wait()
	}
}
func (e *Engine) done(h *Harness) {
	e.mu.Lock()
	e.running[h]--
	e.active--
	h.stat.End = time.Now()
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Engine) note(h *Harness, s string) {
	e.mu.Lock()
	if h.stat.Notes == nil {
		h.stat.Notes = map[string]int{}
	}
	if len(h.stat.Notes) < 60 || h.stat.Notes[s] > 0 {
		h.stat.Notes[s]++
	}
	e.mu.Unlock()
}

func (e *Engine) report(v *Violation) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.vkeys[v.key()] {
		return
	}
	e.vkeys[v.key()] = true
	e.violations = append(e.violations, v)
	if e.known == nil || !e.known(v) {
		e.stop = true
	}
}

func (e *Engine) run() {
	e.cond = sync.NewCond(&e.mu)
	e.queue = map[*Harness][]task{}
	e.running = map[*Harness]int{}
	e.vkeys = map[string]bool{}
	for i := len(e.hs) - 1; i >= 0; i-- {
		h := e.hs[i]
		if h.fn != nil {
			e.queue[h] = append(e.queue[h], task{h, nil, Model{}})
		}
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			e.cond.Broadcast()
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{eng: e, id: i, repl: &Replayer{eng: e, id: i}, rnd: rand.New(rand.NewSource(int64(i + 1)))}
			w.reset()
			defer w.repl.close()
			defer func() { w.solver.Close() }()
			for {
				t, ok := e.pop()
				if !ok {
					return
				}
				w.runTask(t)
				e.done(t.h)
				if w.st.next > 3000000 {
					w.reset()
				}
			}
		}(i)
	}
	wg.Wait()
	e.mu.Lock()
	for _, h := range e.hs {
		h.stat.TimedOut += int64(len(e.queue[h]))
	}
	e.mu.Unlock()
}

func (w *Worker) runTask(t task) {
	h := t.h
	w.h = h
	w.solver.big = time.Duration(h.big) * time.Second
	p := newPath(w, h, t.dec, t.model)
	atomic.AddInt64(&h.stat.Paths, 1)
	w.panicFrame = nil
	outcome := p.runMain()
	atomic.AddInt64(&h.stat.Steps, int64(p.steps))
	atomic.AddInt64(&h.stat.Decisions, int64(len(p.dec)-len(t.dec)))
	atomic.AddInt64(&h.stat.Unknown, int64(p.unknowns))
	atomic.AddInt64(&h.stat.Asserts, int64(p.asserts))
	atomic.AddInt64(&h.stat.Folded, int64(p.folded))
	atomic.AddInt64(&h.stat.Imprecise, int64(p.imprecise))
	switch o := outcome.(type) {
	case nil:
		atomic.AddInt64(&h.stat.Complete, 1)
		w.eng.mu.Lock()
		if h.stat.Covers == nil {
			h.stat.Covers = map[string]int{}
		}
		for _, c := range p.covers {
			h.stat.Covers[c]++
		}
		w.eng.mu.Unlock()
		p.validate()
	case pathEnd:
		atomic.AddInt64(&h.stat.Discarded, 1)
	case timeUp:
		atomic.AddInt64(&h.stat.TimedOut, 1)
	case targetPanic:
		msg := p.panicText(o.v)
		if !w.confirm(p, p.model, "panic", "no-panic", msg) {
			atomic.AddInt64(&h.stat.Inconclusive, 1)
			atomic.AddInt64(&h.stat.Spurious, 1)
			w.eng.note(h, "panic not reproduced: "+msg)
		}
	case stepLimit:
		if !w.confirm(p, p.model, "hang", "terminates", "step bound reached") {
			atomic.AddInt64(&h.stat.StepLimit, 1)
			atomic.AddInt64(&h.stat.Inconclusive, 1)
			w.eng.note(h, "step bound reached")
		}
	case unsupported:
		atomic.AddInt64(&h.stat.Unsupported, 1)
		atomic.AddInt64(&h.stat.Inconclusive, 1)
		w.eng.note(h, "unsupported: "+string(o)+" at "+posOf(w.eng.progOf(h), p.lastPos))
		// the concrete inputs of this path still run natively
		p.validate()
	case string:
		atomic.AddInt64(&h.stat.Inconclusive, 1)
		w.eng.note(h, "engine: "+o)
		p.validate()
	}
}

func (e *Engine) progOf(h *Harness) *ssa.Program { return e.mods[h.module].prog }

func (p *Path) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(string); ok {
			return s
		}
		return fmt.Sprintf("%v", i.t)
	}
	return fmt.Sprintf("%T", v)
}

func (p *Path) runMain() (outcome interface{}) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathEnd, timeUp, targetPanic, stepLimit, unsupported:
			outcome = x
		case specAbort:
			outcome = "speculation escaped: " + x.why
		default:
			s := fmt.Sprint(r)
			if p.w.eng.verbose {
				s += "\n" + string(debug.Stack())
			}
			outcome = s
		}
	}()
	if fn := p.h.fn.Pkg.Func("init"); fn != nil {
		p.callFn(fn, nil, nil)
	}
	p.callFn(p.h.fn, nil, nil)
	return nil
}

// ---------------------------------------------------------------- inputs

func (p *Path) inputName(name string) string {
	k := p.names[name]
	p.names[name]++
	if k > 0 {
		name += "#" + strconv.Itoa(k)
	}
	return name
}

func (p *Path) inputs2(m Model) map[string]string {
	out := map[string]string{}
	for _, in := range p.inputs {
		v := m.eval(in.t, map[*Term]CV{})
		switch in.kind {
		case "int":
			out[in.name] = v.i.String()
		case "bool":
			out[in.name] = strconv.FormatBool(v.b)
		case "f64":
			out[in.name] = strconv.FormatUint(math.Float64bits(v.f), 16)
		}
	}
	return out
}

// assume restricts the path; it ends when nothing is left.
func (p *Path) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathEnd{})
	}
	if p.pcSet[c] {
		return
	}
	if p.pcSet[p.w.st.Not(c)] {
		panic(pathEnd{})
	}
	if p.model.eval(c, map[*Term]CV{}).b {
		p.addPC(c)
		return
	}
	if p.spec > 0 {
		panic(specAbort{"assume"})
	}
	p.w.checkTime()
	v, m := p.w.solver.Check(p.pc, c, true)
	switch v {
	case Sat:
		p.model = p.mergeModel(m)
		p.addPC(c)
	case Unsat:
		panic(pathEnd{})
	default:
		p.unknowns++
		p.w.eng.note(p.h, "assumption undecided")
		panic(pathEnd{})
	}
}

func (p *Path) assertion(c *Term, label string) {
	if p.spec > 0 {
		panic(specAbort{"assert"})
	}
	if p.pos < len(p.prefix) {
		// decided by the path this one was split from
		return
	}
	p.asserts++
	if c.isTrue() || p.pcSet[c] {
		p.folded++
		return
	}
	p.w.checkTime()
	st := p.w.st
	neg := st.Not(c)
	pc := p.pc
	if p.model.eval(neg, map[*Term]CV{}).b && p.w.confirm(p, p.model, "assert", label, "") {
		// the solver's model of the path is a counterexample itself
		p.holding(c)
		return
	}
	for try := 0; try < 4; try++ {
		v, m := p.w.solver.Check(pc, neg, true)
		if v == Unsat {
			return // implied by the path condition
		}
		if v == Unknown {
			p.w.checkTime()
			if mm, ok := p.pinned(pc, neg, 6); ok && p.w.confirm(p, mm, "assert", label, "") {
				break
			}
			atomic.AddInt64(&p.h.stat.AssertUnknown, 1)
			p.w.eng.note(p.h, "assertion undecided: "+label)
			break
		}
		mm := p.mergeModel(m)
		if p.w.confirm(p, mm, "assert", label, "") {
			break
		}
		atomic.AddInt64(&p.h.stat.Spurious, 1)
		if p.w.eng.verbose {
			fmt.Fprintln(os.Stderr, "not reproduced natively:", p.h.name, label, p.inputs2(mm))
		}
		if len(p.ambs) == 0 {
			atomic.AddInt64(&p.h.stat.Mismatch, 1)
			p.w.eng.note(p.h, "counterexample not reproduced natively: "+label)
			break
		}
		if try == 1 && p.w.probe(p, mm, label) {
			break
		}
		if try == 3 {
			atomic.AddInt64(&p.h.stat.Inconclusive, 1)
			p.w.eng.note(p.h, "only rounding-ambiguous counterexamples: "+label)
			break
		}
		// block this input
		var eqs []*Term
		memo := map[*Term]CV{}
		for _, in := range p.inputs {
			cv := mm.eval(in.t, memo)
			switch in.kind {
			case "int":
				eqs = append(eqs, st.Eq(in.t, st.Big(cv.i)))
			case "bool":
				eqs = append(eqs, st.Eq(in.t, st.Bool(cv.b)))
			case "f64":
				eqs = append(eqs, st.FP(OFSame, SBool, in.t, st.F64(cv.f)))
			}
		}
		pc = append(append([]*Term{}, pc...), st.Not(st.And(eqs...)))
	}
	p.holding(c)
}

// holding continues where an assertion holds.
func (p *Path) holding(c *Term) {
	if c.isFalse() {
		panic(pathEnd{})
	}
	if p.model.eval(c, map[*Term]CV{}).b {
		p.addPC(c)
		return
	}
	v, m := p.w.solver.Check(p.pc, c, true)
	if v != Sat {
		panic(pathEnd{})
	}
	p.model = p.mergeModel(m)
	p.addPC(c)
}

// pinned asks a question the solver left open again with most of its variables fixed to
// their values in the path's model. A model found is a model of the question; finding none
// decides nothing.
func (p *Path) pinned(pc []*Term, goal *Term, tries int) (Model, bool) {
	st := p.w.st
	vars := goal.vars
	for i := 0; i < tries && len(vars) > 1; i++ {
		if atomic.AddInt64(&p.h.pins, 1) > 60 {
			return nil, false
		}
		free := map[*Term]bool{}
		for k := 0; k <= i/2; k++ {
			free[vars[p.w.rnd.Intn(len(vars))]] = true
		}
		qs := append([]*Term{}, pc...)
		memo := map[*Term]CV{}
		for _, v := range vars {
			if v.sort == SInt && !free[v] {
				qs = append(qs, st.Eq(v, st.Big(p.model.eval(v, memo).i)))
			}
		}
		if v, m := p.w.solver.Check(qs, goal, false); v == Sat {
			return p.mergeModel(m), true
		}
	}
	return nil, false
}

// validate runs the path's own inputs natively: the native run must agree with the
// symbolic one, and must not fail.
func (p *Path) validate() {
	w := p.w
	in := p.inputs2(p.model)
	w.eng.mu.Lock()
	if len(p.h.stat.Samples) < 4 && len(in) > 0 {
		p.h.stat.Samples = append(p.h.stat.Samples, in)
	}
	w.eng.mu.Unlock()
	if p.h.stat.Validated > 20000 && p.w.id != 0 {
		return
	}
	r := w.repl.run(p.h, in, 20*time.Second)
	if r == nil {
		return
	}
	if r.Hang || r.Crash || r.Panic != "" || len(r.Fails) > 0 {
		// the real code fails on an input of this path
		label, kind := "", "assert"
		switch {
		case r.Hang:
			label, kind = "terminates", "hang"
		case r.Crash, r.Panic != "":
			label, kind = "no-panic", "panic"
		default:
			label = r.Fails[0]
		}
		w.confirm(p, p.model, kind, label, "found while validating the path natively: "+r.Panic)
		return
	}
	if r.Assume {
		if len(p.ambs) == 0 {
			atomic.AddInt64(&p.h.stat.Mismatch, 1)
			w.eng.note(p.h, "native run rejects the inputs of a path")
			if w.eng.verbose {
				fmt.Fprintln(os.Stderr, "native rejects", p.h.name, in)
			}
		}
		return
	}
	if s := p.compareObs(r.Obs); s != "" {
		if len(p.ambs) == 0 && !p.h.mapAny {
			atomic.AddInt64(&p.h.stat.Mismatch, 1)
			w.eng.note(p.h, "native run differs: "+s)
			if w.eng.verbose {
				fmt.Fprintln(os.Stderr, "native run differs", p.h.name, in, s)
			}
		}
		return
	}
	atomic.AddInt64(&p.h.stat.Validated, 1)
}

func (p *Path) compareObs(native []string) string {
	if len(native) != len(p.observes) {
		return fmt.Sprintf("%d observations, native %d", len(p.observes), len(native))
	}
	memo := map[*Term]CV{}
	for i, o := range p.observes {
		pre := o.label + "="
		if !strings.HasPrefix(native[i], pre) {
			return "observation order"
		}
		nv := native[i][len(pre):]
		switch v := o.v.(type) {
		case int64:
			if strconv.FormatInt(v, 10) != nv {
				return fmt.Sprint(o.label, " ", v, " native ", nv)
			}
		case string:
			if strconv.Quote(v) != nv {
				return fmt.Sprint(o.label, " ", v, " native ", nv)
			}
		case *SStr:
			b := make([]byte, len(v.b))
			for k, x := range v.b {
				if c, ok := x.(int64); ok {
					b[k] = byte(c)
				} else {
					b[k] = byte(p.model.eval(x.(*Term), memo).i.Int64())
				}
			}
			if strconv.Quote(string(b)) != nv {
				return fmt.Sprint(o.label, " ", string(b), " native ", nv)
			}
		case float64, *XF:
			bits, _ := strconv.ParseUint(strings.TrimPrefix(nv, "f"), 16, 64)
			nf := math.Float64frombits(bits)
			if f, ok := v.(float64); ok {
				if f != nf && !(math.IsNaN(f) && math.IsNaN(nf)) {
					return fmt.Sprint(o.label, " ", f, " native ", nf)
				}
				continue
			}
			x := v.(*XF)
			r, e := p.evalXF(x, memo)
			if math.IsNaN(nf) || math.IsInf(nf, 0) {
				if !math.IsInf(e, 0) {
					return fmt.Sprint(o.label, " native ", nf)
				}
				continue
			}
			d := new(big.Float).SetPrec(400).Sub(r, new(big.Float).SetFloat64(nf))
			df, _ := d.Abs(d).Float64()
			if df > e {
				rf, _ := r.Float64()
				return fmt.Sprint(o.label, " ", rf, " native ", nf, " error bound ", e)
			}
		case *Term:
			cv := p.model.eval(v, memo)
			switch v.sort {
			case SInt:
				if cv.i.String() != nv {
					return fmt.Sprint(o.label, " ", cv.i, " native ", nv)
				}
			case SF64, SF32:
				bits, _ := strconv.ParseUint(strings.TrimPrefix(nv, "f"), 16, 64)
				nf := math.Float64frombits(bits)
				if cv.f != nf && !(math.IsNaN(cv.f) && math.IsNaN(nf)) {
					return fmt.Sprint(o.label, " ", cv.f, " native ", nf)
				}
			}
		}
	}
	return ""
}

func (p *Path) evalXF(x *XF, memo map[*Term]CV) (*big.Float, float64) {
	const prec = 400
	fl := func(b *big.Int) *big.Float { return new(big.Float).SetPrec(prec).SetInt(b) }
	r := fl(p.model.eval(x.n, memo).i)
	if x.root != nil {
		q := fl(p.model.eval(x.root, memo).i)
		if q.Sign() > 0 {
			r.Mul(r, new(big.Float).SetPrec(prec).Sqrt(q))
		} else {
			r.SetInt64(0)
		}
	}
	if x.dk != nil {
		r.Quo(r, fl(x.dk))
	}
	for _, d := range x.den {
		v := fl(p.model.eval(d, memo).i)
		if v.Sign() != 0 {
			r.Quo(r, v)
		}
	}
	r.SetMantExp(r, x.e)
	e := x.err
	rf, _ := r.Float64()
	return r, e + math.Abs(rf)*1e-40
}

// confirm replays a candidate failure on the real code.
func (w *Worker) confirm(p *Path, m Model, kind, label, detail string) bool {
	return w.confirmInputs(p, p.inputs2(m), kind, label, detail)
}

// probe looks for a failing input around a candidate the solver could not tell from one that
// rounding rescues: the candidate's values are replaced by others of their ranges and the real
// code is run on them. It never decides that an assertion holds.
func (w *Worker) probe(p *Path, m Model, label string) bool {
	base := p.inputs2(m)
	for i := 0; i < 40; i++ {
		if atomic.AddInt64(&p.h.probes, 1) > 3000 {
			return false
		}
		in := map[string]string{}
		for _, x := range p.inputs {
			in[x.name] = base[x.name]
			if x.kind != "int" || x.t.op != OVar || w.rnd.Intn(4) == 0 {
				continue
			}
			d := new(big.Int).Sub(x.t.hi, x.t.lo)
			if d.Sign() <= 0 {
				continue
			}
			v := new(big.Int).Rand(w.rnd, d.Add(d, big1))
			in[x.name] = v.Add(v, x.t.lo).String()
		}
		if w.confirmInputs(p, in, "assert", label, "found next to a candidate of the solver") {
			return true
		}
	}
	return false
}

func (w *Worker) confirmInputs(p *Path, in map[string]string, kind, label, detail string) bool {
	n := 1
	if p.h.mapAny {
		n = 300
	}
	for i := 0; i < n; i++ {
		r := w.repl.run(p.h, in, 20*time.Second)
		if r == nil {
			return false
		}
		if r.Assume {
			return false
		}
		bad := ""
		switch {
		case r.Hang:
			// once more, to be sure
			if r2 := w.repl.run(p.h, in, 30*time.Second); r2 != nil && r2.Hang {
				bad = "does not terminate"
				kind, label = "hang", "terminates"
			}
		case r.Crash:
			bad = "the process dies: " + r.Panic
			kind, label = "panic", "no-panic"
		case r.Panic != "":
			bad = "panic: " + r.Panic
			kind, label = "panic", "no-panic"
		case len(r.Fails) > 0:
			label, kind = r.Fails[0], "assert"
			bad = "assertion fails: " + strings.Join(uniqStr(r.Fails), ", ")
		}
		if bad != "" {
			if detail != "" {
				bad += " (" + detail + ")"
			}
			w.eng.report(&Violation{Prop: p.h.prop, Harness: p.h.name, Label: label, Kind: kind, Inputs: in, Detail: bad})
			return true
		}
	}
	return false
}

func uniqStr(s []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	sort.Strings(o)
	return o
}

var _ = filepath.Join
