package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- solver processes

type Proc struct {
	name   string
	argv   []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	broken bool
	runs   int
}

func newProc(name string, argv ...string) *Proc { return &Proc{name: name, argv: argv} }

func (p *Proc) start() error {
	p.cmd = exec.Command(p.argv[0], p.argv[1:]...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.in, p.out = in, bufio.NewReaderSize(out, 1<<16)
	p.broken = false
	p.runs = 0
	return p.cmd.Start()
}
func (p *Proc) stop() {
	if p.cmd != nil && p.cmd.Process != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	p.cmd = nil
}

// send runs one self-contained script and returns everything printed for it.
func (p *Proc) send(script string, limit time.Duration) (string, bool) {
	if p.cmd == nil || p.broken || p.runs > 4000 {
		p.stop()
		if err := p.start(); err != nil {
			return "", false
		}
	}
	p.runs++
	type res struct {
		s  string
		ok bool
	}
	ch := make(chan res, 1)
	in, out := p.in, p.out
	go func() {
		if _, err := io.WriteString(in, script); err != nil {
			ch <- res{"", false}
			return
		}
		var b bytes.Buffer
		for {
			line, err := out.ReadString('\n')
			if err != nil {
				ch <- res{b.String(), false}
				return
			}
			if strings.Contains(line, "<<done>>") {
				ch <- res{b.String(), true}
				return
			}
			b.WriteString(line)
		}
	}()
	select {
	case r := <-ch:
		if !r.ok {
			p.broken = true
		}
		return r.s, r.ok
	case <-time.After(limit):
		p.broken = true
		p.stop()
		<-ch
		return "", false
	}
}

// ---------------------------------------------------------------- statistics

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, CacheHits int64
	Nanos                                   int64
	ByEngine                                [8]int64
	MaxNanos                                int64
}

type Verdict int

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func (v Verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

type Solver struct {
	st     *Store
	procs  map[string]*Proc
	cache  map[string]cached
	stats  *SolverStats
	norm   map[*Term]*Term
	polys  map[*Term]*Poly
	canons map[*Term]*Term
	ident  map[*Term]bool // comparisons that expand to constants
	dead   time.Time
	big    time.Duration // budget for one hard query
	log    func(string)
}
type cached struct {
	v Verdict
	m Model
}

func NewSolver(st *Store, stats *SolverStats) *Solver {
	return &Solver{st: st, stats: stats, procs: map[string]*Proc{}, cache: map[string]cached{}, norm: map[*Term]*Term{}, polys: map[*Term]*Poly{}, canons: map[*Term]*Term{}, ident: map[*Term]bool{}, big: 20 * time.Second}
}
func (s *Solver) Close() {
	for _, p := range s.procs {
		p.stop()
	}
}
func (s *Solver) proc(n string) *Proc {
	if p, ok := s.procs[n]; ok {
		return p
	}
	var p *Proc
	switch n {
	case "z3bv", "z3int", "z3real":
		p = newProc(n, "z3-new", "-in", "-smt2", "-memory:2500")
	case "z3old":
		p = newProc(n, "z3", "-in", "-smt2", "-memory:2500")
	case "cvc5bv", "cvc5int":
		p = newProc(n, "cvc5", "--lang=smt2", "--incremental", "-q")
	}
	s.procs[n] = p
	return p
}

// slice keeps the constraints connected to the goal through shared variables.
func slice(pc []*Term, goal *Term) []*Term {
	vars := map[*Term]bool{}
	for _, v := range goal.vars {
		vars[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range c.vars {
					if !vars[v] {
						vars[v] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if used[i] {
			out = append(out, c)
		}
	}
	return out
}

// Check decides pc and goal; a Sat answer comes with values for the variables of the slice.
func (s *Solver) Check(pc []*Term, goal *Term, hard bool) (Verdict, Model) {
	if goal.isFalse() {
		return Unsat, nil
	}
	cs := append(slice(pc, goal), goal)
	ids := make([]int, 0, len(cs))
	seen := map[int]bool{}
	var uniq []*Term
	for _, c := range cs {
		if c.isFalse() {
			return Unsat, nil
		}
		if c.isTrue() || seen[c.id] {
			continue
		}
		seen[c.id] = true
		uniq = append(uniq, c)
		ids = append(ids, c.id)
	}
	if len(uniq) == 0 {
		return Sat, Model{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if c, ok := s.cache[key]; ok && (c.v != Unknown || !hard) {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		return c.v, c.m
	}
	t0 := time.Now()
	v, m := s.solve(uniq, hard)
	d := int64(time.Since(t0))
	atomic.AddInt64(&s.stats.Nanos, d)
	for {
		old := atomic.LoadInt64(&s.stats.MaxNanos)
		if d <= old || atomic.CompareAndSwapInt64(&s.stats.MaxNanos, old, d) {
			break
		}
	}
	atomic.AddInt64(&s.stats.Queries, 1)
	switch v {
	case Sat:
		atomic.AddInt64(&s.stats.Sat, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.Unsat, 1)
	default:
		atomic.AddInt64(&s.stats.Unknown, 1)
	}
	s.cache[key] = cached{v, m}
	return v, m
}

type stage struct {
	eng string
	ms  int
}

func (s *Solver) solve(cs []*Term, hard bool) (Verdict, Model) {
	fp, bits, nl := false, false, false
	maxw := 0
	seen := map[*Term]bool{}
	size := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		size++
		if t.sort == SInt && t.op != OConst {
			if w := swidth(t); w > maxw {
				maxw = w
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, c := range cs {
		fp = fp || c.fp
		bits = bits || c.bits
		nl = nl || c.nl
	}
	norm := make([]*Term, len(cs))
	for i, c := range cs {
		norm[i] = s.normalise(c)
		walk(norm[i])
	}
	b := int(s.big / time.Millisecond)
	var stages []stage
	switch {
	case fp:
		stages = []stage{{"z3bv", 700}, {"cvc5bv", b / 2}, {"z3bv", b / 4}, {"cvc5bv", b}, {"z3bv", b}}
	case bits:
		stages = []stage{{"z3bv", b / 2}, {"cvc5bv", b / 2}, {"z3old", b / 2}}
	case nl && maxw > 48:
		stages = []stage{{"z3int", minInt(1500, b/4)}, {"z3bv", b / 3}, {"z3int", b / 3}, {"cvc5int", b / 3}, {"cvc5bv", b / 2}}
	case nl:
		stages = []stage{{"z3bv", b / 3}, {"z3int", b / 3}, {"cvc5bv", b / 3}, {"z3old", b / 3}}
	case maxw > 48:
		stages = []stage{{"z3real", 2000}, {"z3int", b / 2}, {"z3bv", b / 2}, {"cvc5int", b / 2}}
	default:
		stages = []stage{{"z3bv", b / 2}, {"z3int", b / 2}, {"cvc5int", b / 2}}
	}
	if nl && !fp && !bits {
		// quick look, then a search among small values, before the long runs
		first := stages[0]
		first.ms = minInt(first.ms, 2000)
		pre := []stage{first, {"z3real", 1500}}
		if hasWide(norm) {
			pre = append(pre, stage{"z3bv!", 2500})
		}
		stages = append(pre, stages...)
	}
	if s.hasIdent(norm) && !fp && !bits {
		// a polynomial identity: rewriting to sums of monomials decides it
		stages = append([]stage{{"z3int", 4000}}, stages...)
	}
	for si, g := range stages {
		if !hard && si >= 4 {
			break
		}
		small := strings.HasSuffix(g.eng, "!")
		g.eng = strings.TrimSuffix(g.eng, "!")
		if !s.dead.IsZero() && time.Now().After(s.dead) {
			return Unknown, nil
		}
		real := g.eng == "z3real"
		isInt := strings.HasSuffix(g.eng, "int") || real
		if isInt && (fp || bits) {
			continue
		}
		ms := g.ms
		if ms < 50 {
			ms = 50
		}
		qs := norm
		if small {
			qs = append([]*Term{}, norm...)
			seenV := map[*Term]bool{}
			for _, c := range norm {
				for _, v := range c.vars {
					if v.sort == SInt && !seenV[v] {
						seenV[v] = true
						qs = append(qs, s.st.Le(s.st.Big(maxB(v.lo, big.NewInt(-4))), v), s.st.Le(v, s.st.Big(minB(v.hi, maxB(big.NewInt(4), v.lo)))))
					}
				}
			}
		}
		script, vars := s.script(qs, g.eng, isInt, ms)
		tq := time.Now()
		out, ok := s.proc(g.eng).send(script, time.Duration(ms+3000)*time.Millisecond)
		if d := os.Getenv("VERIF_SLOW"); d != "" && time.Since(tq) > time.Second {
			os.WriteFile(fmt.Sprintf("%s/%s_%d_%d.smt2", d, g.eng, time.Since(tq)/time.Millisecond, tq.UnixNano()), []byte(script+"; "+firstLines(out, 1)), 0o644)
		}
		if !ok {
			continue
		}
		if strings.Contains(out, "(error") {
			if s.log != nil && !strings.Contains(out, "model is not available") && !strings.Contains(out, "Cannot get") {
				s.log("solver error: " + firstLines(out, 3))
			}
			if !strings.Contains(out, "model is not available") && !strings.Contains(out, "get-value") && !strings.Contains(out, "Cannot get") {
				continue
			}
		}
		line := out
		if i := strings.IndexByte(out, '\n'); i >= 0 {
			line = out[:i]
		}
		switch strings.TrimSpace(line) {
		case "unsat":
			if small {
				continue
			}
			atomic.AddInt64(&s.stats.ByEngine[engIdx(g.eng)], 1)
			return Unsat, nil
		case "sat":
			if real {
				continue
			}
			m := parseModel(out[len(line):], vars)
			if m == nil {
				continue
			}
			memo := map[*Term]CV{}
			good := true
			for _, c := range cs {
				if !m.eval(c, memo).b {
					good = false
				}
			}
			if !good {
				if s.log != nil {
					s.log("model from " + g.eng + " does not satisfy the constraints")
				}
				continue
			}
			atomic.AddInt64(&s.stats.ByEngine[engIdx(g.eng)], 1)
			return Sat, m
		}
	}
	return Unknown, nil
}

var engNames = []string{"z3-new/bitvector", "z3-new/integer", "z3-4.8/bitvector", "cvc5/bitvector", "cvc5/integer", "z3-new/real relaxation"}

func (s *Solver) hasIdent(cs []*Term) bool {
	if len(s.ident) == 0 {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] || t.sort != SBool {
			return false
		}
		seen[t] = true
		if s.ident[t] {
			return true
		}
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, c := range cs {
		if walk(c) {
			return true
		}
	}
	return false
}

// hasWide: some variable ranges over more than a few values.
func hasWide(cs []*Term) bool {
	for _, c := range cs {
		for _, v := range c.vars {
			if v.sort == SInt && (v.hi.Cmp(big.NewInt(16)) > 0 || v.lo.Cmp(big.NewInt(-16)) < 0) {
				return true
			}
		}
	}
	return false
}

func engIdx(e string) int {
	switch e {
	case "z3bv":
		return 0
	case "z3int":
		return 1
	case "z3old":
		return 2
	case "cvc5bv":
		return 3
	case "z3real":
		return 5
	}
	return 4
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

// ---------------------------------------------------------------- emission

type emitter struct {
	sb    strings.Builder
	pre   strings.Builder // auxiliary assertions
	name  map[*Term]string
	intM  bool
	vars  []*Term
	n     int
	st    *Store
	cvc5  bool
	real  bool // integers relaxed to reals: only "unsat" counts
	decls map[*Term]bool
}

func (s *Solver) script(cs []*Term, eng string, intM bool, ms int) (string, []*Term) {
	e := &emitter{name: map[*Term]string{}, intM: intM, st: s.st, cvc5: strings.HasPrefix(eng, "cvc5"), real: eng == "z3real"}
	var roots []string
	for _, c := range cs {
		roots = append(roots, e.emit(c))
	}
	var h strings.Builder
	h.WriteString("(reset)\n")
	fp, nl := false, false
	for _, c := range cs {
		fp = fp || c.fp
		nl = nl || c.nl
	}
	if e.cvc5 {
		fmt.Fprintf(&h, "(set-option :produce-models true)\n(set-option :tlimit-per %d)\n", ms)
		switch {
		case intM:
			h.WriteString("(set-logic ALL)\n")
		case fp:
			h.WriteString("(set-logic ALL)\n")
		default:
			h.WriteString("(set-logic QF_BV)\n")
		}
	} else {
		fmt.Fprintf(&h, "(set-option :timeout %d)\n(set-option :produce-models true)\n", ms)
		switch {
		case fp:
			h.WriteString("(set-logic QF_BVFP)\n")
		case e.real && nl:
			h.WriteString("(set-logic QF_NRA)\n")
		case e.real:
			h.WriteString("(set-logic QF_LRA)\n")
		case intM:
			if nl {
				h.WriteString("(set-logic QF_NIA)\n")
			} else {
				h.WriteString("(set-logic QF_LIA)\n")
			}
		default:
			h.WriteString("(set-logic QF_BV)\n")
		}
	}
	h.WriteString(e.sb.String())
	h.WriteString(e.pre.String())
	for _, r := range roots {
		h.WriteString("(assert " + r + ")\n")
	}
	if !e.cvc5 && intM && nl && !e.real {
		fmt.Fprintf(&h, "(check-sat-using (then (using-params simplify :som true :som_blowup 100000) (or-else (try-for qfnia %d) (try-for smt %d))))\n", ms*2/3, ms/3)
	} else {
		h.WriteString("(check-sat)\n")
	}
	if len(e.vars) > 0 && !e.real {
		h.WriteString("(get-value (")
		for _, v := range e.vars {
			h.WriteString(e.name[v] + " ")
		}
		h.WriteString("))\n")
	}
	h.WriteString("(echo \"<<done>>\")\n")
	return h.String(), e.vars
}

func bvc(v *big.Int, w int) string {
	m := new(big.Int).Mod(v, pow2(w))
	return "(_ bv" + m.String() + " " + strconv.Itoa(w) + ")"
}

// fresh declares a real between lo and hi and the bounds of t.
func (e *emitter) fresh(t *Term, cond string) string {
	n := fmt.Sprintf("q%d", e.n)
	e.n++
	fmt.Fprintf(&e.sb, "(declare-const %s Real)\n", n)
	fmt.Fprintf(&e.pre, "(assert (and (<= %s %s) (<= %s %s)))\n", intc(t.lo), n, n, intc(t.hi))
	if cond != "" {
		fmt.Fprintf(&e.pre, "(assert %s)\n", strings.ReplaceAll(cond, "%", n))
	}
	return n
}

func intc(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// at renders term t as a signed bit-vector of width w (w >= needed unless truncation is wanted).
func (e *emitter) at(t *Term, w int) string {
	if t.op == OConst {
		return bvc(t.k, w)
	}
	tw := swidth(t)
	n := e.emit(t)
	if tw == w {
		return n
	}
	if tw < w {
		return fmt.Sprintf("((_ sign_extend %d) %s)", w-tw, n)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", w-1, n)
}

func fpSort(s Sort) string {
	if s == SF32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}
func fpPar(s Sort) string {
	if s == SF32 {
		return "8 24"
	}
	return "11 53"
}

func (e *emitter) sortName(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SInt:
		if e.real {
			return "Real"
		}
		if e.intM {
			return "Int"
		}
		return fmt.Sprintf("(_ BitVec %d)", swidth(t))
	}
	return fpSort(t.sort)
}

func (e *emitter) emit(t *Term) string {
	if n, ok := e.name[t]; ok {
		return n
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.b {
				return "true"
			}
			return "false"
		case SInt:
			if e.intM {
				return intc(t.k)
			}
			return bvc(t.k, swidth(t))
		case SF64:
			if math.IsNaN(t.f) {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(t.f))
		default:
			if math.IsNaN(t.f) {
				return "(_ NaN 8 24)"
			}
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", math.Float32bits(float32(t.f)))
		}
	case OVar:
		n := fmt.Sprintf("v%d", len(e.vars))
		e.vars = append(e.vars, t)
		e.name[t] = n
		fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", n, e.sortName(t))
		if t.sort == SInt {
			if e.intM {
				fmt.Fprintf(&e.pre, "(assert (and (<= %s %s) (<= %s %s)))\n", intc(t.lo), n, n, intc(t.hi))
			} else {
				w := swidth(t)
				lo, hi := rangeS(w)
				if t.lo.Cmp(lo) > 0 {
					fmt.Fprintf(&e.pre, "(assert (bvsle %s %s))\n", bvc(t.lo, w), n)
				}
				if t.hi.Cmp(hi) < 0 {
					fmt.Fprintf(&e.pre, "(assert (bvsle %s %s))\n", n, bvc(t.hi, w))
				}
			}
		}
		return n
	}
	body := e.body(t)
	n := fmt.Sprintf("t%d", e.n)
	e.n++
	e.name[t] = n
	fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", n, e.sortName(t), body)
	return n
}

func (e *emitter) body(t *Term) string {
	a := t.args
	switch t.op {
	case ONot:
		return "(not " + e.emit(a[0]) + ")"
	case OAnd, OOr:
		var sb strings.Builder
		if t.op == OAnd {
			sb.WriteString("(and")
		} else {
			sb.WriteString("(or")
		}
		for _, x := range a {
			sb.WriteString(" " + e.emit(x))
		}
		sb.WriteString(")")
		return sb.String()
	case OEq:
		if a[0].sort == SBool || e.intM {
			return "(= " + e.emit(a[0]) + " " + e.emit(a[1]) + ")"
		}
		w := maxI(swidth(a[0]), swidth(a[1]))
		return "(= " + e.at(a[0], w) + " " + e.at(a[1], w) + ")"
	case OLt, OLe:
		if e.intM {
			op := "<"
			if t.op == OLe {
				op = "<="
			} else if e.real {
				return "(<= (+ " + e.emit(a[0]) + " 1) " + e.emit(a[1]) + ")"
			}
			return "(" + op + " " + e.emit(a[0]) + " " + e.emit(a[1]) + ")"
		}
		op := "bvslt"
		if t.op == OLe {
			op = "bvsle"
		}
		w := maxI(swidth(a[0]), swidth(a[1]))
		return "(" + op + " " + e.at(a[0], w) + " " + e.at(a[1], w) + ")"
	case OIte:
		if t.sort != SInt || e.intM {
			return "(ite " + e.emit(a[0]) + " " + e.emit(a[1]) + " " + e.emit(a[2]) + ")"
		}
		w := swidth(t)
		return "(ite " + e.emit(a[0]) + " " + e.at(a[1], w) + " " + e.at(a[2], w) + ")"
	}
	if t.sort == SF64 || t.sort == SF32 || len(a) > 0 && (a[0].sort == SF64 || a[0].sort == SF32) {
		return e.fpBody(t)
	}
	if e.intM {
		x := e.emit(a[0])
		if e.real {
			switch t.op {
			case OFDivK:
				return e.fresh(t, fmt.Sprintf("(and (<= (* %s %%) %s) (<= (+ %s 1) (* %s (+ %% 1))))", intc(t.k), x, x, intc(t.k)))
			case OFDivG:
				y := e.emit(a[1])
				return e.fresh(t, fmt.Sprintf("(and (<= (* %s %%) %s) (<= (+ %s 1) (* %s (+ %% 1))))", y, x, x, y))
			case OISqrt:
				return e.fresh(t, fmt.Sprintf("(and (<= (* %% %%) %s) (<= (+ %s 1) (* (+ %% 1) (+ %% 1))))", x, x))
			case OModK, OWrapU, OWrapS, OTDiv, OTRem:
				return e.fresh(t, "")
			}
		}
		switch t.op {
		case OAdd:
			return "(+ " + x + " " + e.emit(a[1]) + ")"
		case OSub:
			return "(- " + x + " " + e.emit(a[1]) + ")"
		case OMul:
			return "(* " + x + " " + e.emit(a[1]) + ")"
		case OFDivK:
			return "(div " + x + " " + intc(t.k) + ")"
		case OModK:
			return "(mod " + x + " " + intc(t.k) + ")"
		case OFDivG:
			return "(div " + x + " " + e.emit(a[1]) + ")"
		case OWrapU:
			return "(mod " + x + " " + intc(pow2(int(t.k.Int64()))) + ")"
		case OWrapS:
			w := int(t.k.Int64())
			return fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", x, intc(pow2(w-1)), intc(pow2(w)), intc(pow2(w-1)))
		case OPos, ONonneg:
			return x // implied by the path condition
		case OISqrt:
			n := fmt.Sprintf("q%d", e.n)
			e.n++
			fmt.Fprintf(&e.sb, "(declare-const %s Int)\n", n)
			fmt.Fprintf(&e.pre, "(assert (and (<= 0 %s) (<= %s %s) (<= (* %s %s) %s) (< %s (* (+ %s 1) (+ %s 1)))))\n", n, n, intc(t.hi), n, n, x, x, n, n)
			return n
		}
		panic(fmt.Sprint("int emission of op ", t.op))
	}
	w := swidth(t)
	for _, x := range a {
		w = maxI(w, swidth(x))
	}
	tw := swidth(t)
	trunc := func(s string) string {
		if w == tw {
			return s
		}
		return fmt.Sprintf("((_ extract %d 0) %s)", tw-1, s)
	}
	switch t.op {
	case OAdd:
		return trunc("(bvadd " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OSub:
		return trunc("(bvsub " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OMul:
		return trunc("(bvmul " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OFDivK:
		if k := t.k.TrailingZeroBits(); pow2(int(k)).Cmp(t.k) == 0 {
			return trunc("(bvashr " + e.at(a[0], w) + " " + bvc(big.NewInt(int64(k)), w) + ")")
		}
		w = maxI(w, t.k.BitLen()+1) + 1
		x := e.at(a[0], w)
		K := bvc(t.k, w)
		if a[0].lo.Sign() >= 0 {
			return trunc("(bvudiv " + x + " " + K + ")")
		}
		// floor(x/k) for negative x: -((−x + k−1)/k)
		return trunc(fmt.Sprintf("(ite (bvsge %s %s) (bvudiv %s %s) (bvneg (bvudiv (bvadd (bvneg %s) %s) %s)))", x, bvc(big0, w), x, K, x, bvc(new(big.Int).Sub(t.k, big1), w), K))
	case OModK:
		if k := t.k.TrailingZeroBits(); pow2(int(k)).Cmp(t.k) == 0 {
			w = maxI(w, int(k)+1)
			return trunc("(bvand " + e.at(a[0], w) + " " + bvc(new(big.Int).Sub(t.k, big1), w) + ")")
		}
		w = maxI(w, t.k.BitLen()+1) + 1
		return trunc("(bvsmod " + e.at(a[0], w) + " " + bvc(t.k, w) + ")")
	case OFDivG:
		w++
		x, y := e.at(a[0], w), e.at(a[1], w)
		if a[0].lo.Sign() >= 0 {
			return trunc("(bvudiv " + x + " " + y + ")")
		}
		return trunc(fmt.Sprintf("(ite (bvsge %s %s) (bvudiv %s %s) (bvneg (bvudiv (bvadd (bvneg %s) (bvsub %s %s)) %s)))", x, bvc(big0, w), x, y, x, y, bvc(big1, w), y))
	case OTDiv:
		return trunc("(bvsdiv " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OTRem:
		return trunc("(bvsrem " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OWrapS:
		k := int(t.k.Int64())
		x := e.at(a[0], maxI(swidth(a[0]), k))
		return fmt.Sprintf("((_ extract %d 0) %s)", k-1, x)
	case OWrapU:
		k := int(t.k.Int64())
		x := e.at(a[0], maxI(swidth(a[0]), k))
		return fmt.Sprintf("((_ zero_extend 1) ((_ extract %d 0) %s))", k-1, x)
	case OBand:
		return trunc("(bvand " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OBor:
		return trunc("(bvor " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OBxor:
		return trunc("(bvxor " + e.at(a[0], w) + " " + e.at(a[1], w) + ")")
	case OPos, ONonneg:
		return e.at(a[0], tw) // implied by the path condition
	case OISqrt:
		n := fmt.Sprintf("q%d", e.n)
		e.n++
		fmt.Fprintf(&e.sb, "(declare-const %s (_ BitVec %d))\n", n, tw)
		ww := maxI(2*tw+2, swidth(a[0])+1)
		x := e.at(a[0], ww)
		q := fmt.Sprintf("((_ sign_extend %d) %s)", ww-tw, n)
		fmt.Fprintf(&e.pre, "(assert (and (bvsle %s %s) (bvsle %s %s) (bvsle (bvmul %s %s) %s) (bvslt %s (bvmul (bvadd %s %s) (bvadd %s %s)))))\n", bvc(big0, tw), n, n, bvc(t.hi, tw), q, q, x, x, q, bvc(big1, ww), q, bvc(big1, ww))
		return n
	}
	panic(fmt.Sprint("bv emission of op ", t.op))
}

func (e *emitter) fpBody(t *Term) string {
	a := t.args
	var x, y string
	if len(a) > 0 && a[0].sort != SInt {
		x = e.emit(a[0])
	}
	if len(a) > 1 {
		y = e.emit(a[1])
	}
	switch t.op {
	case OFAdd:
		return "(fp.add RNE " + x + " " + y + ")"
	case OFSub:
		return "(fp.sub RNE " + x + " " + y + ")"
	case OFMul:
		return "(fp.mul RNE " + x + " " + y + ")"
	case OFDiv:
		return "(fp.div RNE " + x + " " + y + ")"
	case OFSqrt:
		return "(fp.sqrt RNE " + x + ")"
	case OFNeg:
		return "(fp.neg " + x + ")"
	case OFAbs:
		return "(fp.abs " + x + ")"
	case OFEq:
		return "(fp.eq " + x + " " + y + ")"
	case OFLt:
		return "(fp.lt " + x + " " + y + ")"
	case OFLe:
		return "(fp.leq " + x + " " + y + ")"
	case OFSame:
		return "(= " + x + " " + y + ")"
	case OFIsNaN:
		return "(fp.isNaN " + x + ")"
	case OFIsInf:
		return "(fp.isInfinite " + x + ")"
	case OFSign:
		return "(fp.isNegative " + x + ")"
	case OFToF32, OFToF64:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpPar(t.sort), x)
	case OFFromInt:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpPar(t.sort), e.at(a[0], swidth(a[0])))
	case OFToInt:
		return fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", x)
	case OFRTI:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", [...]string{"RTN", "RTP", "RTZ"}[t.k.Int64()], x)
	case OFBits:
		w := 64
		if a[0].sort == SF32 {
			w = 32
		}
		n := fmt.Sprintf("q%d", e.n)
		e.n++
		fmt.Fprintf(&e.sb, "(declare-const %s (_ BitVec %d))\n", n, w)
		fmt.Fprintf(&e.pre, "(assert (= ((_ to_fp %s) %s) %s))\n", fpPar(a[0].sort), n, x)
		return fmt.Sprintf("((_ zero_extend 1) %s)", n)
	case OFFromBits:
		w := 64
		if t.sort == SF32 {
			w = 32
		}
		return fmt.Sprintf("((_ to_fp %s) %s)", fpPar(t.sort), e.at(a[0], w))
	}
	panic(fmt.Sprint("fp emission of op ", t.op))
}

// ---------------------------------------------------------------- models

func parseModel(s string, vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return nil
	}
	p := &sx{s: s[i:]}
	n := p.parse()
	if n == nil || len(n.kids) != len(vars) {
		return nil
	}
	for k, pair := range n.kids {
		if len(pair.kids) != 2 {
			return nil
		}
		cv, ok := pair.kids[1].value(vars[k])
		if !ok {
			return nil
		}
		m[vars[k].name] = cv
	}
	return m
}

type sxn struct {
	atom string
	kids []*sxn
}
type sx struct {
	s string
	i int
}

func (p *sx) parse() *sxn {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
	if p.i >= len(p.s) {
		return nil
	}
	if p.s[p.i] == '(' {
		p.i++
		n := &sxn{}
		for {
			for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
				p.i++
			}
			if p.i >= len(p.s) {
				return nil
			}
			if p.s[p.i] == ')' {
				p.i++
				return n
			}
			k := p.parse()
			if k == nil {
				return nil
			}
			n.kids = append(n.kids, k)
		}
	}
	j := p.i
	for p.i < len(p.s) && !strings.ContainsRune(" \n\t\r()", rune(p.s[p.i])) {
		p.i++
	}
	return &sxn{atom: p.s[j:p.i]}
}

func bitsOf(a string) (*big.Int, int, bool) {
	if strings.HasPrefix(a, "#b") {
		v, ok := new(big.Int).SetString(a[2:], 2)
		return v, len(a) - 2, ok
	}
	if strings.HasPrefix(a, "#x") {
		v, ok := new(big.Int).SetString(a[2:], 16)
		return v, 4 * (len(a) - 2), ok
	}
	return nil, 0, false
}

func (n *sxn) value(t *Term) (CV, bool) {
	switch t.sort {
	case SBool:
		return CV{b: n.atom == "true"}, n.atom == "true" || n.atom == "false"
	case SInt:
		if v, w, ok := bitsOf(n.atom); ok {
			if v.Bit(w-1) == 1 {
				v.Sub(v, pow2(w))
			}
			return CV{i: v}, true
		}
		if n.atom != "" {
			v, ok := new(big.Int).SetString(n.atom, 10)
			return CV{i: v}, ok
		}
		if len(n.kids) == 2 && n.kids[0].atom == "-" {
			v, ok := new(big.Int).SetString(n.kids[1].atom, 10)
			if !ok {
				return CV{}, false
			}
			return CV{i: v.Neg(v)}, true
		}
		if len(n.kids) == 3 && n.kids[0].atom == "_" && strings.HasPrefix(n.kids[1].atom, "bv") {
			v, ok := new(big.Int).SetString(n.kids[1].atom[2:], 10)
			w, _ := strconv.Atoi(n.kids[2].atom)
			if !ok {
				return CV{}, false
			}
			if v.Bit(w-1) == 1 {
				v.Sub(v, pow2(w))
			}
			return CV{i: v}, true
		}
		return CV{}, false
	}
	eb, sb := 11, 52
	if t.sort == SF32 {
		eb, sb = 8, 23
	}
	mk := func(bits uint64) CV {
		if t.sort == SF32 {
			return CV{f: float64(math.Float32frombits(uint32(bits)))}
		}
		return CV{f: math.Float64frombits(bits)}
	}
	if len(n.kids) == 4 && n.kids[0].atom == "fp" {
		s, _, o1 := bitsOf(n.kids[1].atom)
		x, _, o2 := bitsOf(n.kids[2].atom)
		m, _, o3 := bitsOf(n.kids[3].atom)
		if !o1 || !o2 || !o3 {
			return CV{}, false
		}
		return mk(s.Uint64()<<uint(eb+sb) | x.Uint64()<<uint(sb) | m.Uint64()), true
	}
	if len(n.kids) >= 2 && n.kids[0].atom == "_" {
		switch n.kids[1].atom {
		case "+zero":
			return CV{f: 0}, true
		case "-zero":
			return CV{f: math.Copysign(0, -1)}, true
		case "+oo":
			return CV{f: math.Inf(1)}, true
		case "-oo":
			return CV{f: math.Inf(-1)}, true
		case "NaN":
			return CV{f: math.NaN()}, true
		}
	}
	return CV{}, false
}

// ---------------------------------------------------------------- polynomial normal form of comparisons

type mono struct {
	key   string
	atoms []*Term // sorted by id, with repetition
	coef  *big.Int
}
type Poly struct {
	m    map[string]*mono
	over bool
}

const polyCap = 60

func (s *Solver) poly(t *Term) *Poly {
	if p, ok := s.polys[t]; ok {
		return p
	}
	var p *Poly
	switch t.op {
	case OConst:
		p = &Poly{m: map[string]*mono{}}
		if t.k.Sign() != 0 {
			p.m[""] = &mono{"", nil, t.k}
		}
	case OAdd, OSub:
		a, b := s.poly(t.args[0]), s.poly(t.args[1])
		if a.over || b.over {
			p = &Poly{over: true}
			break
		}
		p = &Poly{m: map[string]*mono{}}
		for k, x := range a.m {
			p.m[k] = x
		}
		for k, x := range b.m {
			c := x.coef
			if t.op == OSub {
				c = new(big.Int).Neg(c)
			}
			p.addm(k, x.atoms, c)
		}
	case OMul:
		a, b := s.poly(t.args[0]), s.poly(t.args[1])
		if a.over || b.over || len(a.m)*len(b.m) > 40*polyCap {
			p = &Poly{over: true}
			break
		}
		p = &Poly{m: map[string]*mono{}}
		for _, x := range a.m {
			for _, y := range b.m {
				at := make([]*Term, 0, len(x.atoms)+len(y.atoms))
				at = append(at, x.atoms...)
				at = append(at, y.atoms...)
				sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
				var kb strings.Builder
				for _, z := range at {
					kb.WriteString(strconv.Itoa(z.id))
					kb.WriteByte('.')
				}
				p.addm(kb.String(), at, new(big.Int).Mul(x.coef, y.coef))
			}
		}
	case OPos, ONonneg:
		p = s.poly(t.args[0])
	default:
		k := strconv.Itoa(t.id) + "."
		p = &Poly{m: map[string]*mono{k: {k, []*Term{t}, big1}}}
	}
	if !p.over && len(p.m) > polyCap {
		p = &Poly{over: true}
	}
	s.polys[t] = p
	return p
}

// canon is a simpler term of the same value, if the polynomial of t is constant or affine in
// few atoms, and t otherwise.
func (s *Solver) canon(t *Term) *Term {
	if t.isConst() || t.op != OAdd && t.op != OSub && t.op != OMul {
		return t
	}
	if r, ok := s.canons[t]; ok {
		return r
	}
	r := t
	if p := s.poly(t); !p.over && len(p.m) <= 4 {
		ms := make([]*mono, 0, 4)
		affine := true
		for _, m := range p.m {
			ms = append(ms, m)
			affine = affine && len(m.atoms) <= 1
		}
		if affine {
			id := func(m *mono) int {
				if len(m.atoms) == 0 {
					return 1 << 60
				}
				return m.atoms[0].id
			}
			sort.Slice(ms, func(i, j int) bool { return id(ms[i]) < id(ms[j]) })
			n := s.st.Int(0)
			for _, m := range ms {
				c := s.st.Big(m.coef)
				if len(m.atoms) == 1 {
					c = s.st.Mul(c, m.atoms[0])
				}
				n = s.st.Add(n, c)
			}
			if n.lo.Cmp(t.lo) >= 0 && n.hi.Cmp(t.hi) <= 0 {
				r = n
			}
		}
	}
	s.canons[t] = r
	return r
}

func (p *Poly) addm(k string, at []*Term, c *big.Int) {
	if o, ok := p.m[k]; ok {
		n := new(big.Int).Add(o.coef, c)
		if n.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{k, at, n}
		}
		return
	}
	if c.Sign() != 0 {
		p.m[k] = &mono{k, at, c}
	}
}

// normalise rewrites non-linear comparisons into expanded polynomial form where that is
// smaller; an atom that would fold to a constant is left as it is for the solver.
func (s *Solver) normalise(t *Term) *Term {
	if t.size < 3 || t.op == OConst || t.op == OVar {
		return t
	}
	if r, ok := s.norm[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case OLt, OLe, OEq:
		if t.args[0].sort == SInt && (t.nl || t.size > 12) {
			r = s.normAtom(t)
		}
	case ONot:
		r = s.st.Not(s.normalise(t.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s.normalise(a)
		}
		if t.op == OAnd {
			r = s.st.And(as...)
		} else {
			r = s.st.Or(as...)
		}
	case OIte:
		if t.sort == SBool {
			r = s.st.Ite(s.normalise(t.args[0]), s.normalise(t.args[1]), s.normalise(t.args[2]))
		}
	}
	s.norm[t] = r
	return r
}

func dagSize(t *Term, seen map[*Term]bool) int {
	if seen[t] {
		return 0
	}
	seen[t] = true
	n := 1
	for _, a := range t.args {
		n += dagSize(a, seen)
	}
	return n
}

func (s *Solver) normAtom(t *Term) *Term {
	p := s.poly(s.st.Sub(t.args[0], t.args[1]))
	if p.over {
		return t
	}
	keys := make([]string, 0, len(p.m))
	g := new(big.Int)
	cost := 0
	for k, m := range p.m {
		keys = append(keys, k)
		if k != "" {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.coef))
			cost += len(m.atoms) + 1
		}
	}
	if g.Sign() == 0 {
		s.ident[t] = true
		return t // constant after expansion: the solver decides the original
	}
	if len(p.m) > 12 && cost > dagSize(t, map[*Term]bool{}) {
		return t
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := p.m[keys[i]], p.m[keys[j]]
		if len(a.atoms) != len(b.atoms) {
			return len(a.atoms) > len(b.atoms)
		}
		for x := range a.atoms {
			if a.atoms[x] != b.atoms[x] {
				return a.atoms[x].id < b.atoms[x].id
			}
		}
		return false
	})
	st := s.st
	pos, neg := st.Int(0), st.Int(0)
	c := new(big.Int)
	for _, k := range keys {
		m := p.m[k]
		if k == "" {
			c.Set(m.coef)
			continue
		}
		q := new(big.Int).Quo(m.coef, g)
		prod := st.Int(1)
		for _, a := range m.atoms {
			prod = st.Mul(prod, a)
		}
		if q.Sign() > 0 {
			pos = st.Add(pos, st.Mul(st.Big(q), prod))
		} else {
			neg = st.Add(neg, st.Mul(st.Big(new(big.Int).Neg(q)), prod))
		}
	}
	// g*(pos-neg) + c OP 0
	var r *Term
	switch t.op {
	case OEq:
		if new(big.Int).Mod(c, g).Sign() != 0 {
			return st.ff
		}
		r = st.Eq(st.Sub(pos, neg), st.Big(new(big.Int).Neg(new(big.Int).Quo(c, g))))
	case OLe: // pos-neg <= floor(-c/g)
		r = st.Le(pos, st.Add(neg, st.Big(floorDiv(new(big.Int).Neg(c), g))))
	case OLt: // g*d < -c  <=> d <= floor((-c-1)/g)
		r = st.Le(pos, st.Add(neg, st.Big(floorDiv(new(big.Int).Sub(new(big.Int).Neg(c), big1), g))))
	}
	if r.isConst() {
		return t
	}
	return r
}
