package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type undo struct {
	c   *Val
	old Val
	f   func()
}

type deferred struct {
	fn   Val // closure
	bi   string
	in   *instr
	args []Val
}

type panicRec struct {
	v         Val // interface value
	recovered bool
	trace     string
}

// Frame is the activation of a function.
type Frame struct {
	fn        *Fn
	regs      []Val
	pc        int32
	isDefer   bool // called by the caller's deferred call machinery
	isRoot    bool
	defers    []deferred
	panicking *panicRec
	result    Val
	returning bool
}

type Goro struct {
	id      int
	frames  []*Frame
	blocked bool
	done    bool
	sendTok *bool
}

func (g *Goro) top() *Frame { return g.frames[len(g.frames)-1] }

type snapshot struct {
	gs   []Goro
	cur  int
	mark int
	nvar int
	ncl  int
	ngs  int
}

type choicePoint struct {
	snap  *snapshot
	dec   []int
	alts  []int
	depth int
}

// Engine explores all paths of one program.
type Engine struct {
	sites map[string]int

	P       *Program
	tt      *termTab
	sol     *Solver
	globals []*Val

	trail   []undo
	logging bool
	vars    []*Var
	doms    []*ISet
	clauses []*Term
	gs      []*Goro
	cur     int
	choices []*choicePoint
	replay  []int
	dec     []int
	mark    int // trail length at the start of the instruction

	steps     int64 // of the current path
	totSteps  int64
	maxSteps  int64
	maxTrail  int
	stepLimit int64
	heat      map[*Fn]bool

	out      *ShardResult
	cfg      *runCfg
	obs      []obsRec
	mapMode  int
	mapPerm  map[*Map][]int
	reached  bool
	curFrame *Frame
	nfree    [][]*Frame

	reCache  map[string]*rprog
	natives  map[*Val]any
	locks    map[*Val]int
	tabCache map[string]*Tab
	setCache map[string]*ISet
	covSeen  map[*Term]bool
	covQ     []*Term
	nChoice  int
	funcs    map[*Fn]bool
	stdin    Val
	stubs    map[string]int
	assumes  int
	oblQ     []oblig
	mapUsed  bool
	share    *shareState
	mutexes  map[*Val]bool
	sync     bool // an operation of sync or sync/atomic
}

// site counts the forks by place, for diagnosis.
type site struct {
	w string
	n int
}

func (e *Engine) topSites() (out []site) {
	for w, n := range e.sites {
		out = append(out, site{w, n})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].n > out[j].n })
	if len(out) > 8 {
		out = out[:8]
	}
	return
}

type obsRec struct {
	tag string
	v   Val
}

func newEngine(p *Program, solver string) (*Engine, error) {
	e := &Engine{P: p, tt: newTermTab(), reCache: map[string]*rprog{}, natives: map[*Val]any{}, locks: map[*Val]int{}, tabCache: map[string]*Tab{}, setCache: map[string]*ISet{}, covSeen: map[*Term]bool{}, funcs: map[*Fn]bool{}, stubs: map[string]int{}, mutexes: map[*Val]bool{}}
	e.stepLimit = 200e6
	if solver != "" {
		s, err := newSolver(solver)
		if err != nil {
			return nil, err
		}
		e.sol = s
	}
	return e, nil
}

// path end conditions, thrown as Go panics
type pathEnd struct {
	kind string // "done", "assume", "infeasible", "panic", "deadlock", "steps", "unsupported", "fatal", "exit"
	msg  string
	v    Val
}

type goPanic struct{ v Val }

func (e *Engine) set(c *Val, v Val) {
	if e.share != nil {
		e.wrote(c)
	}
	if e.logging {
		e.trail = append(e.trail, undo{c: c, old: *c})
	}
	*c = v
}

func (e *Engine) onUndo(f func()) {
	if e.logging {
		e.trail = append(e.trail, undo{f: f})
	}
}

func (e *Engine) undoTo(mark int) {
	for i := len(e.trail) - 1; i >= mark; i-- {
		u := &e.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.c = u.old
		}
		*u = undo{}
	}
	e.trail = e.trail[:mark]
}

// store writes a value into a cell, keeping interior addresses valid.
func (e *Engine) store(c *Val, v Val) {
	if d, ok := c.P.(*Agg); ok {
		if s, ok := v.P.(*Agg); ok {
			if s != d {
				for i := range d.E {
					e.store(&d.E[i], s.E[i])
				}
			}
			return
		}
	}
	if _, ok := v.P.(*Agg); ok {
		v = clone(v)
	}
	e.set(c, v)
}

func (e *Engine) snapshot() *snapshot {
	s := &snapshot{cur: e.cur, mark: e.mark, nvar: len(e.vars), ncl: len(e.clauses)}
	s.gs = make([]Goro, len(e.gs))
	for i, g := range e.gs {
		s.gs[i] = *g
		s.gs[i].frames = make([]*Frame, len(g.frames))
		for j, f := range g.frames {
			s.gs[i].frames[j] = copyFrame(f)
		}
	}
	return s
}

func copyFrame(f *Frame) *Frame {
	n := *f
	n.regs = append([]Val(nil), f.regs...)
	if f.defers != nil {
		n.defers = append([]deferred(nil), f.defers...)
	}
	if f.panicking != nil {
		p := *f.panicking
		n.panicking = &p
	}
	return &n
}

func (e *Engine) restore(s *snapshot, last bool) {
	e.undoTo(s.mark)
	e.gs = e.gs[:0:0]
	for i := range s.gs {
		g := s.gs[i]
		if !last {
			g.frames = make([]*Frame, len(s.gs[i].frames))
			for j, f := range s.gs[i].frames {
				g.frames[j] = copyFrame(f)
			}
		}
		e.gs = append(e.gs, &g)
	}
	e.cur = s.cur
	e.mark = s.mark
}

// ---------------------------------------------------------------- path state

func (e *Engine) newInput(kind string, w uint8, lo, hi int64, dom *ISet) *Term {
	if dom.empty() {
		panic(pathEnd{kind: "assume", msg: "empty domain"})
	}
	idx := len(e.vars)
	v := e.tt.newVar(idx, kind, lo, hi, w, dom)
	e.vars = append(e.vars, v)
	e.doms = append(e.doms, dom)
	e.onUndo(func() { e.vars = e.vars[:idx]; e.doms = e.doms[:idx] })
	return v.term
}

func (e *Engine) setDom(v *Var, s *ISet) {
	old := e.doms[v.idx]
	if old == s {
		return
	}
	i := v.idx
	e.doms[i] = s
	e.onUndo(func() { e.doms[i] = old })
}

func (e *Engine) addClause(t *Term) {
	n := len(e.clauses)
	e.clauses = append(e.clauses, t)
	e.onUndo(func() { e.clauses = e.clauses[:n] })
}

type tri int8

const (
	no tri = iota
	yes
	maybe
)

func (e *Engine) eval3(t *Term) tri { return e.eval3d(t, e.doms) }

func (e *Engine) eval3d(t *Term, doms []*ISet) tri {
	switch t.Op {
	case OTrue:
		return yes
	case OFalse:
		return no
	case OInSet:
		d := doms[t.A[0].V.idx]
		x := e.tt.sets.and(d, t.Set)
		if x.empty() {
			return no
		}
		if x == d {
			return yes
		}
		return maybe
	case ONot:
		switch e.eval3d(t.A[0], doms) {
		case yes:
			return no
		case no:
			return yes
		}
		return maybe
	case OBAnd:
		r := yes
		for _, a := range t.A {
			switch e.eval3d(a, doms) {
			case no:
				return no
			case maybe:
				r = maybe
			}
		}
		return r
	case OBOr:
		r := no
		for _, a := range t.A {
			switch e.eval3d(a, doms) {
			case yes:
				return yes
			case maybe:
				r = maybe
			}
		}
		return r
	}
	for _, v := range t.allVars() {
		if !doms[v.idx].single() {
			r := e.byBounds(t, doms)
			if r != maybe {
				e.boundsUsed(t, doms, r)
			}
			return r
		}
	}
	if t.eval(func(v *Var) int64 { return doms[v.idx].r[0].lo }) != 0 {
		return yes
	}
	return no
}

// reduce simplifies a condition under the domains.
func (e *Engine) reduce(t *Term, doms []*ISet) *Term {
	switch t.Op {
	case OTrue, OFalse:
		return t
	case OInSet:
		switch e.eval3d(t, doms) {
		case yes:
			return e.tt.tru
		case no:
			return e.tt.fls
		}
		return t
	case OBAnd, OBOr:
		changed := false
		xs := make([]*Term, 0, len(t.A))
		for _, a := range t.A {
			b := e.reduce(a, doms)
			if b != a {
				changed = true
			}
			if t.Op == OBAnd && b == e.tt.fls {
				return b
			}
			if t.Op == OBOr && b == e.tt.tru {
				return b
			}
			xs = append(xs, b)
		}
		if !changed {
			return t
		}
		if t.Op == OBAnd {
			return e.tt.and(xs...)
		}
		return e.tt.or(xs...)
	}
	switch e.eval3d(t, doms) {
	case yes:
		return e.tt.tru
	case no:
		return e.tt.fls
	}
	return t
}

// assume adds a condition to the path; false if it is plainly contradictory.
func (e *Engine) assume(t *Term) bool {
	t = e.reduce(t, e.doms)
	switch t.Op {
	case OTrue:
		return true
	case OFalse:
		return false
	case OInSet:
		v := t.A[0].V
		e.setDom(v, e.tt.sets.and(e.doms[v.idx], t.Set))
		return e.propagate()
	case OBAnd:
		for _, a := range t.A {
			if !e.assume(a) {
				return false
			}
		}
		return true
	}
	for _, c := range e.clauses {
		if c == t {
			return true
		}
	}
	e.addClause(t)
	return true
}

// propagate re-examines the clauses after a domain has shrunk.
func (e *Engine) propagate() bool {
	for i := 0; i < len(e.clauses); i++ {
		c := e.clauses[i]
		r := e.reduce(c, e.doms)
		if r == c {
			continue
		}
		if r == e.tt.fls {
			return false
		}
		// replace the clause list (the old one is restored by undo)
		old := e.clauses
		n := make([]*Term, 0, len(old))
		n = append(append(n, old[:i]...), old[i+1:]...)
		e.clauses = n
		e.onUndo(func() { e.clauses = old })
		i--
		if r != e.tt.tru {
			if !e.assume(r) {
				return false
			}
		}
	}
	return true
}

// pc is the path condition as a term.
func (e *Engine) pc() *Term {
	xs := make([]*Term, 0, len(e.doms)+len(e.clauses))
	for i, v := range e.vars {
		if e.doms[i] != v.dom {
			xs = append(xs, e.tt.inVar(v, e.doms[i]))
		}
	}
	xs = append(xs, e.clauses...)
	return e.tt.and(xs...)
}

// feasible decides whether the path can go on under the guard.
func (e *Engine) feasible(g *Term) bool {
	r := e.reduce(g, e.doms)
	switch r.Op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	if len(e.clauses) == 0 && boxy(r) {
		return true
	}
	doms := append([]*ISet(nil), e.doms...)
	cs := append(append([]*Term(nil), e.clauses...), r)
	_, ok := e.dpll(cs, doms)
	return ok
}

// boxy: a satisfiable combination of independent conditions, by its shape.
func boxy(t *Term) bool {
	switch t.Op {
	case OInSet:
		return true
	case OBAnd:
		for _, a := range t.A {
			if a.Op != OInSet {
				return false
			}
		}
		return true // conditions on different variables
	case OBOr:
		for _, a := range t.A {
			if boxy(a) {
				return true
			}
		}
	}
	return false
}

// dpll finds domains satisfying all conditions.
func (e *Engine) dpll(cs []*Term, doms []*ISet) ([]*ISet, bool) {
	for {
		changed := false
		var rest []*Term
		for i := 0; i < len(cs); i++ {
			r := e.reduce(cs[i], doms)
			switch r.Op {
			case OTrue:
				continue
			case OFalse:
				return nil, false
			case OInSet:
				v := r.A[0].V
				doms[v.idx] = e.tt.sets.and(doms[v.idx], r.Set)
				changed = true
			case OBAnd:
				cs = append(cs, r.A...)
			default:
				rest = append(rest, r)
			}
		}
		cs = rest
		if !changed {
			break
		}
	}
	if len(cs) == 0 {
		return doms, true
	}
	best := -1
	for i, c := range cs {
		if c.Op == OBOr && (best < 0 || len(c.A) < len(cs[best].A)) {
			best = i
		}
	}
	if best < 0 {
		return e.numeric(cs, doms)
	}
	c := cs[best]
	for _, d := range c.A {
		nd := append([]*ISet(nil), doms...)
		nc := make([]*Term, 0, len(cs))
		nc = append(append(append(nc, d), cs[:best]...), cs[best+1:]...)
		if r, ok := e.dpll(nc, nd); ok {
			return r, true
		}
	}
	return nil, false
}

// numeric decides conditions between several variables with the solver.
func (e *Engine) numeric(cs []*Term, doms []*ISet) ([]*ISet, bool) {
	// a few guesses first
	for k := 0; k < 4; k++ {
		val := func(v *Var) int64 {
			d := doms[v.idx]
			switch k {
			case 0:
				return d.r[0].lo
			case 1:
				return d.r[len(d.r)-1].hi
			case 2:
				return d.r[v.idx%len(d.r)].lo
			}
			x := d.r[v.idx%len(d.r)]
			return min(x.hi, x.lo+int64(v.idx))
		}
		ok := true
		for _, c := range cs {
			if c.eval(val) == 0 {
				ok = false
				break
			}
		}
		if ok {
			nd := append([]*ISet(nil), doms...)
			for _, c := range cs {
				for _, v := range c.allVars() {
					nd[v.idx] = e.tt.sets.rng(val(v), val(v))
				}
			}
			return nd, true
		}
	}
	vs := map[*Var]bool{}
	var as []string
	var list []*Var
	for _, c := range cs {
		as = append(as, e.sol.ref(c))
		for _, v := range c.allVars() {
			if !vs[v] {
				vs[v] = true
				list = append(list, v)
			}
		}
	}
	for _, v := range list {
		as = append(as, "("+e.sol.setFun(doms[v.idx], v.w, v.lo >= 0)+" "+e.sol.declVar(v)+")")
	}
	m := map[*Var]int64{}
	r, err := e.sol.check(as, list, m)
	if err != nil {
		panic(unsupported("solver: %v", err))
	}
	if r == "unsat" {
		return nil, false
	}
	nd := append([]*ISet(nil), doms...)
	if r == "sat" {
		for v, x := range m {
			nd[v.idx] = e.tt.sets.rng(x, x)
		}
	}
	return nd, true
}

// choose forks on the guards and returns the index of the one taken.
func (e *Engine) choose(gs ...*Term) int {
	if e.replay != nil {
		k := e.replay[0]
		e.replay = e.replay[1:]
		if len(e.replay) == 0 {
			e.replay = nil
		}
		e.dec = append(e.dec, k)
		if !e.assume(gs[k]) {
			panic(pathEnd{kind: "infeasible"})
		}
		return k
	}
	var feas []int
	sure := false
	for i, g := range gs {
		switch e.eval3(g) {
		case yes:
			feas = append(feas, i)
			sure = true
		case maybe:
			if e.feasible(g) {
				feas = append(feas, i)
			}
		}
		if sure {
			break
		}
	}
	if len(feas) < len(gs) && !sure {
		e.coverage(gs, feas)
	}
	if len(feas) == 0 {
		panic(pathEnd{kind: "infeasible"})
	}
	if len(feas) > 1 {
		e.nChoice++
		if e.sites != nil {
			w := e.where()
			if len(gs[0].String()) < 60 {
				w = gs[0].String() + w
			}
			e.sites[w]++
		}
		cp := &choicePoint{snap: e.snapshot(), dec: append([]int(nil), e.dec...), alts: feas[1:]}
		e.choices = append(e.choices, cp)
		if len(e.choices) > 100000 {
			panic(unsupported("too many open choices"))
		}
	}
	k := feas[0]
	e.dec = append(e.dec, k)
	if !e.assume(gs[k]) {
		panic(pathEnd{kind: "infeasible"})
	}
	return k
}

// coverage records that the path condition implies one of the guards kept.
func (e *Engine) coverage(gs []*Term, feas []int) {
	kept := make([]*Term, len(feas))
	for i, k := range feas {
		kept[i] = gs[k]
	}
	vs := map[*Var]bool{}
	cond := e.tt.not(e.tt.or(kept...))
	for _, v := range cond.allVars() {
		vs[v] = true
	}
	xs := []*Term{cond}
	for i, v := range e.vars {
		if e.doms[i] != v.dom && (vs[v] || len(e.clauses) > 0) {
			xs = append(xs, e.tt.intern(&Term{Op: OInSet, A: []*Term{v.term}, Set: e.doms[i], C: 1}))
		}
	}
	xs = append(xs, e.clauses...)
	if len(xs) == 1 && xs[0] == e.tt.fls {
		return
	}
	q := e.tt.intern(&Term{Op: OBAnd, A: xs, C: 1})
	if !e.covSeen[q] {
		e.covSeen[q] = true
		e.covQ = append(e.covQ, q)
	}
}

// branch decides a condition, forking when both outcomes are possible.
func (e *Engine) branch(c *Term) bool {
	switch e.eval3(c) {
	case yes:
		return true
	case no:
		return false
	}
	return e.choose(c, e.tt.not(c)) == 0
}

// backtrack resumes the latest open alternative; false if there is none.
func (e *Engine) backtrack() bool {
	for {
		n := len(e.choices)
		if n == 0 {
			return false
		}
		cp := e.choices[n-1]
		k := cp.alts[0]
		cp.alts = cp.alts[1:]
		last := len(cp.alts) == 0
		if last {
			e.choices = e.choices[:n-1]
		}
		e.restore(cp.snap, last)
		e.replay = append(append([]int(nil), cp.dec...), k)
		e.dec = nil
		return true
	}
}

func (e *Engine) globalAddr(i int32) Val {
	for int(i) >= len(e.globals) {
		e.globals = append(e.globals, nil)
	}
	if e.globals[i] == nil {
		e.P.sh.mu.RLock()
		g := e.P.sh.glist[i]
		e.P.sh.mu.RUnlock()
		e.globals[i] = e.newGlobal(g)
		if e.share != nil && g.Pkg != nil && hasDot(g.Pkg.Pkg.Path()) {
			e.share.cells[e.globals[i]] = true
		}
	}
	return Val{P: e.globals[i]}
}

func (e *Engine) newGlobal(g *ssa.Global) *Val {
	return e.nativeGlobal(g)
}

func (e *Engine) where() string {
	if len(e.gs) == 0 {
		return ""
	}
	g := e.gs[e.cur]
	s := ""
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-12; i-- {
		f := g.frames[i]
		pos := ""
		if int(f.pc) < len(f.fn.code) {
			if in := f.fn.code[f.pc].src; in != nil {
				p := e.P.fset.Position(in.Pos())
				if p.IsValid() {
					pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
				}
			}
		}
		s += fmt.Sprintf("\n\t%s %s", f.fn.name, pos)
	}
	return s
}

// byBounds decides a comparison by the bounds of its sides.
func (e *Engine) byBounds(t *Term, doms []*ISet) tri {
	switch t.Op {
	case OEq, OSlt, OSle, OUlt, OUle:
	default:
		return maybe
	}
	al, ah, ok := e.ival(t.A[0], doms, 0)
	if !ok {
		return maybe
	}
	bl, bh, ok := e.ival(t.A[1], doms, 0)
	if !ok {
		return maybe
	}
	switch t.Op {
	case OEq:
		if ah < bl || bh < al {
			return no
		}
		if al == ah && bl == bh {
			return yes
		}
		return maybe
	case OUlt, OUle:
		if al < 0 || bl < 0 {
			return maybe
		}
	}
	if t.Op == OSlt || t.Op == OUlt {
		if ah < bl {
			return yes
		}
		if al >= bh {
			return no
		}
		return maybe
	}
	if ah <= bl {
		return yes
	}
	if al > bh {
		return no
	}
	return maybe
}

// ival gives the least and greatest signed value of a term.
func (e *Engine) ival(x *Term, doms []*ISet, depth int) (int64, int64, bool) {
	if x.Op == OConst {
		v := sx(x.C, x.W)
		return v, v, true
	}
	if depth > 30 {
		return 0, 0, false
	}
	if x.v1 != nil && x.Op != OUTF8 {
		sg := e.tt.segs(x)
		d := doms[x.v1.idx]
		if len(sg) == 0 || len(sg) > 4096 || len(d.r) > 4096 {
			return 0, 0, false
		}
		lo, hi := int64(1)<<62, -int64(1)<<62
		i := 0
		for _, s := range sg {
			for i < len(d.r) && d.r[i].hi < s.lo {
				i++
			}
			for j := i; j < len(d.r) && d.r[j].lo <= s.hi; j++ {
				a, b := max(s.lo, d.r[j].lo), min(s.hi, d.r[j].hi)
				lo, hi = min(lo, s.at(a)), max(hi, s.at(b))
			}
		}
		return lo, hi, lo <= hi
	}
	switch x.Op {
	case OAdd, OSub:
		al, ah, ok := e.ival(x.A[0], doms, depth+1)
		if !ok {
			return 0, 0, false
		}
		bl, bh, ok := e.ival(x.A[1], doms, depth+1)
		if !ok {
			return 0, 0, false
		}
		const big = int64(1) << 60
		if al < -big || ah > big || bl < -big || bh > big {
			return 0, 0, false
		}
		if x.Op == OSub {
			bl, bh = -bh, -bl
		}
		return al + bl, ah + bh, fits(al+bl, ah+bh, x.W)
	case OMul:
		k := x.A[1]
		al, ah, ok := e.ival(x.A[0], doms, depth+1)
		if !ok || k.Op != OConst {
			return 0, 0, false
		}
		c := sx(k.C, k.W)
		const big = int64(1) << 30
		if c < -big || c > big || al < -big || ah > big {
			return 0, 0, false
		}
		a, b := al*c, ah*c
		return min(a, b), max(a, b), fits(min(a, b), max(a, b), x.W)
	case OSext:
		return e.ival(x.A[0], doms, depth+1)
	case OZext:
		l, h, ok := e.ival(x.A[0], doms, depth+1)
		return l, h, ok && l >= 0
	case OTrunc:
		l, h, ok := e.ival(x.A[0], doms, depth+1)
		return l, h, ok && fits(l, h, x.W)
	case OTab:
		l, h, ok := e.ival(x.A[0], doms, depth+1)
		if !ok {
			return 0, 0, false
		}
		lo, hi := int64(1)<<62, -int64(1)<<62
		pos := l
		for _, s := range x.Tab.segs {
			a, b := max(s.lo, l), min(s.hi, h)
			if a > b {
				continue
			}
			if a > pos {
				lo, hi = min(lo, 0), max(hi, 0)
			}
			lo, hi = min(lo, s.at(a)), max(hi, s.at(b))
			pos = b + 1
		}
		if pos <= h {
			lo, hi = min(lo, 0), max(hi, 0)
		}
		return lo, hi, true
	}
	return 0, 0, false
}

// boundsUsed queues the solver's confirmation of a decision by bounds.
func (e *Engine) boundsUsed(t *Term, doms []*ISet, r tri) {
	xs := []*Term{t}
	if r == yes {
		xs[0] = e.tt.intern(&Term{Op: ONot, C: 2, A: []*Term{t}})
	}
	for _, v := range t.allVars() {
		if d := doms[v.idx]; d != v.dom {
			xs = append(xs, e.tt.intern(&Term{Op: OInSet, A: []*Term{v.term}, Set: d, C: 1}))
		}
	}
	q := e.tt.intern(&Term{Op: OBAnd, A: xs, C: 1})
	if !e.covSeen[q] {
		e.covSeen[q] = true
		e.covQ = append(e.covQ, q)
	}
}
