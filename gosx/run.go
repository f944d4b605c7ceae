package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// runCfg is the configuration of one shard's exploration.
type runCfg struct {
	initOrder int // how maps are iterated while the packages are initialized
	harness   string
	pkg       string
	shard     int
	tier      string
	deadline  time.Time
	samples   int // leaves replayed natively
	maxBad    int
	verbose   bool
	seed      int64
}

// Vector is one concrete run (see rt/verifrt.go).
type Vector struct {
	ID      int     `json:"id"`
	Harness string  `json:"harness"`
	Shard   int     `json:"shard"`
	Tier    string  `json:"tier"`
	Vals    []int64 `json:"vals"`
	Repeat  int     `json:"repeat"`
	Timeout int     `json:"timeout"`

	pkg   string
	kind  string // sample, assert, panic, hang, deadlock, unsupported
	msg   string
	obs   []obsOut
	order bool // map order was chosen
}

type obsOut struct {
	Tag string `json:"tag"`
	Val string `json:"val"`
}

// ShardResult is what one exploration covered.
type ShardResult struct {
	Harness     string
	Shard       int
	Paths       int
	Ends        map[string]int
	Steps       int64
	Choices     int
	Asserts     int // assertion instances on all paths
	AssertConc  int // decided without a symbolic condition
	AssertQ     int // with a symbolic condition: queries
	CovQ        int
	AuditQ      int
	AuditLeft   int
	Queries     int
	Sat         int
	Unsat       int
	Unknown     int
	SolverTime  time.Duration
	Wall        time.Duration
	Reach       map[string]int
	Witness     bool // some completed path was shown satisfiable by the solver
	Unsupported map[string]int
	Incomplete  string
	OpenLeft    int
	Samples     []*Vector
	Bad         []*Vector
	Funcs       map[string]bool
	Stubs       map[string]int
	Vars        int // most symbolic inputs on a path
	Domains     map[string]bool
	Internal    []string
	Hash        uint64
}

type oblig struct {
	q     *Term
	pc    *Term
	vars  []*Var
	msg   string
	order bool
}

func (e *Engine) poll() {
	if !e.cfg.deadline.IsZero() && time.Now().After(e.cfg.deadline) {
		panic(pathEnd{kind: "deadline"})
	}
}

// initPackages runs the package initializers concretely.
func (e *Engine) runConcrete(fn *Fn, args []Val) (v Val, err error) {
	e.logging = false
	e.gs = []*Goro{{}}
	e.cur = 0
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				if r.kind == "done" {
					v = r.v
					return
				}
				err = fmt.Errorf("%s: %s %s", fn.name, r.kind, r.msg)
			case unsupportedErr:
				err = fmt.Errorf("%s: unsupported: %s%s", fn.name, r.msg, e.where())
			default:
				err = fmt.Errorf("%s: %v%s\n%s", fn.name, r, e.where(), debug.Stack())
			}
		}
	}()
	f := e.push(e.gs[0], fn, args, nil)
	f.isRoot = true
	e.run()
	return
}

// explore runs a harness on every path.
func (e *Engine) explore(cfg *runCfg) *ShardResult {
	t0 := time.Now()
	out := &ShardResult{Harness: cfg.harness, Shard: cfg.shard, Ends: map[string]int{}, Reach: map[string]int{}, Unsupported: map[string]int{}, Funcs: map[string]bool{}, Stubs: map[string]int{}, Domains: map[string]bool{}}
	e.out, e.cfg = out, cfg
	spkg := e.P.pkgs[cfg.pkg].spkg
	if cfg.initOrder != 0 {
		e.mapMode, e.mapUsed = cfg.initOrder, true
	}
	_, err := e.runConcrete(e.P.fn(spkg.Func("init")), nil)
	e.mapMode = 0
	if err != nil {
		out.Internal = append(out.Internal, err.Error())
		return out
	}
	hf := spkg.Func(cfg.harness)
	if hf == nil {
		out.Internal = append(out.Internal, "no harness "+cfg.harness)
		return out
	}
	e.steps = 0
	e.funcs = map[*Fn]bool{}
	if cfg.verbose {
		e.sites = map[string]int{}
		e.sol.prof, e.sol.profN = map[string]time.Duration{}, map[string]int{}
	}
	e.gs = []*Goro{{}}
	e.cur = 0
	e.logging = true
	e.trail = e.trail[:0]
	f := e.push(e.gs[0], e.P.fn(hf), []Val{num64(int64(cfg.shard))}, nil)
	f.isRoot = true
	rng := uint64(cfg.seed)*2654435761 + 12345
	for {
		end := e.onePath()
		e.totSteps += e.steps
		e.maxSteps = max(e.maxSteps, e.steps)
		e.maxTrail = max(e.maxTrail, len(e.trail))
		e.steps = 0
		if end.kind == "deadline" {
			out.Incomplete = "time limit"
			out.OpenLeft = len(e.choices) + 1
			break
		}
		out.Paths++
		out.Ends[end.kind]++
		if n := len(e.vars); n > out.Vars {
			out.Vars = n
		}
		if cfg.verbose && out.Paths < 5 {
			fmt.Fprintf(os.Stderr, "path %d: %s %s\n", out.Paths, end.kind, end.msg)
		}
		switch end.kind {
		case "done", "exit":
			if end.kind == "exit" && end.msg != "0" {
				// a non-zero exit status is an ordinary end
			}
			rng = rng*6364136223846793005 + 1442695040888963407
			if len(out.Samples) < cfg.samples && (out.Paths < cfg.samples/2 || rng>>60 == 0) {
				e.sample("sample", "")
			} else if !out.Witness {
				e.sample("sample", "")
			}
		case "panic", "deadlock", "fatal":
			e.sample(end.kind, end.msg)
		case "steps":
			e.sample("hang", end.msg)
			out.Incomplete = "a path which does not end"
			out.OpenLeft = len(e.choices)
		case "unsupported", "internal":
			key := firstLine(end.msg)
			out.Unsupported[key]++
			if out.Unsupported[key] <= 3 {
				e.sample("unsupported", end.msg)
			}
		}
		if len(e.oblQ) > 256 || len(e.covQ) > 512 {
			e.discharge(false)
		}
		if end.kind == "steps" {
			break
		}
		if len(out.Bad) >= cfg.maxBad {
			out.Incomplete = "enough counterexamples"
			out.OpenLeft = len(e.choices)
			break
		}
		if !e.backtrack() {
			break
		}
		if out.Paths%16 == 0 && !cfg.deadline.IsZero() && time.Now().After(cfg.deadline) {
			out.Incomplete = "time limit"
			out.OpenLeft = len(e.choices) + 1
			break
		}
	}
	e.discharge(true)
	if cfg.verbose {
		fmt.Fprintln(os.Stderr, e.sol.prof, e.sol.profN)
		fmt.Fprintln(os.Stderr, "MAX", cfg.harness, e.maxSteps, e.maxTrail)
	}
	for _, s := range e.topSites() {
		fmt.Fprintf(os.Stderr, "%d forks at %s\n", s.n, s.w)
	}
	out.Steps = e.totSteps
	out.Choices = e.nChoice
	if e.sol != nil {
		out.Queries, out.Sat, out.Unsat, out.Unknown, out.SolverTime = e.sol.Queries, e.sol.Sat, e.sol.Unsat, e.sol.Unknown, e.sol.Dur
	}
	for fn := range e.funcs {
		if e.P.isTarget(fn.f) {
			out.Funcs[strings.ReplaceAll(fn.name, modPath, "")] = true
		}
	}
	for k, v := range e.stubs {
		out.Stubs[k] = v
	}
	out.Wall = time.Since(t0)
	return out
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// isTarget: a function of the repository itself.
func (p *Program) isTarget(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return false
	}
	path := f.Pkg.Pkg.Path()
	if !strings.HasPrefix(path, modPath) || strings.Contains(path, "/internal/verifrt") {
		return false
	}
	if f.Pos().IsValid() {
		n := p.fset.Position(f.Pos()).Filename
		if strings.Contains(n, "zz_verif") {
			return false
		}
	}
	return true
}

func (e *Engine) onePath() (end pathEnd) {
	defer func() {
		r := recover()
		switch r := r.(type) {
		case pathEnd:
			end = r
		case unsupportedErr:
			end = pathEnd{kind: "unsupported", msg: r.msg + e.where()}
		case nil:
			end = pathEnd{kind: "internal", msg: "no end"}
		default:
			end = pathEnd{kind: "internal", msg: fmt.Sprintf("%v%s\n%s", r, e.where(), debug.Stack())}
		}
	}()
	e.run()
	return
}

// model finds values for the inputs of the current path.
func (e *Engine) model() ([]int64, string) {
	pc := e.pc()
	as := []string{e.sol.ref(pc)}
	for _, v := range e.vars {
		as = append(as, e.sol.domRef(v))
	}
	m := map[*Var]int64{}
	r, err := e.sol.check(as, e.vars, m)
	if err != nil {
		panic(err)
	}
	if r != "sat" {
		return nil, r
	}
	return e.values(e.vars, m), r
}

func (e *Engine) values(vars []*Var, m map[*Var]int64) []int64 {
	out := []int64{}
	for _, v := range vars {
		if !strings.Contains(v.name, "_maporder_") {
			out = append(out, m[v])
		}
	}
	return out
}

func usesOrder(vars []*Var) bool {
	for _, v := range vars {
		if strings.Contains(v.name, "_maporder_") {
			return true
		}
	}
	return false
}

func (e *Engine) sample(kind, msg string) {
	m := map[*Var]int64{}
	var r string
	var err error
	pc := e.pc()
	as := []string{e.sol.ref(pc)}
	for _, v := range e.vars {
		as = append(as, e.sol.domRef(v))
	}
	r, err = e.sol.check(as, e.vars, m)
	if err != nil {
		panic(err)
	}
	if r != "sat" {
		if kind != "unsupported" {
			e.out.Internal = append(e.out.Internal, fmt.Sprintf("the end of a path (%s) is %s: %v", kind, r, pc))
		}
		return
	}
	v := &Vector{Harness: e.cfg.harness, Shard: e.cfg.shard, Tier: e.cfg.tier, Vals: e.values(e.vars, m), pkg: e.cfg.pkg, kind: kind, msg: msg, order: e.mapUsed}
	if kind == "sample" {
		e.out.Witness = true
		for _, o := range e.obs {
			s, ok := e.evalObs(o.v, m)
			if !ok {
				s = "?"
			}
			v.obs = append(v.obs, obsOut{o.tag, s})
		}
		e.out.Samples = append(e.out.Samples, v)
		return
	}
	if kind == "unsupported" {
		e.out.Samples = append(e.out.Samples, v)
		return
	}
	e.out.Bad = append(e.out.Bad, v)
}

// evalObs prints an observed value under a model, as the native side does.
func (e *Engine) evalObs(v Val, m map[*Var]int64) (string, bool) {
	i, _ := v.P.(*Iface)
	if i == nil {
		return fmt.Sprintf("%q", "<nil>"), true
	}
	ev := func(t *Term) uint64 { return t.eval(func(x *Var) int64 { return m[x] }) }
	k := kindOf(i.T)
	switch k.k {
	case kString:
		var b []byte
		for _, x := range strBytes(i.V) {
			if t := x.term(); t != nil {
				b = append(b, byte(ev(t)))
			} else {
				b = append(b, byte(x.N))
			}
		}
		return fmt.Sprintf("%q", string(b)), true
	case kInt:
		n := i.V.N
		if t := i.V.term(); t != nil {
			n = k.norm(ev(t))
		}
		if k.signed {
			return fmt.Sprintf("%q", fmt.Sprint(int64(n))), true
		}
		return fmt.Sprintf("%q", fmt.Sprint(n)), true
	case kBool:
		n := i.V.N
		if t := i.V.term(); t != nil {
			n = ev(t)
		}
		return fmt.Sprintf("%q", fmt.Sprint(n != 0)), true
	}
	return "", false
}

// assert handles an assertion of the harness.
func (e *Engine) assertion(c Val, msg string) {
	e.out.Asserts++
	t := c.term()
	if t == nil {
		e.out.AssertConc++
		if c.N == 0 {
			e.sample("assert", msg+e.where())
			panic(pathEnd{kind: "violation"})
		}
		return
	}
	r := e.reduce(t, e.doms)
	if r == e.tt.fls {
		e.sample("assert", msg+e.where())
		panic(pathEnd{kind: "violation"})
	}
	// Reduced conditions are sent in their full form.
	o := oblig{pc: e.pc(), msg: msg + e.where(), vars: append([]*Var(nil), e.vars...), order: e.mapUsed}
	o.q = e.tt.intern(&Term{Op: OBAnd, C: 2, A: []*Term{o.pc, e.tt.intern(&Term{Op: ONot, C: 2, A: []*Term{t}})}})
	e.oblQ = append(e.oblQ, o)
	e.out.AssertQ++
	if e.cfg.verbose && e.out.AssertQ < 3 {
		fmt.Fprintf(os.Stderr, "query: %v\n", t)
	}
	if !e.assume(t) || !e.feasible(e.tt.tru) {
		panic(pathEnd{kind: "violation"})
	}
}

// discharge sends the queued queries to the solver.
func (e *Engine) discharge(final bool) {
	if e.sol == nil {
		return
	}
	const batch = 64
	dom := func(ts []*Term) []string {
		seen := map[*Var]bool{}
		var as []string
		for _, t := range ts {
			for _, v := range t.allVars() {
				if !seen[v] {
					seen[v] = true
					as = append(as, e.sol.domRef(v))
				}
			}
		}
		return as
	}
	any := func(ts []*Term) (string, error) {
		as := dom(ts)
		rs := make([]string, len(ts))
		for i, t := range ts {
			rs[i] = e.sol.ref(t)
		}
		as = append(as, "(or false "+strings.Join(rs, " ")+")")
		return e.sol.check(as, nil, nil)
	}
	bad := func(what string, err error) {
		e.out.Internal = append(e.out.Internal, fmt.Sprintf("solver, %s: %v", what, err))
	}
	e.sol.what = "assert"
	defer func() { e.sol.what = "" }()
	// assertions
	for len(e.oblQ) > 0 {
		n := min(batch, len(e.oblQ))
		qs := e.oblQ[:n]
		e.oblQ = e.oblQ[n:]
		ts := make([]*Term, n)
		for i := range qs {
			ts[i] = qs[i].q
		}
		r, err := any(ts)
		if err != nil {
			bad("assertions", err)
			continue
		}
		if r == "unsat" {
			continue
		}
		for _, q := range qs {
			as := []string{e.sol.ref(q.q)}
			for _, v := range q.vars {
				as = append(as, e.sol.domRef(v))
			}
			m := map[*Var]int64{}
			r, err := e.sol.check(as, q.vars, m)
			if err != nil {
				bad("assertion", err)
				continue
			}
			switch r {
			case "sat":
				if len(e.out.Bad) < e.cfg.maxBad {
					e.out.Bad = append(e.out.Bad, &Vector{Harness: e.cfg.harness, Shard: e.cfg.shard, Tier: e.cfg.tier, Vals: e.values(q.vars, m), pkg: e.cfg.pkg, kind: "assert", msg: q.msg, order: q.order})
				}
			case "unknown":
				e.out.Unsupported["solver gave no answer on an assertion"]++
			}
		}
	}
	e.sol.what = "cover"
	// every choice covers the path condition
	for len(e.covQ) > 0 && (final || len(e.covQ) > 64) {
		n := min(batch, len(e.covQ))
		ts := e.covQ[:n]
		e.covQ = e.covQ[n:]
		e.out.CovQ += n
		r, err := any(ts)
		if err != nil {
			bad("coverage", err)
		} else if r == "unknown" {
			e.out.Unsupported["solver gave no answer on a coverage query"]++
		} else if r == "sat" {
			for _, t := range ts {
				if r, _ := any([]*Term{t}); r == "sat" {
					bad("coverage", fmt.Errorf("a case was missed: %v", t))
				}
			}
		}
	}
	e.sol.what = "audit"
	// sets computed for single-letter conditions
	if final {
		au := e.tt.audit
		e.tt.audit = nil
		// the rarest kinds first: spread over all of them
		key := func(a auditPair) uint32 {
			if a.set == nil {
				return 0
			}
			return uint32(a.set.id) % 7
		}
		sort.SliceStable(au, func(i, j int) bool { return key(au[i]) < key(au[j]) })
		lim := 400
		if e.cfg.tier == "thorough" {
			lim = 4000
		}
		if len(au) > lim {
			e.out.AuditLeft = len(au) - lim
			au = au[:lim]
		}
		t0 := time.Now()
		total, each := 8*time.Second, 3000
		if e.cfg.tier == "thorough" {
			total, each = 120*time.Second, 20000
		}
		e.sol.limit(each)
		defer e.sol.limit(60000)
		seen := map[string]bool{}
		for i, a := range au {
			if bigTab(a.a[0], 0) || len(a.a) > 1 && bigTab(a.a[1], 0) || a.set != nil && len(a.set.r) > 200 {
				e.out.AuditLeft++
				continue
			}
			k := auditKey(a)
			if seen[k] {
				continue
			}
			seen[k] = true
			if _, done := e.P.audited.Load(k); done {
				continue
			}
			if time.Since(t0) > total {
				e.out.AuditLeft += len(au) - i
				break
			}
			e.P.audited.Store(k, true)
			var raw string
			vs := []*Term{a.a[0]}
			if a.v != nil {
				vs = append(vs, a.v.term)
			}
			if a.set == nil {
				raw = "(not (= " + e.sol.ref(a.a[0]) + " " + e.sol.ref(a.a[1]) + "))"
			} else {
				raw = "(not (= " + e.sol.rawCond(a) + " (" + e.sol.setFun(a.set, a.v.w, a.v.lo >= 0) + " " + e.sol.declVar(a.v) + ")))"
			}
			t1 := time.Now()
			r, err := e.sol.check(append(dom(vs), raw), nil, nil)
			e.out.AuditQ++
			if e.cfg.verbose && time.Since(t1) > time.Second {
				fmt.Fprintf(os.Stderr, "slow audit %v %v %v\n", opNames[a.op], k, a.set)
			}
			if err != nil {
				bad("audit", fmt.Errorf("%v: %s", err, k))
			} else if r == "sat" {
				bad("audit", fmt.Errorf("a rewriting is wrong: %s", k))
			} else if r == "unknown" {
				e.out.AuditLeft++
			}
		}
	}
}

func hashSet(s *ISet) uint64 {
	h := fnv.New64a()
	for _, r := range s.r {
		fmt.Fprintf(h, "%x-%x,", r.lo, r.hi)
	}
	return h.Sum64()
}

// auditKey names a rewriting up to the choice of variables.
func auditKey(a auditPair) string {
	vs := map[*Var]int{}
	var b strings.Builder
	fmt.Fprintf(&b, "%d ", a.op)
	var rec func(x *Term)
	rec = func(x *Term) {
		switch x.Op {
		case OConst:
			fmt.Fprintf(&b, "%x:%d", x.C, x.W)
		case OVar:
			n, ok := vs[x.V]
			if !ok {
				n = len(vs)
				vs[x.V] = n
				fmt.Fprintf(&b, "{%x %d}", hashSet(x.V.dom), x.V.w)
			}
			fmt.Fprintf(&b, "v%d", n)
		default:
			fmt.Fprintf(&b, "(%d %d %x", x.Op, x.W, x.C)
			if x.Tab != nil {
				b.WriteString(" " + x.Tab.name)
			}
			if x.Set != nil {
				fmt.Fprintf(&b, " S%x", hashSet(x.Set))
			}
			for _, y := range x.A {
				b.WriteByte(' ')
				rec(y)
			}
			b.WriteByte(')')
		}
	}
	for _, x := range a.a {
		rec(x)
		b.WriteByte(';')
	}
	if a.set != nil {
		fmt.Fprintf(&b, "=%x", hashSet(a.set))
	}
	return b.String()
}

// rawCond is the condition as it was before it was turned into a set.
func (s *Solver) rawCond(a auditPair) string {
	if a.op == OInSet {
		set := a.a[1].Set
		x := s.ref(a.a[0])
		return "(" + s.setFun(set, a.a[0].W, false) + " " + x + ")"
	}
	return fmt.Sprintf("(%s %s %s)", smtBin[a.op], s.ref(a.a[0]), s.ref(a.a[1]))
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// bigTab: the term holds a table too large to compare within reasonable time.
func bigTab(x *Term, d int) bool {
	if x.Tab != nil && len(x.Tab.segs) > 64 || d > 20 {
		return true
	}
	for _, y := range x.A {
		if bigTab(y, d+1) {
			return true
		}
	}
	return false
}
