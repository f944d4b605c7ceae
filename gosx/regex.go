package main

import (
	"fmt"
	"go/types"
	"reflect"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode"
)

// rprog is a compiled regular expression.
type rprog struct {
	re      *regexp.Regexp
	prog    *syntax.Prog
	maxCap  int
	names   []string
	err     *syntax.Error
	instSet map[int][]rg
	mu      sync.Mutex
}

var rprogs sync.Map

func getProg(expr string) *rprog {
	if x, ok := rprogs.Load(expr); ok {
		return x.(*rprog)
	}
	rp := &rprog{instSet: map[int][]rg{}}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err == nil {
		rp.maxCap = re.MaxCap()
		rp.names = re.CapNames()
		rp.prog, err = syntax.Compile(re.Simplify())
	}
	if err == nil {
		rp.re, err = regexp.Compile(expr)
	}
	if err != nil {
		if se, ok := err.(*syntax.Error); ok {
			rp.err = se
		} else {
			rp.err = &syntax.Error{Code: syntax.ErrInternalError, Expr: expr}
		}
	}
	rprogs.Store(expr, rp)
	return rp
}

// runeSet is the set of runes an instruction accepts.
func (rp *rprog) runeSet(e *Engine, pc int) *ISet {
	rp.mu.Lock()
	r, ok := rp.instSet[pc]
	if !ok {
		r = instRunes(&rp.prog.Inst[pc])
		rp.instSet[pc] = r
	}
	rp.mu.Unlock()
	return e.tt.sets.norm(append([]rg(nil), r...))
}

func instRunes(in *syntax.Inst) []rg {
	var out []rg
	switch in.Op {
	case syntax.InstRuneAny:
		return []rg{{0, maxRune}}
	case syntax.InstRuneAnyNotNL:
		return []rg{{0, '\n' - 1}, {'\n' + 1, maxRune}}
	case syntax.InstRune1:
		return []rg{{int64(in.Rune[0]), int64(in.Rune[0])}}
	case syntax.InstRune:
		if len(in.Rune) == 1 {
			r0 := in.Rune[0]
			out = append(out, rg{int64(r0), int64(r0)})
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for r := unicode.SimpleFold(r0); r != r0; r = unicode.SimpleFold(r) {
					out = append(out, rg{int64(r), int64(r)})
				}
			}
			return out
		}
		for i := 0; i+1 < len(in.Rune); i += 2 {
			out = append(out, rg{int64(in.Rune[i]), int64(in.Rune[i+1])})
		}
		return out
	}
	panic(unsupported("regexp instruction %v", in.Op))
}

// field indices of regexp.Regexp and syntax.Prog, by name
func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsupported("no field %s in %v", name, t))
}

func (p *Program) namedType(pkg, name string) types.Type {
	pi := p.pkgs[pkg]
	if pi == nil || pi.tpkg == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	return pi.tpkg.Scope().Lookup(name).Type()
}

func (e *Engine) syntaxErr(err *syntax.Error) Val {
	t := e.P.namedType("regexp/syntax", "Error")
	v := Val{P: &Agg{[]Val{strVal(string(err.Code)), strVal(err.Expr)}}}
	return Val{P: &Iface{T: e.P.canon(types.NewPointer(t)), V: Val{P: &v}}}
}

// concStr makes a string concrete, forking over the values of narrow letters.
func (e *Engine) concStr(v Val) string {
	v = e.simp(v)
	if s, ok := v.str(); ok {
		return s
	}
	rs, _ := e.runesOf(v)
	for _, r := range rs {
		if t := r.term(); t != nil {
			e.concretizeAny(t)
		}
	}
	v = e.simp(v)
	if s, ok := v.str(); ok {
		return s
	}
	panic(unsupported("symbolic text where a concrete one is needed"))
}

func init() {
	intrinsics["regexp.compile"] = func(e *Engine, fn *Fn, args []Val) Val {
		expr := e.concStr(args[0])
		if args[1].N != uint64(syntax.Perl) || args[2].N != 0 {
			panic(unsupported("regexp mode"))
		}
		rp := getProg(expr)
		if rp.err != nil {
			return tup(Val{}, e.syntaxErr(rp.err))
		}
		rt := e.P.namedType("regexp", "Regexp")
		pt := e.P.namedType("regexp/syntax", "Prog")
		v := zero(rt)
		a := v.P.(*Agg)
		set := func(n string, x Val) { a.E[fieldIndex(rt, n)] = x }
		prog := zero(pt)
		prog.P.(*Agg).E[fieldIndex(pt, "NumCap")] = num64(int64(rp.prog.NumCap))
		set("expr", strVal(expr))
		set("prog", Val{P: &prog})
		set("numSubexp", num64(int64(rp.maxCap)))
		set("subexpNames", fromStrs(rp.names))
		set("matchcap", num64(int64(max(2, rp.prog.NumCap))))
		return tup(Val{P: &v}, Val{})
	}
	intrinsics["(*regexp/syntax.Error).Error"] = func(e *Engine, fn *Fn, args []Val) Val {
		a := args[0].P.(*Val).P.(*Agg)
		return strCat(strCat(strCat(strCat(strVal("error parsing regexp: "), a.E[0]), strVal(": `")), a.E[1]), strVal("`"))
	}
	intrinsics["regexp/syntax.Parse"] = func(e *Engine, fn *Fn, args []Val) Val {
		expr := e.concStr(args[0])
		re, err := syntax.Parse(expr, syntax.Flags(args[1].N))
		if err != nil {
			se, ok := err.(*syntax.Error)
			if !ok {
				se = &syntax.Error{Code: syntax.ErrInternalError, Expr: expr}
			}
			return tup(Val{}, e.syntaxErr(se))
		}
		t := e.P.namedType("regexp/syntax", "Regexp")
		return tup(e.reflectVal(reflect.ValueOf(re), types.NewPointer(t)), Val{})
	}
	// find was doExecute before Go 1.27
	find := func(e *Engine, fn *Fn, args []Val) Val {
		if i, _ := args[1].P.(*Iface); i != nil {
			panic(unsupported("regexp on a reader"))
		}
		rt := e.P.namedType("regexp", "Regexp")
		a := args[0].P.(*Val).P.(*Agg)
		if a.E[fieldIndex(rt, "longest")].N != 0 {
			panic(unsupported("leftmost-longest matching"))
		}
		expr, _ := a.E[fieldIndex(rt, "expr")].str()
		rp := getProg(expr)
		text := args[3]
		if b, ok := args[2].P.(*Slice); ok && b != nil {
			text = mkStr(append([]Val(nil), b.S...))
		}
		pos := e.concInt(args[4])
		ncap := int(args[5].N)
		caps := e.reMatch(rp, e.simp(text), int(pos))
		if caps == nil {
			return Val{}
		}
		out := append([]Val(nil), args[6].slice()...)
		for i := 0; i < ncap; i++ {
			if i < len(caps) {
				out = append(out, num64(int64(caps[i])))
			} else {
				out = append(out, num64(-1))
			}
		}
		return sliceVal(out)
	}
	intrinsics["(*regexp.Regexp).find"] = find
	intrinsics["(*regexp.Regexp).doExecute"] = find
	for _, n := range []string{"doOnePass", "backtrack"} {
		intrinsics["(*regexp.Regexp)."+n] = func(e *Engine, fn *Fn, args []Val) Val { panic(unsupported("the matcher of regexp")) }
	}
}

// reflectVal converts a native value to the given type.
func (e *Engine) reflectVal(v reflect.Value, t types.Type) Val {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return Val{}
		}
		x := e.reflectVal(v.Elem(), t.Underlying().(*types.Pointer).Elem())
		return Val{P: &x}
	case reflect.Struct:
		st := t.Underlying().(*types.Struct)
		a := &Agg{make([]Val, v.NumField())}
		for i := range a.E {
			a.E[i] = e.reflectVal(v.FieldByName(st.Field(i).Name()), st.Field(i).Type())
		}
		return Val{P: a}
	case reflect.Slice:
		if v.IsNil() {
			return Val{}
		}
		el := t.Underlying().(*types.Slice).Elem()
		var out []Val
		for i := 0; i < v.Len(); i++ {
			out = append(out, e.reflectVal(v.Index(i), el))
		}
		return sliceVal(out)
	case reflect.Array:
		el := t.Underlying().(*types.Array).Elem()
		a := &Agg{}
		for i := 0; i < v.Len(); i++ {
			a.E = append(a.E, e.reflectVal(v.Index(i), el))
		}
		return Val{P: a}
	case reflect.String:
		return strVal(v.String())
	case reflect.Bool:
		return boolVal(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return num64(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return num(v.Uint())
	}
	panic(unsupported("native value %v", v.Kind()))
}

// ------------------------------------------------------------------ matching

type rleaf struct {
	lits []*Term
	caps []int
	key  string
	box  map[*Var]*ISet
	box1 bool
}

type rmatch struct {
	e       *Engine
	rp      *rprog
	rs      []Val
	offs    []int
	start   int // index of the first rune where a match may begin
	doms    []*ISet
	decided map[*Term]bool
	lits    []*Term
	script  []bool
	sp      int
	visited []uint32
	caps    []int
	best    []int
	steps   int
}

// reMatch finds the leftmost-first match at or after pos, forking on symbolic
// letters; nil when there is none.
func (e *Engine) reMatch(rp *rprog, text Val, pos int) []int {
	if s, ok := text.str(); ok && pos == 0 {
		m := rp.re.FindStringSubmatchIndex(s)

		return m
	}
	rs, offs := e.runesOf(text)
	m := &rmatch{e: e, rp: rp, rs: rs, offs: offs}
	for m.start < len(rs) && offs[m.start] < pos {
		m.start++
	}
	leaves := m.explore()
	if len(leaves) == 1 {
		return leaves[0].caps
	}
	gs := make([]*Term, len(leaves))
	for i, l := range leaves {
		gs[i] = e.tt.and(l.lits...)
	}
	return leaves[e.choose(gs...)].caps
}

const maxLeaves = 20000

func (m *rmatch) explore() []*rleaf {
	var leaves []*rleaf
	var script []bool
	for {
		m.script = script
		m.sp = 0
		m.lits = nil
		m.decided = map[*Term]bool{}
		m.doms = append(m.doms[:0], m.e.doms...)
		caps := m.run()
		leaves = append(leaves, &rleaf{lits: m.lits, caps: caps, key: fmt.Sprint(caps)})
		if len(leaves) > maxLeaves {
			panic(unsupported("too many regexp outcomes"))
		}
		script = m.script
		for len(script) > 0 && !script[len(script)-1] {
			script = script[:len(script)-1]
		}
		if len(script) == 0 {
			break
		}
		script = append([]bool(nil), script...)
		script[len(script)-1] = false
	}
	if len(leaves) == 1 {
		return leaves
	}
	return m.merge(leaves)
}

// merge joins outcomes with equal captures that differ in one variable only.
func (m *rmatch) merge(ls []*rleaf) []*rleaf {
	tt := m.e.tt
	for _, l := range ls {
		l.box = map[*Var]*ISet{}
		l.box1 = true
		for _, t := range l.lits {
			if t.Op != OInSet {
				l.box1 = false
				break
			}
			v := t.A[0].V
			if s, ok := l.box[v]; ok {
				l.box[v] = tt.sets.and(s, t.Set)
			} else {
				l.box[v] = tt.sets.and(t.Set, m.e.doms[v.idx])
			}
		}
	}
	if len(ls) > 3000 {
		return ls
	}
	groups := map[string][]*rleaf{}
	var order []string
	for _, l := range ls {
		if groups[l.key] == nil {
			order = append(order, l.key)
		}
		groups[l.key] = append(groups[l.key], l)
	}
	var out []*rleaf
	for _, k := range order {
		g := groups[k]
		for changed := true; changed; {
			changed = false
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if m.join(g[i], g[j]) {
						g = append(g[:j], g[j+1:]...)
						j--
						changed = true
					}
				}
			}
		}
		out = append(out, g...)
	}
	for _, l := range out {
		if l.box1 {
			l.lits = l.lits[:0:0]
			vs := make([]*Var, 0, len(l.box))
			for v := range l.box {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].idx < vs[j].idx })
			for _, v := range vs {
				if l.box[v] != m.e.doms[v.idx] {
					l.lits = append(l.lits, tt.inVar(v, l.box[v]))
				}
			}
		}
	}
	return out
}

func (m *rmatch) join(a, b *rleaf) bool {
	if !a.box1 || !b.box1 {
		return false
	}
	var diff *Var
	get := func(x *rleaf, v *Var) *ISet {
		if s, ok := x.box[v]; ok {
			return s
		}
		return m.e.doms[v.idx]
	}
	for v := range a.box {
		if get(a, v) != get(b, v) {
			if diff != nil {
				return false
			}
			diff = v
		}
	}
	for v := range b.box {
		if v != diff && get(a, v) != get(b, v) {
			if diff != nil {
				return false
			}
			diff = v
		}
	}
	if diff == nil {
		return true
	}
	a.box[diff] = m.e.tt.sets.or(get(a, diff), get(b, diff))
	return true
}

// ask decides a condition on this run.
func (m *rmatch) ask(c *Term) bool {
	switch m.e.eval3d(c, m.doms) {
	case yes:
		return true
	case no:
		return false
	}
	if d, ok := m.decided[c]; ok {
		return d
	}
	if m.sp >= len(m.script) {
		m.script = append(m.script, true)
	}
	d := m.script[m.sp]
	m.sp++
	m.decided[c] = d
	lit := c
	if !d {
		lit = m.e.tt.not(c)
	}
	m.lits = append(m.lits, lit)
	if lit.Op == OInSet {
		v := lit.A[0].V
		m.doms[v.idx] = m.e.tt.sets.and(m.doms[v.idx], lit.Set)
	}
	return d
}

func (m *rmatch) run() []int {
	n := len(m.rp.prog.Inst)
	sz := n * (len(m.rs) + 1)
	if cap(m.visited) < (sz+31)/32 {
		m.visited = make([]uint32, (sz+31)/32)
	} else {
		m.visited = m.visited[:(sz+31)/32]
		clear(m.visited)
	}
	nc := max(2, m.rp.prog.NumCap)
	anchored := m.rp.prog.StartCond()&syntax.EmptyBeginText != 0
	for p := m.start; p <= len(m.rs); p++ {
		m.caps = make([]int, nc)
		for i := range m.caps {
			m.caps[i] = -1
		}
		m.caps[0] = m.offs[p]
		if m.step(m.rp.prog.Start, p) {
			return m.best
		}
		if anchored {
			break
		}
	}
	return nil
}

func (m *rmatch) step(pc, p int) bool {
	for {
		bit := pc*(len(m.rs)+1) + p
		if m.visited[bit/32]&(1<<(bit%32)) != 0 {
			return false
		}
		m.visited[bit/32] |= 1 << (bit % 32)
		in := &m.rp.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt:
			if m.step(int(in.Out), p) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstAltMatch:
			if m.step(int(in.Out), p) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstCapture:
			if int(in.Arg) < len(m.caps) {
				old := m.caps[in.Arg]
				m.caps[in.Arg] = m.offs[p]
				if m.step(int(in.Out), p) {
					return true
				}
				m.caps[in.Arg] = old
				return false
			}
			pc = int(in.Out)
		case syntax.InstEmptyWidth:
			if !m.empty(syntax.EmptyOp(in.Arg), p) {
				return false
			}
			pc = int(in.Out)
		case syntax.InstMatch:
			m.caps[1] = m.offs[p]
			m.best = append([]int(nil), m.caps...)
			return true
		default:
			if p >= len(m.rs) {
				return false
			}
			r := m.rs[p]
			if t := r.term(); t != nil {
				if !m.ask(m.e.tt.inSet(t, m.rp.runeSet(m.e, pc))) {
					return false
				}
			} else if !in.MatchRune(rune(int32(r.N))) {
				return false
			}
			p++
			pc = int(in.Out)
		}
	}
}

func (m *rmatch) isRune(p int, name string, f func(rune) bool) bool {
	if p < 0 || p >= len(m.rs) {
		return false
	}
	r := m.rs[p]
	if t := r.term(); t != nil {
		return m.ask(m.e.tt.inSet(t, m.e.predSet(name, f)))
	}
	return f(rune(int32(r.N)))
}

func (m *rmatch) empty(op syntax.EmptyOp, p int) bool {
	nl := func(q int) bool { return m.isRune(q, "newline", func(r rune) bool { return r == '\n' }) }
	word := func(q int) bool { return m.isRune(q, "wordchar", syntax.IsWordChar) }
	if op&syntax.EmptyBeginText != 0 && p != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && p != len(m.rs) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && p != 0 && !nl(p-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && p != len(m.rs) && !nl(p) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := word(p-1) != word(p)
		if op&syntax.EmptyWordBoundary != 0 && !b || op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

// matchSelfTest compares the matcher with the native one.
func matchSelfTest(p *Program) error {
	exprs := []string{`a|ab`, `(a*)(b?)c`, `(?:^|\s)(a)(b|$)`, `^(?s:..*?)((x)|(y)z)`, `[^a-c]+?(.)`, `(?i:k)s`, `\bfoo\B`, `(a|b)*?c{1,2}`, `(()|a)+b`, `[가-힣]`, `(?m:^b$)`}
	texts := []string{"", "a", "abc", "xaabbc", " ab", "zxyz", "foo foob", "ababcc", "가a나", "K\u017f", "a\nb\nc", "\xffa"}
	e, err := newEngine(p, "")
	if err != nil {
		return err
	}
	for _, x := range exprs {
		rp := getProg(x)
		for _, s := range texts {
			rs, offs := e.runesOf(strVal(s))
			m := &rmatch{e: e, rp: rp, rs: rs, offs: offs}
			got := m.explore()[0].caps
			want := rp.re.FindStringSubmatchIndex(s)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Errorf("matcher self test: %q on %q: %v, want %v", x, s, got, want)
			}
		}
	}
	_ = strings.ToLower
	return nil
}
