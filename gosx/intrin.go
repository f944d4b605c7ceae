package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

const modPath = "github.com/hangulize/hangulize"
const vrt = modPath + "/internal/verifrt."
const mdl = modPath + "/internal/verifrt/models."

func tup(vs ...Val) Val { return Val{P: vs} }

// body leaves the work to the function's own source.
func body(fn *Fn, args []Val) Val {
	return Val{P: tailCall{fn: fn, args: append([]Val(nil), args...)}}
}

// toModel leaves the work to a model written in Go.
func toModel(name string) intrinsic {
	return func(e *Engine, fn *Fn, args []Val) Val {
		e.stubs[fn.name]++
		return Val{P: tailCall{fn: e.P.model(name), args: append([]Val(nil), args...)}}
	}
}

func (p *Program) model(name string) *Fn {
	pi := p.pkgs[modPath+"/internal/verifrt/models"]
	if pi == nil {
		panic(unsupported("models not loaded"))
	}
	f := pi.spkg.Func(name)
	if f == nil {
		panic(unsupported("no model %s", name))
	}
	return p.fn(f)
}

func (p *Program) errType() types.Type {
	p.sh.mu.RLock()
	t := p.sh.errT
	p.sh.mu.RUnlock()
	if t != nil {
		return t
	}
	t = p.canon(types.NewPointer(p.pkgs["errors"].tpkg.Scope().Lookup("errorString").Type()))
	p.sh.mu.Lock()
	p.sh.errT = t
	p.sh.mu.Unlock()
	return t
}

// poison stands for a value of a package that is not executed.
type poison struct{ name string }

func (e *Engine) nativeGlobal(g *ssa.Global) *Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	path := g.Pkg.Pkg.Path()
	pi := e.P.pkgs[path]
	if path == "unicode" {
		if tb, ok := unicodeTables[g.Name()]; ok {
			return &Val{P: &Val{P: &Native{tb}}}
		}
		if m, ok := map[string]map[string]*unicode.RangeTable{"Scripts": unicode.Scripts, "Categories": unicode.Categories, "Properties": unicode.Properties}[g.Name()]; ok {
			mv := newMap()
			names := make([]string, 0, len(m))
			for k := range m {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				en := &mapEnt{k: strVal(k), v: Val{P: &Val{P: &Native{m[k]}}}}
				mv.ents = append(mv.ents, en)
				mv.idx[k] = en
				mv.n++
			}
			return &Val{P: mv}
		}
	}
	if path == "os" {
		switch g.Name() {
		case "Stdin", "Stdout", "Stderr":
			return &Val{P: &Val{P: &Native{"os." + g.Name()}}}
		case "Args":
			return &Val{P: &Slice{[]Val{strVal("prog")}}}
		case "ErrNotExist", "ErrExist", "ErrPermission", "ErrClosed":
			if op := e.P.pkgs["internal/oserror"]; op != nil && op.interp {
				return &Val{P: e.globalAddr(e.P.global(op.spkg.Var(g.Name()))).P.(*Val).P}
			}
		}
	}
	if pi != nil && pi.interp {
		c := newCell(zero(t))
		if pats, ok := e.P.embeds[path+"."+g.Name()]; ok {
			e.fillEmbed(c, t, path, pats)
		}
		return c
	}
	return &Val{P: poison{path + "." + g.Name()}}
}

func (e *Engine) fillEmbed(c *Val, t types.Type, path string, pats []string) {
	names, dir := e.P.embedFiles(path, pats)
	read := func(n string) string {
		f := filepath.Join(dir, n)
		if r, ok := e.P.overlay[f]; ok {
			f = r
		}
		b, err := os.ReadFile(f)
		if err != nil {
			panic(unsupported("embed: %v", err))
		}
		return string(b)
	}
	switch kindOf(t).k {
	case kString:
		*c = strVal(read(names[0]))
		return
	case kAgg:
		// embed.FS
		type ent struct{ dir, elem, full string }
		var ents []ent
		seen := map[string]bool{}
		add := func(full string) {
			if seen[full] {
				return
			}
			seen[full] = true
			n := strings.TrimSuffix(full, "/")
			d, el := ".", n
			if i := strings.LastIndexByte(n, '/'); i >= 0 {
				d, el = n[:i], n[i+1:]
			}
			ents = append(ents, ent{d, el, full})
		}
		for _, n := range names {
			add(n)
			for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
				add(d + "/")
			}
		}
		sort.Slice(ents, func(i, j int) bool {
			if ents[i].dir != ents[j].dir {
				return ents[i].dir < ents[j].dir
			}
			return ents[i].elem < ents[j].elem
		})
		var fs []Val
		for _, en := range ents {
			data := ""
			if !strings.HasSuffix(en.full, "/") {
				data = read(en.full)
			}
			hash := &Agg{make([]Val, 16)}
			fs = append(fs, Val{P: &Agg{[]Val{strVal(en.full), strVal(data), {P: hash}}}})
		}
		c.P.(*Agg).E[0] = Val{P: &Val{P: &Slice{fs}}}
		return
	}
	*c = sliceVal(strBytes(strVal(read(names[0]))))
}

// allConc reports whether the arguments hold nothing symbolic (strings and
// scalars only).
func allConc(args []Val) bool {
	for _, a := range args {
		switch a.P.(type) {
		case nil, string:
		default:
			return false
		}
	}
	return true
}

func sarg(v Val) string { s, _ := v.str(); return s }

// ssl turns a concrete string slice into Go values and back.
func fromStrs(xs []string) Val {
	if xs == nil {
		return Val{}
	}
	out := make([]Val, len(xs))
	for i, x := range xs {
		out[i] = strVal(x)
	}
	return sliceVal(out)
}

func (e *Engine) predSet(name string, f func(rune) bool) *ISet {
	return e.namedSet("pred:"+name, func() *ISet { return e.tt.sets.mk(predRanges(name, f)) })
}

func (e *Engine) rangeTable(v Val) (*unicode.RangeTable, string) {
	c, _ := v.P.(*Val)
	if c == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch x := c.P.(type) {
	case *Native:
		t := x.obj.(*unicode.RangeTable)
		return t, fmt.Sprintf("rt%p", t)
	case *Agg:
		t := &unicode.RangeTable{}
		key := "rtu"
		for _, r := range x.E[0].slice() {
			a := r.P.(*Agg).E
			t.R16 = append(t.R16, unicode.Range16{Lo: uint16(a[0].N), Hi: uint16(a[1].N), Stride: uint16(a[2].N)})
			key += fmt.Sprint(",", a[0].N, a[1].N, a[2].N)
		}
		for _, r := range x.E[1].slice() {
			a := r.P.(*Agg).E
			t.R32 = append(t.R32, unicode.Range32{Lo: uint32(a[0].N), Hi: uint32(a[1].N), Stride: uint32(a[2].N)})
			key += fmt.Sprint(";", a[0].N, a[1].N, a[2].N)
		}
		t.LatinOffset = int(x.E[2].N)
		return t, key
	}
	panic(unsupported("range table %T", c.P))
}

func (e *Engine) inTable(tv, r Val) *Term {
	t, key := e.rangeTable(tv)
	if !r.isSym() {
		return e.tt.bool(unicode.Is(t, rune(int32(r.N))))
	}
	return e.tt.inSet(r.term(), e.predSet(key, func(x rune) bool { return unicode.Is(t, x) }))
}

// indexGuards: guards for "the first match is at position i"; the last one is
// for no match. m gives the condition at a position.
func (e *Engine) firstOf(n int, m func(int) *Term) int {
	var gs []*Term
	var at []int
	none := e.tt.tru
	for i := 0; i < n; i++ {
		c := m(i)
		if e.eval3(c) == no {
			continue
		}
		gs = append(gs, e.tt.and(none, c))
		at = append(at, i)
		none = e.tt.and(none, e.tt.not(c))
		if e.eval3(c) == yes {
			none = nil
			break
		}
	}
	if none != nil {
		gs = append(gs, none)
		at = append(at, -1)
	}
	return at[e.choose(gs...)]
}

func (e *Engine) symIndex(b, sub []Val, last bool) int {
	n := len(b) - len(sub) + 1
	if n <= 0 {
		return -1
	}
	at := func(i int) *Term {
		var cs []*Term
		for j := range sub {
			c := e.equal(b[i+j], sub[j], k8, nil)
			if c == e.tt.fls {
				return c
			}
			cs = append(cs, c)
		}
		return e.tt.and(cs...)
	}
	if last {
		r := e.firstOf(n, func(i int) *Term { return at(n - 1 - i) })
		if r < 0 {
			return r
		}
		return n - 1 - r
	}
	return e.firstOf(n, at)
}

func byteVals(v Val) []Val {
	switch v.P.(type) {
	case *Slice:
		return v.slice()
	case nil:
		return nil
	}
	return strBytes(v)
}

// concBytes gives the bytes of a string or byte slice when all are concrete.
func concBytes(v Val) (string, bool) {
	if s, ok := v.P.(*Slice); ok {
		if s == nil {
			return "", true
		}
		buf := make([]byte, len(s.S))
		for i := range s.S {
			if s.S[i].P != nil {
				return "", false
			}
			buf[i] = byte(s.S[i].N)
		}
		return string(buf), true
	}
	return v.str()
}

// simp replaces bytes whose value is decided by the path.
func (e *Engine) simp(v Val) Val {
	s, ok := v.P.(*SStr)
	if !ok {
		return v
	}
	var nb []Val
	for i := range s.B {
		t := s.B[i].term()
		if t == nil {
			continue
		}
		single := true
		for _, x := range t.allVars() {
			if !e.doms[x.idx].single() {
				single = false
				break
			}
		}
		if single {
			if nb == nil {
				nb = append([]Val(nil), s.B...)
			}
			nb[i] = num(t.eval(func(x *Var) int64 { return e.doms[x.idx].r[0].lo }))
		}
	}
	if nb == nil {
		return v
	}
	return mkStr(nb)
}

// runesOf decodes a string into runes, with their byte offsets.
func (e *Engine) runesOf(v Val) (rs []Val, offs []int) {
	n := strLen(v)
	for i := 0; i < n; {
		r, w := e.decodeRune(v, i)
		rs = append(rs, r)
		offs = append(offs, i)
		i += w
	}
	return rs, append(offs, n)
}

func addStr(name string, f func([]Val) Val) {
	intrinsics[name] = func(e *Engine, fn *Fn, args []Val) Val {
		if allConc(args) {
			return f(args)
		}
		return body(fn, args)
	}
}

func init() {
	// ---------------------------------------------------------------- unicode
	for n, f := range unicodePreds {
		n, f := n, f
		intrinsics["unicode."+n] = func(e *Engine, fn *Fn, args []Val) Val {
			if !args[0].isSym() {
				return boolVal(f(rune(int32(args[0].N))))
			}
			return fromTerm(e.tt.inSet(args[0].term(), e.predSet(n, f)), kB)
		}
	}
	for n, f := range unicodeMaps {
		n, f := n, f
		intrinsics["unicode."+n] = func(e *Engine, fn *Fn, args []Val) Val {
			if !args[0].isSym() {
				return num64(int64(f(rune(int32(args[0].N)))))
			}
			return fromTerm(e.tt.tab(runeTab(n, f), args[0].term()), k32)
		}
	}
	intrinsics["unicode.Is"] = func(e *Engine, fn *Fn, args []Val) Val { return fromTerm(e.inTable(args[0], args[1]), kB) }
	isOneOf := func(e *Engine, tabs []Val, r Val) Val {
		c := e.tt.fls
		for _, t := range tabs {
			c = e.tt.or(c, e.inTable(t, r))
		}
		return fromTerm(c, kB)
	}
	intrinsics["unicode.In"] = func(e *Engine, fn *Fn, args []Val) Val { return isOneOf(e, args[1].slice(), args[0]) }
	intrinsics["unicode.IsOneOf"] = func(e *Engine, fn *Fn, args []Val) Val { return isOneOf(e, args[0].slice(), args[1]) }

	// ------------------------------------------------------------------- utf8
	u := "unicode/utf8."
	intrinsics[u+"RuneLen"] = func(e *Engine, fn *Fn, args []Val) Val {
		if !args[0].isSym() {
			return num64(int64(utf8.RuneLen(rune(int32(args[0].N)))))
		}
		return num64([]int64{1, 2, 3, 4, -1}[e.choose(e.runeLenGuards(args[0].term())...)])
	}
	intrinsics[u+"ValidRune"] = func(e *Engine, fn *Fn, args []Val) Val {
		if !args[0].isSym() {
			return boolVal(utf8.ValidRune(rune(int32(args[0].N))))
		}
		return fromTerm(e.tt.inSet(args[0].term(), e.predSet("ValidRune", utf8.ValidRune)), kB)
	}
	intrinsics[u+"AppendRune"] = func(e *Engine, fn *Fn, args []Val) Val {
		return e.appendVals(args[0], strBytes(e.runeToStr(args[1], k32)), 1)
	}
	intrinsics[u+"EncodeRune"] = func(e *Engine, fn *Fn, args []Val) Val {
		b := strBytes(e.runeToStr(args[1], k32))
		p := args[0].slice()
		if len(b) > len(p) {
			e.rtPanic("index out of range")
		}
		for i := range b {
			e.set(&p[i], b[i])
		}
		return num64(int64(len(b)))
	}
	dec := func(e *Engine, b []Val) Val {
		if len(b) == 0 {
			return tup(num64(utf8.RuneError), num(0))
		}
		r, n := e.decodeBytes(b)
		return tup(r, num64(int64(n)))
	}
	intrinsics[u+"DecodeRune"] = func(e *Engine, fn *Fn, args []Val) Val {
		b := args[0].slice()
		return decConc(e, b, dec)
	}
	intrinsics[u+"DecodeRuneInString"] = func(e *Engine, fn *Fn, args []Val) Val {
		if s, ok := args[0].str(); ok {
			r, n := utf8.DecodeRuneInString(s)
			return tup(num64(int64(r)), num64(int64(n)))
		}
		return decConc(e, strBytes(args[0]), dec)
	}
	decLast := func(e *Engine, b []Val) Val {
		end := len(b)
		if end == 0 {
			return tup(num64(utf8.RuneError), num(0))
		}
		// a whole symbolic rune at the end
		for n := 1; n <= 4 && n <= end; n++ {
			if r, k := encoded(b[end-n:]); r != nil && k == n {
				return tup(fromTerm(r, k32), num64(int64(n)))
			}
		}
		conc := true
		for i := max(0, end-4); i < end; i++ {
			if b[i].P != nil {
				conc = false
			}
		}
		if conc || b[end-1].P == nil && b[end-1].N < 0x80 {
			buf := make([]byte, 0, 4)
			for i := max(0, end-4); i < end; i++ {
				if b[i].P != nil {
					buf = append(buf, 'x')
				} else {
					buf = append(buf, byte(b[i].N))
				}
			}
			r, n := utf8.DecodeLastRune(buf)
			return tup(num64(int64(r)), num64(int64(n)))
		}
		lo := 0
		// decide where the rune starts, as the package does
		cont := func(x Val) bool {
			return e.branch(e.tt.inSet(e.tt.ext(e.termOf(x, k8), 32, false), e.tt.sets.rng(0x80, 0xbf)))
		}
		if e.branch(e.tt.inSet(e.tt.ext(e.termOf(b[end-1], k8), 32, false), e.tt.sets.rng(0, 0x7f))) {
			return tup(fromTerm(e.tt.ext(e.termOf(b[end-1], k8), 32, false), k32), num(1))
		}
		lim := max(0, end-4)
		start := end - 1
		for start--; start >= lim; start-- {
			if !cont(b[start]) {
				break
			}
		}
		if start < 0 {
			start = 0
		}
		_ = lo
		if start < lim {
			start = lim
		}
		r, n := e.decodeBytes(b[start:])
		if start+n != end {
			return tup(num64(utf8.RuneError), num(1))
		}
		return tup(r, num64(int64(n)))
	}
	intrinsics[u+"DecodeLastRune"] = func(e *Engine, fn *Fn, args []Val) Val { return decLast(e, args[0].slice()) }
	intrinsics[u+"DecodeLastRuneInString"] = func(e *Engine, fn *Fn, args []Val) Val {
		if s, ok := args[0].str(); ok {
			r, n := utf8.DecodeLastRuneInString(s)
			return tup(num64(int64(r)), num64(int64(n)))
		}
		return decLast(e, strBytes(args[0]))
	}
	full := func(e *Engine, fn *Fn, args []Val) Val {
		b := byteVals(args[0])
		if len(b) >= 4 {
			return num(1)
		}
		if len(b) > 0 {
			if r, _ := encoded(b); r != nil {
				return num(1)
			}
		}
		s, ok := concBytes(args[0])
		if ok {
			return boolVal(utf8.FullRuneInString(s))
		}
		return body(fn, args)
	}
	intrinsics[u+"FullRune"] = full
	intrinsics[u+"FullRuneInString"] = full
	count := func(e *Engine, fn *Fn, args []Val) Val {
		if s, ok := concBytes(args[0]); ok {
			return num64(int64(utf8.RuneCountInString(s)))
		}
		b := byteVals(args[0])
		n := 0
		for i := 0; i < len(b); n++ {
			_, w := e.decodeBytes(b[i:])
			i += w
		}
		return num64(int64(n))
	}
	intrinsics[u+"RuneCount"] = count
	intrinsics[u+"RuneCountInString"] = count
	valid := func(e *Engine, fn *Fn, args []Val) Val {
		if s, ok := concBytes(args[0]); ok {
			return boolVal(utf8.ValidString(s))
		}
		b := byteVals(args[0])
		for i := 0; i < len(b); {
			r, w := e.decodeBytes(b[i:])
			if w == 1 && !r.isSym() && r.N == utf8.RuneError {
				return Val{}
			}
			i += w
		}
		return num(1)
	}
	intrinsics[u+"Valid"] = valid
	intrinsics[u+"ValidString"] = valid
	intrinsics["strings.ToValidUTF8"] = nil
	delete(intrinsics, "strings.ToValidUTF8")

	// ---------------------------------------------------------------- strings
	index := func(last bool) intrinsic {
		return func(e *Engine, fn *Fn, args []Val) Val {
			a, ok := concBytes(args[0])
			b, ok2 := concBytes(args[1])
			if ok && ok2 {
				if last {
					return num64(int64(strings.LastIndex(a, b)))
				}
				return num64(int64(strings.Index(a, b)))
			}
			return num64(int64(e.symIndex(byteVals(args[0]), byteVals(args[1]), last)))
		}
	}
	contains := func(e *Engine, fn *Fn, args []Val) Val {
		a, ok := concBytes(args[0])
		b, ok2 := concBytes(args[1])
		if ok && ok2 {
			return boolVal(strings.Contains(a, b))
		}
		// no fork: a disjunction over the positions
		x, y := byteVals(args[0]), byteVals(args[1])
		r := e.tt.fls
		for i := 0; i+len(y) <= len(x); i++ {
			var cs []*Term
			for j := range y {
				cs = append(cs, e.equal(x[i+j], y[j], k8, nil))
			}
			r = e.tt.or(r, e.tt.and(cs...))
		}
		return fromTerm(r, kB)
	}
	indexByte := func(last bool) intrinsic {
		return func(e *Engine, fn *Fn, args []Val) Val {
			if s, ok := concBytes(args[0]); ok && !args[1].isSym() {
				if last {
					return num64(int64(strings.LastIndexByte(s, byte(args[1].N))))
				}
				return num64(int64(strings.IndexByte(s, byte(args[1].N))))
			}
			return num64(int64(e.symIndex(byteVals(args[0]), []Val{args[1]}, last)))
		}
	}
	for _, p := range []string{"strings.", "bytes.", "internal/stringslite."} {
		intrinsics[p+"Index"] = index(false)
		intrinsics[p+"LastIndex"] = index(true)
		intrinsics[p+"Contains"] = contains
		intrinsics[p+"IndexByte"] = indexByte(false)
		intrinsics[p+"LastIndexByte"] = indexByte(true)
	}
	for _, s := range []string{"IndexByte", "IndexByteString"} {
		intrinsics["internal/bytealg."+s] = indexByte(false)
	}
	for _, s := range []string{"LastIndexByte", "LastIndexByteString"} {
		intrinsics["internal/bytealg."+s] = indexByte(true)
	}
	cnt := func(e *Engine, fn *Fn, args []Val) Val {
		n := 0
		for _, x := range byteVals(args[0]) {
			if e.branch(e.equal(x, args[1], k8, nil)) {
				n++
			}
		}
		return num64(int64(n))
	}
	intrinsics["internal/bytealg.Count"] = cnt
	intrinsics["internal/bytealg.CountString"] = cnt
	eq := func(e *Engine, fn *Fn, args []Val) Val {
		x, y := byteVals(args[0]), byteVals(args[1])
		if len(x) != len(y) {
			return Val{}
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, e.equal(x[i], y[i], k8, nil))
		}
		return fromTerm(e.tt.and(cs...), kB)
	}
	intrinsics["bytes.Equal"] = eq
	intrinsics["internal/bytealg.Equal"] = eq
	intrinsics["internal/bytealg.MakeNoZero"] = func(e *Engine, fn *Fn, args []Val) Val {
		n := int64(args[0].N)
		return sliceVal(make([]Val, n, growCap(int(n), 0, 1)))
	}
	intrinsics["internal/abi.NoEscape"] = func(e *Engine, fn *Fn, args []Val) Val { return args[0] }
	intrinsics["internal/abi.Escape"] = intrinsics["internal/abi.NoEscape"]
	intrinsics["strings.Clone"] = func(e *Engine, fn *Fn, args []Val) Val { return args[0] }
	intrinsics["internal/stringslite.Clone"] = intrinsics["strings.Clone"]
	indexRune := func(e *Engine, s, r Val) Val {
		rs, offs := e.runesOf(s)
		i := e.firstOf(len(rs), func(i int) *Term { return e.equal(rs[i], r, k32, nil) })
		if i < 0 {
			return num64(-1)
		}
		return num64(int64(offs[i]))
	}
	intrinsics["strings.IndexRune"] = func(e *Engine, fn *Fn, args []Val) Val {
		if s, ok := args[0].str(); ok && !args[1].isSym() {
			return num64(int64(strings.IndexRune(s, rune(int32(args[1].N)))))
		}
		return indexRune(e, args[0], args[1])
	}
	intrinsics["strings.ContainsRune"] = func(e *Engine, fn *Fn, args []Val) Val {
		s, ok := args[0].str()
		if ok && !args[1].isSym() {
			return boolVal(strings.ContainsRune(s, rune(int32(args[1].N))))
		}
		if ok && utf8.ValidString(s) && !strings.ContainsRune(s, utf8.RuneError) {
			var r []rg
			for _, x := range s {
				r = append(r, rg{int64(x), int64(x)})
			}
			return fromTerm(e.tt.inSet(args[1].term(), e.tt.sets.norm(r)), kB)
		}
		return boolVal(int64(indexRune(e, args[0], args[1]).N) >= 0)
	}
	addStr("strings.TrimSpace", func(a []Val) Val { return strVal(strings.TrimSpace(sarg(a[0]))) })
	addStr("strings.Trim", func(a []Val) Val { return strVal(strings.Trim(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.TrimLeft", func(a []Val) Val { return strVal(strings.TrimLeft(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.TrimRight", func(a []Val) Val { return strVal(strings.TrimRight(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.TrimPrefix", func(a []Val) Val { return strVal(strings.TrimPrefix(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.TrimSuffix", func(a []Val) Val { return strVal(strings.TrimSuffix(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.HasPrefix", func(a []Val) Val { return boolVal(strings.HasPrefix(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.HasSuffix", func(a []Val) Val { return boolVal(strings.HasSuffix(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.Replace", func(a []Val) Val {
		return strVal(strings.Replace(sarg(a[0]), sarg(a[1]), sarg(a[2]), int(int64(a[3].N))))
	})
	addStr("strings.ReplaceAll", func(a []Val) Val { return strVal(strings.ReplaceAll(sarg(a[0]), sarg(a[1]), sarg(a[2]))) })
	addStr("strings.ToLower", func(a []Val) Val { return strVal(strings.ToLower(sarg(a[0]))) })
	addStr("strings.ToUpper", func(a []Val) Val { return strVal(strings.ToUpper(sarg(a[0]))) })
	addStr("strings.Count", func(a []Val) Val { return num64(int64(strings.Count(sarg(a[0]), sarg(a[1])))) })
	addStr("strings.EqualFold", func(a []Val) Val { return boolVal(strings.EqualFold(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.ContainsAny", func(a []Val) Val { return boolVal(strings.ContainsAny(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.IndexAny", func(a []Val) Val { return num64(int64(strings.IndexAny(sarg(a[0]), sarg(a[1])))) })
	addStr("strings.Fields", func(a []Val) Val { return fromStrs(strings.Fields(sarg(a[0]))) })
	addStr("strings.Split", func(a []Val) Val { return fromStrs(strings.Split(sarg(a[0]), sarg(a[1]))) })
	addStr("strings.SplitN", func(a []Val) Val {
		return fromStrs(strings.SplitN(sarg(a[0]), sarg(a[1]), int(int64(a[2].N))))
	})
	intrinsics["strings.Repeat"] = func(e *Engine, fn *Fn, args []Val) Val {
		n := e.concInt(args[1])
		if n < 0 {
			panic(goPanic{e.errVal("strings: negative Repeat count")})
		}
		if int64(strLen(args[0]))*n > 1<<24 {
			panic(unsupported("huge Repeat"))
		}
		if s, ok := args[0].str(); ok {
			return strVal(strings.Repeat(s, int(n)))
		}
		var out []Val
		for i := int64(0); i < n; i++ {
			out = append(out, strBytes(args[0])...)
		}
		return mkStr(out)
	}
	addStr("regexp.QuoteMeta", func(a []Val) Val { return strVal(quoteMeta(sarg(a[0]))) })

	intrinsics["(*strings.Replacer).Replace"] = func(e *Engine, fn *Fn, args []Val) Val {
		return e.replacer(args[0], e.simp(args[1]))
	}
	intrinsics["(*strings.Replacer).WriteString"] = func(e *Engine, fn *Fn, args []Val) Val {
		s := e.replacer(args[0], args[2])
		return Val{P: tailCall{fn: e.P.fn(e.P.pkgs["io"].spkg.Func("WriteString")), args: []Val{args[1], s}}}
	}

	// ------------------------------------------------------------ fmt, errors
	for _, n := range []string{"Sprintf", "Sprint", "Sprintln", "Fprintf", "Fprint", "Fprintln", "Errorf", "Printf", "Print", "Println", "Appendf", "Append", "Appendln"} {
		intrinsics["fmt."+n] = toModel(n)
	}
	for _, n := range []string{"errors", "sync"} {
		intrinsics[n+".init"] = func(e *Engine, fn *Fn, args []Val) Val { return Val{} }
	}
	intrinsics["errors.Is"] = toModel("ErrorsIs")
	intrinsics["strings.Fields"] = toModel("Fields")
	intrinsics["bytes.Fields"] = toModel("BytesFields")
	intrinsics["strings.Compare"] = toModel("Compare")
	intrinsics["internal/bytealg.CompareString"] = toModel("Compare")
	intrinsics["bytes.Compare"] = toModel("BytesCompare")
	intrinsics["internal/bytealg.Compare"] = toModel("BytesCompare")
	intrinsics["regexp.QuoteMeta"] = toModel("QuoteMeta")
	intrinsics["errors.As"] = func(e *Engine, fn *Fn, args []Val) Val { return e.errorsAs(args) }
	intrinsics[mdl+"comparable"] = func(e *Engine, fn *Fn, args []Val) Val {
		i, _ := args[0].P.(*Iface)
		return boolVal(i == nil || types.Comparable(i.T))
	}
	intrinsics[mdl+"native"] = func(e *Engine, fn *Fn, args []Val) Val {
		return strVal(e.nativeFormat(sarg(args[0]), args[1]))
	}
	intrinsics[mdl+"kind"] = func(e *Engine, fn *Fn, args []Val) Val {
		i, _ := args[0].P.(*Iface)
		if i == nil {
			return Val{}
		}
		if _, ok := i.T.Underlying().(*types.Pointer); ok && i.V.P == nil {
			return num('n')
		}
		k := kindOf(i.T)
		switch k.k {
		case kString:
			return num('s')
		case kInt:
			if k.signed {
				return num('i')
			}
			return num('u')
		case kBool:
			return num('b')
		case kFloat:
			return num('f')
		}
		if s, ok := i.T.Underlying().(*types.Slice); ok {
			switch kk := kindOf(s.Elem()); {
			case kk.k == kString:
				return num('S')
			case kk.k == kInt && kk.w == 8 && !kk.signed:
				return num('B')
			}
		}
		return num('?')
	}
	conv := func(e *Engine, fn *Fn, args []Val) Val {
		i := args[0].P.(*Iface)
		if t := i.V.term(); t != nil {
			if k := kindOf(i.T); k.k == kInt {
				return fromTerm(e.tt.ext(t, 64, k.signed), kind{kInt, 64, k.signed})
			}
		}
		return i.V
	}
	for _, n := range []string{"asString", "asInt", "asUint", "asBool", "asStrings", "asBytes"} {
		intrinsics[mdl+n] = conv
	}
	intrinsics[mdl+"symbolic"] = func(e *Engine, fn *Fn, args []Val) Val {
		_, ok := args[0].P.(*SStr)
		return boolVal(ok)
	}
	intrinsics[mdl+"typeName"] = func(e *Engine, fn *Fn, args []Val) Val {
		i, _ := args[0].P.(*Iface)
		if i == nil {
			return strVal("<nil>")
		}
		return strVal(types.TypeString(i.T, func(p *types.Package) string { return p.Name() }))
	}
	intrinsics["runtime.Callers"] = func(e *Engine, fn *Fn, args []Val) Val { return Val{} }
	intrinsics["github.com/pkg/errors.callers"] = func(e *Engine, fn *Fn, args []Val) Val { return Val{} }
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer"} {
		intrinsics[n] = func(e *Engine, fn *Fn, args []Val) Val { return Val{} }
	}

	// ----------------------------------------------------------- reflectlite
	intrinsics["internal/reflectlite.ValueOf"] = func(e *Engine, fn *Fn, args []Val) Val { return Val{P: &Native{args[0]}} }
	intrinsics["(internal/reflectlite.Value).Len"] = func(e *Engine, fn *Fn, args []Val) Val {
		v := args[0].P.(*Native).obj.(Val).P.(*Iface).V
		if _, ok := v.P.(*Slice); ok || v.P == nil {
			return num64(int64(len(v.slice())))
		}
		return num64(int64(strLen(v)))
	}
	swapper := func(e *Engine, fn *Fn, args []Val) Val {
		s := args[0].P.(*Iface).V.slice()
		return Val{P: &Closure{native: func(e *Engine, a []Val) Val {
			i, j := a[0].N, a[1].N
			x, y := clone(s[i]), clone(s[j])
			e.store(&s[i], y)
			e.store(&s[j], x)
			return Val{}
		}}}
	}
	intrinsics["internal/reflectlite.Swapper"] = swapper
	intrinsics["reflect.Swapper"] = swapper
	intrinsics["reflect.DeepEqual"] = func(e *Engine, fn *Fn, args []Val) Val {
		a, _ := args[0].P.(*Iface)
		b, _ := args[1].P.(*Iface)
		if a == nil || b == nil {
			return boolVal(a == nil && b == nil)
		}
		if a.T != b.T {
			return Val{}
		}
		return fromTerm(e.deepEqual(a.V, b.V, a.T, 0), kB)
	}

	// ------------------------------------------------------------------- sync
	lock := func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		e.mutexes[c] = true
		if e.locks[c] != 0 {
			return e.retryLater()
		}
		e.setLock(c, -1)
		return Val{}
	}
	unlock := func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		if e.locks[c] == 0 {
			panic(pathEnd{kind: "fatal", msg: "sync: unlock of unlocked mutex"})
		}
		e.setLock(c, 0)
		e.wake()
		return Val{}
	}
	for _, m := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		intrinsics[m+".Lock"] = lock
		intrinsics[m+".Unlock"] = unlock
		intrinsics[m+".TryLock"] = func(e *Engine, fn *Fn, args []Val) Val {
			c := args[0].P.(*Val)
			e.mutexes[c] = true
			if e.locks[c] != 0 {
				return Val{}
			}
			e.setLock(c, -1)
			return num(1)
		}
	}
	intrinsics["(*sync.RWMutex).RLock"] = func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		e.mutexes[c] = true
		if e.locks[c] < 0 {
			return e.retryLater()
		}
		e.setLock(c, e.locks[c]+1)
		return Val{}
	}
	intrinsics["(*sync.RWMutex).RUnlock"] = func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		if e.locks[c] <= 0 {
			panic(pathEnd{kind: "fatal", msg: "sync: RUnlock of unlocked RWMutex"})
		}
		e.setLock(c, e.locks[c]-1)
		e.wake()
		return Val{}
	}
	intrinsics["(*sync.Once).Do"] = func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		e.ordered(c)
		if e.locks[c] != 0 {
			return Val{}
		}
		e.setLock(c, 1)
		f, _ := args[1].P.(*Closure)
		if f == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return Val{P: tailCall{fn: f.fn, bind: f.bind}}
	}
	intrinsics["(*sync.WaitGroup).Add"] = func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		e.setLock(c, e.locks[c]+int(int64(args[1].N)))
		e.wake()
		return Val{}
	}
	intrinsics["(*sync.WaitGroup).Done"] = func(e *Engine, fn *Fn, args []Val) Val {
		c := args[0].P.(*Val)
		e.setLock(c, e.locks[c]-1)
		e.wake()
		return Val{}
	}
	intrinsics["(*sync.WaitGroup).Wait"] = func(e *Engine, fn *Fn, args []Val) Val {
		if e.locks[args[0].P.(*Val)] > 0 {
			return e.retryLater()
		}
		return Val{}
	}
	// what was put last comes back first, but for the very first
	intrinsics["(*sync.Pool).Put"] = func(e *Engine, fn *Fn, args []Val) Val {
		if args[1].P == nil {
			return Val{}
		}
		p := e.poolOf(args[0])
		old := *p
		if p.private == nil {
			v := args[1]
			p.private = &v
		} else {
			p.rest = append(old.rest[:len(old.rest):len(old.rest)], args[1])
		}
		e.onUndo(func() { *p = old })
		return Val{}
	}
	intrinsics["(*sync.Pool).Get"] = func(e *Engine, fn *Fn, args []Val) Val {
		p := e.poolOf(args[0])
		old := *p
		if p.private != nil {
			v := *p.private
			p.private = nil
			e.onUndo(func() { *p = old })
			return v
		}
		if n := len(p.rest); n > 0 {
			v := p.rest[n-1]
			p.rest = p.rest[:n-1]
			e.onUndo(func() { *p = old })
			return v
		}
		a := args[0].P.(*Val).P.(*Agg)
		f, _ := a.E[len(a.E)-1].P.(*Closure)
		if f == nil {
			return Val{}
		}
		return Val{P: tailCall{fn: f.fn, bind: f.bind}}
	}
	anyT := types.NewInterfaceType(nil, nil)
	smap := func(e *Engine, v Val) *Map {
		c := v.P.(*Val)
		e.ordered(c)
		m, ok := e.natives[c].(*Map)
		if !ok {
			m = newMap()
			e.natives[c] = m
		}
		return m
	}
	kIf := kind{k: kIface}
	intrinsics["(*sync.Map).Load"] = func(e *Engine, fn *Fn, args []Val) Val {
		en := e.find(smap(e, args[0]), args[1], anyT, kIf)
		if en == nil {
			return tup(Val{}, Val{})
		}
		return tup(en.v, num(1))
	}
	intrinsics["(*sync.Map).Store"] = func(e *Engine, fn *Fn, args []Val) Val {
		e.mapUpdate(Val{P: smap(e, args[0])}, args[1], args[2], anyT, kIf)
		return Val{}
	}
	intrinsics["(*sync.Map).Delete"] = func(e *Engine, fn *Fn, args []Val) Val {
		e.mapDelete(Val{P: smap(e, args[0])}, args[1], anyT, kIf)
		return Val{}
	}
	intrinsics["(*sync.Map).LoadOrStore"] = func(e *Engine, fn *Fn, args []Val) Val {
		en := e.find(smap(e, args[0]), args[1], anyT, kIf)
		if en != nil {
			return tup(en.v, num(1))
		}
		e.mapUpdate(Val{P: smap(e, args[0])}, args[1], args[2], anyT, kIf)
		return tup(args[2], Val{})
	}
	intrinsics["(*sync.Map).LoadAndDelete"] = func(e *Engine, fn *Fn, args []Val) Val {
		en := e.find(smap(e, args[0]), args[1], anyT, kIf)
		if en == nil {
			return tup(Val{}, Val{})
		}
		e.mapDelete(Val{P: smap(e, args[0])}, args[1], anyT, kIf)
		return tup(en.v, num(1))
	}

	intrinsics["(*sync.Map).Swap"] = func(e *Engine, fn *Fn, args []Val) Val {
		en := e.find(smap(e, args[0]), args[1], anyT, kIf)
		old := tup(Val{}, Val{})
		if en != nil {
			old = tup(en.v, num(1))
		}
		e.mapUpdate(Val{P: smap(e, args[0])}, args[1], args[2], anyT, kIf)
		return old
	}
	intrinsics["(*sync.Map).Clear"] = func(e *Engine, fn *Fn, args []Val) Val {
		m := smap(e, args[0])
		for _, en := range append([]*mapEnt(nil), m.ents...) {
			e.mapDelete(Val{P: m}, en.k, anyT, kIf)
		}
		return Val{}
	}

	// ------------------------------------------------------------------ atomic
	atom := func(e *Engine, v Val) *Val {
		c := v.P.(*Val)
		if a, ok := c.P.(*Agg); ok {
			c = &a.E[len(a.E)-1]
		}
		e.ordered(c)
		return c
	}
	aset := func(e *Engine, c *Val, v Val) {
		e.synced(func() Val { e.set(c, v); return Val{} })
	}
	same := func(e *Engine, a, b Val) bool {
		x, xi := a.P.(*Iface)
		y, yi := b.P.(*Iface)
		if xi && yi && x != nil && y != nil {
			return x.T == y.T && x.V == y.V
		}
		return a == b
	}
	aop := func(name func(string) string, k *kind) {
		intrinsics[name("Load")] = func(e *Engine, fn *Fn, args []Val) Val { return *atom(e, args[0]) }
		intrinsics[name("Store")] = func(e *Engine, fn *Fn, args []Val) Val {
			aset(e, atom(e, args[0]), args[1])
			return Val{}
		}
		intrinsics[name("Swap")] = func(e *Engine, fn *Fn, args []Val) Val {
			c := atom(e, args[0])
			old := *c
			aset(e, c, args[1])
			return old
		}
		intrinsics[name("CompareAndSwap")] = func(e *Engine, fn *Fn, args []Val) Val {
			c := atom(e, args[0])
			if same(e, *c, args[1]) {
				aset(e, c, args[2])
				return num(1)
			}
			return Val{}
		}
		if k != nil {
			k := *k
			intrinsics[name("Add")] = func(e *Engine, fn *Fn, args []Val) Val {
				c := atom(e, args[0])
				aset(e, c, num(k.norm(c.N+args[1].N)))
				return *c
			}
		}
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w := w
		k := kind{kInt, 32, strings.HasPrefix(w, "I")}
		if strings.HasSuffix(w, "64") {
			k.w = 64
		}
		aop(func(op string) string { return "(*sync/atomic." + w + ")." + op }, &k)
		aop(func(op string) string { return "sync/atomic." + op + w }, &k)
	}
	for _, w := range []string{"Bool", "Value", "Pointer[T]"} {
		w := w
		aop(func(op string) string { return "(*sync/atomic." + w + ")." + op }, nil)
	}

	// --------------------------------------------------------------------- os
	intrinsics["os.Getenv"] = func(e *Engine, fn *Fn, args []Val) Val { return strVal("") }
	intrinsics["os.LookupEnv"] = func(e *Engine, fn *Fn, args []Val) Val { return tup(strVal(""), Val{}) }
	intrinsics["os.Exit"] = func(e *Engine, fn *Fn, args []Val) Val {
		panic(pathEnd{kind: "exit", msg: fmt.Sprint(int64(args[0].N))})
	}
	intrinsics["(*os.File).Write"] = func(e *Engine, fn *Fn, args []Val) Val {
		return tup(num64(int64(len(args[1].slice()))), Val{})
	}
	intrinsics["(*os.File).WriteString"] = func(e *Engine, fn *Fn, args []Val) Val {
		return tup(num64(int64(strLen(args[1]))), Val{})
	}
	intrinsics["(*os.File).Read"] = func(e *Engine, fn *Fn, args []Val) Val {
		if n, ok := args[0].P.(*Val).P.(*Native); !ok || n.obj != "os.Stdin" {
			panic(unsupported("read from a file"))
		}
		d := args[1].slice()
		in := strBytes(e.stdin)
		if len(in) == 0 {
			io := e.P.pkgs["io"].spkg.Var("EOF")
			return tup(Val{}, *e.globalAddr(e.P.global(io)).P.(*Val))
		}
		n := min(len(d), len(in))
		for i := 0; i < n; i++ {
			e.set(&d[i], in[i])
		}
		old := e.stdin
		e.stdin = mkStr(in[n:])
		e.onUndo(func() { e.stdin = old })
		return tup(num64(int64(n)), Val{})
	}

	// -------------------------------------------------------------------- json
	intrinsics["encoding/json.Unmarshal"] = func(e *Engine, fn *Fn, args []Val) Val {
		s, ok := concBytes(args[0])
		if !ok {
			panic(unsupported("json of symbolic bytes"))
		}
		i, _ := args[1].P.(*Iface)
		var x any
		if err := json.Unmarshal([]byte(s), &x); err != nil {
			return e.errVal(err.Error())
		}
		pt := i.T.Underlying().(*types.Pointer)
		v, err := jsonVal(x, pt.Elem())
		if err != nil {
			return e.errVal(err.Error())
		}
		e.store(i.V.P.(*Val), v)
		return Val{}
	}

	// -------------------------------------------------------------------- norm
	nf := "golang.org/x/text/unicode/norm."
	form := func(v Val) norm.Form { return norm.Form(v.N) }
	intrinsics["("+nf+"Form).String"] = func(e *Engine, fn *Fn, args []Val) Val {
		v := e.simp(args[1])
		if s, ok := v.str(); ok {
			return strVal(form(args[0]).String(s))
		}
		if f := form(args[0]); f == norm.NFD || f == norm.NFKD {
			return e.decomposed(f, v)
		}
		nfc := form(args[0]) // or NFKC
		isInert := nfcInert(nfc)
		// Only letters that keep their form in every context.
		inert := e.predSet("nfcInert"+fmt.Sprint(nfc), isInert)
		{
			rs, _ := e.runesOf(v)
			c := e.tt.tru
			for _, r := range rs {
				if t := r.term(); t != nil {
					c = e.tt.and(c, e.tt.inSet(t, inert))
				} else if !isInert(rune(r.N)) {
					c = e.tt.fls
				}
			}
			if e.branch(c) {
				return v
			}
			// give every letter that may change a value
			for _, r := range rs {
				if t := r.term(); t != nil && e.eval3(e.tt.inSet(t, inert)) != yes && !e.branch(e.tt.inSet(t, inert)) {
					e.concretizeAny(t)
				}
			}
			v = e.simp(v)
			if s, ok := v.str(); ok {
				return strVal(nfc.String(s))
			}
			// the remaining letters are symbolic but inert: pieces around them
			// are normalized on their own
			rs, offs := e.runesOf(v)
			var out Val
			cur := ""
			for i, r := range rs {
				if r.isSym() {
					out = strCat(strCat(out, strVal(nfc.String(cur))), strSlice(v, offs[i], offs[i+1]))
					cur = ""
					if i+1 < len(rs) && !rs[i+1].isSym() && !nfc.PropertiesString(string(rune(rs[i+1].N))).BoundaryBefore() {
						panic(unsupported("normal form across a symbolic letter"))
					}
					continue
				}
				cur += string(rune(r.N))
			}
			return strCat(out, strVal(nfc.String(cur)))
		}
	}
	intrinsics["("+nf+"Form).Bytes"] = func(e *Engine, fn *Fn, args []Val) Val {
		v := intrinsics["("+nf+"Form).String"](e, fn, []Val{args[0], mkStr(append([]Val(nil), args[1].slice()...))})
		return sliceVal(strBytes(v))
	}
	intrinsics["("+nf+"Form).IsNormalString"] = func(e *Engine, fn *Fn, args []Val) Val {
		if s, ok := args[1].str(); ok {
			return boolVal(form(args[0]).IsNormalString(s))
		}
		v := intrinsics["("+nf+"Form).String"](e, fn, args)
		return boolVal(e.branch(e.strEq(v, args[1])))
	}
	intrinsics["("+nf+"Form).PropertiesString"] = func(e *Engine, fn *Fn, args []Val) Val {
		return Val{P: &Native{[2]Val{args[0], args[1]}}}
	}
	intrinsics["("+nf+"Form).Properties"] = func(e *Engine, fn *Fn, args []Val) Val {
		return Val{P: &Native{[2]Val{args[0], mkStr(append([]Val(nil), args[1].slice()...))}}}
	}
	intrinsics["("+nf+"Properties).Decomposition"] = func(e *Engine, fn *Fn, args []Val) Val {
		p, ok := args[0].P.(*Native)
		if !ok {
			return Val{}
		}
		fs := p.obj.([2]Val)
		v := e.simp(fs[1])
		if s, ok := v.str(); ok {
			d := form(fs[0]).PropertiesString(s).Decomposition()
			if d == nil {
				return Val{}
			}
			return sliceVal(strBytes(strVal(string(d))))
		}
		d, ok := e.decompose(form(fs[0]), v)
		if !ok {
			return Val{}
		}
		return sliceVal(strBytes(d))
	}
}

// decompose is the decomposition of the first letter of the text, if it has one.
func (e *Engine) decompose(f norm.Form, v Val) (Val, bool) {
	if f != norm.NFD && f != norm.NFKD {
		panic(unsupported("decomposition of symbolic text"))
	}
	r, _ := e.decodeRune(v, 0)
	t := r.term()
	if t == nil {
		d := f.PropertiesString(string(rune(r.N))).Decomposition()
		return strVal(string(d)), d != nil
	}
	shapes := nfdTables(f)
	var gs []*Term
	none := e.tt.tru
	for i, s := range shapes {
		c := e.tt.inSet(t, e.namedSet(fmt.Sprintf("nfd%d_%d", f, i), func() *ISet { return e.tt.sets.mk(s.set) }))
		gs = append(gs, c)
		none = e.tt.and(none, e.tt.not(c))
	}
	k := e.choose(append(gs, none)...)
	if k == len(shapes) {
		return Val{}, false
	}
	var b []Val
	for i, tb := range shapes[k].tabs {
		x := e.tt.tab(tb, t)
		for j := 0; j < shapes[k].lens[i]; j++ {
			b = append(b, fromTerm(e.tt.utf8(x, shapes[k].lens[i], j), k8))
		}
	}
	return mkStr(b), true
}

// decomposed is the NFD or NFKD form of a text.
func (e *Engine) decomposed(f norm.Form, v Val) Val {
	starts := e.predSet("nfdStarts", nfdStarts)
	rs, _ := e.runesOf(v)
	c := e.tt.tru
	for i, r := range rs {
		if t := r.term(); t != nil && i > 0 {
			c = e.tt.and(c, e.tt.inSet(t, starts))
		}
	}
	if !e.branch(c) {
		for i, r := range rs {
			if t := r.term(); t != nil && i > 0 && e.eval3(e.tt.inSet(t, starts)) != yes {
				e.concretizeAny(t)
			}
		}
		v = e.simp(v)
	}
	rs, offs := e.runesOf(v)
	var out Val
	cur := ""
	for i, r := range rs {
		if !r.isSym() {
			cur += string(rune(r.N))
			continue
		}
		if i+1 < len(rs) && !rs[i+1].isSym() && !nfdStarts(rune(rs[i+1].N)) {
			panic(unsupported("normal form across a symbolic letter"))
		}
		out = strCat(out, strVal(f.String(cur)))
		cur = ""
		one := strSlice(v, offs[i], offs[i+1])
		if d, ok := e.decompose(f, one); ok {
			one = d
		}
		out = strCat(out, one)
	}
	return strCat(out, strVal(f.String(cur)))
}

func decConc(e *Engine, b []Val, dec func(*Engine, []Val) Val) Val {
	conc := true
	for i := 0; i < len(b) && i < 4; i++ {
		if b[i].P != nil {
			conc = false
			break
		}
	}
	if conc && len(b) > 0 {
		var buf [4]byte
		n := 0
		for ; n < len(b) && n < 4; n++ {
			buf[n] = byte(b[n].N)
		}
		r, w := utf8.DecodeRune(buf[:n])
		return tup(num64(int64(r)), num64(int64(w)))
	}
	return dec(e, b)
}

// retryLater blocks the goroutine and repeats the call when it is woken.
func (e *Engine) retryLater() Val {
	e.block()
	return Val{P: retry{}}
}

type retry struct{}

// poolObj is a sync.Pool as a single goroutine sees it.
type poolObj struct {
	private *Val
	rest    []Val
}

func (e *Engine) poolOf(v Val) *poolObj {
	c := v.P.(*Val)
	p, ok := e.natives[c].(*poolObj)
	if !ok {
		p = &poolObj{}
		e.natives[c] = p
	}
	return p
}

func (e *Engine) setLock(c *Val, n int) {
	old := e.locks[c]
	e.locks[c] = n
	e.onUndo(func() { e.locks[c] = old })
}

// jsonVal converts a decoded JSON value to a Go type.
func jsonVal(x any, t types.Type) (Val, error) {
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := newMap()
		o, ok := x.(map[string]any)
		if x == nil {
			return Val{}, nil
		}
		if !ok {
			return Val{}, fmt.Errorf("json: cannot unmarshal into map")
		}
		keys := make([]string, 0, len(o))
		for k := range o {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, err := jsonVal(o[k], u.Elem())
			if err != nil {
				return Val{}, err
			}
			en := &mapEnt{k: strVal(k), v: v}
			m.ents = append(m.ents, en)
			m.idx[k] = en
			m.n++
		}
		return Val{P: m}, nil
	case *types.Struct:
		v := zero(t)
		o, ok := x.(map[string]any)
		if !ok {
			return v, nil
		}
		for i := 0; i < u.NumFields(); i++ {
			name := u.Field(i).Name()
			tag := u.Tag(i)
			if _, rest, ok := strings.Cut(tag, `json:"`); ok {
				n, _, _ := strings.Cut(rest, `"`)
				n, _, _ = strings.Cut(n, ",")
				if n != "" {
					name = n
				}
			}
			for k, y := range o {
				if strings.EqualFold(k, name) {
					f, err := jsonVal(y, u.Field(i).Type())
					if err != nil {
						return v, err
					}
					v.P.(*Agg).E[i] = f
				}
			}
		}
		return v, nil
	case *types.Slice:
		o, ok := x.([]any)
		if !ok {
			return Val{}, nil
		}
		var out []Val
		for _, y := range o {
			v, err := jsonVal(y, u.Elem())
			if err != nil {
				return Val{}, err
			}
			out = append(out, v)
		}
		return sliceVal(out), nil
	case *types.Basic:
		switch kindOf(t).k {
		case kString:
			s, ok := x.(string)
			if !ok {
				return Val{}, fmt.Errorf("json: cannot unmarshal into string")
			}
			return strVal(s), nil
		case kBool:
			b, _ := x.(bool)
			return boolVal(b), nil
		case kInt:
			f, _ := x.(float64)
			return num64(int64(f)), nil
		}
	}
	return Val{}, fmt.Errorf("json: unsupported type %v", t)
}

func quoteMeta(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(`\.+*?()|[]{}^$`, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// replacer is strings.Replacer.Replace, by its documentation: at each
// position from left to right, the earliest pair that matches there.
func (e *Engine) replacer(rv, s Val) Val {
	c, _ := rv.P.(*Val)
	if c == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	a := c.P.(*Agg)
	pairs := a.E[len(a.E)-1].slice()
	conc := true
	for i := range pairs {
		if _, ok := pairs[i].str(); !ok {
			conc = false
		}
	}
	str, ok := s.str()
	if ok && conc {
		var r *strings.Replacer
		if r, ok = e.natives[c].(*strings.Replacer); !ok {
			xs := make([]string, len(pairs))
			for i := range xs {
				xs[i], _ = pairs[i].str()
			}
			r = strings.NewReplacer(xs...)
			e.natives[c] = r
		}
		return strVal(r.Replace(str))
	}
	for i := 0; i < len(pairs); i += 2 {
		if strLen(pairs[i]) == 0 {
			panic(unsupported("symbolic Replacer with an empty old string"))
		}
	}
	b := strBytes(s)
	var out []Val
	for p := 0; p < len(b); {
		var gs []*Term
		var ks []int
		none := e.tt.tru
		for i := 0; i < len(pairs); i += 2 {
			o := strBytes2(pairs[i])
			if p+len(o) > len(b) {
				continue
			}
			m := e.tt.tru
			for j := range o {
				q := e.equal(b[p+j], o[j], k8, nil)
				if q == e.tt.fls {
					m = q
					break
				}
				m = e.tt.and(m, q)
			}
			if m == e.tt.fls || e.eval3(m) == no {
				continue
			}
			g := e.tt.and(none, m)
			if g == e.tt.fls {
				continue
			}
			gs = append(gs, g)
			ks = append(ks, i)
			if e.eval3(m) == yes {
				none = nil
				break
			}
			none = e.tt.and(none, e.tt.not(m))
		}
		if none != nil {
			gs = append(gs, none)
			ks = append(ks, -1)
		}
		k := ks[e.choose(gs...)]
		if k < 0 {
			out = append(out, b[p])
			p++
			continue
		}
		out = append(out, strBytes(pairs[k+1])...)
		p += strLen(pairs[k])
	}
	return mkStr(out)
}

var strBytesCache = map[string][]Val{}

func strBytes2(v Val) []Val { return strBytes(v) }

// deepEqual is reflect.DeepEqual for acyclic data.
func (e *Engine) deepEqual(x, y Val, t types.Type, depth int) *Term {
	if depth > 50 {
		panic(unsupported("deep comparison of cyclic data"))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isNil(x) != isNil(y) {
			return e.tt.fls
		}
		a, b := x.slice(), y.slice()
		if len(a) != len(b) {
			return e.tt.fls
		}
		r := e.tt.tru
		for i := range a {
			if r = e.tt.and(r, e.deepEqual(a[i], b[i], u.Elem(), depth+1)); r == e.tt.fls {
				return r
			}
		}
		return r
	case *types.Array:
		r := e.tt.tru
		a, b := x.P.(*Agg), y.P.(*Agg)
		for i := range a.E {
			r = e.tt.and(r, e.deepEqual(a.E[i], b.E[i], u.Elem(), depth+1))
		}
		return r
	case *types.Struct:
		r := e.tt.tru
		a, b := x.P.(*Agg), y.P.(*Agg)
		for i := range a.E {
			if r = e.tt.and(r, e.deepEqual(a.E[i], b.E[i], u.Field(i).Type(), depth+1)); r == e.tt.fls {
				return r
			}
		}
		return r
	case *types.Pointer:
		if x.P == y.P || isNil(x) || isNil(y) {
			return e.tt.bool(x.P == y.P || isNil(x) && isNil(y))
		}
		a, ok := x.P.(*Val)
		b, ok2 := y.P.(*Val)
		if ok && ok2 {
			if n, ok := a.P.(*Native); ok {
				m, ok := b.P.(*Native)
				return e.tt.bool(ok && n.obj == m.obj)
			}
			return e.deepEqual(*a, *b, u.Elem(), depth+1)
		}
	case *types.Map:
		a, _ := x.P.(*Map)
		b, _ := y.P.(*Map)
		if a == nil || b == nil {
			return e.tt.bool(a == nil && b == nil)
		}
		if a.n != b.n {
			return e.tt.fls
		}
		if a.sym || b.sym {
			panic(unsupported("deep comparison of symbolic maps"))
		}
		k := kindOf(u.Key())
		r := e.tt.tru
		for _, en := range a.ents {
			mk, _ := e.mkey(en.k, u.Key(), k)
			o := b.idx[mk]
			if o == nil {
				return e.tt.fls
			}
			r = e.tt.and(r, e.deepEqual(en.v, o.v, u.Elem(), depth+1))
		}
		return r
	case *types.Interface:
		a, _ := x.P.(*Iface)
		b, _ := y.P.(*Iface)
		if a == nil || b == nil || a.T != b.T {
			return e.tt.bool(a == nil && b == nil)
		}
		return e.deepEqual(a.V, b.V, a.T, depth+1)
	case *types.Signature:
		return e.tt.bool(isNil(x) && isNil(y))
	}
	return e.equal(x, y, kindOf(t), t)
}

// errorsAs implements errors.As for errors without an As method.
func (e *Engine) errorsAs(args []Val) Val {
	tg, _ := args[1].P.(*Iface)
	if tg == nil {
		panic(goPanic{e.errVal("errors: target cannot be nil")})
	}
	pt, ok := tg.T.Underlying().(*types.Pointer)
	if !ok {
		panic(goPanic{e.errVal("errors: target must be a non-nil pointer")})
	}
	el := e.P.canon(pt.Elem())
	cur, _ := args[0].P.(*Iface)
	for cur != nil {
		if it, ok := el.Underlying().(*types.Interface); ok {
			if e.P.implements(cur.T, el) {
				_ = it
				e.store(tg.V.P.(*Val), Val{P: cur})
				return num(1)
			}
		} else if cur.T == el {
			e.store(tg.V.P.(*Val), cur.V)
			return num(1)
		}
		// Unwrap, for the simple wrappers
		next := (*Iface)(nil)
		if p, ok := cur.V.P.(*Val); ok && p != nil {
			if a, ok := p.P.(*Agg); ok && e.P.prog.MethodSets.MethodSet(cur.T).Lookup(nil, "Unwrap") != nil {
				for _, f := range a.E {
					if i, ok := f.P.(*Iface); ok {
						next = i
					}
				}
			}
		}
		cur = next
	}
	return Val{}
}

// nativeFormat prints a concrete value the models do not know.
func (e *Engine) nativeFormat(verb string, v Val) string {
	i, _ := v.P.(*Iface)
	if i == nil {
		return "<nil>"
	}
	var f func(v Val, t types.Type) string
	f = func(v Val, t types.Type) string {
		k := kindOf(t)
		if v.isSym() {
			panic(unsupported("formatting a symbolic value"))
		}
		switch k.k {
		case kInt:
			if k.signed {
				return fmt.Sprint(int64(v.N))
			}
			return fmt.Sprint(v.N)
		case kBool:
			return fmt.Sprint(v.N != 0)
		case kFloat:
			if !strings.HasSuffix(verb, "v") {
				return fmt.Sprintf("%"+verb, fl(v))
			}
			return fmt.Sprint(fl(v))
		case kString:
			s, ok := v.str()
			if !ok {
				panic(unsupported("formatting symbolic text"))
			}
			if strings.HasPrefix(verb, "#") || verb == "q" {
				return fmt.Sprintf("%q", s)
			}
			return s
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			var xs []string
			for _, x := range v.slice() {
				xs = append(xs, f(x, u.Elem()))
			}
			if strings.HasPrefix(verb, "#") {
				return types.TypeString(t, func(p *types.Package) string { return p.Name() }) + "{" + strings.Join(xs, ", ") + "}"
			}
			return "[" + strings.Join(xs, " ") + "]"
		case *types.Array:
			var xs []string
			for _, x := range v.P.(*Agg).E {
				xs = append(xs, f(x, u.Elem()))
			}
			return "[" + strings.Join(xs, " ") + "]"
		case *types.Struct:
			var xs []string
			for i, x := range v.P.(*Agg).E {
				xs = append(xs, f(x, u.Field(i).Type()))
			}
			return "{" + strings.Join(xs, " ") + "}"
		case *types.Interface:
			if j, ok := v.P.(*Iface); ok && j != nil {
				return f(j.V, j.T)
			}
			return "<nil>"
		case *types.Pointer:
			if isNil(v) {
				return "<nil>"
			}
			return "0xc000000000"
		case *types.Map:
			return "map[...]"
		}
		return "?"
	}
	return f(i.V, i.T)
}
