package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- value sets

type rg struct{ lo, hi int64 }

// ISet is an interned set of int64 values, as sorted disjoint ranges.
type ISet struct {
	r  []rg
	id uint32
	n  uint64
}

type setTab struct {
	m    map[string]*ISet
	ops  map[[3]uint32]*ISet
	all  []*ISet
	none *ISet
}

func newSetTab() *setTab {
	t := &setTab{m: map[string]*ISet{}, ops: map[[3]uint32]*ISet{}}
	t.none = t.mk(nil)
	return t
}

func (t *setTab) mk(r []rg) *ISet {
	buf := make([]byte, 0, len(r)*6)
	for _, x := range r {
		buf = binary.AppendVarint(buf, x.lo)
		buf = binary.AppendVarint(buf, x.hi)
	}
	k := string(buf)
	if s, ok := t.m[k]; ok {
		return s
	}
	s := &ISet{r: append([]rg(nil), r...), id: uint32(len(t.all))}
	for _, x := range r {
		s.n += uint64(x.hi-x.lo) + 1
	}
	t.all = append(t.all, s)
	t.m[k] = s
	return s
}

func (t *setTab) rng(lo, hi int64) *ISet {
	if lo > hi {
		return t.none
	}
	return t.mk([]rg{{lo, hi}})
}

// norm sorts and merges ranges.
func (t *setTab) norm(r []rg) *ISet {
	sort.Slice(r, func(i, j int) bool { return r[i].lo < r[j].lo })
	var out []rg
	for _, x := range r {
		if x.lo > x.hi {
			continue
		}
		if len(out) > 0 && x.lo <= out[len(out)-1].hi+1 {
			if x.hi > out[len(out)-1].hi {
				out[len(out)-1].hi = x.hi
			}
			continue
		}
		out = append(out, x)
	}
	return t.mk(out)
}

func (t *setTab) and(a, b *ISet) *ISet {
	if a == b {
		return a
	}
	if len(a.r) == 0 || len(b.r) == 0 {
		return t.none
	}
	k := [3]uint32{0, a.id, b.id}
	if a.id > b.id {
		k = [3]uint32{0, b.id, a.id}
	}
	if s, ok := t.ops[k]; ok {
		return s
	}
	var out []rg
	i, j := 0, 0
	for i < len(a.r) && j < len(b.r) {
		lo, hi := max(a.r[i].lo, b.r[j].lo), min(a.r[i].hi, b.r[j].hi)
		if lo <= hi {
			out = append(out, rg{lo, hi})
		}
		if a.r[i].hi < b.r[j].hi {
			i++
		} else {
			j++
		}
	}
	s := t.mk(out)
	t.ops[k] = s
	return s
}

func (t *setTab) sub(a, b *ISet) *ISet {
	if len(a.r) == 0 || len(b.r) == 0 {
		return a
	}
	k := [3]uint32{1, a.id, b.id}
	if s, ok := t.ops[k]; ok {
		return s
	}
	var out []rg
	j := 0
	for _, x := range a.r {
		lo := x.lo
		for j < len(b.r) && b.r[j].hi < lo {
			j++
		}
		jj := j
		for jj < len(b.r) && b.r[jj].lo <= x.hi {
			if b.r[jj].lo > lo {
				out = append(out, rg{lo, b.r[jj].lo - 1})
			}
			lo = b.r[jj].hi + 1
			jj++
		}
		if lo <= x.hi {
			out = append(out, rg{lo, x.hi})
		}
	}
	s := t.mk(out)
	t.ops[k] = s
	return s
}

func (t *setTab) or(a, b *ISet) *ISet {
	if a == b || len(b.r) == 0 {
		return a
	}
	if len(a.r) == 0 {
		return b
	}
	k := [3]uint32{2, a.id, b.id}
	if a.id > b.id {
		k = [3]uint32{2, b.id, a.id}
	}
	if s, ok := t.ops[k]; ok {
		return s
	}
	s := t.norm(append(append([]rg(nil), a.r...), b.r...))
	t.ops[k] = s
	return s
}

func (s *ISet) has(v int64) bool {
	lo, hi := 0, len(s.r)
	for lo < hi {
		m := (lo + hi) / 2
		if s.r[m].hi < v {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(s.r) && s.r[lo].lo <= v
}

func (s *ISet) empty() bool  { return len(s.r) == 0 }
func (s *ISet) single() bool { return s.n == 1 }
func (s *ISet) String() string {
	var b strings.Builder
	for i, x := range s.r {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i > 12 {
			b.WriteString("...")
			break
		}
		if x.lo == x.hi {
			fmt.Fprintf(&b, "%#x", x.lo)
		} else {
			fmt.Fprintf(&b, "%#x-%#x", x.lo, x.hi)
		}
	}
	return "{" + b.String() + "}"
}

// --------------------------------------------------------------------- terms

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OIte
	OTab
	OUTF8 // byte C&7 of the UTF-8 encoding, of length C>>3, of the rune A[0]
	// booleans
	OEq
	OUlt
	OUle
	OSlt
	OSle
	ONot
	OBAnd
	OBOr
	OInSet
	OTrue
	OFalse
)

// Seg: for x in [lo,hi] the value is x+c (lin) or c.
type Seg struct {
	lo, hi int64
	lin    bool
	c      int64
}

// Tab is a total piecewise-linear function on a range of int64.
type Tab struct {
	name string
	segs []Seg
}

func (t *Tab) at(x int64) int64 {
	lo, hi := 0, len(t.segs)
	for lo < hi {
		m := (lo + hi) / 2
		if t.segs[m].hi < x {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo >= len(t.segs) || t.segs[lo].lo > x {
		return 0
	}
	if t.segs[lo].lin {
		return x + t.segs[lo].c
	}
	return t.segs[lo].c
}

// Var is a symbolic input.
type Var struct {
	idx    int
	name   string
	lo, hi int64
	w      uint8
	dom    *ISet
	term   *Term
}

type Term struct {
	Op   Op
	W    uint8 // 0: bool
	A    []*Term
	C    uint64
	Set  *ISet
	Tab  *Tab
	V    *Var // for OVar
	id   uint32
	v1   *Var // the only variable, when there is exactly one
	many bool // more than one variable
	segd bool
	segv []Seg
	vars []*Var
	simp *Term
}

type termTab struct {
	sets     *setTab
	m        map[string]*Term
	n        uint32
	tru      *Term
	fls      *Term
	audit    []auditPair // raw single-variable condition -> canonical set
	vars     map[string]*Var
	enumN    int64 // values enumerated to canonicalise
	tabs     map[string]*Tab
	noAudit  bool
	enumTabs int
}

type auditPair struct {
	op  Op
	a   []*Term
	set *ISet
	v   *Var
}

func newTermTab() *termTab {
	t := &termTab{sets: newSetTab(), m: map[string]*Term{}, vars: map[string]*Var{}, tabs: map[string]*Tab{}}
	t.tru = t.intern(&Term{Op: OTrue})
	t.fls = t.intern(&Term{Op: OFalse})
	return t
}

func (t *termTab) intern(x *Term) *Term {
	buf := make([]byte, 0, 32)
	buf = append(buf, byte(x.Op), x.W)
	buf = binary.AppendUvarint(buf, x.C)
	for _, a := range x.A {
		buf = binary.AppendUvarint(buf, uint64(a.id)+1)
	}
	buf = append(buf, 0)
	if x.Set != nil {
		buf = binary.AppendUvarint(buf, uint64(x.Set.id))
	}
	if x.Tab != nil {
		buf = append(buf, x.Tab.name...)
	}
	if x.V != nil {
		buf = append(buf, x.V.name...)
	}
	k := string(buf)
	if y, ok := t.m[k]; ok {
		return y
	}
	x.id = t.n
	t.n++
	if x.Op == OVar {
		x.v1 = x.V
	}
	for _, a := range x.A {
		if a.many {
			x.many = true
			x.v1 = nil
			break
		}
		if a.v1 != nil {
			if x.v1 == nil {
				x.v1 = a.v1
			} else if x.v1 != a.v1 {
				x.many = true
				x.v1 = nil
				break
			}
		}
	}
	t.m[k] = x
	return x
}

func (t *termTab) newVar(idx int, kind string, lo, hi int64, w uint8, dom *ISet) *Var {
	name := fmt.Sprintf("v%d_%s_%d_%d", idx, kind, w, dom.id)
	if v, ok := t.vars[name]; ok {
		return v
	}
	v := &Var{idx: idx, name: name, lo: lo, hi: hi, w: w, dom: dom}
	v.term = t.intern(&Term{Op: OVar, W: w, V: v})
	t.vars[name] = v
	return v
}

func mask(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (t *termTab) con(v uint64, w uint8) *Term {
	return t.intern(&Term{Op: OConst, W: w, C: mask(v, w)})
}
func (t *termTab) bool(b bool) *Term {
	if b {
		return t.tru
	}
	return t.fls
}

func evalOp(op Op, w uint8, x, y uint64) uint64 {
	switch op {
	case OAdd:
		return mask(x+y, w)
	case OSub:
		return mask(x-y, w)
	case OMul:
		return mask(x*y, w)
	case OUDiv:
		if y == 0 {
			return mask(^uint64(0), w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(^uint64(0), w)
		}
		if b == -1 {
			return mask(uint64(-a), w)
		}
		return mask(uint64(a/b), w)
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return mask(uint64(a%b), w)
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= 64 {
			return 0
		}
		return mask(x<<y, w)
	case OLshr:
		if y >= 64 {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= 63 {
			y = 63
		}
		return mask(uint64(sx(x, w)>>y), w)
	}
	panic("evalOp")
}

func utf8byte(r uint64, k, i int) uint64 {
	switch k {
	case 1:
		return r & 0xff
	case 2:
		if i == 0 {
			return 0xC0 | (r>>6)&0x1f
		}
	case 3:
		if i == 0 {
			return 0xE0 | (r>>12)&0x0f
		}
	case 4:
		if i == 0 {
			return 0xF0 | (r>>18)&0x07
		}
	}
	return 0x80 | (r>>(6*(k-1-i)))&0x3f
}

// eval evaluates a term; booleans are 0/1.
func (x *Term) eval(val func(*Var) int64) uint64 {
	switch x.Op {
	case OConst:
		return x.C
	case OVar:
		return mask(uint64(val(x.V)), x.W)
	case OZext:
		return x.A[0].eval(val)
	case OSext:
		return mask(uint64(sx(x.A[0].eval(val), x.A[0].W)), x.W)
	case OTrunc:
		return mask(x.A[0].eval(val), x.W)
	case OIte:
		if x.A[0].eval(val) != 0 {
			return x.A[1].eval(val)
		}
		return x.A[2].eval(val)
	case OTab:
		return mask(uint64(x.Tab.at(sx(x.A[0].eval(val), x.A[0].W))), x.W)
	case OUTF8:
		return utf8byte(x.A[0].eval(val), int(x.C>>3), int(x.C&7))
	case OTrue:
		return 1
	case OFalse:
		return 0
	case ONot:
		return 1 - x.A[0].eval(val)
	case OBAnd:
		for _, a := range x.A {
			if a.eval(val) == 0 {
				return 0
			}
		}
		return 1
	case OBOr:
		for _, a := range x.A {
			if a.eval(val) != 0 {
				return 1
			}
		}
		return 0
	case OInSet:
		return b2u(x.Set.has(sx(x.A[0].eval(val), x.A[0].W)))
	case OEq, OUlt, OUle, OSlt, OSle:
		return b2u(evalCmp(x.Op, x.A[0].W, x.A[0].eval(val), x.A[1].eval(val)))
	}
	return evalOp(x.Op, x.W, x.A[0].eval(val), x.A[1].eval(val))
}

func evalCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OEq:
		return a == b
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sx(a, w) < sx(b, w)
	case OSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("evalCmp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (t *termTab) bin0(op Op, a, b *Term) *Term {
	switch op {
	case OMul, OAnd, OOr, OXor:
		if a.Op != OConst && b.Op != OConst && a.id > b.id {
			a, b = b, a
		}
	}
	w := a.W
	if a.Op == OConst && b.Op == OConst {
		return t.con(evalOp(op, w, a.C, b.C), w)
	}
	switch op {
	case OAdd:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst {
			if b.C == 0 {
				return a
			}
			if a.Op == OAdd && a.A[1].Op == OConst {
				return t.bin(OAdd, a.A[0], t.con(a.A[1].C+b.C, w))
			}
		}
	case OSub:
		if b.Op == OConst {
			return t.bin(OAdd, a, t.con(-b.C, w))
		}
		if a == b {
			return t.con(0, w)
		}
	case OMul:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst && b.C == 1 {
			return a
		}
		if b.Op == OConst && b.C == 0 {
			return b
		}
	case OAnd, OOr, OXor:
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op == OConst && b.C == 0 {
			if op == OAnd {
				return b
			}
			return a
		}
		if op == OAnd && b.Op == OConst && b.C == mask(^uint64(0), w) {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.Op == OConst && b.C == 0 {
			return a
		}
	}
	return t.intern(&Term{Op: op, W: w, A: []*Term{a, b}})
}

func (t *termTab) ext0(a *Term, w uint8, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.W > w {
		if a.Op == OConst {
			return t.con(a.C, w)
		}
		if (a.Op == OZext || a.Op == OSext) && a.A[0].W >= w {
			return t.ext(a.A[0], w, false)
		}
		return t.intern(&Term{Op: OTrunc, W: w, A: []*Term{a}})
	}
	if a.Op == OConst {
		if signed {
			return t.con(uint64(sx(a.C, a.W)), w)
		}
		return t.con(a.C, w)
	}
	op := OZext
	if signed {
		op = OSext
	}
	return t.intern(&Term{Op: op, W: w, A: []*Term{a}})
}

func (t *termTab) tab0(tb *Tab, a *Term) *Term {
	if a.Op == OConst {
		return t.con(uint64(tb.at(sx(a.C, a.W))), a.W)
	}
	return t.intern(&Term{Op: OTab, W: a.W, Tab: tb, A: []*Term{a}})
}

func (t *termTab) utf8(r *Term, k, i int) *Term {
	if r.Op == OConst {
		return t.con(utf8byte(r.C, k, i), 8)
	}
	return t.intern(&Term{Op: OUTF8, W: 8, A: []*Term{r}, C: uint64(k<<3 | i)})
}

func (t *termTab) ite0(c, a, b *Term) *Term {
	if c == t.tru || a == b {
		return a
	}
	if c == t.fls {
		return b
	}
	if a.W == 0 {
		return t.or(t.and(c, a), t.and(t.not(c), b))
	}
	return t.intern(&Term{Op: OIte, W: a.W, A: []*Term{c, a, b}})
}

func (t *termTab) not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return t.fls
	case OFalse:
		return t.tru
	case ONot:
		return a.A[0]
	case OInSet:
		return t.inVar(a.A[0].V, t.sets.sub(a.A[0].V.dom, a.Set))
	case OBAnd, OBOr:
		xs := make([]*Term, len(a.A))
		for i, x := range a.A {
			xs[i] = t.not(x)
		}
		if a.Op == OBAnd {
			return t.or(xs...)
		}
		return t.and(xs...)
	}
	return t.intern(&Term{Op: ONot, A: []*Term{a}})
}

func (t *termTab) inVar(v *Var, s *ISet) *Term {
	s = t.sets.and(s, v.dom)
	if s.empty() {
		return t.fls
	}
	if s == v.dom {
		return t.tru
	}
	return t.intern(&Term{Op: OInSet, A: []*Term{v.term}, Set: s})
}

func (t *termTab) nary(op Op, xs []*Term) *Term {
	unit, zero := t.tru, t.fls
	if op == OBOr {
		unit, zero = t.fls, t.tru
	}
	var out []*Term
	seen := map[*Term]bool{}
	vs := map[*Var]*ISet{}
	var vorder []*Var
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if x.Op == OInSet {
			v := x.A[0].V
			if s, ok := vs[v]; ok {
				if op == OBAnd {
					s = t.sets.and(s, x.Set)
					if s.empty() {
						return false
					}
				} else {
					s = t.sets.or(s, x.Set)
					if s == v.dom {
						return false
					}
				}
				vs[v] = s
			} else {
				vs[v] = x.Set
				vorder = append(vorder, v)
			}
			return true
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, v := range vorder {
		out = append(out, t.inVar(v, vs[v]))
	}
	for _, x := range out {
		if x == zero {
			return zero
		}
		if seen[t.rawNot(x)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return t.intern(&Term{Op: op, A: out})
}

func (t *termTab) rawNot(x *Term) *Term {
	if x.Op == ONot {
		return x.A[0]
	}
	if x.Op == OInSet || x.Op == OBAnd || x.Op == OBOr {
		return nil
	}
	return t.intern(&Term{Op: ONot, A: []*Term{x}})
}

func (t *termTab) and(xs ...*Term) *Term { return t.nary(OBAnd, xs) }
func (t *termTab) or(xs ...*Term) *Term  { return t.nary(OBOr, xs) }

// inSet tests membership of the signed value of a term.
func (t *termTab) inSet(a *Term, s *ISet) *Term {
	if a.Op == OConst {
		return t.bool(s.has(sx(a.C, a.W)))
	}
	if a.Op == OVar {
		return t.inVar(a.V, s)
	}
	if a.v1 != nil {
		return t.canon(OInSet, []*Term{a}, s)
	}
	// disjunction over ranges
	var xs []*Term
	for _, r := range s.r {
		if r.lo == r.hi {
			xs = append(xs, t.cmp(OEq, a, t.con(uint64(r.lo), a.W)))
		} else {
			xs = append(xs, t.and(t.cmp(OSle, t.con(uint64(r.lo), a.W), a), t.cmp(OSle, a, t.con(uint64(r.hi), a.W))))
		}
	}
	return t.or(xs...)
}

func (t *termTab) cmp(op Op, a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return t.bool(evalCmp(op, a.W, a.C, b.C))
	}
	if a == b {
		return t.bool(op == OEq || op == OUle || op == OSle)
	}
	if op == OEq {
		if a.Op == OConst {
			a, b = b, a
		}
		if b.Op != OConst && a.id > b.id {
			a, b = b, a
		}
		// narrow extensions
		if (a.Op == OZext || a.Op == OSext) && b.Op == a.Op && a.A[0].W == b.A[0].W {
			return t.cmp(op, a.A[0], b.A[0])
		}
		if a.Op == OUTF8 && b.Op == OUTF8 && a.C == b.C && a.C>>3 == 1 {
			return t.cmp(op, a.A[0], b.A[0])
		}
	}
	if a.Op == OIte && b.Op == OConst {
		return t.or(t.and(a.A[0], t.cmp(op, a.A[1], b)), t.and(t.not(a.A[0]), t.cmp(op, a.A[2], b)))
	}
	if b.Op == OIte && a.Op == OConst {
		return t.or(t.and(b.A[0], t.cmp(op, a, b.A[1])), t.and(t.not(b.A[0]), t.cmp(op, a, b.A[2])))
	}
	if op == OEq && (a.many || b.many || a.v1 != b.v1) && a.Op != OUTF8 && b.Op != OUTF8 {
		if d := t.bin(OSub, a, b); !d.many {
			if d.Op == OConst {
				return t.bool(d.C == 0)
			}
			return t.canon(OEq, []*Term{d, t.con(0, d.W)}, nil)
		}
	}
	if !a.many && !b.many && (a.v1 == nil || b.v1 == nil || a.v1 == b.v1) {
		return t.canon(op, []*Term{a, b}, nil)
	}
	return t.intern(&Term{Op: op, A: []*Term{a, b}})
}

// canon turns a condition on a single variable into a set of values.
func (t *termTab) canon(op Op, a []*Term, set *ISet) *Term {
	probe := &Term{Op: op, A: a, Set: set, C: 1 << 40}
	key := t.internKey(probe)
	if y, ok := t.m[key]; ok {
		return y
	}
	var v *Var
	for _, x := range a {
		if x.v1 != nil {
			v = x.v1
		}
	}
	s := t.satset(op, a, set, v)
	res := t.inVar(v, s)
	t.m[key] = res
	if a[0].Op != OVar || op != OEq {
		t.audit = append(t.audit, auditPair{op, a, s, v})
		if set != nil {
			t.audit[len(t.audit)-1].a = append(append([]*Term{}, a...), &Term{Op: OInSet, Set: set})
		}
	}
	return res
}

func (t *termTab) internKey(x *Term) string {
	buf := make([]byte, 0, 32)
	buf = append(buf, byte(x.Op), x.W)
	buf = binary.AppendUvarint(buf, x.C)
	for _, a := range x.A {
		buf = binary.AppendUvarint(buf, uint64(a.id)+1)
	}
	buf = append(buf, 0)
	if x.Set != nil {
		buf = binary.AppendUvarint(buf, uint64(x.Set.id))
	}
	return string(buf)
}

func (t *termTab) satset(op Op, a []*Term, set *ISet, v *Var) *ISet {
	if op == OInSet {
		if sg := t.segs(a[0]); sg != nil {
			var out []rg
			for _, s := range sg {
				if !s.lin {
					if set.has(s.c) {
						out = append(out, rg{s.lo, s.hi})
					}
					continue
				}
				for _, r := range set.r {
					out = append(out, rg{max(s.lo, r.lo-s.c), min(s.hi, r.hi-s.c)})
				}
			}
			return t.sets.and(t.sets.norm(out), v.dom)
		}
	} else if a[1].Op == OConst || a[0].Op == OConst {
		x, c, flip := a[0], a[1], false
		if a[0].Op == OConst {
			x, c, flip = a[1], a[0], true
		}
		if sg := t.segs(x); sg != nil {
			if s, ok := t.satCmp(op, sg, sx(c.C, c.W), flip, x.W); ok {
				return t.sets.and(s, v.dom)
			}
		}
	}
	// enumeration of the variable's domain
	var out []rg
	tm := &Term{Op: op, A: a, Set: set}
	for _, r := range v.dom.r {
		for x := r.lo; x <= r.hi; x++ {
			t.enumN++
			if tm.eval(func(*Var) int64 { return x }) != 0 {
				if n := len(out); n > 0 && out[n-1].hi == x-1 {
					out[n-1].hi = x
				} else {
					out = append(out, rg{x, x})
				}
			}
		}
	}
	return t.sets.mk(out)
}

func (t *termTab) satCmp(op Op, sg []Seg, c int64, flip bool, w uint8) (*ISet, bool) {
	const inf = int64(1) << 60
	var out []rg
	for _, s := range sg {
		lo, hi := int64(-inf), int64(inf) // accepted values of the term
		uns := op == OUlt || op == OUle
		if uns {
			vlo := s.c
			if s.lin {
				vlo = s.lo + s.c
			}
			if c < 0 || vlo < 0 {
				if !s.lin {
					x, y := mask(uint64(s.c), w), mask(uint64(c), w)
					if flip {
						x, y = y, x
					}
					if evalCmp(op, w, x, y) {
						out = append(out, rg{s.lo, s.hi})
					}
					continue
				}
				return nil, false
			}
		}
		switch op {
		case OEq:
			lo, hi = c, c
		case OUlt, OSlt:
			if flip {
				lo = c + 1
			} else {
				hi = c - 1
			}
		case OUle, OSle:
			if flip {
				lo = c
			} else {
				hi = c
			}
		}
		if s.lin {
			a, b := s.lo, s.hi
			if lo > -inf {
				a = max(a, lo-s.c)
			}
			if hi < inf {
				b = min(b, hi-s.c)
			}
			out = append(out, rg{a, b})
		} else if lo <= s.c && s.c <= hi {
			out = append(out, rg{s.lo, s.hi})
		}
	}
	return t.sets.norm(out), true
}

// segs gives a single-variable term as a piecewise-linear function of its
// variable (values as signed numbers of the term's width), or nil.
func (t *termTab) segs(x *Term) []Seg {
	if x.segd {
		return x.segv
	}
	x.segd = true
	x.segv = t.segs0(x)
	return x.segv
}

const maxSegs = 200000

func fits(lo, hi int64, w uint8) bool {
	if w >= 64 {
		return true
	}
	return lo >= -(int64(1)<<(w-1)) && hi < int64(1)<<(w-1)
}

// wrapSeg appends a piece with its values brought into the signed range of
// the width.
func wrapSeg(out []Seg, s Seg, w uint8) ([]Seg, bool) {
	if w >= 64 {
		return append(out, s), true
	}
	if !s.lin {
		s.c = sx(uint64(s.c), w)
		return append(out, s), true
	}
	full, half := int64(1)<<w, int64(1)<<(w-1)
	for n := 0; n < 300; n++ {
		lo := s.lo + s.c
		k := (lo + half) >> w // which turn the piece starts in
		end := (k+1)*full - half - 1
		c := s.c - k*full
		if s.hi+s.c <= end {
			return append(out, Seg{s.lo, s.hi, true, c}), true
		}
		out = append(out, Seg{s.lo, end - s.c, true, c})
		s.lo = end - s.c + 1
	}
	return nil, false
}

func (t *termTab) segs0(x *Term) []Seg {
	v := x.v1
	if v == nil {
		return nil
	}
	rngOf := func(s Seg) (int64, int64) {
		if s.lin {
			return s.lo + s.c, s.hi + s.c
		}
		return s.c, s.c
	}
	switch x.Op {
	case OVar:
		var out []Seg
		if !fits(v.lo, v.hi, v.w) {
			// e.g. a full byte: keep the signed view
			for _, r := range v.dom.r {
				half := int64(1) << (v.w - 1)
				if r.lo < half {
					out = append(out, Seg{r.lo, min(r.hi, half-1), true, 0})
				}
				if r.hi >= half {
					out = append(out, Seg{max(r.lo, half), r.hi, true, -2 * half})
				}
			}
			return out
		}
		for _, r := range v.dom.r {
			out = append(out, Seg{r.lo, r.hi, true, 0})
		}
		return out
	case OAdd, OSub:
		a, b := x.A[0], x.A[1]
		if b.Op != OConst {
			return nil
		}
		c := sx(b.C, b.W)
		if x.Op == OSub {
			c = -c
		}
		sg := t.segs(a)
		if sg == nil {
			return nil
		}
		out := make([]Seg, 0, len(sg))
		for _, s := range sg {
			s.c += c
			var ok bool
			if out, ok = wrapSeg(out, s, x.W); !ok {
				return nil
			}
		}
		return out
	case OSext:
		return t.segs(x.A[0])
	case OZext:
		sg := t.segs(x.A[0])
		if sg == nil {
			return nil
		}
		out := make([]Seg, 0, len(sg))
		for _, s := range sg {
			lo, hi := rngOf(s)
			if lo < 0 && hi >= 0 {
				m := Seg{s.lo, -s.c - 1, true, s.c + int64(1)<<x.A[0].W}
				out = append(out, m)
				s.lo = -s.c
			} else if hi < 0 {
				s.c += int64(1) << x.A[0].W
			}
			out = append(out, s)
		}
		return out
	case OTrunc:
		sg := t.segs(x.A[0])
		if sg == nil {
			return nil
		}
		out := make([]Seg, 0, len(sg))
		for _, s := range sg {
			var ok bool
			if out, ok = wrapSeg(out, s, x.W); !ok {
				return nil
			}
		}
		return out
	case OTab:
		sg := t.segs(x.A[0])
		if sg == nil {
			return nil
		}
		var out []Seg
		for _, s := range sg {
			if !s.lin {
				out = append(out, Seg{s.lo, s.hi, false, x.Tab.at(s.c)})
				continue
			}
			lo, hi := s.lo+s.c, s.hi+s.c
			pos := lo
			i := sort.Search(len(x.Tab.segs), func(i int) bool { return x.Tab.segs[i].hi >= lo })
			for ; i < len(x.Tab.segs) && x.Tab.segs[i].lo <= hi; i++ {
				g := x.Tab.segs[i]
				a, b := max(g.lo, lo), min(g.hi, hi)
				if a > pos {
					out = append(out, Seg{pos - s.c, a - 1 - s.c, false, 0})
				}
				if g.lin {
					out = append(out, Seg{a - s.c, b - s.c, true, s.c + g.c})
				} else {
					out = append(out, Seg{a - s.c, b - s.c, false, g.c})
				}
				pos = b + 1
			}
			if pos <= hi {
				out = append(out, Seg{pos - s.c, hi - s.c, false, 0})
			}
			if len(out) > maxSegs {
				return nil
			}
		}
		return out
	case OIte:
		var cs *ISet
		switch c := x.A[0]; c.Op {
		case OInSet:
			cs = c.Set
		default:
			return nil
		}
		part := func(y *Term, dom *ISet) []Seg {
			if y.Op == OConst {
				var out []Seg
				for _, r := range dom.r {
					out = append(out, Seg{r.lo, r.hi, false, sx(y.C, y.W)})
				}
				return out
			}
			sg := t.segs(y)
			if sg == nil {
				return nil
			}
			var out []Seg
			i := 0
			for _, s := range sg {
				for i < len(dom.r) && dom.r[i].hi < s.lo {
					i++
				}
				for j := i; j < len(dom.r) && dom.r[j].lo <= s.hi; j++ {
					out = append(out, Seg{max(s.lo, dom.r[j].lo), min(s.hi, dom.r[j].hi), s.lin, s.c})
				}
			}
			return out
		}
		d1, d2 := t.sets.and(cs, v.dom), t.sets.sub(v.dom, cs)
		a := part(x.A[1], d1)
		b := part(x.A[2], d2)
		if (a == nil && !d1.empty()) || (b == nil && !d2.empty()) {
			return nil
		}
		out := append(a, b...)
		sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
		if len(out) > maxSegs {
			return nil
		}
		return out
	}
	return nil
}

func (x *Term) allVars() []*Var {
	if x.v1 != nil {
		return []*Var{x.v1}
	}
	if !x.many {
		return nil
	}
	if x.vars != nil {
		return x.vars
	}
	seen := map[*Var]bool{}
	for _, a := range x.A {
		for _, v := range a.allVars() {
			if !seen[v] {
				seen[v] = true
				x.vars = append(x.vars, v)
			}
		}
	}
	return x.vars
}

var opNames = map[Op]string{OAdd: "+", OSub: "-", OMul: "*", OUDiv: "/u", OSDiv: "/", OURem: "%u", OSRem: "%", OAnd: "&", OOr: "|", OXor: "^", OShl: "<<", OLshr: ">>u", OAshr: ">>", OZext: "zext", OSext: "sext", OTrunc: "trunc", OIte: "ite", OTab: "tab", OUTF8: "utf8", OEq: "=", OUlt: "<u", OUle: "<=u", OSlt: "<", OSle: "<=", ONot: "not", OBAnd: "and", OBOr: "or"}

func (x *Term) String() string {
	switch x.Op {
	case OConst:
		return fmt.Sprintf("%#x", x.C)
	case OVar:
		return fmt.Sprintf("v%d", x.V.idx)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OInSet:
		return fmt.Sprintf("%v∈%v", x.A[0], x.Set)
	}
	var b strings.Builder
	b.WriteString("(" + opNames[x.Op])
	if x.Tab != nil {
		b.WriteString(":" + x.Tab.name)
	}
	if x.Op == OUTF8 {
		fmt.Fprintf(&b, ":%d/%d", x.C&7, x.C>>3)
	}
	for _, a := range x.A {
		b.WriteString(" " + a.String())
	}
	return b.String() + ")"
}
