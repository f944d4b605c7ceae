package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"sort"
)

// Canonical forms of integer terms: a term over one variable becomes a
// piecewise-linear table of that variable, and a sum becomes a sum of one such
// term per variable. Every rewriting of the first kind is recorded for an
// audit by the solver.

const (
	maxPoints   = 20000
	maxCanonSeg = 2048
)

func (t *termTab) bin(op Op, a, b *Term) *Term { return t.simp(t.bin0(op, a, b)) }
func (t *termTab) ext(a *Term, w uint8, signed bool) *Term {
	return t.simp(t.ext0(a, w, signed))
}
func (t *termTab) tab(tb *Tab, a *Term) *Term { return t.simp(t.tab0(tb, a)) }
func (t *termTab) ite(c, a, b *Term) *Term    { return t.simp(t.ite0(c, a, b)) }

func (t *termTab) simp(x *Term) *Term {
	if x.W == 0 || x.Op == OConst || x.Op == OVar || x.Op == OUTF8 {
		return x
	}
	if x.simp != nil {
		return x.simp
	}
	y := x
	t.noAudit = false
	switch {
	case x.v1 != nil:
		y = t.simp1(x)
	case x.many && (x.Op == OAdd || x.Op == OSub || x.Op == OMul || x.Op == OShl || x.Op == OSext || x.Op == OZext || x.Op == OTrunc):
		y = t.simpSum(x)
	}
	x.simp = y
	y.simp = y
	if y != x && t.noAudit {
		t.enumTabs++
	} else if y != x {
		t.audit = append(t.audit, auditPair{op: OTab, a: []*Term{x, y}, v: x.v1})
	}
	return y
}

// points evaluates a term at every value of its variable.
func (t *termTab) points(x *Term) []Seg {
	v := x.v1
	if v.dom.n > maxPoints {
		return nil
	}
	var out []Seg
	for _, r := range v.dom.r {
		for i := r.lo; i <= r.hi; i++ {
			t.enumN++
			y := sx(x.eval(func(*Var) int64 { return i }), x.W)
			out = append(out, Seg{i, i, false, y})
		}
	}
	return out
}

func (g Seg) at(x int64) int64 {
	if g.lin {
		return x + g.c
	}
	return g.c
}

// squeeze merges neighbouring segments; the result depends on the function
// only.
func squeeze(sg []Seg) []Seg {
	var out []Seg
	for _, s := range sg {
		for {
			n := len(out) - 1
			if n < 0 {
				if s.lo == s.hi {
					s = Seg{s.lo, s.lo, false, s.at(s.lo)}
				}
				out = append(out, s)
				break
			}
			c := &out[n]
			z, y := c.at(c.hi), s.at(s.lo)
			eq, up := y == z, y-z == s.lo-c.hi
			single := s.lo == s.hi
			rest := false
			switch {
			case eq && (c.lo == c.hi || !c.lin):
				if c.lo == c.hi {
					c.lin, c.c = false, z
				}
				if single || !s.lin {
					c.hi = s.hi
				} else {
					c.hi = s.lo
					rest = true
				}
			case up && (c.lo == c.hi || c.lin):
				if c.lo == c.hi {
					c.lin, c.c = true, z-c.lo
				}
				if single || s.lin {
					c.hi = s.hi
				} else {
					c.hi = s.lo
					rest = true
				}
			default:
				if single {
					s = Seg{s.lo, s.lo, false, y}
				}
				out = append(out, s)
			}
			if !rest {
				break
			}
			s.lo++
		}
	}
	return out
}

func (t *termTab) simp1(x *Term) *Term {
	v := x.v1
	sg := t.segs(x)
	if sg == nil {
		if sg = t.points(x); sg != nil {
			t.noAudit = true
		}
	}
	if sg == nil {
		return x
	}
	sg = squeeze(sg)
	if len(sg) > maxCanonSeg {
		return x
	}
	return t.fromSegs(v, sg, x.W, x)
}

func (t *termTab) fromSegs(v *Var, sg []Seg, w uint8, orig *Term) *Term {
	if len(sg) == 1 {
		s := sg[0]
		if !s.lin {
			return t.con(uint64(s.c), w)
		}
		if s.c == 0 {
			if v.w == w {
				return v.term
			}
			return t.ext0(v.term, w, v.lo < 0 || fits(v.lo, v.hi, v.w))
		}
	}
	aw := max(v.w, w)
	if !fits(v.lo, v.hi, v.w) {
		return orig
	}
	arg := v.term
	if aw > v.w {
		arg = t.ext0(arg, aw, true)
	}
	tb := t.mkTab(sg)
	y := t.tab0(tb, arg)
	if aw > w {
		y = t.ext0(y, w, false)
	}
	return y
}

// sum is a linear combination.
type sum struct {
	one map[*Var]*Term // one term per variable
	oth map[*Term]uint64
	c   uint64
}

func (t *termTab) toSum(x *Term, depth int) (sum, bool) {
	z := sum{map[*Var]*Term{}, map[*Term]uint64{}, 0}
	if depth > 40 {
		return z, false
	}
	if x.Op == OConst {
		z.c = x.C
		return z, true
	}
	if x.v1 != nil {
		z.one[x.v1] = x
		return z, true
	}
	switch x.Op {
	case OAdd, OSub:
		a, ok := t.toSum(x.A[0], depth+1)
		if !ok {
			return z, false
		}
		b, ok := t.toSum(x.A[1], depth+1)
		if !ok {
			return z, false
		}
		if x.Op == OSub {
			b = t.scale(b, ^uint64(0), x.W)
		}
		for v, y := range b.one {
			if o := a.one[v]; o != nil {
				a.one[v] = t.bin(OAdd, o, y)
			} else {
				a.one[v] = y
			}
		}
		for y, k := range b.oth {
			a.oth[y] = mask(a.oth[y]+k, x.W)
		}
		a.c = mask(a.c+b.c, x.W)
		return a, true
	case OMul, OShl:
		y, k := x.A[0], x.A[1]
		if k.Op != OConst && x.Op == OMul {
			y, k = k, y
		}
		if k.Op == OConst {
			a, ok := t.toSum(y, depth+1)
			if !ok {
				return z, false
			}
			f := k.C
			if x.Op == OShl {
				if f >= 64 {
					return z, false
				}
				f = 1 << f
			}
			return t.scale(a, f, x.W), true
		}
	case OTrunc:
		if y := x.A[0]; y.Op == OAdd || y.Op == OMul || y.Op == OSub {
			a, ok := t.toSum(y, depth+1)
			if ok {
				b := sum{map[*Var]*Term{}, map[*Term]uint64{}, mask(a.c, x.W)}
				for v, o := range a.one {
					b.one[v] = t.ext(o, x.W, false)
				}
				for o, k := range a.oth {
					n := t.ext(o, x.W, false)
					b.oth[n] = mask(b.oth[n]+k, x.W)
				}
				return b, true
			}
		}
	case OSext, OZext:
		y := x.A[0]
		if y.Op == OAdd || y.Op == OMul || y.Op == OSub {
			a, ok := t.toSum(y, depth+1)
			if ok && len(a.oth) == 0 && y.W < 64 {
				lo, hi := sx(a.c, y.W), sx(a.c, y.W)
				ok := true
				for _, o := range a.one {
					l, h, k := t.bounds(o)
					ok = ok && k
					lo, hi = lo+l, hi+h
				}
				if ok && fits(lo, hi, y.W) && (x.Op == OSext || lo >= 0) {
					b := sum{map[*Var]*Term{}, map[*Term]uint64{}, mask(uint64(sx(a.c, y.W)), x.W)}
					for v, o := range a.one {
						b.one[v] = t.ext(o, x.W, true)
					}
					return b, true
				}
			}
		}
	}
	z.oth[x] = 1
	return z, true
}

func (t *termTab) bounds(x *Term) (int64, int64, bool) {
	sg := t.segs(x)
	if len(sg) == 0 {
		return 0, 0, false
	}
	lo, hi := sg[0].at(sg[0].lo), sg[0].at(sg[0].lo)
	for _, s := range sg {
		lo, hi = min(lo, s.at(s.lo)), max(hi, s.at(s.hi))
	}
	return lo, hi, true
}

func (t *termTab) scale(a sum, k uint64, w uint8) sum {
	kc := t.con(k, w)
	for v, y := range a.one {
		a.one[v] = t.bin(OMul, y, kc)
	}
	for y, c := range a.oth {
		a.oth[y] = mask(c*k, w)
	}
	a.c = mask(a.c*k, w)
	return a
}

func (t *termTab) simpSum(x *Term) *Term {
	a, ok := t.toSum(x, 0)
	if !ok {
		return x
	}
	if len(a.one) == 0 && len(a.oth) == 1 && a.c == 0 {
		for y, k := range a.oth {
			if k == 1 {
				return y
			}
		}
	}
	var vs []*Var
	for v := range a.one {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].idx < vs[j].idx })
	var parts []*Term
	c := a.c
	for _, v := range vs {
		y := a.one[v]
		// the part vanishes at the smallest value
		if !v.dom.empty() {
			z := y.eval(func(*Var) int64 { return v.dom.r[0].lo })
			y = t.bin(OAdd, y, t.con(-z, x.W))
			c = mask(c+z, x.W)
		}
		if y.Op == OConst {
			c = mask(c+y.C, x.W)
			continue
		}
		parts = append(parts, y)
	}
	var oth []*Term
	for y, k := range a.oth {
		if k != 0 {
			oth = append(oth, y)
		}
	}
	sort.Slice(oth, func(i, j int) bool { return oth[i].id < oth[j].id })
	for _, y := range oth {
		parts = append(parts, t.bin0(OMul, y, t.con(a.oth[y], x.W)))
	}
	if len(parts) == 0 {
		return t.con(c, x.W)
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = t.intern(&Term{Op: OAdd, W: x.W, A: []*Term{r, p}})
	}
	if c != 0 {
		r = t.intern(&Term{Op: OAdd, W: x.W, A: []*Term{r, t.con(c, x.W)}})
	}
	return r
}

// mkTab interns a table.
func (t *termTab) mkTab(sg []Seg) *Tab {
	buf := make([]byte, 0, 16*len(sg))
	for _, s := range sg {
		buf = binary.AppendVarint(buf, s.lo)
		buf = binary.AppendVarint(buf, s.hi)
		buf = binary.AppendVarint(buf, s.c)
		if s.lin {
			buf = append(buf, 1)
		} else {
			buf = append(buf, 0)
		}
	}
	tb := t.tabs[string(buf)]
	if tb == nil {
		tb = &Tab{name: tabName(buf), segs: sg}
		t.tabs[string(buf)] = tb
	}
	return tb
}

// squeezeTight is squeeze for a total table: gaps (of value zero) stay.
func squeezeTight(sg []Seg) []Seg {
	var out []Seg
	for i := 0; i < len(sg); {
		j := i + 1
		for j < len(sg) && sg[j].lo == sg[j-1].hi+1 {
			j++
		}
		out = append(out, squeeze(sg[i:j])...)
		i = j
	}
	return out
}

func tabName(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("c%x", h.Sum64())
}
