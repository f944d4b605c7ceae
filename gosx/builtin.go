package main

import (
	"encoding/binary"
	"go/token"
	"go/types"
	"sort"
)

func newMap() *Map { return &Map{idx: map[any]*mapEnt{}} }

// mkey gives a comparable key of a concrete value.
func (e *Engine) mkey(v Val, t types.Type, k kind) (any, bool) {
	switch k.k {
	case kInt, kBool, kFloat:
		if v.P != nil {
			return nil, false
		}
		return v.N, true
	case kString:
		s, ok := v.str()
		return s, ok
	case kIface:
		i, _ := v.P.(*Iface)
		if i == nil {
			return nil, true
		}
		if !types.Comparable(i.T) {
			panic(goPanic{e.errVal("runtime error: hash of unhashable type " + i.T.String())})
		}
		x, ok := e.mkey(i.V, i.T, kindOf(i.T))
		return [2]any{i.T, x}, ok
	case kAgg:
		a := v.P.(*Agg)
		var buf []byte
		var ptrs [4]any
		np := 0
		for i := range a.E {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}
			x, ok := e.mkey(a.E[i], ft, kindOf(ft))
			if !ok {
				return nil, false
			}
			switch x := x.(type) {
			case uint64:
				buf = binary.BigEndian.AppendUint64(append(buf, 'i'), x)
			case string:
				buf = binary.AppendUvarint(append(buf, 's'), uint64(len(x)))
				buf = append(buf, x...)
			default:
				if np == 4 {
					panic(unsupported("map key with many references"))
				}
				ptrs[np] = x
				np++
			}
		}
		return [2]any{string(buf), ptrs}, true
	}
	return v.P, true
}

// find returns the entry of a key, forking if some key is symbolic.
func (e *Engine) find(m *Map, key Val, t types.Type, k kind) *mapEnt {
	mk, conc := e.mkey(key, t, k)
	if conc && !m.sym {
		return m.idx[mk]
	}
	var ents []*mapEnt
	var gs []*Term
	for _, en := range m.ents {
		if en.del {
			continue
		}
		c := e.equal(en.k, key, k, t)
		if e.eval3(c) == no {
			continue
		}
		ents = append(ents, en)
		gs = append(gs, c)
	}
	if len(gs) == 0 {
		return nil
	}
	gs = append(gs, e.tt.not(e.tt.or(gs...)))
	i := e.choose(gs...)
	if i == len(ents) {
		return nil
	}
	return ents[i]
}

func (e *Engine) lookup(mv, key Val, in *instr) Val {
	m, _ := mv.P.(*Map)
	e.touchMap(m, false)
	var en *mapEnt
	if m != nil && m.n > 0 {
		if t := key.term(); t != nil && !m.sym && (in.k2.k == kBool || in.k2.k == kInt) {
			if v, ok := e.tabLookup(m, t, in); ok {
				return v
			}
		}
		if _, ok := key.P.(*SStr); ok && !m.sym {
			en = e.findByValue(m, key, in)
		} else if key.isSym() && !m.sym {
			en = e.findByValue(m, key, in)
		} else {
			en = e.find(m, key, in.t, in.k)
		}
	} else if m != nil {
		e.mkey(key, in.t, in.k) // may panic on an unhashable key
	}
	v := Val{}
	if en != nil {
		v = clone(en.v)
	} else {
		v = clone(in.proto)
	}
	if in.comma {
		return Val{P: []Val{v, boolVal(en != nil)}}
	}
	return v
}

// findByValue forks once per distinct value rather than once per key.
func (e *Engine) findByValue(m *Map, key Val, in *instr) *mapEnt {
	type grp struct {
		en *mapEnt
		cs []*Term
	}
	var gs []*grp
	var all []*Term
	byVal := map[any]*grp{}
	for _, en := range m.ents {
		if en.del {
			continue
		}
		c := e.equal(en.k, key, in.k, in.t)
		if e.eval3(c) == no {
			continue
		}
		all = append(all, c)
		var g *grp
		var vk any = en
		if in.k2.k == kString {
			if s, ok := en.v.str(); ok {
				vk = "s" + s
			}
		} else if en.v.P == nil && in.k2.k != kOther {
			vk = en.v.N
		}
		if g = byVal[vk]; g == nil {
			g = &grp{en: en}
			byVal[vk] = g
			gs = append(gs, g)
		}
		g.cs = append(g.cs, c)
	}
	if len(gs) == 0 {
		return nil
	}
	var ts []*Term
	for _, g := range gs {
		ts = append(ts, e.tt.or(g.cs...))
	}
	ts = append(ts, e.tt.not(e.tt.or(all...)))
	i := e.choose(ts...)
	if i == len(gs) {
		return nil
	}
	return gs[i].en
}

// tabLookup reads a map of scalars at a symbolic integer key without forking.
func (e *Engine) tabLookup(m *Map, t *Term, in *instr) (Val, bool) {
	if in.k.k != kInt || (in.k2.k == kInt && len(m.ents) > 400) {
		return Val{}, false
	}
	sets := map[uint64][]rg{}
	var keys []rg
	var order []uint64
	for _, en := range m.ents {
		if en.del {
			continue
		}
		if en.v.P != nil || en.k.P != nil {
			return Val{}, false
		}
		x := sx(en.k.N, in.k.w)
		keys = append(keys, rg{x, x})
		if _, ok := sets[en.v.N]; !ok {
			order = append(order, en.v.N)
		}
		sets[en.v.N] = append(sets[en.v.N], rg{x, x})
	}
	has := fromTerm(e.tt.inSet(t, e.tt.sets.norm(keys)), kB)
	var v Val
	if in.k2.k == kBool {
		v = fromTerm(e.tt.inSet(t, e.tt.sets.norm(sets[1])), kB)
	} else if len(order) == 0 {
		v = Val{}
	} else if len(order) > 1 {
		aw := max(in.k.w, in.k2.w)
		if !in.k.signed || !in.k2.signed {
			return Val{}, false
		}
		var segs []Seg
		for y, ks := range sets {
			for _, r := range ks {
				segs = append(segs, Seg{r.lo, r.hi, false, sx(y, in.k2.w)})
			}
		}
		sort.Slice(segs, func(i, j int) bool { return segs[i].lo < segs[j].lo })
		segs = squeezeTight(segs)
		v = fromTerm(e.tt.ext(e.tt.tab(e.tt.mkTab(segs), e.tt.ext(t, aw, true)), in.k2.w, true), in.k2)
	} else {
		c := e.termOf(has, kB)
		v = fromTerm(e.tt.ite(c, e.tt.con(order[0], in.k2.w), e.tt.con(0, in.k2.w)), in.k2)
	}
	if in.comma {
		return Val{P: []Val{v, has}}, true
	}
	return v, true
}

func (e *Engine) mapUpdate(mv, key, val Val, t types.Type, k kind) {
	m, _ := mv.P.(*Map)
	if m == nil {
		panic(goPanic{e.errVal("assignment to entry in nil map")})
	}
	e.touchMap(m, true)
	en := e.find(m, key, t, k)
	if en != nil {
		old := en.v
		en.v = clone(val)
		e.onUndo(func() { en.v = old })
		return
	}
	mk, conc := e.mkey(key, t, k)
	en = &mapEnt{k: clone(key), v: clone(val)}
	oldEnts, oldSym := m.ents, m.sym
	m.ents = append(m.ents[:len(m.ents):len(m.ents)], en)
	if cap(oldEnts) > len(oldEnts) && !e.logging {
		m.ents = append(oldEnts, en)
	}
	m.n++
	if conc {
		m.idx[mk] = en
	} else {
		m.sym = true
	}
	e.onUndo(func() {
		m.ents, m.sym = oldEnts, oldSym
		m.n--
		if conc {
			delete(m.idx, mk)
		}
	})
}

func (e *Engine) mapDelete(mv, key Val, t types.Type, k kind) {
	m, _ := mv.P.(*Map)
	e.touchMap(m, true)
	if m == nil || m.n == 0 {
		return
	}
	en := e.find(m, key, t, k)
	if en == nil {
		return
	}
	mk, conc := e.mkey(en.k, t, k)
	old := m.ents
	n := make([]*mapEnt, 0, len(old))
	for _, x := range old {
		if x != en {
			n = append(n, x)
		}
	}
	en.del = true
	m.ents = n
	m.n--
	if conc {
		delete(m.idx, mk)
	}
	e.onUndo(func() {
		en.del = false
		m.ents = old
		m.n++
		if conc {
			m.idx[mk] = en
		}
	})
}

func (e *Engine) builtin(fr *Frame, in *instr, args []Val) Val {
	switch in.bi {
	case "len":
		return e.lenOf(args[0], in)
	case "cap":
		switch in.t.(type) {
		case *types.Slice:
			return num(uint64(cap(args[0].slice())))
		case *types.Chan:
			if c, ok := args[0].P.(*Chan); ok {
				return num(uint64(c.cap))
			}
			return Val{}
		}
		return e.lenOf(args[0], in)
	case "append":
		var add []Val
		if in.k2.k == kString {
			add = strBytes(args[1])
		} else {
			add = args[1].slice()
		}
		size := int64(8)
		if st, ok := in.t.(*types.Slice); ok {
			size = sizes.Sizeof(st.Elem())
		}
		return e.appendVals(args[0], add, size)
	case "copy":
		d := args[0].slice()
		var s []Val
		if in.k2.k == kString {
			s = strBytes(args[1])
		} else {
			s = args[1].slice()
		}
		n := min(len(d), len(s))
		if n == 0 {
			return Val{}
		}
		if &d[0] == &s[0] {
			return num(uint64(n))
		}
		e.readAll(s[:n])
		tmp := append([]Val(nil), s[:n]...)
		for i := range tmp {
			if _, ok := tmp[i].P.(*Agg); ok {
				tmp[i] = clone(tmp[i])
			}
		}
		for i := 0; i < n; i++ {
			e.store(&d[i], tmp[i])
		}
		return num(uint64(n))
	case "delete":
		mt := in.t.(*types.Map)
		e.mapDelete(args[0], args[1], mt.Key(), kindOf(mt.Key()))
		return Val{}
	case "clear":
		switch in.t.(type) {
		case *types.Map:
			m, _ := args[0].P.(*Map)
			if m != nil {
				mt := in.t.(*types.Map)
				for _, en := range append([]*mapEnt(nil), m.ents...) {
					e.mapDelete(args[0], en.k, mt.Key(), kindOf(mt.Key()))
				}
			}
		case *types.Slice:
			for i := range args[0].slice() {
				c := &args[0].slice()[i]
				e.store(c, zero(in.t.(*types.Slice).Elem()))
			}
		}
		return Val{}
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		return e.doRecover()
	case "print", "println":
		return Val{}
	case "close":
		c, _ := args[0].P.(*Chan)
		if c == nil {
			panic(goPanic{e.errVal("close of nil channel")})
		}
		if c.closed {
			panic(goPanic{e.errVal("close of closed channel")})
		}
		c.closed = true
		e.onUndo(func() { c.closed = false })
		e.wake()
		return Val{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			var less Val
			switch in.k.k {
			case kInt:
				less = e.intOp(token.LSS, x, r, in.k, in.k)
			case kString:
				less = e.strLess(x, r, false)
			case kFloat:
				less = boolVal(fl(x) < fl(r))
			}
			if in.bi == "max" {
				switch in.k.k {
				case kInt:
					less = e.intOp(token.LSS, r, x, in.k, in.k)
				case kString:
					less = e.strLess(r, x, false)
				case kFloat:
					less = boolVal(fl(r) < fl(x))
				}
			}
			if t := less.term(); t != nil {
				if in.k.k == kInt {
					r = fromTerm(e.tt.ite(t, e.termOf(x, in.k), e.termOf(r, in.k)), in.k)
				} else if e.branch(t) {
					r = x
				}
			} else if less.N != 0 {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "SliceData":
		s := args[0].slice()
		if len(s) == 0 {
			if args[0].P == nil {
				return Val{}
			}
			return Val{P: &SlicePtr{s}}
		}
		return Val{P: &SlicePtr{s[:cap(s)]}}
	case "StringData":
		return Val{P: &SlicePtr{strBytes(args[0])}}
	case "String":
		n := e.concInt(args[1])
		if n == 0 {
			return Val{}
		}
		switch p := args[0].P.(type) {
		case *SlicePtr:
			return mkStr(append([]Val(nil), p.s[:n]...))
		}
		panic(unsupported("unsafe.String of %T in %s", args[0].P, fr.fn.name))
	case "Slice":
		n := e.concInt(args[1])
		switch p := args[0].P.(type) {
		case *SlicePtr:
			return Val{P: &Slice{p.s[:n:n]}}
		case nil:
			return Val{}
		}
		panic(unsupported("unsafe.Slice of %T in %s", args[0].P, fr.fn.name))
	case "real", "imag", "complex":
		panic(unsupported("complex numbers"))
	}
	panic(unsupported("builtin %s", in.bi))
}

// SlicePtr is the result of unsafe.SliceData or unsafe.StringData.
type SlicePtr struct{ s []Val }

func (e *Engine) lenOf(v Val, in *instr) Val {
	switch t := in.t.(type) {
	case *types.Basic:
		return num(uint64(strLen(v)))
	case *types.Slice:
		return num(uint64(len(v.slice())))
	case *types.Map:
		if m, ok := v.P.(*Map); ok && m != nil {
			return num(uint64(m.n))
		}
		return Val{}
	case *types.Chan:
		if c, ok := v.P.(*Chan); ok && c != nil {
			return num(uint64(min(len(c.q), c.cap)))
		}
		return Val{}
	case *types.Array:
		return num(uint64(t.Len()))
	case *types.Pointer:
		return num(uint64(t.Elem().Underlying().(*types.Array).Len()))
	}
	switch x := v.P.(type) {
	case *Slice:
		return num(uint64(len(x.S)))
	case string, *SStr, nil:
		return num(uint64(strLen(v)))
	}
	panic(unsupported("len of %T", v.P))
}

func (e *Engine) appendVals(dst Val, add []Val, size int64) Val {
	s := dst.slice()
	n := len(s)
	if len(add) == 0 {
		return dst
	}
	e.readAll(add)
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		if len(add) > 1 {
			add = append([]Val(nil), add...)
		}
		for i := range add {
			v := add[i]
			if _, ok := v.P.(*Agg); ok {
				v = clone(v)
			}
			e.store(&r[n+i], v)
		}
		return Val{P: &Slice{r}}
	}
	e.readAll(s)
	c := growCap(n+len(add), cap(s), size)
	r := make([]Val, n+len(add), c)
	copy(r, s)
	for i := range s {
		if _, ok := s[i].P.(*Agg); ok {
			r[i] = clone(s[i])
		}
	}
	for i := range add {
		v := add[i]
		if _, ok := v.P.(*Agg); ok {
			v = clone(v)
		}
		r[n+i] = v
	}
	// spare elements must be addressable zero values; aggregates are made on
	// the fly by appending, which always overwrites the whole element
	return Val{P: &Slice{r}}
}

func (e *Engine) doRecover() Val {
	g := e.gs[e.cur]
	n := len(g.frames)
	if n < 2 || !g.frames[n-1].isDefer {
		return Val{}
	}
	p := g.frames[n-2].panicking
	if p == nil || p.recovered {
		return Val{}
	}
	p.recovered = true
	return p.v
}

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap is the capacity the Go runtime gives to a grown slice.
func growCap(newLen, oldCap int, size int64) int {
	c := oldCap
	if newLen > 2*oldCap {
		c = newLen
	} else if oldCap < 256 {
		c = 2 * oldCap
	} else {
		for c < newLen {
			c += (c + 3*256) >> 2
		}
	}
	if size == 0 {
		return max(c, newLen)
	}
	bytes := int64(c) * size
	if bytes <= 32768 {
		for _, x := range sizeClasses {
			if x >= bytes {
				bytes = x
				break
			}
		}
	} else {
		bytes = (bytes + 8191) / 8192 * 8192
	}
	return int(bytes / size)
}
