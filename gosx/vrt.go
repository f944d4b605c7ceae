package main

// The interface of the harnesses (see rt/verifrt.go).

func scalarSet(e *Engine) *ISet {
	return e.namedSet("scalars", func() *ISet { return e.tt.sets.mk([]rg{{0, 0xd7ff}, {0xe000, maxRune}}) })
}

func (e *Engine) lettersOf(v Val) *ISet {
	s, ok := v.str()
	if !ok {
		panic(unsupported("symbolic alphabet"))
	}
	var r []rg
	for _, x := range s {
		r = append(r, rg{int64(x), int64(x)})
	}
	return e.tt.sets.norm(r)
}

func init() {
	rv := func(e *Engine, dom *ISet) Val {
		return Val{P: e.newInput("rune", 32, -1<<31, 1<<31-1, dom)}
	}
	reg := func(n string, f func(e *Engine, a []Val) Val) {
		intrinsics[vrt+n] = func(e *Engine, fn *Fn, args []Val) Val { return f(e, args) }
	}
	one := func(e *Engine, v Val) Val {
		// an input with a single possible value is that value
		if t := v.term(); t != nil && t.V != nil && t.V.dom.single() {
			return num64(t.V.dom.r[0].lo)
		}
		return v
	}
	reg("Rune", func(e *Engine, a []Val) Val { return rv(e, scalarSet(e)) })
	reg("AnyRune", func(e *Engine, a []Val) Val { return rv(e, e.tt.sets.rng(-1<<31, 1<<31-1)) })
	reg("RuneIn", func(e *Engine, a []Val) Val {
		var r []rg
		p := a[0].slice()
		for i := 0; i+1 < len(p); i += 2 {
			r = append(r, rg{int64(p[i].N), int64(p[i+1].N)})
		}
		return one(e, rv(e, e.tt.sets.and(e.tt.sets.norm(r), scalarSet(e))))
	})
	reg("RuneOf", func(e *Engine, a []Val) Val { return one(e, rv(e, e.lettersOf(a[0]))) })
	reg("RuneNot", func(e *Engine, a []Val) Val { return one(e, rv(e, e.tt.sets.sub(scalarSet(e), e.lettersOf(a[0])))) })
	reg("Byte", func(e *Engine, a []Val) Val {
		return Val{P: e.newInput("byte", 8, 0, 255, e.tt.sets.rng(0, 255))}
	})
	reg("ByteOf", func(e *Engine, a []Val) Val {
		s, _ := a[0].str()
		var r []rg
		for i := 0; i < len(s); i++ {
			r = append(r, rg{int64(s[i]), int64(s[i])})
		}
		return one(e, Val{P: e.newInput("byte", 8, 0, 255, e.tt.sets.norm(r))})
	})
	reg("Int", func(e *Engine, a []Val) Val {
		lo, hi := int64(a[0].N), int64(a[1].N)
		return one(e, Val{P: e.newInput("int", 64, lo, hi, e.tt.sets.rng(lo, hi))})
	})
	reg("Choice", func(e *Engine, a []Val) Val {
		n := int64(a[0].N)
		if n <= 0 {
			panic(pathEnd{kind: "assume", msg: "empty choice"})
		}
		t := e.newInput("choice", 64, 0, n-1, e.tt.sets.rng(0, n-1))
		return num64(e.concretizeAny(t))
	})
	reg("Bool", func(e *Engine, a []Val) Val {
		t := e.newInput("bool", 8, 0, 1, e.tt.sets.rng(0, 1))
		return fromTerm(e.tt.inVar(t.V, e.tt.sets.rng(1, 1)), kB)
	})
	reg("Assume", func(e *Engine, a []Val) Val {
		e.assumes++
		if t := a[0].term(); t != nil {
			if !e.assume(t) || len(e.clauses) > 0 && !e.feasible(t) {
				panic(pathEnd{kind: "assume"})
			}
			return Val{}
		}
		if a[0].N == 0 {
			panic(pathEnd{kind: "assume"})
		}
		return Val{}
	})
	reg("Assert", func(e *Engine, a []Val) Val {
		s, ok := a[1].str()
		if !ok {
			s = show(a[1])
		}
		e.assertion(a[0], s)
		return Val{}
	})
	reg("Observe", func(e *Engine, a []Val) Val {
		n := len(e.obs)
		s, _ := a[0].str()
		e.obs = append(e.obs[:n:n], obsRec{s, a[1]})
		e.onUndo(func() { e.obs = e.obs[:n] })
		return Val{}
	})
	reg("Reach", func(e *Engine, a []Val) Val {
		s, _ := a[0].str()
		e.out.Reach[s]++
		return Val{}
	})
	reg("MapOrder", func(e *Engine, a []Val) Val {
		old := e.mapMode
		e.mapMode = int(a[0].N)
		if e.mapMode != 0 {
			oldU := e.mapUsed
			e.mapUsed = true
			e.onUndo(func() { e.mapUsed = oldU })
		}
		e.onUndo(func() { e.mapMode = old })
		return Val{}
	})
	reg("pause", func(e *Engine, a []Val) Val { return Val{} })
	reg("freeze", func(e *Engine, a []Val) Val { e.freeze(a[0]); return Val{} })
	reg("thaw", func(e *Engine, a []Val) Val { e.thaw(); return Val{} })
	reg("SetStdin", func(e *Engine, a []Val) Val {
		old := e.stdin
		e.stdin = a[0]
		e.onUndo(func() { e.stdin = old })
		return Val{}
	})
	reg("Thorough", func(e *Engine, a []Val) Val { return boolVal(e.cfg.tier == "thorough") })
}
