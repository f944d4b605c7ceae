package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
)

func (e *Engine) get(fr *Frame, o *operand) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob >= 0 {
		return e.globalAddr(o.glob)
	}
	return o.con
}

func (e *Engine) newFrame(fn *Fn) *Frame {
	e.P.ensure(fn)
	if !e.funcs[fn] {
		e.funcs[fn] = true
	}
	for int(fn.id) >= len(e.nfree) {
		e.nfree = append(e.nfree, nil)
	}
	if l := e.nfree[fn.id]; len(l) > 0 {
		f := l[len(l)-1]
		e.nfree[fn.id] = l[:len(l)-1]
		*f = Frame{fn: fn, regs: f.regs}
		return f
	}
	return &Frame{fn: fn, regs: make([]Val, fn.nregs)}
}

func (e *Engine) freeFrame(f *Frame) {
	e.nfree[f.fn.id] = append(e.nfree[f.fn.id], f)
}

// push starts a call. The result goes to the caller's current instruction.
func (e *Engine) push(g *Goro, fn *Fn, args []Val, bind []Val) *Frame {
	if len(fn.f.Blocks) == 0 {
		panic(unsupported("function without body: %s", fn.name))
	}
	f := e.newFrame(fn)
	copy(f.regs, args)
	copy(f.regs[fn.nparam:], bind)
	g.frames = append(g.frames, f)
	if len(g.frames) > 5000 {
		panic(pathEnd{kind: "panic", msg: "stack overflow"})
	}
	return f
}

func (e *Engine) rtPanic(msg string) {
	panic(goPanic{e.errVal("runtime error: " + msg)})
}

// errVal makes an error value holding a message.
func (e *Engine) errVal(msg string) Val {
	t := e.P.errType()
	return Val{P: &Iface{T: t, V: Val{P: &Val{P: &Agg{[]Val{strVal(msg)}}}}}}
}

// run executes until the path ends, by panicking with pathEnd.
func (e *Engine) run() {
	for {
		e.protect()
	}
}

func (e *Engine) protect() {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				e.startPanic(gp.v)
				return
			}
			panic(r)
		}
	}()
	e.loop()
}

func (e *Engine) startPanic(v Val) {
	g := e.gs[e.cur]
	fr := g.top()
	if fr.panicking != nil && !fr.panicking.recovered {
		// replaced by the new panic
	}
	fr.panicking = &panicRec{v: v, trace: e.where()}
	e.unwind()
}

// unwind runs the deferred calls of the panicking top frame, or pops it.
func (e *Engine) unwind() {
	g := e.gs[e.cur]
	for {
		fr := g.top()
		if fr.panicking == nil {
			return
		}
		if fr.panicking.recovered {
			if len(fr.defers) > 0 {
				e.nextDefer(g, fr)
				return
			}
			fr.panicking = nil
			if fr.fn.recover >= 0 {
				fr.pc = fr.fn.recover
				return
			}
			e.ret(zero(fr.fn.resK))
			return
		}
		if len(fr.defers) > 0 {
			if e.nextDefer(g, fr) {
				return
			}
			continue
		}
		p := fr.panicking
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			panic(pathEnd{kind: "panic", msg: e.panicText(p.v) + p.trace, v: p.v})
		}
		g.top().panicking = p
	}
}

// nextDefer starts the next deferred call; false if it was a builtin done at once.
func (e *Engine) nextDefer(g *Goro, fr *Frame) bool {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	if d.bi != "" {
		e.builtin(fr, d.in, d.args)
		return false
	}
	c, _ := d.fn.P.(*Closure)
	if c == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		c.native(e, d.args)
		return false
	}
	if c.fn.intr != nil {
		v := c.fn.intr(e, c.fn, d.args)
		if r, ok := v.P.(tailCall); ok {
			f := e.push(g, r.fn, r.args, r.bind)
			f.isDefer = true
			return true
		}
		if _, ok := v.P.(retry); ok {
			panic(unsupported("blocking deferred call"))
		}
		return false
	}
	f := e.push(g, c.fn, d.args, c.bind)
	f.isDefer = true
	return true
}

func (e *Engine) panicText(v Val) string {
	i, ok := v.P.(*Iface)
	if !ok || i == nil {
		return "panic(nil)"
	}
	if s, ok := i.V.str(); ok && kindOf(i.T).k == kString {
		return s
	}
	if p, ok := i.V.P.(*Val); ok && p != nil {
		if a, ok := p.P.(*Agg); ok && len(a.E) > 0 {
			if s, ok := a.E[0].str(); ok && s != "" {
				return s
			}
			return fmt.Sprintf("%v%s", i.T, show(a.E[0]))
		}
	}
	return fmt.Sprintf("%v %s", i.T, show(i.V))
}

// ret returns from the top frame.
func (e *Engine) ret(v Val) {
	g := e.gs[e.cur]
	fr := g.top()
	g.frames[len(g.frames)-1] = nil
	g.frames = g.frames[:len(g.frames)-1]
	isDefer, root := fr.isDefer, fr.isRoot
	e.freeFrame(fr)
	if len(g.frames) == 0 || root {
		g.done = true
		if g.id == 0 {
			panic(pathEnd{kind: "done", v: v})
		}
		e.schedule()
		return
	}
	cl := g.top()
	if isDefer {
		if cl.panicking != nil {
			e.unwind()
		}
		// otherwise the caller is at its RunDefers instruction and goes on
		return
	}
	in := &cl.fn.code[cl.pc]
	if in.dst >= 0 {
		cl.regs[in.dst] = v
	}
	cl.pc++
}

func (e *Engine) schedule() {
	n := len(e.gs)
	for k := 1; k <= n; k++ {
		i := (e.cur + k) % n
		g := e.gs[i]
		if !g.done && !g.blocked {
			e.cur = i
			return
		}
	}
	panic(pathEnd{kind: "deadlock", msg: "all goroutines are asleep" + e.where()})
}

// wake lets every blocked goroutine retry.
func (e *Engine) wake() {
	for _, g := range e.gs {
		g.blocked = false
	}
}

func (e *Engine) block() {
	e.gs[e.cur].blocked = true
	e.schedule()
}

func (e *Engine) loop() {
	for {
		g := e.gs[e.cur]
		fr := g.frames[len(g.frames)-1]
		in := &fr.fn.code[fr.pc]
		e.steps++
		if e.steps&0xffff == 0 {
			if e.steps > e.stepLimit || len(e.trail) > 20e6 {
				panic(pathEnd{kind: "steps", msg: "step limit" + e.where()})
			}
			e.poll()
		}
		if len(e.choices) == 0 && len(e.trail) > 0 {
			clear(e.trail)
			e.trail = e.trail[:0]
		}
		e.mark = len(e.trail)
		e.dec = e.dec[:0]
		switch in.op {
		case iJump:
			e.follow(fr, &in.e[0])
			continue
		case iIf:
			c := e.get(fr, &in.a)
			b := c.N != 0
			if t := c.term(); t != nil {
				b = e.branch(t)
			}
			if b {
				e.follow(fr, &in.e[0])
			} else {
				e.follow(fr, &in.e[1])
			}
			continue
		case iReturn:
			var v Val
			switch len(in.args) {
			case 0:
			case 1:
				v = e.get(fr, &in.args[0])
			default:
				r := make([]Val, len(in.args))
				for i := range r {
					r[i] = e.get(fr, &in.args[i])
				}
				v = Val{P: r}
			}
			e.ret(v)
			continue
		case iCall:
			e.call(g, fr, in)
			continue
		case iLoad:
			p := e.get(fr, &in.a)
			switch c := p.P.(type) {
			case *Val:
				if c == nil {
					e.rtPanic("invalid memory address or nil pointer dereference")
				}
				if e.share != nil {
					e.read(c)
				}
				if _, ok := c.P.(*Agg); ok {
					fr.regs[in.dst] = clone(*c)
				} else {
					fr.regs[in.dst] = *c
				}
			case *SymPtr:
				e.readAll(c.arr)
				fr.regs[in.dst] = e.symLoad(c.arr, c.idx, in.k)
			case nil:
				e.rtPanic("invalid memory address or nil pointer dereference")
			default:
				panic(unsupported("load from %T", p.P))
			}
		case iStore:
			p := e.get(fr, &in.a)
			v := e.get(fr, &in.b)
			switch c := p.P.(type) {
			case *Val:
				if c == nil {
					e.rtPanic("invalid memory address or nil pointer dereference")
				}
				e.store(c, v)
			case *SymPtr:
				i := e.concretize(c.idx, 0, int64(len(c.arr))-1)
				e.store(&c.arr[i], v)
			case nil:
				e.rtPanic("invalid memory address or nil pointer dereference")
			default:
				panic(unsupported("store to %T", p.P))
			}
		case iBin:
			fr.regs[in.dst] = e.binop(fr, in)
		case iNot:
			x := e.get(fr, &in.a)
			if t := x.term(); t != nil {
				fr.regs[in.dst] = fromTerm(e.tt.not(t), in.k)
			} else {
				fr.regs[in.dst] = num(x.N ^ 1)
			}
		case iNeg:
			x := e.get(fr, &in.a)
			if in.k.k == kFloat {
				fr.regs[in.dst] = flv(-fl(x))
			} else if t := x.term(); t != nil {
				fr.regs[in.dst] = fromTerm(e.tt.bin(OSub, e.tt.con(0, in.k.w), t), in.k)
			} else {
				fr.regs[in.dst] = num(in.k.norm(-x.N))
			}
		case iCompl:
			x := e.get(fr, &in.a)
			if t := x.term(); t != nil {
				fr.regs[in.dst] = fromTerm(e.tt.bin(OXor, t, e.tt.con(^uint64(0), in.k.w)), in.k)
			} else {
				fr.regs[in.dst] = num(in.k.norm(^x.N))
			}
		case iAlloc:
			fr.regs[in.dst] = Val{P: newCell(in.proto)}
		case iMove:
			fr.regs[in.dst] = e.get(fr, &in.a)
		case iConvert:
			fr.regs[in.dst] = e.convert(e.get(fr, &in.a), in)
		case iMakeIface:
			fr.regs[in.dst] = Val{P: &Iface{in.t, e.get(fr, &in.a)}}
		case iMakeClosure:
			b := make([]Val, len(in.args))
			for i := range b {
				b[i] = e.get(fr, &in.args[i])
			}
			fr.regs[in.dst] = Val{P: &Closure{fn: in.fn, bind: b}}
		case iMakeMap:
			fr.regs[in.dst] = Val{P: newMap()}
		case iMakeChan:
			fr.regs[in.dst] = Val{P: &Chan{cap: int(e.concInt(e.get(fr, &in.a)))}}
		case iMakeSlice:
			n, c := e.concInt(e.get(fr, &in.a)), e.concInt(e.get(fr, &in.b))
			if n < 0 || c < n || c > 1<<26 {
				e.rtPanic("makeslice: len out of range")
			}
			s := make([]Val, c)
			if in.proto.P != nil {
				for i := range s {
					s[i] = clone(in.proto)
				}
			}
			fr.regs[in.dst] = Val{P: &Slice{s[:n]}}
		case iSlice:
			fr.regs[in.dst] = e.sliceOp(fr, in)
		case iFieldAddr:
			p := e.get(fr, &in.a)
			c, _ := p.P.(*Val)
			if c == nil {
				if p.P == nil {
					e.rtPanic("invalid memory address or nil pointer dereference")
				}
				panic(unsupported("field of %T", p.P))
			}
			a, ok := c.P.(*Agg)
			if !ok {
				panic(unsupported("field of opaque object %T in %s", c.P, fr.fn.name))
			}
			fr.regs[in.dst] = Val{P: &a.E[in.n]}
		case iField:
			a, ok := e.get(fr, &in.a).P.(*Agg)
			if !ok {
				panic(unsupported("field of opaque value in %s", fr.fn.name))
			}
			fr.regs[in.dst] = a.E[in.n]
		case iIndexAddr:
			fr.regs[in.dst] = e.indexAddr(fr, in)
		case iIndex:
			fr.regs[in.dst] = e.index(fr, in)
		case iLookup:
			fr.regs[in.dst] = e.lookup(e.get(fr, &in.a), e.get(fr, &in.b), in)
		case iMapUpdate:
			e.mapUpdate(e.get(fr, &in.a), e.get(fr, &in.b), e.get(fr, &in.args[0]), in.t, in.k)
		case iRange:
			x := e.get(fr, &in.a)
			if in.onStr {
				fr.regs[in.dst] = Val{P: &Val{P: &strIter{s: x}}}
			} else {
				it := &mapIter{}
				if m, ok := x.P.(*Map); ok && m != nil {
					e.touchMap(m, false)
					it.m = m
					for _, en := range m.ents {
						if !en.del {
							it.keys = append(it.keys, en)
						}
					}
					e.orderKeys(m, it.keys)
				}
				fr.regs[in.dst] = Val{P: &Val{P: it}}
			}
		case iNext:
			fr.regs[in.dst] = e.next(e.get(fr, &in.a))
		case iAssert:
			fr.regs[in.dst] = e.typeAssert(e.get(fr, &in.a), in)
		case iExtract:
			fr.regs[in.dst] = e.get(fr, &in.a).P.([]Val)[in.n]
		case iRunDefers:
			if len(fr.defers) > 0 {
				e.nextDefer(g, fr)
				continue
			}
		case iPanic:
			v := e.get(fr, &in.a)
			if v.P == nil {
				v = e.errVal("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(goPanic{v})
		case iGo:
			e.goStmt(fr, in)
		case iDefer:
			d := deferred{in: in, bi: in.bi}
			args := make([]Val, len(in.args))
			for i := range args {
				args[i] = e.get(fr, &in.args[i])
			}
			if in.bi == "" {
				fn, bind, args2 := e.callee(fr, in, args)
				d.fn = Val{P: &Closure{fn: fn, bind: bind}}
				if fn == nil {
					d.fn = e.get(fr, &in.a)
				}
				args = args2
			}
			d.args = args
			fr.defers = append(fr.defers, d)
		case iSend:
			if !e.send(g, e.get(fr, &in.a), e.get(fr, &in.b)) {
				continue
			}
		case iRecv:
			v, ok, ready := e.recv(e.get(fr, &in.a), in.proto)
			if !ready {
				continue
			}
			if in.comma {
				fr.regs[in.dst] = Val{P: []Val{v, boolVal(ok)}}
			} else {
				fr.regs[in.dst] = v
			}
		case iSliceToArray:
			s := e.get(fr, &in.a).slice()
			if len(s) < int(in.n) {
				e.rtPanic("cannot convert slice to array pointer")
			}
			fr.regs[in.dst] = Val{P: &Val{P: &Agg{s[:in.n:in.n]}}}
		case iSelect:
			if !e.selectOp(g, fr, in) {
				continue
			}
		default:
			panic(unsupported("opcode %d", in.op))
		}
		fr.pc++
	}
}

func newCell(proto Val) *Val {
	c := new(Val)
	if proto.P != nil {
		*c = clone(proto)
	}
	return c
}

func (e *Engine) follow(fr *Frame, ed *edge) {
	switch len(ed.moves) {
	case 0:
	case 1:
		fr.regs[ed.moves[0].dst] = e.get(fr, &ed.moves[0].src)
	default:
		var buf [8]Val
		tmp := buf[:0]
		for i := range ed.moves {
			tmp = append(tmp, e.get(fr, &ed.moves[i].src))
		}
		for i := range ed.moves {
			fr.regs[ed.moves[i].dst] = tmp[i]
		}
	}
	fr.pc = ed.pc
}

// callee resolves the function of a call instruction.
func (e *Engine) callee(fr *Frame, in *instr, args []Val) (*Fn, []Val, []Val) {
	if in.fn != nil {
		return in.fn, nil, args
	}
	v := e.get(fr, &in.a)
	if in.method != nil {
		i, _ := v.P.(*Iface)
		if i == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := e.P.method(i.T, in.method)
		n := make([]Val, 0, len(args)+1)
		n = append(append(n, i.V), args...)
		return fn, nil, n
	}
	c, _ := v.P.(*Closure)
	if c == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c.fn, c.bind, args
}

func (e *Engine) call(g *Goro, fr *Frame, in *instr) {
	var buf [8]Val
	args := buf[:0]
	for i := range in.args {
		args = append(args, e.get(fr, &in.args[i]))
	}
	if in.bi != "" {
		v := e.builtin(fr, in, args)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return
	}
	fn, bind, args := e.callee(fr, in, args)
	if fn == nil {
		c := e.get(fr, &in.a).P.(*Closure)
		v := c.native(e, args)
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return
	}
	if fn.intr != nil {
		e.curFrame = fr
		v := fn.intr(e, fn, args)
		if r, ok := v.P.(tailCall); ok {
			// go on in an interpreted function instead
			e.push(g, r.fn, r.args, r.bind)
			return
		}
		if _, ok := v.P.(retry); ok {
			return
		}
		if in.dst >= 0 {
			fr.regs[in.dst] = v
		}
		fr.pc++
		return
	}
	e.push(g, fn, args, bind)
}

// tailCall is returned by an intrinsic that leaves the work to a function.
type tailCall struct {
	fn   *Fn
	args []Val
	bind []Val
}

func (e *Engine) goStmt(fr *Frame, in *instr) {
	args := make([]Val, len(in.args))
	for i := range args {
		args[i] = e.get(fr, &in.args[i])
	}
	if in.bi != "" {
		panic(unsupported("go builtin"))
	}
	fn, bind, args := e.callee(fr, in, args)
	ng := &Goro{id: len(e.gs)}
	e.gs = append(e.gs, ng)
	f := e.push(ng, fn, args, bind)
	f.isRoot = true
}

// ------------------------------------------------------------------ channels

func (e *Engine) send(g *Goro, ch, v Val) bool {
	c, _ := ch.P.(*Chan)
	if c == nil {
		e.block()
		return false
	}
	if g.sendTok != nil {
		if *g.sendTok {
			g.sendTok = nil
			return true
		}
		e.block()
		return false
	}
	if c.closed {
		panic(goPanic{e.errVal("send on closed channel")})
	}
	if c.cap > 0 {
		if len(c.q) >= c.cap {
			e.block()
			return false
		}
		e.setQ(c, append(append([]*chanItem(nil), c.q...), &chanItem{v: v}))
		e.wake()
		return true
	}
	tok := new(bool)
	e.setQ(c, append(append([]*chanItem(nil), c.q...), &chanItem{v: v, taken: tok}))
	g.sendTok = tok
	e.wake()
	e.block()
	return false
}

func (e *Engine) setQ(c *Chan, q []*chanItem) {
	old := c.q
	c.q = q
	e.onUndo(func() { c.q = old })
}

func (e *Engine) recv(ch Val, zeroV Val) (Val, bool, bool) {
	c, _ := ch.P.(*Chan)
	if c == nil {
		e.block()
		return Val{}, false, false
	}
	if len(c.q) > 0 {
		it := c.q[0]
		e.setQ(c, c.q[1:])
		if it.taken != nil {
			*it.taken = true
			t := it.taken
			e.onUndo(func() { *t = false })
		}
		e.wake()
		return it.v, true, true
	}
	if c.closed {
		return clone(zeroV), false, true
	}
	e.block()
	return Val{}, false, false
}

func (e *Engine) selectOp(g *Goro, fr *Frame, in *instr) bool {
	tup := in.t.(*types.Tuple)
	finish := func(idx int, v Val, ok bool) {
		r := make([]Val, tup.Len())
		r[0] = num64(int64(idx))
		r[1] = boolVal(ok)
		k := 2
		for i, s := range in.states {
			if s.send {
				continue
			}
			r[k] = zero(tup.At(k).Type())
			if i == idx {
				r[k] = v
			}
			k++
		}
		fr.regs[in.dst] = Val{P: r}
	}
	for i := range in.states {
		s := &in.states[i]
		c, _ := e.get(fr, &s.ch).P.(*Chan)
		if c == nil {
			continue
		}
		if s.send {
			if c.closed {
				panic(goPanic{e.errVal("send on closed channel")})
			}
			if c.cap > 0 && len(c.q) < c.cap {
				e.send(g, Val{P: c}, e.get(fr, &s.v))
				finish(i, Val{}, false)
				return true
			}
			if c.cap == 0 {
				panic(unsupported("select with send on an unbuffered channel"))
			}
		} else if len(c.q) > 0 || c.closed {
			v, ok, _ := e.recv(Val{P: c}, Val{})
			finish(i, v, ok)
			return true
		}
	}
	if !in.comma {
		finish(-1, Val{}, false)
		return true
	}
	e.block()
	return false
}

// ------------------------------------------------------------------- indices

func (e *Engine) concInt(v Val) int64 {
	if t := v.term(); t != nil {
		return e.concretizeAny(t)
	}
	return int64(v.N)
}

// concretizeAny forks over every feasible value of a term.
func (e *Engine) concretizeAny(t *Term) int64 {
	if t.v1 != nil {
		sg := e.tt.segs(t)
		if sg != nil {
			vals := map[int64]bool{}
			var list []int64
			d := e.doms[t.v1.idx]
			for _, s := range sg {
				x := e.tt.sets.and(d, e.tt.sets.rng(s.lo, s.hi))
				if x.empty() {
					continue
				}
				if !s.lin {
					if !vals[s.c] {
						vals[s.c] = true
						list = append(list, s.c)
					}
					continue
				}
				if x.n > 4096 {
					panic(unsupported("concretizing a wide value"))
				}
				for _, r := range x.r {
					for y := r.lo; y <= r.hi; y++ {
						if !vals[y+s.c] {
							vals[y+s.c] = true
							list = append(list, y+s.c)
						}
					}
				}
			}
			gs := make([]*Term, len(list))
			for i, x := range list {
				gs[i] = e.tt.cmp(OEq, t, e.tt.con(uint64(x), t.W))
			}
			return list[e.choose(gs...)]
		}
	}
	panic(unsupported("concretizing %v in%s", t, e.where()))
}

// concretize forks over lo..hi, which must contain the value.
func (e *Engine) concretize(t *Term, lo, hi int64) int64 {
	if hi-lo > 1024 {
		return e.concretizeAny(t)
	}
	var gs []*Term
	for x := lo; x <= hi; x++ {
		gs = append(gs, e.tt.cmp(OEq, t, e.tt.con(uint64(x), t.W)))
	}
	return lo + int64(e.choose(gs...))
}

// bounds checks an index against a length, forking if necessary.
func (e *Engine) bounds(i Val, k kind, n int) {
	if t := i.term(); t != nil {
		t = e.tt.ext(t, 64, k.signed)
		ok := e.tt.cmp(OUlt, t, e.tt.con(uint64(n), 64))
		if !e.branch(ok) {
			e.rtPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
		}
		return
	}
	if int64(i.N) < 0 || i.N >= uint64(n) {
		e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.N), n))
	}
}

func (e *Engine) elems(v Val, slice bool) []Val {
	if slice {
		return v.slice()
	}
	switch c := v.P.(type) {
	case *Val:
		if c == nil {
			break
		}
		if a, ok := c.P.(*Agg); ok {
			return a.E
		}
	case *Agg:
		return c.E
	case nil:
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported("elements of %T", v.P))
}

func (e *Engine) indexAddr(fr *Frame, in *instr) Val {
	x := e.get(fr, &in.a)
	i := e.get(fr, &in.b)
	s := e.elems(x, in.heap)
	e.bounds(i, in.k2, len(s))
	if t := i.term(); t != nil {
		t = e.tt.ext(t, 64, in.k2.signed)
		if in.k.k == kInt || in.k.k == kBool {
			return Val{P: &SymPtr{s, t}}
		}
		return Val{P: &s[e.concretize(t, 0, int64(len(s))-1)]}
	}
	return Val{P: &s[i.N]}
}

func (e *Engine) index(fr *Frame, in *instr) Val {
	x := e.get(fr, &in.a)
	i := e.get(fr, &in.b)
	if in.onStr {
		n := strLen(x)
		e.bounds(i, in.k2, n)
		if t := i.term(); t != nil {
			return e.symLoad(strBytes(x), e.tt.ext(t, 64, in.k2.signed), in.k)
		}
		switch s := x.P.(type) {
		case string:
			return num(uint64(s[i.N]))
		case *SStr:
			return s.B[i.N]
		}
	}
	s := e.elems(x, false)
	e.bounds(i, in.k2, len(s))
	if t := i.term(); t != nil {
		return e.symLoad(s, e.tt.ext(t, 64, in.k2.signed), in.k)
	}
	return s[i.N]
}

// symLoad reads an element at a symbolic index within bounds.
func (e *Engine) symLoad(arr []Val, idx *Term, k kind) Val {
	conc := k.k == kInt || k.k == kBool
	for i := range arr {
		if arr[i].P != nil {
			conc = false
		}
	}
	if !conc || idx.many {
		i := e.concretize(idx, 0, int64(len(arr))-1)
		return clone(arr[i])
	}
	name := fmt.Sprintf("arr%p_%d", &arr[0], len(arr))
	_ = name
	var segs []Seg
	h := uint64(14695981039346656037)
	for i := range arr {
		v := int64(arr[i].N)
		h = (h ^ arr[i].N) * 1099511628211
		n := len(segs)
		x := int64(i)
		if n > 0 {
			s := &segs[n-1]
			if !s.lin && s.c == v {
				s.hi = x
				continue
			}
			if s.lin && s.c == v-x {
				s.hi = x
				continue
			}
			if s.lo == s.hi && !s.lin && v == s.c+1 {
				s.lin = true
				s.c = s.c - s.lo
				s.hi = x
				continue
			}
		}
		segs = append(segs, Seg{x, x, false, v})
	}
	key := fmt.Sprintf("a%x_%d", h, len(arr))
	tb := e.tabCache[key]
	if tb == nil {
		tb = &Tab{name: key, segs: segs}
		e.tabCache[key] = tb
	}
	t := e.tt.tab(tb, idx)
	if k.k == kBool {
		return fromTerm(e.tt.inSet(t, e.tt.sets.rng(1, 1)), k)
	}
	return fromTerm(e.tt.ext(t, k.w, false), k)
}

func (e *Engine) sliceOp(fr *Frame, in *instr) Val {
	x := e.get(fr, &in.a)
	var ix [3]int64
	for j := 0; j < 3; j++ {
		if in.n&(1<<j) != 0 {
			ix[j] = e.concInt(e.get(fr, &in.args[j]))
		}
	}
	lo := ix[0]
	if in.k.k == kString {
		n := int64(strLen(x))
		hi := n
		if in.n&2 != 0 {
			hi = ix[1]
		}
		if lo < 0 || hi < lo || hi > n {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return strSlice(x, int(lo), int(hi))
	}
	var s []Val
	if in.heap {
		if x.P == nil {
			if lo != 0 || ix[1] != 0 || ix[2] != 0 {
				e.rtPanic("slice bounds out of range on nil slice")
			}
			return x
		}
		s = x.slice()
	} else {
		s = e.elems(x, false)
	}
	hi, mx := int64(len(s)), int64(cap(s))
	if in.n&2 != 0 {
		hi = ix[1]
	}
	if in.n&4 != 0 {
		mx = ix[2]
	}
	if lo < 0 || hi < lo || mx < hi || mx > int64(cap(s)) {
		e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
	}
	return Val{P: &Slice{s[lo:hi:mx]}}
}

// ---------------------------------------------------------------- iterators

func (e *Engine) next(itv Val) Val {
	cell := itv.P.(*Val)
	switch it := cell.P.(type) {
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Val{P: []Val{{}, {}, {}}}
		}
		r, w := e.decodeRune(it.s, it.pos)
		e.set(cell, Val{P: &strIter{it.s, it.pos + w}})
		return Val{P: []Val{num(1), num64(int64(it.pos)), r}}
	case *mapIter:
		p := it.pos
		for p < len(it.keys) && it.keys[p].del {
			p++
		}
		if p >= len(it.keys) {
			return Val{P: []Val{{}, {}, {}}}
		}
		en := it.keys[p]
		e.set(cell, Val{P: &mapIter{it.m, it.keys, p + 1}})
		return Val{P: []Val{num(1), en.k, clone(en.v)}}
	}
	panic("next")
}

// orderKeys arranges the entries of a map for iteration.
func (e *Engine) orderKeys(m *Map, k []*mapEnt) {
	switch e.mapMode {
	case 1:
		for i, j := 0, len(k)-1; i < j; i, j = i+1, j-1 {
			k[i], k[j] = k[j], k[i]
		}
	case 2:
		// every order: pick the next entry again and again
		for i := 0; i+1 < len(k) && len(k) <= 6; i++ {
			n := len(k) - i
			t := e.newInput("maporder", 32, 0, int64(n-1), e.tt.sets.rng(0, int64(n-1)))
			j := i + int(e.concretize(t, 0, int64(n-1)))
			k[i], k[j] = k[j], k[i]
		}
	case 5:
		// one order for each map: any if it is small, else one of three
		perm := e.mapPerm[m]
		if len(perm) != len(k) {
			perm = make([]int, len(k))
			for i := range perm {
				perm[i] = i
			}
			if len(k) <= 4 {
				for i := 0; i+1 < len(k); i++ {
					n := len(k) - i
					t := e.newInput("maporder", 32, 0, int64(n-1), e.tt.sets.rng(0, int64(n-1)))
					j := i + int(e.concretize(t, 0, int64(n-1)))
					perm[i], perm[j] = perm[j], perm[i]
				}
			} else {
				t := e.newInput("maporder", 32, 0, 2, e.tt.sets.rng(0, 2))
				switch e.concretize(t, 0, 2) {
				case 1:
					for i := range perm {
						perm[i] = len(k) - 1 - i
					}
				case 2:
					for i := range perm {
						perm[i] = (i + len(k)/2) % len(k)
					}
				}
			}
			old := e.mapPerm[m]
			if e.mapPerm == nil {
				e.mapPerm = map[*Map][]int{}
			}
			e.mapPerm[m] = perm
			e.onUndo(func() { e.mapPerm[m] = old })
		}
		x := append([]*mapEnt(nil), k...)
		for i, j := range perm {
			k[i] = x[j]
		}
	case 4:
		// from the middle outwards
		x := append([]*mapEnt(nil), k...)
		n := len(x)
		for i := range k {
			j := n/2 + (i+1)/2
			if i%2 == 1 {
				j = n/2 - (i+1)/2
			}
			k[i] = x[(j+n)%n]
		}
	case 3:
		// every rotation
		if n := len(k); n > 1 {
			t := e.newInput("maporder", 32, 0, int64(n-1), e.tt.sets.rng(0, int64(n-1)))
			j := int(e.concretize(t, 0, int64(n-1)))
			x := append(append([]*mapEnt(nil), k[j:]...), k[:j]...)
			copy(k, x)
		}
	}
}

// ---------------------------------------------------------------- interfaces

func (e *Engine) typeAssert(v Val, in *instr) Val {
	i, _ := v.P.(*Iface)
	ok := false
	var r Val
	if i != nil {
		if in.heap {
			if e.P.implements(i.T, in.t) {
				ok, r = true, v
			}
		} else if i.T == in.t {
			ok, r = true, i.V
		}
	}
	if in.comma {
		if !ok {
			r = clone(in.proto)
		}
		return Val{P: []Val{r, boolVal(ok)}}
	}
	if !ok {
		have := "nil"
		if i != nil {
			have = i.T.String()
		}
		panic(goPanic{e.errVal(fmt.Sprintf("interface conversion: interface is %s, not %v", have, in.t))})
	}
	return r
}

type implKey struct{ t, i types.Type }

func (p *Program) implements(t, it types.Type) bool {
	k := implKey{t, it}
	if x, ok := p.sh.methC.Load(k); ok {
		return x.(bool)
	}
	r := types.Implements(t, it.Underlying().(*types.Interface))
	p.sh.methC.Store(k, r)
	return r
}

// --------------------------------------------------------------- operations

func (e *Engine) binop(fr *Frame, in *instr) Val {
	x, y := e.get(fr, &in.a), e.get(fr, &in.b)
	switch in.tok {
	case token.EQL:
		return e.eqOp(x, y, in)
	case token.NEQ:
		v := e.eqOp(x, y, in)
		if t := v.term(); t != nil {
			return fromTerm(e.tt.not(t), kind{k: kBool})
		}
		return num(v.N ^ 1)
	}
	switch in.k.k {
	case kInt:
		return e.intOp(in.tok, x, y, in.k, in.k2)
	case kString:
		switch in.tok {
		case token.ADD:
			return strCat(x, y)
		case token.LSS:
			return e.strLess(x, y, false)
		case token.LEQ:
			return e.strLess(x, y, true)
		case token.GTR:
			return e.strLess(y, x, false)
		case token.GEQ:
			return e.strLess(y, x, true)
		}
	case kFloat:
		a, b := fl(x), fl(y)
		var r float64
		switch in.tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return boolVal(a < b)
		case token.LEQ:
			return boolVal(a <= b)
		case token.GTR:
			return boolVal(a > b)
		case token.GEQ:
			return boolVal(a >= b)
		}
		if in.k.w == 32 {
			r = float64(float32(r))
		}
		return flv(r)
	case kBool:
		a, b := e.termOf(x, in.k), e.termOf(y, in.k)
		switch in.tok {
		case token.AND, token.LAND:
			return fromTerm(e.tt.and(a, b), in.k)
		case token.OR, token.LOR:
			return fromTerm(e.tt.or(a, b), in.k)
		}
	}
	panic(unsupported("operator %v on kind %v in %s", in.tok, in.k, fr.fn.name))
}

func (e *Engine) intOp(tok token.Token, x, y Val, k, k2 kind) Val {
	xs, ys := x.term(), y.term()
	if xs == nil && ys == nil {
		a, b := x.N, y.N
		switch tok {
		case token.ADD:
			return num(k.norm(a + b))
		case token.SUB:
			return num(k.norm(a - b))
		case token.MUL:
			return num(k.norm(a * b))
		case token.QUO, token.REM:
			if b == 0 {
				e.rtPanic("integer divide by zero")
			}
			if k.signed {
				p, q := int64(a), int64(b)
				if q == -1 {
					if tok == token.QUO {
						return num(k.norm(-a))
					}
					return Val{}
				}
				if tok == token.QUO {
					return num(k.norm(uint64(p / q)))
				}
				return num(k.norm(uint64(p % q)))
			}
			if tok == token.QUO {
				return num(a / b)
			}
			return num(a % b)
		case token.AND:
			return num(a & b)
		case token.OR:
			return num(a | b)
		case token.XOR:
			return num(k.norm(a ^ b))
		case token.AND_NOT:
			return num(k.norm(a &^ b))
		case token.SHL:
			if k2.signed && int64(b) < 0 {
				e.rtPanic("negative shift amount")
			}
			if b >= 64 {
				return Val{}
			}
			return num(k.norm(a << b))
		case token.SHR:
			if k2.signed && int64(b) < 0 {
				e.rtPanic("negative shift amount")
			}
			if k.signed {
				if b > 63 {
					b = 63
				}
				return num(k.norm(uint64(int64(a) >> b)))
			}
			if b >= 64 {
				return Val{}
			}
			return num(a >> b)
		}
		if k.signed {
			p, q := int64(a), int64(b)
			switch tok {
			case token.LSS:
				return boolVal(p < q)
			case token.LEQ:
				return boolVal(p <= q)
			case token.GTR:
				return boolVal(p > q)
			case token.GEQ:
				return boolVal(p >= q)
			}
		}
		switch tok {
		case token.LSS:
			return boolVal(a < b)
		case token.LEQ:
			return boolVal(a <= b)
		case token.GTR:
			return boolVal(a > b)
		case token.GEQ:
			return boolVal(a >= b)
		}
		panic(unsupported("int op %v", tok))
	}
	if tok == token.SHL || tok == token.SHR {
		if ys != nil {
			y = num64(e.concretizeAny(ys))
			return e.intOp(tok, x, y, k, k2)
		}
		n := y.N
		if n >= uint64(k.w) {
			if tok == token.SHL || !k.signed {
				return Val{}
			}
			n = uint64(k.w) - 1
		}
		op := OShl
		if tok == token.SHR {
			op = OLshr
			if k.signed {
				op = OAshr
			}
		}
		return fromTerm(e.tt.bin(op, xs, e.tt.con(n, k.w)), k)
	}
	a, b := e.termOf(x, k), e.termOf(y, k)
	kb := kind{k: kBool}
	lt, leq := OUlt, OUle
	if k.signed {
		lt, leq = OSlt, OSle
	}
	switch tok {
	case token.ADD:
		return fromTerm(e.tt.bin(OAdd, a, b), k)
	case token.SUB:
		return fromTerm(e.tt.bin(OSub, a, b), k)
	case token.MUL:
		return fromTerm(e.tt.bin(OMul, a, b), k)
	case token.QUO, token.REM:
		if b.Op != OConst {
			if !e.branch(e.tt.not(e.tt.cmp(OEq, b, e.tt.con(0, k.w)))) {
				e.rtPanic("integer divide by zero")
			}
		} else if b.C == 0 {
			e.rtPanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case tok == token.QUO && k.signed:
			op = OSDiv
		case tok == token.REM && k.signed:
			op = OSRem
		case tok == token.REM:
			op = OURem
		}
		return fromTerm(e.tt.bin(op, a, b), k)
	case token.AND:
		return fromTerm(e.tt.bin(OAnd, a, b), k)
	case token.OR:
		return fromTerm(e.tt.bin(OOr, a, b), k)
	case token.XOR:
		return fromTerm(e.tt.bin(OXor, a, b), k)
	case token.AND_NOT:
		return fromTerm(e.tt.bin(OAnd, a, e.tt.bin(OXor, b, e.tt.con(^uint64(0), k.w))), k)
	case token.LSS:
		return fromTerm(e.tt.cmp(lt, a, b), kb)
	case token.LEQ:
		return fromTerm(e.tt.cmp(leq, a, b), kb)
	case token.GTR:
		return fromTerm(e.tt.cmp(lt, b, a), kb)
	case token.GEQ:
		return fromTerm(e.tt.cmp(leq, b, a), kb)
	}
	panic(unsupported("symbolic int op %v", tok))
}

func (e *Engine) eqOp(x, y Val, in *instr) Val {
	if in.t2 != nil {
		if in.k.k == kIface {
			y = Val{P: &Iface{in.t2, y}}
		} else {
			x = Val{P: &Iface{in.t2, x}}
			return fromTerm(e.equal(x, y, kind{k: kIface}, nil), kind{k: kBool})
		}
	}
	return fromTerm(e.equal(x, y, in.k, in.t), kind{k: kBool})
}

// equal is x == y as a condition.
func (e *Engine) equal(x, y Val, k kind, t types.Type) *Term {
	switch k.k {
	case kInt:
		if x.P == nil && y.P == nil {
			return e.tt.bool(x.N == y.N)
		}
		return e.tt.cmp(OEq, e.termOf(x, k), e.termOf(y, k))
	case kBool:
		if x.P == nil && y.P == nil {
			return e.tt.bool(x.N == y.N)
		}
		a, b := e.termOf(x, k), e.termOf(y, k)
		return e.tt.or(e.tt.and(a, b), e.tt.and(e.tt.not(a), e.tt.not(b)))
	case kFloat:
		return e.tt.bool(fl(x) == fl(y))
	case kString:
		return e.strEq(x, y)
	case kAgg:
		a, b := x.P.(*Agg), y.P.(*Agg)
		r := e.tt.tru
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range a.E {
				ft := u.Field(i).Type()
				r = e.tt.and(r, e.equal(a.E[i], b.E[i], kindOf(ft), ft))
			}
		case *types.Array:
			kk := kindOf(u.Elem())
			for i := range a.E {
				r = e.tt.and(r, e.equal(a.E[i], b.E[i], kk, u.Elem()))
			}
		}
		return r
	case kIface:
		a, _ := x.P.(*Iface)
		b, _ := y.P.(*Iface)
		if a == nil || b == nil {
			return e.tt.bool(a == nil && b == nil)
		}
		if a.T != b.T {
			return e.tt.fls
		}
		if !types.Comparable(a.T) {
			panic(goPanic{e.errVal("runtime error: comparing uncomparable type " + a.T.String())})
		}
		return e.equal(a.V, b.V, kindOf(a.T), a.T)
	}
	// pointers, channels, maps, functions and slices against nil
	if x.P == nil || y.P == nil {
		return e.tt.bool(isNil(x) && isNil(y))
	}
	if p, ok := x.P.(*SymPtr); ok {
		_ = p
		panic(unsupported("comparison of symbolic addresses"))
	}
	return e.tt.bool(x.P == y.P)
}

func isNil(v Val) bool {
	switch p := v.P.(type) {
	case nil:
		return v.N == 0
	case *Val:
		return p == nil
	case *Slice:
		return p == nil
	case *Map:
		return p == nil
	case *Closure:
		return p == nil
	case *Chan:
		return p == nil
	}
	return false
}

func (e *Engine) strEq(x, y Val) *Term {
	a, ok := x.str()
	b, ok2 := y.str()
	if ok && ok2 {
		return e.tt.bool(a == b)
	}
	if strLen(x) != strLen(y) {
		return e.tt.fls
	}
	bx, by := strBytes(x), strBytes(y)
	r := e.tt.tru
	k := kind{kInt, 8, false}
	var cs []*Term
	for i := 0; i < len(bx); i++ {
		var c *Term
		if r, n := wholeRune(bx[i:]); r != nil {
			if q, m := wholeRune(by[i:]); q != nil && m == n {
				c = e.tt.cmp(OEq, r, q)
				i += n - 1
			}
		}
		if c == nil {
			c = e.equal(bx[i], by[i], k, nil)
		}
		if c == e.tt.fls {
			return c
		}
		if c != e.tt.tru {
			cs = append(cs, c)
		}
	}
	r = e.tt.and(cs...)
	return r
}

// wholeRune: the bytes start with the whole encoding of a symbolic rune.
func wholeRune(b []Val) (*Term, int) {
	t := b[0].term()
	if t == nil || t.Op != OUTF8 || t.C&7 != 0 {
		return nil, 0
	}
	k := int(t.C >> 3)
	if len(b) < k {
		return nil, 0
	}
	for i := 1; i < k; i++ {
		u := b[i].term()
		if u == nil || u.Op != OUTF8 || u.A[0] != t.A[0] || u.C != uint64(k<<3|i) {
			return nil, 0
		}
	}
	return t.A[0], k
}

func (e *Engine) strLess(x, y Val, orEq bool) Val {
	a, ok := x.str()
	b, ok2 := y.str()
	if ok && ok2 {
		if orEq {
			return boolVal(a <= b)
		}
		return boolVal(a < b)
	}
	bx, by := strBytes(x), strBytes(y)
	k := kind{kInt, 8, false}
	n := min(len(bx), len(by))
	r := e.tt.bool(len(bx) < len(by) || (orEq && len(bx) == len(by)))
	for i := n - 1; i >= 0; i-- {
		p, q := e.termOf(bx[i], k), e.termOf(by[i], k)
		r = e.tt.or(e.tt.cmp(OUlt, p, q), e.tt.and(e.tt.cmp(OEq, p, q), r))
	}
	return fromTerm(r, kind{k: kBool})
}

// ------------------------------------------------------------- conversions

func (e *Engine) convert(v Val, in *instr) Val {
	from, to := in.k, in.k2
	switch {
	case from.k == kInt && to.k == kInt:
		if t := v.term(); t != nil {
			return fromTerm(e.tt.ext(t, to.w, from.signed), to)
		}
		return num(to.norm(v.N))
	case from.k == kInt && to.k == kFloat:
		if v.isSym() {
			v = num64(e.concInt(v))
		}
		var f float64
		if from.signed {
			f = float64(int64(v.N))
		} else {
			f = float64(v.N)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return flv(f)
	case from.k == kFloat && to.k == kInt:
		f := fl(v)
		if to.signed || f < 9.2e18 {
			return num(to.norm(uint64(int64(f))))
		}
		return num(to.norm(uint64(f)))
	case from.k == kFloat && to.k == kFloat:
		if to.w == 32 {
			return flv(float64(float32(fl(v))))
		}
		return v
	case from.k == kInt && to.k == kString:
		return e.runeToStr(v, from)
	case from.k == kString && to.k == kString:
		return v
	case from.k == kString:
		s, ok := in.t2.(*types.Slice)
		if !ok {
			break
		}
		if kindOf(s.Elem()).w == 8 {
			b := strBytes(v)
			if v.P != nil {
				if _, isSym := v.P.(*SStr); isSym {
					b = append([]Val(nil), b...)
				}
			}
			return sliceVal(b)
		}
		var out []Val
		for i := 0; i < strLen(v); {
			r, w := e.decodeRune(v, i)
			out = append(out, r)
			i += w
		}
		return sliceVal(out)
	case to.k == kString:
		s, ok := in.t.(*types.Slice)
		if !ok {
			break
		}
		k := kindOf(s.Elem())
		if k.w == 8 {
			x := v.slice()
			return mkStr(append([]Val(nil), x...))
		}
		var out []Val
		for _, r := range v.slice() {
			out = append(out, strBytes(e.runeToStr(r, k))...)
		}
		return mkStr(out)
	case from.k == kOther && to.k == kOther:
		return v
	case from.k == kInt && to.k == kOther || from.k == kOther && to.k == kInt:
		return v // unsafe.Pointer and uintptr
	}
	panic(unsupported("conversion %v to %v", in.t, in.t2))
}

const maxRune = 0x10ffff

// runeToStr encodes a rune, forking on the length of the encoding.
func (e *Engine) runeToStr(v Val, k kind) Val {
	t := v.term()
	if t == nil {
		r := int64(v.N)
		if !k.signed && v.N > math.MaxInt32 {
			r = -1
		}
		if r < 0 || r > maxRune {
			r = utf8.RuneError
		}
		return strVal(string(rune(r)))
	}
	t = e.tt.ext(t, 32, k.signed)
	n := e.choose(e.runeLenGuards(t)...)
	if n == 4 {
		return strVal("\uFFFD")
	}
	b := make([]Val, n+1)
	for i := range b {
		b[i] = fromTerm(e.tt.utf8(t, n+1, i), kind{kInt, 8, false})
	}
	return mkStr(b)
}

func (e *Engine) namedSet(name string, f func() *ISet) *ISet {
	s := e.setCache[name]
	if s == nil {
		s = f()
		e.setCache[name] = s
	}
	return s
}

// runeLenGuards: encoded in 1, 2, 3, 4 bytes, or not a valid rune.
func (e *Engine) runeLenGuards(t *Term) []*Term {
	st := e.tt.sets
	s1 := e.namedSet("u1", func() *ISet { return st.rng(0, 0x7f) })
	s2 := e.namedSet("u2", func() *ISet { return st.rng(0x80, 0x7ff) })
	s3 := e.namedSet("u3", func() *ISet { return st.mk([]rg{{0x800, 0xd7ff}, {0xe000, 0xffff}}) })
	s4 := e.namedSet("u4", func() *ISet { return st.rng(0x10000, maxRune) })
	bad := e.namedSet("ubad", func() *ISet { return st.mk([]rg{{math.MinInt32, -1}, {0xd800, 0xdfff}, {maxRune + 1, math.MaxInt32}}) })
	return []*Term{e.tt.inSet(t, s1), e.tt.inSet(t, s2), e.tt.inSet(t, s3), e.tt.inSet(t, s4), e.tt.inSet(t, bad)}
}

var k32 = kind{kInt, 32, true}
var k8 = kind{kInt, 8, false}
var kI = kind{kInt, 64, true}
var kB = kind{k: kBool}

// decodeRune decodes the rune at a position of a string.
func (e *Engine) decodeRune(v Val, pos int) (Val, int) {
	switch s := v.P.(type) {
	case string:
		r, w := utf8.DecodeRuneInString(s[pos:])
		return num64(int64(r)), w
	case *SStr:
		return e.decodeBytes(s.B[pos:])
	}
	return num64(utf8.RuneError), 0
}

// encoded reports the rune whose encoding starts here, if it is a whole one.
func encoded(b []Val) (*Term, int) {
	t := b[0].term()
	if t == nil || t.Op != OUTF8 || t.C&7 != 0 {
		return nil, 0
	}
	n := int(t.C >> 3)
	if n > len(b) {
		return nil, 0
	}
	for i := 1; i < n; i++ {
		u := b[i].term()
		if u == nil || u.Op != OUTF8 || u.A[0] != t.A[0] || u.C != uint64(n<<3|i) {
			return nil, 0
		}
	}
	return t.A[0], n
}

func (e *Engine) decodeBytes(b []Val) (Val, int) {
	if len(b) == 0 {
		return num64(utf8.RuneError), 0
	}
	if b[0].P == nil {
		if b[0].N < 0x80 {
			return b[0], 1
		}
	} else if r, n := encoded(b); r != nil {
		return fromTerm(r, k32), n
	}
	bad := func() (Val, int) { return num64(utf8.RuneError), 1 }
	// general case, byte by byte
	in := func(x Val, lo, hi int64) *Term {
		t := e.termOf(x, k8)
		return e.tt.inSet(e.tt.ext(t, 32, false), e.tt.sets.rng(lo, hi))
	}
	type cls struct {
		lo, hi   int64
		n        int
		clo, chi int64
	}
	classes := []cls{{0, 0x7f, 1, 0, 0}, {0xc2, 0xdf, 2, 0x80, 0xbf}, {0xe0, 0xe0, 3, 0xa0, 0xbf}, {0xe1, 0xec, 3, 0x80, 0xbf}, {0xed, 0xed, 3, 0x80, 0x9f}, {0xee, 0xef, 3, 0x80, 0xbf}, {0xf0, 0xf0, 4, 0x90, 0xbf}, {0xf1, 0xf3, 4, 0x80, 0xbf}, {0xf4, 0xf4, 4, 0x80, 0x8f}}
	var gs []*Term
	for _, c := range classes {
		gs = append(gs, in(b[0], c.lo, c.hi))
	}
	gs = append(gs, e.tt.not(e.tt.or(gs...)))
	i := e.choose(gs...)
	if i == len(classes) {
		return bad()
	}
	c := classes[i]
	if len(b) < c.n {
		// the continuation bytes present do not matter
		return bad()
	}
	for j := 1; j < c.n; j++ {
		lo, hi := int64(0x80), int64(0xbf)
		if j == 1 {
			lo, hi = c.clo, c.chi
		}
		if !e.branch(in(b[j], lo, hi)) {
			return bad()
		}
	}
	// Only the last byte stays open: a letter is a function of one variable.
	for j := 0; j < c.n-1; j++ {
		if t := b[j].term(); t != nil {
			e.concretizeAny(t)
		}
	}
	x := func(j int, m uint64, sh uint64) *Term {
		t := e.tt.ext(e.termOf(e.simp(b[j]), k8), 32, false)
		t = e.tt.bin(OAnd, t, e.tt.con(m, 32))
		return e.tt.bin(OShl, t, e.tt.con(sh, 32))
	}
	switch c.n {
	case 1:
		return fromTerm(e.tt.ext(e.termOf(b[0], k8), 32, false), k32), 1
	case 2:
		return fromTerm(e.tt.bin(OOr, x(0, 0x1f, 6), x(1, 0x3f, 0)), k32), 2
	case 3:
		return fromTerm(e.tt.bin(OOr, e.tt.bin(OOr, x(0, 0x0f, 12), x(1, 0x3f, 6)), x(2, 0x3f, 0)), k32), 3
	}
	return fromTerm(e.tt.bin(OOr, e.tt.bin(OOr, x(0, 0x07, 18), x(1, 0x3f, 12)), e.tt.bin(OOr, x(2, 0x3f, 6), x(3, 0x3f, 0))), k32), 4
}
