package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type operand struct {
	reg  int32 // >= 0: register
	glob int32 // >= 0: address of a global
	con  Val
}

type move struct {
	dst int32
	src operand
}

type edge struct {
	pc    int32
	moves []move
}

type opc uint8

const (
	iAlloc opc = iota
	iCall
	iBin
	iNot
	iNeg
	iCompl
	iLoad
	iRecv
	iMove
	iConvert
	iMakeIface
	iMakeClosure
	iMakeMap
	iMakeChan
	iMakeSlice
	iSlice
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iRange
	iNext
	iAssert
	iExtract
	iJump
	iIf
	iReturn
	iRunDefers
	iPanic
	iGo
	iDefer
	iSend
	iStore
	iMapUpdate
	iSelect
	iSliceToArray
)

type instr struct {
	op     opc
	tok    token.Token
	comma  bool
	onStr  bool
	heap   bool
	dst    int32
	n      int32
	a, b   operand
	args   []operand
	k, k2  kind
	t, t2  types.Type
	proto  Val
	fn     *Fn
	method *types.Func
	bi     string
	e      [2]edge
	src    ssa.Instruction
	states []selState
}

type selState struct {
	send bool
	ch   operand
	v    operand
}

// Fn is a compiled function.
type Fn struct {
	id      int32
	f       *ssa.Function
	name    string
	code    []instr
	nregs   int32
	nparam  int32
	nfree   int32
	recover int32 // pc of the recover block or -1
	intr    intrinsic
	once    sync.Once
	bad     string
	resK    *types.Tuple
	steps   int
	target  bool // function of the code under test
}

type intrinsic func(e *Engine, fn *Fn, args []Val) Val

// compiler state shared by all engines
type shared struct {
	mu     sync.RWMutex
	fns    map[*ssa.Function]*Fn
	list   []*Fn
	globs  map[*ssa.Global]int32
	glist  []*ssa.Global
	cmu    sync.Mutex
	canonM typeutil.Map
	canonC sync.Map
	methC  sync.Map
	module string
	errT   types.Type
}

func (p *Program) initShared() {
	p.sh = &shared{fns: map[*ssa.Function]*Fn{}, globs: map[*ssa.Global]int32{}}
	p.sh.canonM.SetHasher(typeutil.MakeHasher())
}

func (p *Program) canon(t types.Type) types.Type {
	t = types.Unalias(t)
	if c, ok := p.sh.canonC.Load(t); ok {
		return c.(types.Type)
	}
	p.sh.cmu.Lock()
	defer p.sh.cmu.Unlock()
	var c types.Type
	if x := p.sh.canonM.At(t); x != nil {
		c = x.(types.Type)
	} else {
		p.sh.canonM.Set(t, t)
		c = t
	}
	p.sh.canonC.Store(t, c)
	return c
}

func (p *Program) fn(f *ssa.Function) *Fn {
	p.sh.mu.RLock()
	x := p.sh.fns[f]
	p.sh.mu.RUnlock()
	if x != nil {
		return x
	}
	p.sh.mu.Lock()
	defer p.sh.mu.Unlock()
	if x = p.sh.fns[f]; x != nil {
		return x
	}
	x = &Fn{id: int32(len(p.sh.list)), f: f, name: f.String(), recover: -1}
	if o := f.Origin(); o != nil && o != f {
		x.intr = intrinsics[o.String()]
	}
	if x.intr == nil {
		x.intr = intrinsics[x.name]
	}
	if x.intr == nil && len(f.Blocks) == 0 && f.Name() == "init" && f.Pkg != nil && f.Signature.Recv() == nil {
		// the initializer of a package that is not executed
		x.intr = func(e *Engine, fn *Fn, args []Val) Val { return Val{} }
	}
	p.sh.fns[f] = x
	p.sh.list = append(p.sh.list, x)
	return x
}

func (p *Program) global(g *ssa.Global) int32 {
	p.sh.mu.Lock()
	defer p.sh.mu.Unlock()
	i, ok := p.sh.globs[g]
	if !ok {
		i = int32(len(p.sh.glist))
		p.sh.globs[g] = i
		p.sh.glist = append(p.sh.glist, g)
	}
	return i
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) method(t types.Type, m *types.Func) *Fn {
	k := methKey{t, m}
	if x, ok := p.sh.methC.Load(k); ok {
		return x.(*Fn)
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("no method %v on %v", m, t))
	}
	x := p.fn(f)
	p.sh.methC.Store(k, x)
	return x
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	k := kindOf(c.Type())
	switch k.k {
	case kBool:
		return boolVal(constant.BoolVal(c.Value))
	case kInt:
		if k.signed {
			return num(k.norm(uint64(c.Int64())))
		}
		return num(k.norm(c.Uint64()))
	case kFloat:
		f := c.Float64()
		if k.w == 32 {
			f = float64(float32(f))
		}
		return flv(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return strVal(constant.StringVal(c.Value))
		}
		return strVal(string(rune(c.Int64())))
	}
	return Val{}
}

func (p *Program) ensure(x *Fn) {
	x.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				x.bad = fmt.Sprint(r)
			}
		}()
		p.compile(x)
	})
	if x.bad != "" {
		panic(unsupported("%s: %s", x.name, x.bad))
	}
}

func (p *Program) compile(x *Fn) {
	f := x.f
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, q := range f.Params {
		regs[q] = n
		n++
	}
	x.nparam = n
	for _, q := range f.FreeVars {
		regs[q] = n
		n++
	}
	x.nfree = int32(len(f.FreeVars))
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	x.nregs = n
	op := func(v ssa.Value) operand {
		if v == nil {
			return operand{reg: -1, glob: -1}
		}
		if r, ok := regs[v]; ok {
			return operand{reg: r, glob: -1}
		}
		switch v := v.(type) {
		case *ssa.Const:
			return operand{reg: -1, glob: -1, con: constVal(v)}
		case *ssa.Global:
			return operand{reg: -1, glob: p.global(v)}
		case *ssa.Function:
			return operand{reg: -1, glob: -1, con: Val{P: &Closure{fn: p.fn(v)}}}
		}
		panic(unsupported("operand %T", v))
	}
	ops := func(vs []ssa.Value) []operand {
		out := make([]operand, len(vs))
		for i, v := range vs {
			out[i] = op(v)
		}
		return out
	}
	starts := make([]int32, len(f.Blocks))
	var code []instr
	type fix struct {
		pc, i int
		from  *ssa.BasicBlock
		to    *ssa.BasicBlock
	}
	var fixes []fix
	for _, b := range f.Blocks {
		starts[b.Index] = int32(len(code))
		for _, in := range b.Instrs {
			i := instr{dst: -1, src: in}
			if v, ok := in.(ssa.Value); ok {
				i.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				i.op = iAlloc
				i.proto = zero(in.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Call:
				i.op = iCall
				p.compileCall(&i, &in.Call, op, ops)
			case *ssa.Go:
				i.op = iGo
				p.compileCall(&i, &in.Call, op, ops)
			case *ssa.Defer:
				i.op = iDefer
				p.compileCall(&i, &in.Call, op, ops)
				if in.DeferStack != nil {
					panic(unsupported("defer in range-over-func"))
				}
			case *ssa.BinOp:
				i.op = iBin
				i.tok = in.Op
				i.a, i.b = op(in.X), op(in.Y)
				i.k, i.k2 = kindOf(in.X.Type()), kindOf(in.Y.Type())
				i.t = in.X.Type()
				if i.k.k == kIface && i.k2.k != kIface {
					// mixed comparison: the concrete side is converted
					i.t2 = p.canon(in.Y.Type())
				} else if i.k2.k == kIface && i.k.k != kIface {
					i.t2 = p.canon(in.X.Type())
				}
			case *ssa.UnOp:
				i.a = op(in.X)
				i.k = kindOf(in.X.Type())
				i.comma = in.CommaOk
				switch in.Op {
				case token.NOT:
					i.op = iNot
				case token.SUB:
					i.op = iNeg
				case token.XOR:
					i.op = iCompl
				case token.MUL:
					i.op = iLoad
					i.k = kindOf(in.Type())
				case token.ARROW:
					i.op = iRecv
					i.proto = zero(in.X.Type().Underlying().(*types.Chan).Elem())
				}
			case *ssa.ChangeType:
				i.op = iMove
				i.a = op(in.X)
			case *ssa.ChangeInterface:
				i.op = iMove
				i.a = op(in.X)
			case *ssa.Convert:
				i.op = iConvert
				i.a = op(in.X)
				i.t, i.t2 = in.X.Type().Underlying(), in.Type().Underlying()
				i.k, i.k2 = kindOf(in.X.Type()), kindOf(in.Type())
			case *ssa.MultiConvert:
				i.op = iConvert
				i.a = op(in.X)
				i.t, i.t2 = in.X.Type().Underlying(), in.Type().Underlying()
				i.k, i.k2 = kindOf(in.X.Type()), kindOf(in.Type())
			case *ssa.SliceToArrayPointer:
				i.op = iSliceToArray
				i.a = op(in.X)
				i.n = int32(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.MakeInterface:
				i.op = iMakeIface
				i.a = op(in.X)
				i.t = p.canon(in.X.Type())
			case *ssa.MakeClosure:
				i.op = iMakeClosure
				i.fn = p.fn(in.Fn.(*ssa.Function))
				i.args = ops(in.Bindings)
			case *ssa.MakeMap:
				i.op = iMakeMap
			case *ssa.MakeChan:
				i.op = iMakeChan
				i.a = op(in.Size)
			case *ssa.MakeSlice:
				i.op = iMakeSlice
				i.a, i.b = op(in.Len), op(in.Cap)
				i.proto = zero(in.Type().Underlying().(*types.Slice).Elem())
			case *ssa.Slice:
				i.op = iSlice
				i.a = op(in.X)
				i.args = []operand{op(in.Low), op(in.High), op(in.Max)}
				for j, v := range []ssa.Value{in.Low, in.High, in.Max} {
					if v != nil {
						i.n |= 1 << j
					}
				}
				i.k = kindOf(in.X.Type())
				if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
					i.heap = true
				}
			case *ssa.FieldAddr:
				i.op = iFieldAddr
				i.a = op(in.X)
				i.n = int32(in.Field)
			case *ssa.Field:
				i.op = iField
				i.a = op(in.X)
				i.n = int32(in.Field)
			case *ssa.IndexAddr:
				i.op = iIndexAddr
				i.a, i.b = op(in.X), op(in.Index)
				i.k2 = kindOf(in.Index.Type())
				i.k = kindOf(in.Type().Underlying().(*types.Pointer).Elem())
				_, i.heap = in.X.Type().Underlying().(*types.Slice)
			case *ssa.Index:
				i.op = iIndex
				i.a, i.b = op(in.X), op(in.Index)
				i.k2 = kindOf(in.Index.Type())
				i.k = kindOf(in.Type())
				i.onStr = kindOf(in.X.Type()).k == kString
			case *ssa.Lookup:
				i.op = iLookup
				i.a, i.b = op(in.X), op(in.Index)
				i.comma = in.CommaOk
				if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
					i.t = mt.Key()
					i.k = kindOf(mt.Key())
					i.k2 = kindOf(mt.Elem())
					i.proto = zero(mt.Elem())
				} else {
					i.op = iIndex
					i.onStr = true
					i.k2 = kindOf(in.Index.Type())
					i.k = kindOf(in.Type())
				}
			case *ssa.Range:
				i.op = iRange
				i.a = op(in.X)
				i.onStr = kindOf(in.X.Type()).k == kString
			case *ssa.Next:
				i.op = iNext
				i.a = op(in.Iter)
				i.onStr = in.IsString
			case *ssa.TypeAssert:
				i.op = iAssert
				i.a = op(in.X)
				i.t = p.canon(in.AssertedType)
				_, i.heap = in.AssertedType.Underlying().(*types.Interface)
				i.comma = in.CommaOk
				i.proto = zero(in.AssertedType)
			case *ssa.Extract:
				i.op = iExtract
				i.a = op(in.Tuple)
				i.n = int32(in.Index)
			case *ssa.Jump:
				i.op = iJump
				fixes = append(fixes, fix{len(code), 0, b, b.Succs[0]})
			case *ssa.If:
				i.op = iIf
				i.a = op(in.Cond)
				fixes = append(fixes, fix{len(code), 0, b, b.Succs[0]}, fix{len(code), 1, b, b.Succs[1]})
			case *ssa.Return:
				i.op = iReturn
				i.args = ops(in.Results)
			case *ssa.RunDefers:
				i.op = iRunDefers
			case *ssa.Panic:
				i.op = iPanic
				i.a = op(in.X)
			case *ssa.Send:
				i.op = iSend
				i.a, i.b = op(in.Chan), op(in.X)
			case *ssa.Store:
				i.op = iStore
				i.a, i.b = op(in.Addr), op(in.Val)
			case *ssa.MapUpdate:
				i.op = iMapUpdate
				i.a, i.b = op(in.Map), op(in.Key)
				i.args = []operand{op(in.Value)}
				mt := in.Map.Type().Underlying().(*types.Map)
				i.t = mt.Key()
				i.k = kindOf(mt.Key())
			case *ssa.Select:
				i.op = iSelect
				i.comma = in.Blocking
				for _, s := range in.States {
					st := selState{send: s.Dir == types.SendOnly, ch: op(s.Chan)}
					if st.send {
						st.v = op(s.Send)
					}
					i.states = append(i.states, st)
				}
				i.t = in.Type()
			default:
				panic(unsupported("instruction %T", in))
			}
			code = append(code, i)
		}
	}
	for _, fx := range fixes {
		e := edge{pc: starts[fx.to.Index]}
		pi := -1
		for k, pr := range fx.to.Preds {
			if pr == fx.from {
				pi = k
				if fx.i == 1 && fx.from.Succs[0] == fx.to {
					// both edges lead to the same block
					for k2 := k + 1; k2 < len(fx.to.Preds); k2++ {
						if fx.to.Preds[k2] == fx.from {
							pi = k2
						}
					}
				}
				break
			}
		}
		for _, in := range fx.to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, move{regs[ph], op(ph.Edges[pi])})
		}
		code[fx.pc].e[fx.i] = e
	}
	x.code = code
	if f.Recover != nil {
		x.recover = starts[f.Recover.Index]
	}
	x.resK = f.Signature.Results()
}

func (p *Program) compileCall(i *instr, c *ssa.CallCommon, op func(ssa.Value) operand, ops func([]ssa.Value) []operand) {
	i.args = ops(c.Args)
	if c.IsInvoke() {
		i.a = op(c.Value)
		i.method = c.Method
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		i.bi = v.Name()
		if len(c.Args) > 0 {
			i.k = kindOf(c.Args[0].Type())
			i.t = c.Args[0].Type().Underlying()
			if len(c.Args) > 1 {
				i.k2 = kindOf(c.Args[1].Type())
				i.t2 = c.Args[1].Type().Underlying()
			}
		}
		if c.Signature() != nil && c.Signature().Results().Len() > 0 && i.bi == "recover" {
			i.k = kind{}
		}
	case *ssa.Function:
		i.fn = p.fn(v)
	default:
		i.a = op(c.Value)
	}
}
