package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

// Val is a Go value during symbolic execution. Integers, booleans and floats
// are in N (extended to 64 bits according to their type); a symbolic integer
// or boolean has a *Term in P.
type Val struct {
	N uint64
	P any
}

// Agg is a struct or an array, held inline by its cell.
type Agg struct{ E []Val }

// SStr is a string with at least one symbolic byte.
type SStr struct{ B []Val }

// Slice is a non-nil slice.
type Slice struct{ S []Val }

// Iface is a non-nil interface value.
type Iface struct {
	T types.Type // canonical
	V Val
}

// Closure is a non-nil function value.
type Closure struct {
	fn     *Fn
	bind   []Val
	native func(e *Engine, args []Val) Val
}

// SymPtr is the address of an element at a symbolic index.
type SymPtr struct {
	arr []Val
	idx *Term
}

// Native is an opaque native object standing behind a pointer.
type Native struct{ obj any }

type mapEnt struct {
	k, v Val
	del  bool
}

// Map keeps its entries in insertion order.
type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	n    int
	sym  bool // some key is symbolic
}

type strIter struct {
	s   Val
	pos int
}
type mapIter struct {
	m    *Map
	keys []*mapEnt
	pos  int
}

type Chan struct {
	cap    int
	q      []*chanItem
	closed bool
}
type chanItem struct {
	v     Val
	taken *bool
}

func num(n uint64) Val  { return Val{N: n} }
func num64(n int64) Val { return Val{N: uint64(n)} }
func boolVal(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}
func strVal(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{P: s}
}
func (v Val) term() *Term {
	t, _ := v.P.(*Term)
	return t
}
func (v Val) isSym() bool {
	_, ok := v.P.(*Term)
	return ok
}

// str returns the string if it is concrete.
func (v Val) str() (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (v Val) slice() []Val {
	if s, ok := v.P.(*Slice); ok && s != nil {
		return s.S
	}
	return nil
}

func sliceVal(s []Val) Val {
	if s == nil {
		s = []Val{}
	}
	return Val{P: &Slice{s}}
}

// strBytes gives the bytes of a string value.
func strBytes(v Val) []Val {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		out := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			out[i].N = uint64(s[i])
		}
		return out
	case *SStr:
		return s.B
	}
	panic(unsupported("not a string: %T", v.P))
}

func strLen(v Val) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.B)
	}
	panic(unsupported("not a string: %T", v.P))
}

// mkStr builds a string value from bytes (which must not be changed later).
func mkStr(b []Val) Val {
	for i := range b {
		if b[i].P != nil {
			return Val{P: &SStr{b}}
		}
	}
	if len(b) == 0 {
		return Val{}
	}
	buf := make([]byte, len(b))
	for i := range b {
		buf[i] = byte(b[i].N)
	}
	return Val{P: string(buf)}
}

func strSlice(v Val, lo, hi int) Val {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return strVal(s[lo:hi])
	case *SStr:
		return mkStr(s.B[lo:hi])
	}
	panic("strSlice")
}

func strCat(a, b Val) Val {
	if a.P == nil {
		return b
	}
	if b.P == nil {
		return a
	}
	if x, ok := a.P.(string); ok {
		if y, ok := b.P.(string); ok {
			return Val{P: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	out := make([]Val, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return Val{P: &SStr{out}}
}

// clone copies a value so that later stores through pointers do not reach it.
func clone(v Val) Val {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{make([]Val, len(a.E))}
		for i := range a.E {
			if _, ok := a.E[i].P.(*Agg); ok {
				n.E[i] = clone(a.E[i])
			} else {
				n.E[i] = a.E[i]
			}
		}
		return Val{P: n}
	}
	return v
}

// zero returns the zero value of a type.
func zero(t types.Type) Val {
	switch t := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]Val, t.NumFields())}
		for i := range a.E {
			a.E[i] = zero(t.Field(i).Type())
		}
		return Val{P: a}
	case *types.Array:
		a := &Agg{make([]Val, t.Len())}
		switch t.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.E {
				a.E[i] = zero(t.Elem())
			}
		}
		return Val{P: a}
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make([]Val, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return Val{P: r}
	}
	return Val{}
}

// kind describes how a type's values are held.
type kind struct {
	k      kk
	w      uint8
	signed bool
}
type kk uint8

const (
	kOther kk = iota
	kBool
	kInt
	kFloat
	kString
	kAgg
	kIface
	kComplex
)

func kindOf(t types.Type) kind {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return kind{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return kind{kInt, 64, true}
		case types.Int8:
			return kind{kInt, 8, true}
		case types.Int16:
			return kind{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return kind{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return kind{kInt, 64, false}
		case types.Uint8:
			return kind{kInt, 8, false}
		case types.Uint16:
			return kind{kInt, 16, false}
		case types.Uint32:
			return kind{kInt, 32, false}
		case types.Float32:
			return kind{k: kFloat, w: 32}
		case types.Float64, types.UntypedFloat:
			return kind{k: kFloat, w: 64}
		case types.String, types.UntypedString:
			return kind{k: kString}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return kind{k: kComplex}
		}
	case *types.Struct, *types.Array:
		return kind{k: kAgg}
	case *types.Interface:
		return kind{k: kIface}
	}
	return kind{}
}

func (k kind) norm(n uint64) uint64 {
	if k.w >= 64 {
		return n
	}
	if k.signed {
		return uint64(sx(n, k.w))
	}
	return mask(n, k.w)
}

// termOf makes a term of an integer or boolean value.
func (e *Engine) termOf(v Val, k kind) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if k.k == kBool {
		return e.tt.bool(v.N != 0)
	}
	return e.tt.con(v.N, k.w)
}

func fromTerm(t *Term, k kind) Val {
	switch t.Op {
	case OConst:
		return Val{N: k.norm(t.C)}
	case OTrue:
		return Val{N: 1}
	case OFalse:
		return Val{}
	}
	return Val{P: t}
}

func fl(v Val) float64  { return math.Float64frombits(v.N) }
func flv(f float64) Val { return Val{N: math.Float64bits(f)} }

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

// show prints a value for diagnostics.
func show(v Val) string {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.N))
	case string:
		return fmt.Sprintf("%q", p)
	case *SStr:
		var b strings.Builder
		b.WriteString("sym\"")
		for _, x := range p.B {
			if x.P != nil {
				fmt.Fprintf(&b, "<%v>", x.P)
			} else {
				b.WriteByte(byte(x.N))
			}
		}
		return b.String() + "\""
	case *Term:
		return p.String()
	case *Agg:
		var b strings.Builder
		b.WriteByte('{')
		for i, x := range p.E {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(show(x))
		}
		return b.String() + "}"
	case *Slice:
		if p == nil {
			return "nil"
		}
		return "[]" + show(Val{P: &Agg{p.S}})
	case *Iface:
		if p == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", p.T, show(p.V))
	case *Val:
		if p == nil {
			return "nil"
		}
		return "&..."
	}
	return fmt.Sprintf("%T", v.P)
}
