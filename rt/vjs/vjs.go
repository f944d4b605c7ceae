// Package js stands in for syscall/js: JavaScript values, functions and
// promises as far as the commands under test use them. What a promise sets off
// runs in goroutines of its own, like callbacks from the event loop.
package js

import (
	"fmt"
	"strconv"
	"sync"
)

// Type is the type of a value.
type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

func (t Type) String() string {
	return [...]string{"undefined", "null", "boolean", "number", "string", "symbol", "object", "function"}[t]
}

type object struct {
	props map[string]Value
	elems []Value
	array bool
	fn    func(this Value, args []Value) any
	build func(args []Value) Value // for new
	class *object
	p     *promise
}

// Value is a JavaScript value. The zero one is undefined.
type Value struct {
	t   Type
	b   bool
	n   float64
	s   string
	obj *object
}

// Error wraps a JavaScript error.
type Error struct{ Value }

func (e Error) Error() string { return "JavaScript error: " + e.Get("message").String() }

// ValueError is what misuse panics with.
type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string {
	return "syscall/js: call of " + e.Method + " on " + e.Type.String()
}

// Func is a Go function as a JavaScript one.
type Func struct{ Value }

func (Func) Release() {}

func newObject() Value {
	return Value{t: TypeObject, obj: &object{props: map[string]Value{}}}
}

func newFunc(f func(this Value, args []Value) any) Value {
	return Value{t: TypeFunction, obj: &object{props: map[string]Value{}, fn: f}}
}

// FuncOf makes a JavaScript function.
func FuncOf(f func(this Value, args []Value) any) Func { return Func{newFunc(f)} }

func Undefined() Value { return Value{} }
func Null() Value      { return Value{t: TypeNull} }

var global Value

// Global is the global object.
func Global() Value { return global }

// Reset makes a new global object.
func Reset() {
	global = newObject()
	errorClass := newFunc(nil)
	errorClass.obj.build = func(args []Value) Value {
		e := newObject()
		e.obj.class = errorClass.obj
		if len(args) > 0 {
			e.obj.props["message"] = args[0]
		}
		return e
	}
	global.obj.props["Error"] = errorClass
	promiseClass := newFunc(nil)
	promiseClass.obj.build = func(args []Value) Value {
		v := newPromise(promiseClass.obj)
		args[0].Invoke(
			FuncOf(func(_ Value, a []Value) any { v.obj.p.settle(true, first(a)); return nil }),
			FuncOf(func(_ Value, a []Value) any { v.obj.p.settle(false, first(a)); return nil }))
		return v
	}
	promiseClass.Set("resolve", FuncOf(func(_ Value, a []Value) any {
		v := newPromise(promiseClass.obj)
		v.obj.p.settle(true, first(a))
		return v
	}))
	promiseClass.Set("reject", FuncOf(func(_ Value, a []Value) any {
		v := newPromise(promiseClass.obj)
		v.obj.p.settle(false, first(a))
		return v
	}))
	global.obj.props["Promise"] = promiseClass
	for _, n := range []string{"Object", "Array"} {
		n := n
		c := newFunc(nil)
		c.obj.build = func(args []Value) Value {
			v := newObject()
			v.obj.array = n == "Array"
			return v
		}
		global.obj.props[n] = c
	}
	global.obj.props["globalThis"] = global
	global.obj.props["console"] = newObject()
	for _, n := range []string{"log", "warn", "error"} {
		global.obj.props["console"].Set(n, FuncOf(func(Value, []Value) any { return nil }))
	}
}

func init() { Reset() }

func first(args []Value) Value {
	if len(args) == 0 {
		return Undefined()
	}
	return args[0]
}

type promise struct {
	mu    sync.Mutex
	state int // 1: fulfilled, 2: rejected
	value Value
	todo  []func()
}

func newPromise(class *object) Value {
	v := newObject()
	v.obj.class = class
	p := &promise{}
	v.obj.p = p
	v.Set("then", FuncOf(func(_ Value, a []Value) any {
		var ok, bad Value
		if len(a) > 0 {
			ok = a[0]
		}
		if len(a) > 1 {
			bad = a[1]
		}
		return p.then(class, ok, bad)
	}))
	v.Set("catch", FuncOf(func(_ Value, a []Value) any {
		return p.then(class, Undefined(), first(a))
	}))
	v.Set("finally", FuncOf(func(_ Value, a []Value) any {
		f := first(a)
		next := newPromise(class)
		p.after(func() {
			f.Invoke()
			next.obj.p.settle(p.state == 1, p.value)
		})
		return next
	}))
	return v
}

func (p *promise) settle(ok bool, v Value) {
	if ok && v.obj != nil && v.obj.p != nil {
		q := v.obj.p
		q.after(func() { p.settle(q.state == 1, q.value) })
		return
	}
	p.mu.Lock()
	if p.state != 0 {
		p.mu.Unlock()
		return
	}
	p.state, p.value = 2, v
	if ok {
		p.state = 1
	}
	todo := p.todo
	p.todo = nil
	p.mu.Unlock()
	for _, f := range todo {
		go f()
	}
}

func (p *promise) after(f func()) {
	p.mu.Lock()
	if p.state == 0 {
		p.todo = append(p.todo, f)
		p.mu.Unlock()
		return
	}
	p.mu.Unlock()
	go f()
}

func (p *promise) then(class *object, ok, bad Value) Value {
	next := newPromise(class)
	p.after(func() {
		f := bad
		if p.state == 1 {
			f = ok
		}
		if f.t != TypeFunction {
			next.obj.p.settle(p.state == 1, p.value)
			return
		}
		next.obj.p.settle(true, f.Invoke(p.value))
	})
	return next
}

// ValueOf is a Go value as a JavaScript one.
func ValueOf(x any) Value {
	switch x := x.(type) {
	case nil:
		return Null()
	case Value:
		return x
	case Func:
		return x.Value
	case Error:
		return x.Value
	case bool:
		return Value{t: TypeBoolean, b: x}
	case int:
		return Value{t: TypeNumber, n: float64(x)}
	case int8:
		return Value{t: TypeNumber, n: float64(x)}
	case int16:
		return Value{t: TypeNumber, n: float64(x)}
	case int32:
		return Value{t: TypeNumber, n: float64(x)}
	case int64:
		return Value{t: TypeNumber, n: float64(x)}
	case uint:
		return Value{t: TypeNumber, n: float64(x)}
	case uint8:
		return Value{t: TypeNumber, n: float64(x)}
	case uint16:
		return Value{t: TypeNumber, n: float64(x)}
	case uint32:
		return Value{t: TypeNumber, n: float64(x)}
	case uint64:
		return Value{t: TypeNumber, n: float64(x)}
	case float32:
		return Value{t: TypeNumber, n: float64(x)}
	case float64:
		return Value{t: TypeNumber, n: x}
	case string:
		return Value{t: TypeString, s: x}
	case []any:
		v := newObject()
		v.obj.array = true
		for _, e := range x {
			v.obj.elems = append(v.obj.elems, ValueOf(e))
		}
		return v
	case map[string]any:
		v := newObject()
		for k, e := range x {
			v.obj.props[k] = ValueOf(e)
		}
		return v
	}
	panic("ValueOf: invalid value")
}

func (v Value) Type() Type        { return v.t }
func (v Value) IsUndefined() bool { return v.t == TypeUndefined }
func (v Value) IsNull() bool      { return v.t == TypeNull }
func (v Value) IsNaN() bool       { return v.t == TypeNumber && v.n != v.n }
func (v Value) Equal(w Value) bool {
	return v.t == w.t && v.b == w.b && v.n == w.n && v.s == w.s && v.obj == w.obj
}

func (v Value) need(method string, ts ...Type) {
	for _, t := range ts {
		if v.t == t {
			return
		}
	}
	panic(&ValueError{method, v.t})
}

func (v Value) Get(p string) Value {
	v.need("Value.Get", TypeObject, TypeFunction)
	if p == "length" && v.obj.array {
		return ValueOf(len(v.obj.elems))
	}
	return v.obj.props[p]
}

func (v Value) Set(p string, x any) {
	v.need("Value.Set", TypeObject, TypeFunction)
	v.obj.props[p] = ValueOf(x)
}

func (v Value) Delete(p string) {
	v.need("Value.Delete", TypeObject, TypeFunction)
	delete(v.obj.props, p)
}

func (v Value) Index(i int) Value {
	v.need("Value.Index", TypeObject, TypeFunction)
	if i < len(v.obj.elems) {
		return v.obj.elems[i]
	}
	return v.obj.props[strconv.Itoa(i)]
}

func (v Value) SetIndex(i int, x any) {
	v.need("Value.SetIndex", TypeObject, TypeFunction)
	for v.obj.array && len(v.obj.elems) <= i {
		v.obj.elems = append(v.obj.elems, Undefined())
	}
	if v.obj.array {
		v.obj.elems[i] = ValueOf(x)
	} else {
		v.obj.props[strconv.Itoa(i)] = ValueOf(x)
	}
}

func (v Value) Length() int {
	v.need("Value.SetIndex", TypeObject, TypeFunction, TypeString)
	return len(v.obj.elems)
}

func values(args []any) []Value {
	var out []Value
	for _, a := range args {
		out = append(out, ValueOf(a))
	}
	return out
}

func (v Value) Call(m string, args ...any) Value {
	f := v.Get(m)
	if f.t != TypeFunction {
		panic(&ValueError{"Value.Call", f.t})
	}
	return ValueOf(f.obj.fn(v, values(args)))
}

func (v Value) Invoke(args ...any) Value {
	v.need("Value.Invoke", TypeFunction)
	return ValueOf(v.obj.fn(Undefined(), values(args)))
}

func (v Value) New(args ...any) Value {
	v.need("Value.New", TypeFunction)
	return v.obj.build(values(args))
}

func (v Value) InstanceOf(c Value) bool {
	return v.obj != nil && v.obj.class != nil && v.obj.class == c.obj
}

func (v Value) Bool() bool {
	v.need("Value.Bool", TypeBoolean)
	return v.b
}

func (v Value) Float() float64 {
	v.need("Value.Float", TypeNumber)
	return v.n
}

func (v Value) Int() int {
	v.need("Value.Int", TypeNumber)
	return int(v.n)
}

func (v Value) Truthy() bool {
	switch v.t {
	case TypeBoolean:
		return v.b
	case TypeNumber:
		return v.n == v.n && v.n != 0
	case TypeString:
		return v.s != ""
	}
	return v.t >= TypeSymbol
}

func (v Value) String() string {
	switch v.t {
	case TypeString:
		return v.s
	case TypeBoolean:
		return fmt.Sprintf("<boolean: %v>", v.b)
	case TypeNumber:
		return fmt.Sprintf("<number: %v>", v.n)
	}
	return "<" + v.t.String() + ">"
}

// Keys are the names of the properties of an object, in no order.
func (v Value) Keys() []string {
	var out []string
	for k := range v.obj.props {
		out = append(out, k)
	}
	return out
}

// Await waits for a promise. For other values it returns these.
func Await(v Value) (Value, bool) {
	if v.obj == nil || v.obj.p == nil {
		return v, true
	}
	ch := make(chan bool, 1)
	var out Value
	v.Call("then",
		FuncOf(func(_ Value, a []Value) any { out = first(a); ch <- true; return nil }),
		FuncOf(func(_ Value, a []Value) any { out = first(a); ch <- false; return nil }))
	ok := <-ch
	return out, ok
}
