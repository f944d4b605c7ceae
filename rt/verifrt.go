// Package verifrt is the interface between the verification harnesses and the
// symbolic executor. Under the executor these functions are intercepted; run
// natively, they replay one concrete vector of inputs.
package verifrt

import (
	"encoding/json"
	"fmt"
	"os"
	"time"
)

// Vector is one concrete run of a harness.
type Vector struct {
	ID      int     `json:"id"`
	Harness string  `json:"harness"`
	Shard   int     `json:"shard"`
	Tier    string  `json:"tier"`
	Vals    []int64 `json:"vals"`
	Repeat  int     `json:"repeat"`
	Timeout int     `json:"timeout"` // seconds
}

// Obs is an observed value.
type Obs struct {
	Tag string `json:"tag"`
	Val string `json:"val"`
}

// Result is the outcome of a replayed vector.
type Result struct {
	ID     int    `json:"id"`
	Status string `json:"status"` // ok, assert, panic, assume, timeout
	Msg    string `json:"msg"`
	Obs    []Obs  `json:"obs"`
}

type assertFailed struct{ msg string }
type assumeFailed struct{}

var cur Vector
var pos int
var res *Result

// Replay runs a harness natively on a vector.
func Replay(v Vector, f func(int)) (r Result) {
	cur, pos = v, 0
	r.ID = v.ID
	res = &r
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case assertFailed:
				r.Status, r.Msg = "assert", x.msg
			case assumeFailed:
				r.Status = "assume"
			default:
				r.Status, r.Msg = "panic", fmt.Sprint(x)
			}
		}
	}()
	f(v.Shard)
	r.Status = "ok"
	return
}

// LoadVectors reads the vectors to replay.
func LoadVectors() (vs []Vector, ok bool) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return nil, false
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &vs); err != nil {
		panic(err)
	}
	return vs, true
}

func next() int64 {
	if pos >= len(cur.Vals) {
		panic("verifrt: the vector has too few values")
	}
	v := cur.Vals[pos]
	pos++
	return v
}

// Rune is any Unicode scalar value.
func Rune() rune { return rune(next()) }

// RuneIn is any scalar value in the given inclusive ranges.
func RuneIn(pairs ...rune) rune { return rune(next()) }

// RuneOf is any letter of the string.
func RuneOf(s string) rune { return rune(next()) }

// RuneNot is any scalar value which is not in the string.
func RuneNot(s string) rune { return rune(next()) }

// AnyRune is any int32 value.
func AnyRune() rune { return rune(next()) }

// Byte is any byte.
func Byte() byte { return byte(next()) }

// ByteOf is any byte of the string.
func ByteOf(s string) byte { return byte(next()) }

// Int is any integer in the range.
func Int(lo, hi int) int { return int(next()) }

// Choice is like Int(0, n-1) but each value is explored on its own.
func Choice(n int) int { return int(next()) }

// Bool is any truth value.
func Bool() bool { return next() != 0 }

// Assume drops the runs which do not satisfy the condition.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert is the property.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFailed{msg})
	}
}

// Observe records a string, bool or integer.
func Observe(tag string, v any) {
	if len(res.Obs) < 10000 {
		res.Obs = append(res.Obs, Obs{tag, fmt.Sprintf("%q", fmt.Sprint(v))})
	}
}

// Reach marks a situation that some run must reach.
func Reach(tag string) {}

// MapOrder selects how maps are iterated: 0 by insertion, 1 in reverse, 2 in
// every order, 3 in every rotation, 4 from the middle outwards,
// 5 in any order which stays the same for a map. Natively the order is Go's.
func MapOrder(mode int) {}

// Catch calls f and returns the value it panicked with, if any.
func Catch(f func()) (r any) {
	defer func() {
		r = recover()
		switch x := r.(type) {
		case assertFailed:
			panic(x)
		case assumeFailed:
			panic(x)
		}
	}()
	f()
	return nil
}

// Settle lets the other goroutines go on for a while. Under the executor they
// go on until they wait.
func Settle() {
	ch := make(chan bool)
	go func() {
		pause()
		ch <- true
	}()
	<-ch
}

func pause() { time.Sleep(2 * time.Millisecond) }

// SetStdin makes the text the standard input.
func SetStdin(s string) {
	f, err := os.CreateTemp("", "verif-stdin")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	f.WriteString(s)
	f.Seek(0, 0)
	os.Stdin = f
}

// Thorough reports whether the deeper bounds are asked for.
func Thorough() bool { return cur.Tier == "thorough" }

// Racing says that shared functions run in several goroutines at once.
var Racing = os.Getenv("VERIF_RACE") != ""

func freeze(f func() string) {}
func thaw()                  {}

// Shared calls f, which other goroutines may call at the same time: whatever
// memory f can reach and did not make is shared. The result must not depend
// on the others.
func Shared(f func() string) string {
	if !Racing {
		freeze(f)
		r := f()
		thaw()
		return r
	}
	const n = 4
	start := make(chan bool)
	out := make(chan string, n)
	for i := 0; i < n; i++ {
		go func() {
			<-start
			out <- f()
		}()
	}
	close(start)
	r := <-out
	for i := 1; i < n; i++ {
		if x := <-out; x != r {
			panic(assertFailed{fmt.Sprintf("concurrent calls give %q and %q", r, x)})
		}
	}
	return r
}
