package c12

import (
	"strings"

	"github.com/hangulize/hangulize/internal/subword"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

type cell struct {
	r     rune
	n     int // bytes
	level int
}

func letters(n int, level int) []cell {
	var cs []cell
	for i := 0; i < n; i++ {
		w := 1
		if rt.Choice(2) == 1 {
			w = 3
		}
		cs = append(cs, cell{lib.Foreign(w), w, level})
	}
	return cs
}

func text(cs []cell) string {
	var b strings.Builder
	for _, c := range cs {
		b.WriteRune(c.r)
	}
	return b.String()
}

// same compares the subwords with the cells.
func same(sws []subword.Subword, cs []cell) {
	var whole strings.Builder
	for _, sw := range sws {
		whole.WriteString(sw.Word)
	}
	rt.Observe("got", whole.String())
	rt.Observe("want", text(cs))
	rt.Assert(whole.String() == text(cs), "the subwords do not make up the word")
	k := 0
	for i, sw := range sws {
		rt.Assert(sw.Word != "", "a subword is empty")
		if i > 0 {
			rt.Assert(sws[i-1].Level != sw.Level, "neighbours have the same level")
		}
		n := 0
		for n < len(sw.Word) && k < len(cs) {
			rt.Assert(cs[k].level == sw.Level, "a letter has the wrong level")
			n += cs[k].n
			k++
		}
		rt.Assert(n == len(sw.Word), "a subword ends inside a letter")
	}
	rt.Assert(k == len(cs), "letters are missing")
}

// round replaces up to two ranges of the word.
func round(rep *subword.Replacer, cs []cell, next, max int) []cell {
	k := rt.Choice(max + 1)
	var out []cell
	var repls []subword.Replacement
	pos, at := 0, 0 // cell, byte
	skip := func(to int) {
		for ; pos < to; pos++ {
			out = append(out, cs[pos])
			at += cs[pos].n
		}
	}
	for i := 0; i < k; i++ {
		skip(pos + rt.Choice(len(cs)-pos+1))
		start := at
		n := rt.Choice(len(cs) - pos + 1)
		for j := 0; j < n; j++ {
			at += cs[pos].n
			pos++
		}
		w := letters(rt.Choice(3), next)
		repls = append(repls, subword.NewReplacement(start, at, text(w)))
		out = append(out, w...)
	}
	skip(len(cs))
	if k == 1 {
		rep.Replace(repls[0].Start, repls[0].Stop, repls[0].Word)
	} else {
		rep.ReplaceBy(repls...)
	}
	return out
}

// VH_once: one round of replacements.
func VH_once(shard int) {
	n := shard
	cs := letters(n, 0)
	rep := subword.NewReplacer(text(cs), 0, 1)
	k := 2
	if rt.Thorough() {
		k = 3
	}
	cs = round(rep, cs, 1, k)
	if rt.Choice(2) == 1 {
		rt.Assert(rep.String() == text(cs), "the word is not replaced as asked")
	}
	same(rep.Subwords(), cs)
	// asking again changes nothing
	rt.Assert(rep.String() == text(cs), "the word changes when it is read")
	same(rep.Subwords(), cs)
}

// VH_rounds: rounds which see each other's results.
func VH_rounds(shard int) {
	from := shard
	n := 2
	rounds := 2
	if rt.Thorough() {
		n = 2
		rounds = 3
	}
	cs := letters(n, from)
	rep := subword.NewReplacer(text(cs), from, 1)
	for i := 0; i < rounds; i++ {
		cs = round(rep, cs, 1, 1)
		rt.Assert(rep.String() == text(cs), "the word is not replaced as asked")
	}
	same(rep.Subwords(), cs)
}

// VH_builder: words of any level are joined.
func VH_builder(shard int) {
	var b subword.Builder
	var cs []cell
	n := 4
	if rt.Thorough() {
		n = 6
	}
	if shard == 1 {
		// a used builder
		b.Write(subword.New("x", 0), subword.New("y", 1))
		b.Subwords()
		b.Reset()
		rt.Assert(b.String() == "" && len(b.Subwords()) == 0, "a reset builder is not empty")
	}
	var all []subword.Subword
	for i := 0; i < n; i++ {
		l := rt.Int(0, 2)
		c := letters(1, l)
		cs = append(cs, c...)
		all = append(all, subword.New(text(c), l))
	}
	k := rt.Choice(n)
	for _, sw := range all[:k] {
		b.Write(sw)
	}
	b.Write(all[k:]...)
	rt.Assert(b.String() == text(cs), "the builder loses or adds text")
	sws := b.Subwords()
	same(sws, cs)
	b2 := subword.NewBuilder(sws)
	rt.Assert(b2.String() == text(cs), "a builder of subwords loses or adds text")
	same(b2.Subwords(), cs)
	same(b.Subwords(), cs)
}

// VH_long: replacements in a long word.
func VH_long(shard int) {
	var cs []cell
	for i := 0; i < 300; i++ {
		cs = append(cs, cell{'x', 1, 0}, cell{'가', 3, 0})
	}
	cs = append(cs, letters(1, 0)...)
	rep := subword.NewReplacer(text(cs), 0, 1)
	total := len(text(cs))
	a := cs[len(cs)-1]
	w := letters(2, 1)
	rep.ReplaceBy(subword.NewReplacement(4, 8, "짧"), subword.NewReplacement(total-a.n, total, text(w)))
	out := []cell{cs[0], cs[1], {'짧', 3, 1}}
	out = append(out, cs[4:len(cs)-1]...)
	out = append(out, w...)
	same(rep.Subwords(), out)
}

// VH_apart: builders and replacers which were given the same slices do not
// touch each other, and results stay as they are.
func VH_apart(shard int) {
	var all []subword.Subword
	var cs []cell
	n := 1 + rt.Choice(3)
	for i := 0; i < n; i++ {
		l := rt.Int(0, 2)
		c := letters(1, l)
		cs = append(cs, c...)
		all = append(all, subword.New(text(c), l))
	}
	spare := make([]subword.Subword, n, n+3)
	copy(spare, all)
	x, y := letters(1, rt.Int(0, 2)), letters(1, 1)
	switch shard {
	case 0:
		var a, b subword.Builder
		a.Write(spare...)
		b.Write(spare...)
		a.Write(subword.New(text(x), x[0].level))
		b.Write(subword.New(text(y), 1))
		spare[0] = subword.New("spoiled", 1)
		same(a.Subwords(), append(append([]cell{}, cs...), x...))
		same(b.Subwords(), append(append([]cell{}, cs...), y...))
	case 1:
		var a subword.Builder
		a.Write(all...)
		sws := a.Subwords()
		a.Reset()
		for range all {
			a.Write(subword.New(text(x), x[0].level))
			a.Write(subword.New(text(y), 1))
		}
		same(sws, cs)
		a.Subwords()
		same(sws, cs)
	case 2:
		repls := make([]subword.Replacement, 1, 4)
		repls[0] = subword.NewReplacement(0, 1, text(x))
		a, b := subword.NewReplacer("pqr", 0, x[0].level), subword.NewReplacer("pqr", 0, x[0].level)
		a.ReplaceBy(repls...)
		b.ReplaceBy(repls...)
		a.Replace(1, 2, "u")
		b.Replace(2, 3, "v")
		repls[0] = subword.NewReplacement(0, 3, "spoiled")
		k := x[0].level
		same(a.Subwords(), append(append([]cell{}, x...), cell{'u', 1, k}, cell{'r', 1, 0}))
		sws := b.Subwords()
		same(sws, append(append([]cell{}, x...), cell{'q', 1, 0}, cell{'v', 1, k}))
		b.Replace(0, 1, "w")
		b.Subwords()
		same(sws, append(append([]cell{}, x...), cell{'q', 1, 0}, cell{'v', 1, k}))
	}
}
