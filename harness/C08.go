package c08

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

var rules = []lib.Rule{
	{From: "a", To: "b"}, {From: "b", To: "c"}, {From: "ab", To: "ba"}, {From: "^b", To: "d"}, {From: "c$", To: ""}, {From: "a{b}", To: "c{}"},
	{From: "{a}c", To: "cc"}, {From: "b{~c}", To: "a"}, {From: " ", To: ""}, {From: "1", To: "a"}, {From: "^^a", To: "aa"}, {From: "bb", To: "-"}, {From: "-", To: "{}"}, {From: "{~a}b$$", To: "1"},
	{From: "[a-d]$", To: "a"}, {From: "(a|cb)", To: "b"},
}

// The letters left are told apart by what they become.
var transcribe = []lib.Rule{{From: "a", To: "가"}, {From: "b", To: "나"}, {From: "c", To: "다"}, {From: "d", To: "라"}, {From: "1", To: "마"}, {From: "-", To: "바"}}

func judge(rewrite []lib.Rule, word []rune) {
	src := lib.Source("Latn", rewrite, transcribe)
	rt.Observe("source", src)
	rt.Observe("input", string(word))
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	want := lib.Transcribe(lib.Rewrite(lib.Levels(word, rewrite, transcribe), rewrite), transcribe)
	got, err := hangulize.New(spec).Hangulize(string(word))
	rt.Observe("got", got)
	rt.Observe("want", want)
	rt.Assert(err == nil, "transcribing fails")
	rt.Assert(got == want, "the rewriting rules give another text")
}

func word(n int, letters string) []rune {
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf(letters))
	}
	return rs
}

// letters for the words of some rules.
func letters(rs []lib.Rule) string {
	if rt.Thorough() {
		return "abc 1-"
	}
	for _, r := range rs {
		if strings.ContainsAny(r.From+r.To, "1-") {
			return "ab1-"
		}
	}
	return "abc "
}

// VH_pairs: two rules.
func VH_pairs(shard int) {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	rs := []lib.Rule{rules[shard], rules[rt.Choice(len(rules))]}
	judge(rs, word(n, letters(rs)))
}

// VH_triples: three rules.
func VH_triples(shard int) {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rs := []lib.Rule{rules[shard], rules[rt.Choice(len(rules))], rules[rt.Choice(len(rules))]}
	judge(rs, word(n, letters(rs)))
}

// VH_long: letters in and after a long word of many runs.
func VH_long(shard int) {
	n := []int{8, 16, 64}[rt.Choice(3)]
	if rt.Thorough() {
		n = 1 << uint(rt.Choice(8))
	}
	rs := []lib.Rule{rules[shard], rules[(shard+5)%len(rules)]}
	l := letters(rs)
	w := []rune(strings.Repeat("ab1c ", n/2+1) + strings.Repeat("ab", n/2))
	w = append(w, word(1, l)...)
	w = append(w, []rune(strings.Repeat("1b c", n/2))...)
	w = append(w, word(1, l)...)
	judge(rs, w)
}

// VH_many: rules between many others.
func VH_many(shard int) {
	n := []int{20, 200}[shard%2]
	var rs []lib.Rule
	add := func(k int) {
		for i := 0; i < k; i++ {
			rs = append(rs, lib.Rule{From: "b" + string(rune('d'+i%22)) + string(rune('d'+i/22)), To: "c"})
		}
	}
	a, b := rt.Choice(len(rules)), shard/2*3%len(rules)
	add(n - 2)
	rs = append(rs, rules[a])
	add(3)
	rs = append(rs, rules[b])
	add(2)
	w := word(3, letters([]lib.Rule{rules[a], rules[b]}))
	judge(rs, w)
}
