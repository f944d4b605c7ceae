package c03

import (
	"unicode"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

func load(shard int) (*hangulize.Spec, hangulize.Hangulizer) {
	langs := hangulize.ListLangs()
	rt.Assume(shard < len(langs))
	rt.Observe("language", langs[shard])
	spec, err := hangulize.LoadSpec(langs[shard])
	rt.Assert(err == nil, "a listed language is not loaded")
	rt.Assume(len(spec.Lang.Translit) == 0)
	return spec, hangulize.New(spec)
}

func call(h hangulize.Hangulizer, word string) string {
	got, err := h.Hangulize(word)
	rt.Assert(err == nil, "transcribing fails")
	return got
}

// words are words of the examples which have letters of the script only.
func words(spec *hangulize.Spec, n int) []string {
	var out []string
next:
	for _, t := range spec.Test {
		for _, r := range t[0] {
			if !lib.InScript(spec.Lang.Script, r) {
				continue next
			}
		}
		out = append(out, t[0])
		if len(out) == n {
			break
		}
	}
	rt.Assert(len(out) == n, "there are too few examples")
	return out
}

// foreign is any letter which is none of the script, no space, and not in the
// specification.
func foreign(spec *hangulize.Spec) rune {
	x := rt.RuneNot(spec.Source + "\u200b")
	rt.Assume(!lib.InScript(spec.Lang.Script, x) && !unicode.IsSpace(x))
	return x
}

// VH_between: foreign letters before, between and after words.
func VH_between(shard int) {
	spec, h := load(shard)
	ws := words(spec, 2)
	x := string(foreign(spec))
	y := string(rt.RuneOf("한1漢★"))
	var word, want string
	switch rt.Choice(4) {
	case 0:
		word, want = x+ws[0], x+call(h, ws[0])
	case 1:
		word, want = ws[0]+x+y+ws[1], call(h, ws[0])+x+y+call(h, ws[1])
	case 2:
		word, want = ws[1]+y+x, call(h, ws[1])+y+x
	case 3:
		word, want = x+y+x, x+y+x
	}
	rt.Observe("input", word)
	got := call(h, word)
	rt.Observe("got", got)
	rt.Assert(got == want, "foreign text is changed or moved")
}

// VH_letters: any letter of the alphabet around foreign ones.
func VH_letters(shard int) {
	spec, h := load(shard)
	var a []rune
	for _, rules := range [][]hangulize.Rule{spec.Rewrite, spec.Transcribe} {
		for _, r := range rules {
			for _, l := range r.From.Letters() {
				if lib.InScript(spec.Lang.Script, l) {
					a = lib.Add(a, []rune{l})
				}
			}
		}
	}
	p, q := string(rt.RuneOf(string(a))), string(rt.RuneOf(string(a)))
	if rt.Thorough() {
		q += string(rt.RuneOf(string(a)))
	}
	x := "漢9"
	if rt.Thorough() {
		x = []string{"가", "漢9", "€ㅏ"}[rt.Choice(3)]
	}
	rt.Observe("input", p+x+q)
	got := call(h, p+x+q)
	rt.Observe("got", got)
	rt.Assert(got == call(h, p)+x+call(h, q), "foreign text is changed or moved")
}

// VH_long: a letter in a long text of words and foreign letters.
func VH_long(shard int) {
	spec, h := load(shard)
	ws := words(spec, 2)
	n := []int{4, 16}[rt.Choice(2)]
	if rt.Thorough() {
		n = 1 << uint(rt.Choice(7))
	}
	a, b := call(h, ws[0]), call(h, ws[1])
	x := string(rt.RuneOf("한1漢★ㅏ"))
	word, want := "", ""
	for i := 0; i < n; i++ {
		if i%3 == 2 {
			word += ws[1] + "漢"
			want += b + "漢"
			continue
		}
		word += ws[0] + "9가"
		want += a + "9가"
	}
	l := string(rt.RuneOf(ws[0]))
	word += x + l + x + ws[1]
	want += x + call(h, l) + x + b
	rt.Observe("input", word)
	got := call(h, word)
	rt.Observe("got", got)
	rt.Assert(got == want, "foreign text is changed or moved")
}
