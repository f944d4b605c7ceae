package c04

import (
	"unicode"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

// identity hands a word over as it is: the words are written in the letters
// which the rules know.
type identity string

func (s identity) Scheme() string                         { return string(s) }
func (s identity) Transliterate(w string) (string, error) { return w, nil }

func load(shard int) (*hangulize.Spec, hangulize.Hangulizer) {
	langs := hangulize.ListLangs()
	rt.Assume(shard < len(langs))
	rt.Observe("language", langs[shard])
	spec, err := hangulize.LoadSpec(langs[shard])
	rt.Assert(err == nil, "a listed language is not loaded")
	h := hangulize.New(spec)
	for _, s := range spec.Lang.Translit {
		h.UseTranslit(identity(s))
	}
	return spec, h
}

// alphabet are the letters which the patterns of a language have.
func alphabet(spec *hangulize.Spec) []rune {
	var out []rune
	for _, rules := range [][]hangulize.Rule{spec.Rewrite, spec.Transcribe} {
		for _, r := range rules {
			for _, l := range r.From.Letters() {
				if lib.InScript(spec.Lang.Script, l) && unicode.IsLetter(l) {
					out = lib.Add(out, []rune{l})
				}
			}
		}
	}
	rt.Assert(len(out) > 4, "a language has no letters")
	return out
}

func complete(spec *hangulize.Spec, h hangulize.Hangulizer, word string) {
	rt.Observe("input", word)
	got, err := h.Hangulize(word)
	rt.Observe("got", got)
	rt.Assert(err == nil, "transcribing fails")
	for _, r := range got {
		rt.Assert(r >= 0xac00 && r <= 0xd7a3 || r == ' ', "the result has another letter than Hangul")
	}
}

// VH_letters: 2 letters of the alphabet.
func VH_letters(shard int) {
	spec, h := load(shard)
	a := string(alphabet(spec))
	n := 2
	if rt.Thorough() {
		n = 3
	}
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf(a))
	}
	complete(spec, h, string(rs))
}

// VH_spaces: two words of a letter, or two.
func VH_spaces(shard int) {
	spec, h := load(shard)
	a := string(alphabet(spec))
	word := string([]rune{rt.RuneOf(a), ' ', rt.RuneOf(a)})
	if rt.Thorough() {
		word += string(rt.RuneOf(a))
	}
	rt.Observe("input", word)
	got, err := h.Hangulize(word)
	rt.Observe("got", got)
	rt.Assert(err == nil, "transcribing fails")
	spaces := 0
	for _, r := range got {
		if r == ' ' {
			spaces++
			continue
		}
		rt.Assert(r >= 0xac00 && r <= 0xd7a3, "the result has another letter than Hangul")
	}
	rt.Assert(spaces == 1, "a space is lost, or made")
}

// VH_long: a letter in a long word of all letters.
func VH_long(shard int) {
	spec, h := load(shard)
	a := alphabet(spec)
	n := []int{1, 3}[rt.Choice(2)]
	var rs []rune
	for i := 0; i < n*len(a); i++ {
		rs = append(rs, a[i*(2*n-1)%len(a)])
	}
	rs = append(rs, rt.RuneOf(string(a)))
	for i := 0; i < n*len(a); i++ {
		rs = append(rs, a[i%len(a)])
	}
	complete(spec, h, string(rs))
}
