package c06

import (
	"strings"
	"unicode"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/internal/scripts"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"golang.org/x/text/unicode/norm"
)

type script interface {
	Is(rune) bool
	Normalize(rune) rune
	LocalizePunct(rune) string
}

var all = []script{scripts.Latn{}, scripts.Cyrl{}, scripts.Grek{}, scripts.Geor{}, scripts.Hrkt{}}
var names = []string{"Latn", "Cyrl", "Grek", "Geor", "Hrkt", ""}

// belongs is what the script has to recognise.
func belongs(k int, r rune) bool {
	switch k {
	case 0, 5:
		return unicode.Is(unicode.Latin, r)
	case 1:
		return unicode.Is(unicode.Cyrillic, r) || unicode.Is(unicode.M, r)
	case 2:
		return unicode.Is(unicode.Greek, r)
	case 3:
		return unicode.Is(unicode.Georgian, r)
	}
	return unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r) || r == 0x30fc
}

// VH_is: the letters of the script and no others.
func VH_is(shard int) {
	r := rt.AnyRune()
	rt.Observe("input", string(r))
	rt.Assert(all[shard].Is(r) == belongs(shard, r), "the script does not claim exactly its letters")
}

// VH_norm: folding of a letter of the script.
func VH_norm(shard int) {
	s := all[shard]
	r := rt.Rune()
	rt.Observe("input", string(r))
	rt.Assume(belongs(shard, r))
	n := s.Normalize(r)
	rt.Observe("normal", string(n))
	rt.Assert(s.Normalize(n) == n, "normalizing twice changes the letter")
	switch shard {
	case 0:
		d := norm.NFD.PropertiesString(string(r)).Decomposition()
		b := r
		if len(d) > 0 {
			for _, x := range string(d) {
				b = x
				break
			}
		}
		rt.Assert(n == unicode.ToLower(b), "the Latin letter is not folded to its lower-case base")
	case 1, 2:
		rt.Assert(n == unicode.ToLower(r), "the letter is not folded to lower case")
	case 3:
		rt.Assert(n == r, "the Georgian letter is changed")
	case 4:
		if r >= 0x3041 && r <= 0x3096 || r == 0x309d || r == 0x309e {
			rt.Assert(n == r+0x60, "the Hiragana is not folded to the Katakana")
			rt.Assert(unicode.Is(unicode.Katakana, n), "the Hiragana is not folded to Katakana")
		} else if r >= 0x30a0 {
			rt.Assert(n == r, "the letter is changed")
		}
	}
	rt.Assert(s.Is(n), "the normal letter leaves the script")
}

// VH_case: two letters which differ by case only.
func VH_case(shard int) {
	s := all[shard]
	r := rt.Rune()
	rt.Observe("input", string(r))
	u := r
	rt.Assume(belongs(shard, u))
	l := unicode.ToLower(u)
	if shard < 3 && belongs(shard, l) {
		rt.Assert(s.Normalize(u) == s.Normalize(l), "upper and lower case differ")
	}
}

// VH_punct: only Japanese punctuation changes.
func VH_punct(shard int) {
	r := rt.Rune()
	rt.Observe("input", string(r))
	got := all[shard].LocalizePunct(r)
	rt.Observe("got", got)
	if shard < 4 {
		rt.Assert(got == string(r), "punctuation is changed")
		return
	}
	want := string(r)
	for i, p := range []rune("。、：！？〜「」『』") {
		if r == p {
			want = []string{". ", ", ", ": ", "! ", "? ", "~", " '", "' ", " \"", "\" "}[i]
		}
	}
	rt.Assert(got == want, "punctuation is not localized")
}

// VH_spec: the script a specification names is the one that is used: a letter
// without a rule is dropped exactly if it belongs to the script.
func VH_spec(shard int) {
	spec, err := hangulize.ParseSpec(strings.NewReader("lang:\n id = \"x\"\n codes = \"x\", \"xxx\"\n script = \"" + names[shard] + "\"\n"))
	rt.Assert(err == nil, "the specification is rejected")
	r := rt.Rune()
	rt.Assume(!unicode.IsSpace(r) && !unicode.IsPunct(r) && r != 0x200b)
	rt.Observe("input", string(r))
	got, err := hangulize.New(spec).Hangulize(string(r))
	rt.Observe("got", got)
	rt.Assert(err == nil, "the word is rejected")
	if belongs(shard, r) {
		rt.Assert(got == "", "a letter of the script without a rule is kept")
	} else {
		rt.Assert(got == string(r), "a letter of another script is changed")
	}
}
