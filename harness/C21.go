package furigana

import (
	"strings"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"

	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

// The rows of kana by vowel.
const (
	vhA = "ァアカガサザタダナハバパマャヤラヮワヷ"
	vhI = "ィイキギシジチヂニヒビピミリヰヸ"
	vhU = "ゥウクグスズツヅヌフブプムュユルヴ"
	vhE = "ェエケゲセゼテデネヘベペメレヱヹ"
	vhO = "ォオコゴソゾトドノホボポモョヨロヲヺ"
)

// vhProlongs: whether the vowel prolongs the kana before it.
func vhProlongs(prev, r rune) bool {
	in := func(rows ...string) bool {
		for _, row := range rows {
			if vhHas(row, prev) {
				return true
			}
		}
		return false
	}
	switch r {
	case 'ァ', 'ア':
		return in(vhA)
	case 'イ':
		return in(vhI)
	case 'ィ':
		// ティ and ディ are syllables of their own
		return in(vhI, vhE) && prev != 'テ' && prev != 'デ'
	case 'ウ':
		return in(vhU, vhO)
	case 'ゥ':
		// トゥ and ドゥ are syllables of their own
		return in(vhU, vhO) && prev != 'ト' && prev != 'ド'
	case 'ェ', 'エ':
		return in(vhE)
	case 'ォ', 'オ':
		return in(vhO)
	}
	return false
}

func vhHas(s string, r rune) bool {
	for _, x := range s {
		if x == r {
			return true
		}
	}
	return false
}

func vhLong(rs []rune, offset int) string {
	var b strings.Builder
	for i, r := range rs {
		if i >= offset && i > 0 && vhProlongs(rs[i-1], r) {
			b.WriteRune('ー')
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// any letter but ヵ and ヶ, which are read in more than one way
func vhAny() rune { return rt.RuneIn(1, 0x30f4, 0x30f7, 0xd7ff, 0xe000, 0x10ffff) }

func vhVowel() rune { return rt.RuneOf("ァアィイゥウェエォオ") }

func vhMerge(rs []rune, offset int) {
	rt.Observe("input", string(rs))
	rt.Observe("offset", offset)
	got := mergeLongVowels(string(rs), offset)
	want := vhLong(rs, offset)
	rt.Observe("got", got)
	rt.Observe("want", want)
	rt.Assert(got == want, "the wrong vowels become long")
	rt.Assert(len([]rune(got)) == len(rs), "the number of letters changes")
}

// VH_pair: every letter before every letter.
func VH_pair(shard int) {
	vhMerge([]rune{vhAny(), vhAny()}, shard)
}

// VH_chain: vowels after vowels.
func VH_chain(shard int) {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rs := []rune{rt.RuneIn(0x30a1, 0x30f4, 0x30f7, 0x30ff, 'a', 'z')}
	for i := 1; i < n; i++ {
		rs = append(rs, vhVowel())
	}
	vhMerge(rs, shard)
}

// VH_long: after a long text.
func VH_long(shard int) {
	rs := []rune(lib.Pad("カナa", 100))
	n := len(rs)
	rs = append(rs, rt.RuneIn(0x30a1, 0x30f4, 0x30f7, 0x30ff), vhVowel(), 'ン')
	vhMerge(rs, []int{0, n, n + 1, n + 2}[shard])
}

// VH_offset: any offset at all.
func VH_offset(shard int) {
	o := rt.Int(-2, 6)
	vhMerge([]rune{'カ', vhVowel(), 'x', 'コ', vhVowel()}, o)
}

// VH_whole: unknown words and auxiliaries are merged, known words are not.
func VH_whole(shard int) {
	rs := []rune{rt.RuneIn(0x30a1, 0x30f4, 0x30f7, 0x30fa), vhVowel()}
	aux := []rune{vhVowel(), rt.RuneIn(0x30a1, 0x30f4, 0x30f7, 0x30fa), vhVowel()}
	if shard == 3 {
		aux = aux[:1]
	}
	split := kagome.Split
	known := func(pos, read string) kagome.Token {
		return kagome.Token{Class: kagome.KNOWN, Surface: "漢", F: []string{pos, "*", "*", "*", "*", "*", "漢", read, read}}
	}
	rt.Observe("input", string(rs))
	rt.Observe("aux", string(aux))
	var want string
	kagome.Split = func(s string) []kagome.Token {
		switch shard {
		case 0:
			return []kagome.Token{{Class: kagome.DUMMY}, {Class: kagome.UNKNOWN, Surface: s}, {Class: kagome.DUMMY}}
		case 1:
			return []kagome.Token{known("名詞", s)}
		case 2:
			return []kagome.Token{known("動詞", s), known("助動詞", string(aux))}
		}
		return []kagome.Token{{Class: kagome.UNKNOWN, Surface: s}, known("助動詞", string(aux))}
	}
	both := append(append([]rune{}, rs...), aux...)
	switch shard {
	case 0:
		want = vhLong(rs, 0)
	case 1:
		want = string(rs)
	case 2:
		want = vhLong(both, 2)
	case 3:
		want = vhLong(rs, 0)
		// the auxiliary follows the merged letters
		m := append([]rune(want), aux...)
		want = vhLong(m, 2)
	}
	got, err := T.Transliterate(string(rs))
	kagome.Split = split
	rt.Assert(err == nil, "the text is rejected")
	rt.Observe("got", got)
	rt.Observe("want", want)
	rt.Assert(got == want, "the wrong vowels become long")
}
