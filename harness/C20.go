package furigana

import (
	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"

	rt "github.com/hangulize/hangulize/internal/verifrt"
)

// The kana which have a voiced form, and the others.
const (
	vhHira    = "うかきくけこさしすせそたちつてとはひふへほ"
	vhHiraV   = "ゔがぎぐげござじずぜぞだぢづでどばびぶべぼ"
	vhHiraP   = "ぱぴぷぺぽ"
	vhHiraPU  = "はひふへほ"
	vhHiraN   = "ぁあぃいぅぇえぉおっなにぬねのまみむめもゃやゅゆょよらりるれろゎわゐゑをんゕゖ"
	vhKata    = "ウカキクケコサシスセソタチツテトハヒフヘホワヰヱヲ"
	vhKataV   = "ヴガギグゲゴザジズゼゾダヂヅデドバビブベボヷヸヹヺ"
	vhKataP   = "パピプペポ"
	vhKataPU  = "ハヒフヘホ"
	vhKataN   = "ァアィイゥェエォオッナニヌネノマミムメモャヤュユョヨラリルレロヮンヵヶ"
	vhOther   = "漢a.가 々〱〲〻〼〽ーゟ"
	vhHiraAll = vhHira + vhHiraV + vhHiraP + vhHiraN
	vhKataAll = vhKata + vhKataV + vhKataP + vhKataN
)

type vhPair struct{ un, vo map[rune]rune }

func vhTable(plain, voiced, semi, semiU string) vhPair {
	p := vhPair{map[rune]rune{}, map[rune]rune{}}
	v := []rune(voiced)
	for i, r := range []rune(plain) {
		p.vo[r] = v[i]
		p.un[v[i]] = r
	}
	u := []rune(semiU)
	for i, r := range []rune(semi) {
		p.un[r] = u[i]
	}
	return p
}

var vhH = vhTable(vhHira, vhHiraV, vhHiraP, vhHiraPU)
var vhK = vhTable(vhKata, vhKataV, vhKataP, vhKataPU)

func vhIn(r rune, s string) bool {
	for _, x := range s {
		if r == x {
			return true
		}
	}
	return false
}

// vhWant resolves the marks. Kinds: 0 Hiragana, 1 Katakana, 2 and 3 the marks of
// Hiragana, 4 and 5 those of Katakana, 6 anything else.
func vhWant(rs []rune, kinds []int) []rune {
	out := make([]rune, 0, len(rs))
	last, kind := rune(0), -1
	for i, r := range rs {
		k := kinds[i]
		if k >= 2 && k <= 5 {
			syl := (k - 2) / 2
			if kind == syl {
				t := vhH
				if syl == 1 {
					t = vhK
				}
				m := t.un
				if k%2 == 1 {
					m = t.vo
				}
				x, ok := m[last]
				if !ok {
					x = last
				}
				r, k = x, syl
			}
		}
		out = append(out, r)
		last, kind = r, k
	}
	return out
}

func vhLetter(k int) rune {
	switch k {
	case 0:
		return rt.RuneOf(vhHiraAll)
	case 1:
		return rt.RuneOf(vhKataAll)
	case 2:
		return 'ゝ'
	case 3:
		return 'ゞ'
	case 4:
		return 'ヽ'
	case 5:
		return 'ヾ'
	}
	return rt.RuneIn(0, 0x303f, 0x3100, 0xd7ff, 0xe000, 0x10ffff)
}

func vhMarks(n, first int) ([]rune, []int) {
	var rs []rune
	var kinds []int
	for i := 0; i < n; i++ {
		k := first
		if i > 0 {
			k = rt.Choice(7)
		}
		rs = append(rs, vhLetter(k))
		kinds = append(kinds, k)
	}
	return rs, kinds
}

// VH_marks: sequences of kana, marks and other letters.
func VH_marks(shard int) {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	rs, kinds := vhMarks(n, shard)
	rt.Observe("input", string(rs))
	got := repeatKana(string(rs))
	rt.Observe("got", got)
	want := string(vhWant(rs, kinds))
	rt.Observe("want", want)
	rt.Assert(got == want, "an iteration mark does not repeat the kana before it")
}

// VH_whole: the text the tokenizer gets has its marks resolved.
func VH_whole(shard int) {
	rs, kinds := vhMarks(3, shard)
	for i, k := range kinds {
		if k == 6 {
			rs[i] = '漢'
		}
	}
	in := string(rs)
	rt.Observe("input", in)
	got := ""
	split := kagome.Split
	kagome.Split = func(s string) []kagome.Token {
		got = s
		return []kagome.Token{{Class: kagome.DUMMY}, {Class: kagome.UNKNOWN, Surface: "x"}, {Class: kagome.DUMMY}}
	}
	out, err := T.Transliterate(in)
	kagome.Split = split
	rt.Assert(err == nil && out == "x", "the reading of the tokens is not returned")
	rt.Observe("got", got)
	want := string(vhWant(rs, kinds))
	rt.Observe("want", want)
	rt.Assert(got == want, "the tokenizer gets another text")
}

// VH_long: marks after a long text, also after many marks.
func VH_long(shard int) {
	n := []int{20, 100, 500}[shard%3]
	var rs []rune
	var kinds []int
	for i := 0; i < n; i++ {
		rs = append(rs, []rune("かゞ漢タヽヾ")[i%6])
		kinds = append(kinds, []int{0, 3, 6, 1, 4, 5}[i%6])
	}
	if shard >= 3 {
		// nothing but marks
		for i := 1; i < n; i++ {
			rs[i], kinds[i] = []rune("ゝゞ")[i%2], 2+i%2
		}
	}
	more, mk := vhMarks(2, 0)
	rs, kinds = append(rs, more...), append(kinds, mk...)
	rt.Observe("input", string(rs))
	got := repeatKana(string(rs))
	rt.Observe("got", got)
	want := string(vhWant(rs, kinds))
	rt.Observe("want", want)
	rt.Assert(got == want, "an iteration mark does not repeat the kana before it")
}
