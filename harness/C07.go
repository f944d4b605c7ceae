package c07

import (
	"strings"
	"unicode"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

const jpn = "。、：！？〜「」『』"

var kor = []string{". ", ", ", ": ", "! ", "? ", "~", " '", "' ", " \"", "\" "}

var names = []string{"Hrkt", "Latn", "Cyrl", "Geor", "Grek"}

// shown is the localized mark.
func shown(r rune, i int) string {
	for k, p := range []rune(jpn) {
		if r == p {
			return kor[k]
		}
	}
	return string(r)
}

// want is the text without zero-width spaces and with its punctuation
// localized. The letters belong to no script with rules.
func want(rs []rune, japanese bool) string {
	// a run of spaces is one space
	var mid []rune
	space := false
	for _, r := range rs {
		if unicode.IsSpace(r) {
			if !space {
				mid = append(mid, ' ')
			}
			space = true
			continue
		}
		space = false
		mid = append(mid, r)
	}
	var in []rune
	for _, r := range mid {
		if r != 0x200b {
			in = append(in, r)
		}
	}
	stop := func(i int) bool {
		if i < 0 || i >= len(in) {
			return true
		}
		return in[i] == ' ' || unicode.IsPunct(in[i])
	}
	var b strings.Builder
	for i, r := range in {
		if !japanese {
			b.WriteRune(r)
			continue
		}
		k := strings.IndexRune(jpn, r)
		if k < 0 {
			b.WriteRune(r)
			continue
		}
		s := shown(r, i)
		if s[0] == ' ' && stop(i-1) {
			s = s[1:]
		}
		if n := len(s) - 1; n >= 0 && s[n] == ' ' && stop(i+1) {
			s = s[:n]
		}
		b.WriteString(s)
	}
	return b.String()
}

func script(k int) hangulize.Hangulizer {
	spec, err := hangulize.ParseSpec(strings.NewReader("lang:\n id = \"x\"\n codes = \"x\", \"xxx\"\n script = \"" + names[k] + "\"\n"))
	rt.Assert(err == nil, "the specification is rejected")
	return hangulize.New(spec)
}

func check(k int, word, out string) {
	rt.Observe("input", word)
	got, err := script(k).Hangulize(word)
	rt.Assert(err == nil, "the word is rejected")
	rt.Observe("got", got)
	rt.Observe("want", out)
	rt.Assert(got == out, "punctuation or spacing differs")
}

// letter is a symbolic letter of one of the classes of a Japanese text.
func letter(class int) rune {
	switch class {
	case 0:
		return rt.RuneOf(jpn)
	case 1: // other punctuation
		return rt.RuneIn('!', '#', '%', '*', ',', '/', ':', ';', '?', '@', '[', ']', '_', '_', '{', '{', '}', '}',
			0xa1, 0xa1, 0xb7, 0xb7, 0x2010, 0x2027, 0x3003, 0x3003, 0x3008, 0x300b, 0x3010, 0x3011, 0xff01, 0xff03, 0xff0c, 0xff0f)
	case 2: // spaces
		return rt.RuneOf(" \t\u00a0\u3000\u2003")
	case 3:
		return 0x200b
	case 4: // Hangul and Han
		return rt.RuneIn(0xac00, 0xd7a3, 0x4e00, 0x9fff)
	}
	// Latin letters, digits, symbols and whatever else is not kana
	return rt.RuneIn('0', '9', 'A', 'Z', 'a', 'z', '$', '$', '+', '+', '<', '>', 0x391, 0x3a9, 0x1f300, 0x1f5ff)
}

func text(n, first int) []rune {
	var rs []rune
	for i := 0; i < n; i++ {
		c := first
		if i > 0 {
			c = rt.Choice(6)
		}
		rs = append(rs, letter(c))
	}
	return rs
}

// VH_japanese: a text of marks, spaces and letters in a Japanese result.
func VH_japanese(shard int) {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rs := text(n, shard)
	check(0, string(rs), want(rs, true))
}

// VH_any: two letters which may be any code point outside kana.
func VH_any(shard int) {
	var rs []rune
	for i := 0; i < 2; i++ {
		rs = append(rs, rt.RuneIn(0, 0x2fff, 0x3000, 0x3040, 0x30a0, 0x30a0, 0x30fb, 0x30fb, 0x3100, 0x31ef, 0x3200, 0x32cf, 0x3358, 0xd7ff, 0xe000, 0xff65, 0xffa0, 0x1aefd, 0x1b200, 0x1f1ff, 0x1f300, 0x10ffff))
	}
	if shard > 0 {
		rs = append(rs, rt.RuneOf(jpn))
	}
	check(0, string(rs), want(rs, true))
}

// VH_long: the same at the end of a long text.
func VH_long(shard int) {
	rs := text(2, shard)
	pad := []rune(lib.Pad("가나。", 150))
	rs = append(append(append([]rune{}, pad...), rs...), '가')
	check(0, string(rs), want(rs, true))
}

// VH_other: in the other scripts punctuation stays.
func VH_other(shard int) {
	var rs []rune
	for i := 0; i < 3; i++ {
		rs = append(rs, letter(rt.Choice(5)))
	}
	check(shard+1, string(rs), want(rs, false))
}
