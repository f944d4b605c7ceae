package c02

import (
	"strings"

	"github.com/hangulize/hangulize/internal/jamo"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

func check(prefix string, in, out string) {
	in, out = prefix+in, prefix+out
	rt.Observe("input", in)
	got := jamo.ComposeHangul(in)
	rt.Observe("got", got)
	rt.Observe("want", out)
	rt.Assert(got == out, "composed Hangul does not survive composition")
}

// VH_identity: text of syllables and foreign letters comes back.
func VH_identity(shard int) {
	n := 4
	if rt.Thorough() {
		n = 6
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		k := shard
		if i > 0 {
			k = rt.Choice(5)
		}
		if k == 4 {
			b.WriteRune(lib.Syllable())
		} else {
			b.WriteRune(lib.Foreign(k + 1))
		}
	}
	check("", b.String(), b.String())
}

// VH_split: the phonemes of any syllable compose back to it.
func VH_split(shard int) {
	n := 3
	if rt.Thorough() {
		n = 5
	}
	var in, out strings.Builder
	for i := 0; i < n; i++ {
		l, v := lib.Lead(), lib.Vowel()
		in.WriteRune(l)
		in.WriteRune(v)
		t := rune(0)
		if rt.Choice(2) == 1 {
			t = lib.Tail()
			in.WriteByte('-')
			in.WriteRune(t)
		}
		out.WriteRune(lib.Syl(l, v, t))
	}
	check("", in.String(), out.String())
}

// VH_tail: a tail after a composed syllable, with letters around.
func VH_tail(shard int) {
	var in, out strings.Builder
	put := func() {
		switch rt.Choice(4) {
		case 0:
		case 1:
			r := lib.Syllable()
			in.WriteRune(r)
			out.WriteRune(r)
		case 2:
			r := lib.Foreign(1)
			in.WriteRune(r)
			out.WriteRune(r)
		case 3:
			l, v := lib.Lead(), lib.Vowel()
			in.WriteRune(l)
			in.WriteRune(v)
			out.WriteRune(lib.Syl(l, v, 0))
		}
	}
	put()
	n := 1
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		t := lib.Tail()
		var s rune
		if shard == 0 {
			s = lib.OpenSyllable()
		} else {
			s = lib.ClosedSyllable()
		}
		in.WriteRune(s)
		in.WriteByte('-')
		in.WriteRune(t)
		if shard == 0 {
			out.WriteRune(s + lib.Syl('ㄱ', 'ㅏ', t) - 0xac00)
		} else {
			rt.Assume((s-0xac00)%28 != 0)
			out.WriteRune(s)
			out.WriteRune(lib.Syl(0, 0, t))
		}
		put()
	}
	check("", in.String(), out.String())
}

// VH_long: a composed syllable and a tail at the end of the reader's buffer.
func VH_long(shard int) {
	s, t := lib.OpenSyllable(), lib.Tail()
	k := rt.Choice(8)
	check(lib.Pad("가", 1362)+lib.Pad("x", k+8*shard), string(s)+"-"+string(t), string(s+lib.Syl('ㄱ', 'ㅏ', t)-0xac00))
}

// VH_between: a composed syllable between phonemes, which it does not take.
func VH_between(shard int) {
	var in, out strings.Builder
	put := func(k int) {
		switch k {
		case 0:
			l := lib.Lead()
			in.WriteRune(l)
			out.WriteRune(lib.Syl(l, 0, 0))
		case 1:
			v := lib.Vowel()
			in.WriteRune(v)
			out.WriteRune(lib.Syl(0, v, 0))
		case 2:
			l, v := lib.Lead(), lib.Vowel()
			in.WriteRune(l)
			in.WriteRune(v)
			out.WriteRune(lib.Syl(l, v, 0))
		case 3:
			l, t := lib.Lead(), lib.Tail()
			in.WriteString(string([]rune{l, '-', t}))
			out.WriteRune(lib.Syl(l, 0, t))
		case 4:
			r := lib.Foreign(1)
			in.WriteRune(r)
			out.WriteRune(r)
		}
	}
	put(shard % 6)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		s := lib.Syllable()
		if shard/6 == 0 && i == 0 {
			s = lib.OpenSyllable()
		}
		in.WriteRune(s)
		out.WriteRune(s)
		put(rt.Choice(6))
	}
	check("", in.String(), out.String())
}
