package c01

import (
	"strings"

	"github.com/hangulize/hangulize/internal/jamo"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

// open is the syllable under construction, as the property describes it.
type open struct {
	any     bool
	l, v, t rune
	out     strings.Builder
}

func (o *open) flush() {
	if o.any {
		o.out.WriteRune(lib.Syl(o.l, o.v, o.t))
	}
	o.any, o.l, o.v, o.t = false, 0, 0, 0
}

// The jamo blocks of Unicode hold the same phonemes a second time: leads from
// U+1100, vowels from U+1161, tails from U+11A8.
var leads, vowels, tails = []rune(lib.Leads), []rune(lib.Vowels), []rune(lib.Tails)

// spelt writes any lead, vowel or tail in either of the two spellings. It
// returns the written letter and the phoneme.
func spelt(kind int) (rune, rune) {
	if rt.Choice(2) == 0 {
		r := []func() rune{lib.Lead, lib.Vowel, lib.Tail}[kind]()
		return r, r
	}
	switch kind {
	case 0:
		r := rt.RuneIn(0x1100, 0x1112)
		return r, leads[r-0x1100]
	case 1:
		r := rt.RuneIn(0x1161, 0x1175)
		return r, vowels[r-0x1161]
	}
	r := rt.RuneIn(0x11a8, 0x11c2)
	return r, tails[r-0x11a8]
}

// VH_spelt: the phonemes in both spellings, mixed.
func VH_spelt(shard int) {
	var in strings.Builder
	o := &open{}
	for i := 0; i < 3; i++ {
		k := shard
		if i > 0 {
			k = rt.Choice(3)
		}
		r, ph := spelt(k)
		if k == 2 {
			in.WriteByte('-')
		}
		in.WriteRune(r)
		if k == 0 && o.any || k == 1 && (o.v != 0 || o.t != 0) || k == 2 && o.t != 0 {
			o.flush()
		}
		o.any = true
		switch k {
		case 0:
			o.l = ph
		case 1:
			o.v = ph
		default:
			o.t = ph
		}
	}
	o.flush()
	input := in.String()
	rt.Observe("input", input)
	got := jamo.ComposeHangul(input)
	rt.Observe("got", got)
	want := o.out.String()
	rt.Observe("want", want)
	rt.Assert(got == want, "the phonemes compose into other letters than they denote")
}

func phonemes(prefix, preOut string, first, n, kinds int) {
	var in strings.Builder
	o := &open{}
	in.WriteString(prefix)
	o.out.WriteString(preOut)
	for i := 0; i < n; i++ {
		k := first
		if i > 0 {
			k = rt.Choice(kinds)
		}
		switch k {
		case 0:
			r := lib.Lead()
			in.WriteRune(r)
			o.flush()
			o.any, o.l = true, r
		case 1:
			r := lib.Vowel()
			in.WriteRune(r)
			if o.v != 0 || o.t != 0 {
				o.flush()
			}
			o.any, o.v = true, r
		case 2:
			r := lib.Tail()
			in.WriteByte('-')
			in.WriteRune(r)
			if o.t != 0 {
				o.flush()
			}
			o.any, o.t = true, r
		default:
			// 3: 1 byte, 4: 3 bytes, 5: 2 bytes, 6: 4 bytes
			r := lib.Foreign([]int{1, 3, 2, 4}[k-3])
			in.WriteRune(r)
			o.flush()
			o.out.WriteRune(r)
		}
	}
	o.flush()
	input := in.String()
	rt.Observe("input", input)
	got := jamo.ComposeHangul(input)
	rt.Observe("got", got)
	want := o.out.String()
	rt.Observe("want", want)
	rt.Assert(got == want, "the phonemes compose into other letters than they denote")
}

// VH_phonemes: sequences of phonemes and foreign letters.
func VH_phonemes(shard int) {
	if rt.Thorough() {
		phonemes("", "", shard, 6, 5)
	} else {
		phonemes("", "", shard, 4, 5)
	}
}

// VH_widths: foreign letters of every length.
func VH_widths(shard int) { phonemes("", "", shard, 3, 7) }

// VH_long: the same after a long text, around the reader's buffer end.
func VH_long(shard int) {
	k := rt.Choice(9)
	pad := lib.Pad("x", 4088+k)
	phonemes(pad, pad, shard, 3, 4)
}
