// Package lib holds the oracles and inputs shared by the harnesses.
package lib

import (
	"strings"

	"github.com/hangulize/hangulize/internal/verifrt"
)

// The jamo in the order of the syllables.
const (
	Leads  = "ㄱㄲㄴㄷㄸㄹㅁㅂㅃㅅㅆㅇㅈㅉㅊㅋㅌㅍㅎ"
	Vowels = "ㅏㅐㅑㅒㅓㅔㅕㅖㅗㅘㅙㅚㅛㅜㅝㅞㅟㅠㅡㅢㅣ"
	Tails  = "ㄱㄲㄳㄴㄵㄶㄷㄹㄺㄻㄼㄽㄾㄿㅀㅁㅂㅄㅅㅆㅇㅈㅊㅋㅌㅍㅎ"
)

var open, closed []rune

var leadIdx, tailIdx [0x3164 - 0x3131]int32

func init() {
	i := int32(0)
	for _, r := range Leads {
		leadIdx[r-0x3131] = i
		i++
	}
	for r := rune(0xac00); r <= 0xd7a3; r++ {
		if (r-0xac00)%28 == 0 {
			open = append(open, r, r)
			closed = append(closed, r+1, r+27)
		}
	}
	i = 1
	for _, r := range Tails {
		tailIdx[r-0x3131] = i
		i++
	}
}

// Syl is the syllable of a lead, a vowel and a tail; 0 for a missing one.
func Syl(l, v, t rune) rune {
	li := rune(11)
	if l != 0 {
		li = leadIdx[l-0x3131]
	}
	vi := rune(18)
	if v != 0 {
		vi = v - 'ㅏ'
	}
	ti := rune(0)
	if t != 0 {
		ti = tailIdx[t-0x3131]
	}
	return 0xac00 + (li*21+vi)*28 + ti
}

// Lead, Vowel and Tail are any phoneme.
func Lead() rune  { return verifrt.RuneOf(Leads) }
func Vowel() rune { return verifrt.RuneOf(Vowels) }
func Tail() rune  { return verifrt.RuneOf(Tails) }

// Syllable is any composed syllable.
func Syllable() rune { return verifrt.RuneIn(0xac00, 0xd7a3) }

// OpenSyllable is any syllable without a tail, ClosedSyllable any with one.
func OpenSyllable() rune   { return verifrt.RuneIn(open...) }
func ClosedSyllable() rune { return verifrt.RuneIn(closed...) }

// Foreign is any letter of so many bytes which is neither Hangul nor a hyphen.
func Foreign(bytes int) rune {
	switch bytes {
	case 1:
		return verifrt.RuneIn(0, '-'-1, '-'+1, 0x7f)
	case 2:
		return verifrt.RuneIn(0x80, 0x7ff)
	case 3:
		return verifrt.RuneIn(0x800, 0x10ff, 0x1200, 0x312f, 0x3190, 0xabff, 0xd7b0, 0xd7ff, 0xe000, 0xffff)
	}
	return verifrt.RuneIn(0x10000, 0x10ffff)
}

// Pad is a long concrete text.
func Pad(s string, n int) string { return strings.Repeat(s, n) }
