// Package runewidth stands in for go-runewidth: the width of a text is the sum
// of the widths of its letters.
package runewidth

import "unicode"

// RuneWidth is the number of columns of a letter.
func RuneWidth(r rune) int {
	switch {
	case r < 0x20 || r == 0x7f || r == 0x200b || unicode.Is(unicode.Mn, r):
		return 0
	case r >= 0x1100 && r <= 0x115f || r >= 0x2e80 && r <= 0xa4cf || r >= 0xac00 && r <= 0xd7a3 ||
		r >= 0xf900 && r <= 0xfaff || r >= 0xfe30 && r <= 0xfe6f || r >= 0xff00 && r <= 0xff60 ||
		r >= 0xffe0 && r <= 0xffe6 || r >= 0x1f300 && r <= 0x1faff || r >= 0x20000 && r <= 0x3fffd:
		return 2
	}
	return 1
}

// StringWidth is the number of columns of a text.
func StringWidth(s string) (width int) {
	for _, r := range s {
		width += RuneWidth(r)
	}
	return width
}

// FillRight pads a text on the right.
func FillRight(s string, w int) string {
	for n := w - StringWidth(s); n > 0; n-- {
		s += " "
	}
	return s
}

// FillLeft pads a text on the left.
func FillLeft(s string, w int) string {
	for n := w - StringWidth(s); n > 0; n-- {
		s = " " + s
	}
	return s
}
