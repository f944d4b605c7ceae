package lib

import "unicode"

// InScript tells the letters of a script.
func InScript(script string, r rune) bool {
	switch script {
	case "Latn":
		return unicode.Is(unicode.Latin, r)
	case "Cyrl":
		return unicode.Is(unicode.Cyrillic, r) || unicode.Is(unicode.M, r)
	case "Grek":
		return unicode.Is(unicode.Greek, r)
	case "Geor":
		return unicode.Is(unicode.Georgian, r)
	case "Hrkt", "Kana":
		return unicode.Is(unicode.Hiragana, r) || unicode.Is(unicode.Katakana, r) || r == 0x30fc
	case "Pron", "Piny", "":
		return unicode.Is(unicode.Latin, r)
	}
	return false
}

// Add appends the letters which are not there yet.
func Add(to []rune, more []rune) []rune {
next:
	for _, r := range more {
		for _, x := range to {
			if x == r {
				continue next
			}
		}
		to = append(to, r)
	}
	return to
}
