// Package pinyin stands in for go-pinyin: readings of Han characters depend on
// the code point, the style and the heteronym switch.
package pinyin

// The styles, as in go-pinyin.
const (
	Normal      = 0
	Tone        = 1
	Tone2       = 2
	Tone3       = 8
	Initials    = 3
	FirstLetter = 4
	Finals      = 5
	FinalsTone  = 6
	FinalsTone2 = 7
	FinalsTone3 = 9

	NORMAL       = Normal
	TONE         = Tone
	TONE2        = Tone2
	INITIALS     = Initials
	FIRST_LETTER = FirstLetter
	FINALS       = Finals
	FINALS_TONE  = FinalsTone
	FINALS_TONE2 = FinalsTone2
)

// Args select the readings.
type Args struct {
	Style     int
	Heteronym bool
	Separator string
	Fallback  func(r rune, a Args) []string
}

// The defaults.
var (
	Style     = Normal
	Heteronym = false
	Separator = "-"
	Fallback  = func(r rune, a Args) []string { return []string{} }
)

// NewArgs are the defaults.
func NewArgs() Args { return Args{Style, Heteronym, Separator, Fallback} }

// Reading is what this stand-in says about a letter.
func Reading(r rune) []string {
	if r < 0x4e00 || r > 0x9fff {
		return nil
	}
	switch r & 3 {
	case 1:
		return []string{"a"}
	case 2:
		return []string{"yi", "ni"}
	case 3:
		return []string{"zhang", "chang"}
	}
	return nil
}

// SinglePinyin are the readings of a character.
func SinglePinyin(r rune, a Args) []string {
	py := append([]string{}, Reading(r)...)
	if len(py) == 0 {
		if a.Fallback == nil {
			return []string{}
		}
		py = a.Fallback(r, a)
	}
	if len(py) > 1 && !a.Heteronym {
		py = py[:1]
	}
	if a.Style != Normal {
		for i := range py {
			py[i] += "1"
		}
	}
	return py
}

// Pinyin are the readings of a text.
func Pinyin(s string, a Args) [][]string {
	pys := [][]string{}
	for _, r := range s {
		if py := SinglePinyin(r, a); len(py) > 0 {
			pys = append(pys, py)
		}
	}
	return pys
}

// LazyPinyin are the first readings of a text.
func LazyPinyin(s string, a Args) []string {
	a.Heteronym = false
	pys := []string{}
	for _, py := range Pinyin(s, a) {
		pys = append(pys, py[0])
	}
	return pys
}

// LazyConvert is LazyPinyin.
func LazyConvert(s string, a *Args) []string {
	if a == nil {
		args := NewArgs()
		a = &args
	}
	return LazyPinyin(s, *a)
}

// Convert is Pinyin.
func Convert(s string, a *Args) [][]string {
	if a == nil {
		args := NewArgs()
		a = &args
	}
	return Pinyin(s, *a)
}
