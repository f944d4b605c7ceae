package c23

import (
	"strings"

	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/translit/pinyin"
	goPinyin "github.com/mozillazg/go-pinyin"
)

// VH_text: texts of Han characters with and without readings and of others.
func VH_text(shard int) {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	var ps []part
	for i := 0; i < n; i++ {
		k := shard
		if i > 0 {
			k = rt.Choice(6)
		}
		ps = append(ps, letter(k))
	}
	judge(ps)
}

// part is a letter of a text and what becomes of it.
type part struct {
	in      string
	reading bool
	out     string
}

// composed are letters which are written in another way in NFC.
var composed = []part{
	{"\uf90a", true, "a"},       // U+91D1
	{"\uf900", false, "\u8c48"}, // has no reading
	{"e\u0301", false, "\u00e9"},
	{"か\u3099", false, "が"},
}

func letter(k int) part {
	switch k {
	case 0, 1:
		r := rt.RuneIn(0x4e00, 0x9fff)
		py := goPinyin.Reading(r)
		if len(py) == 0 {
			return part{string(r), false, string(r)}
		}
		return part{string(r), true, py[0]}
	case 2:
		r := string(rt.RuneIn(0, 0x7f))
		return part{r, false, r}
	case 3:
		r := string(rt.RuneIn('ぁ', 'ん', 'ァ', 'ヴ', 0x2460, 0x24ff, 0xfb00, 0xfb06, 0xff01, 0xff9d))
		return part{r, false, r}
	case 4:
		r := string(rt.RuneIn(0x1f600, 0x1f64f, 0x200b, 0x200b))
		return part{r, false, r}
	}
	return composed[rt.Choice(len(composed))]
}

func judge(ps []part) {
	var in, want strings.Builder
	open := false // a run of other letters goes on
	for i, p := range ps {
		in.WriteString(p.in)
		if i > 0 && (p.reading || !open) {
			want.WriteString("\u200b")
		}
		want.WriteString(p.out)
		open = !p.reading
	}
	rt.Observe("input", in.String())
	got, err := pinyin.T.Transliterate(in.String())
	rt.Observe("got", got)
	rt.Observe("want", want.String())
	rt.Assert(err == nil, "a text is rejected")
	rt.Assert(got == want.String(), "the chunks differ")
}

// VH_long: a long text.
func VH_long(shard int) {
	var ps []part
	for i := 0; i < 50; i++ {
		p := part{"㐀", false, "㐀"}
		if i%(2+shard) == 0 {
			p = part{"中", true, goPinyin.Reading('丁')[0]}
			p.in = "丁"
		}
		if i >= 46 {
			p = letter(rt.Choice(3))
		}
		ps = append(ps, p)
	}
	judge(ps)
}

// VH_empty: the empty text.
func VH_empty(shard int) { judge(nil) }
