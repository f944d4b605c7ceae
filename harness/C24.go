package cyrillic

import (
	_ "embed"
	"encoding/json"
	"strings"

	rt "github.com/hangulize/hangulize/internal/verifrt"
)

//go:embed dict.json
var vhJSON []byte

type vhEntry struct {
	src []rune
	dst string
}

// vhTable reads the mapping of a country anew.
func vhTable(country string) []vhEntry {
	var all map[string]struct {
		ToCyrillic map[string]string `json:"tocyrillic"`
	}
	if err := json.Unmarshal(vhJSON, &all); err != nil {
		panic(err)
	}
	var out []vhEntry
	for k, v := range all[country].ToCyrillic {
		i := 0
		r := []rune(k)
		for i < len(out) && len(out[i].src) >= len(r) {
			i++
		}
		out = append(out[:i:i], append([]vhEntry{{r, v}}, out[i:]...)...)
	}
	return out
}

// vhWant reads a text by the longest entries.
func vhWant(t []vhEntry, rs []rune) string {
	var b strings.Builder
next:
	for i := 0; i < len(rs); {
	entry:
		for _, e := range t {
			if i+len(e.src) > len(rs) {
				continue
			}
			for j, r := range e.src {
				if rs[i+j] != r {
					continue entry
				}
			}
			b.WriteString(e.dst)
			i += len(e.src)
			continue next
		}
		b.WriteRune(rs[i])
		i++
	}
	return b.String()
}

var vhCountries = []string{"bg", "mk", "ru", "ua"}

func vhJudge(shard int, rs []rune) {
	country := vhCountries[shard]
	table := vhTable(country)
	rt.Assert(len(Ts) == 4, "another number of transliterators")
	for _, t := range Ts {
		if t.Scheme() != "cyrillic["+country+"]" {
			continue
		}
		rt.Observe("input", string(rs))
		got, err := t.Transliterate(string(rs))
		rt.Observe("got", got)
		rt.Assert(err == nil, "a text is rejected")
		want := vhWant(table, rs)
		rt.Observe("want", want)
		rt.Assert(got == want, "the text is not read by the longest entries")
		again, err := t.Transliterate(got)
		cyr := true
		for _, r := range got {
			if r < 0x400 || r > 0x4ff {
				cyr = false
			}
		}
		if cyr {
			rt.Assert(err == nil && again == got, "a Cyrillic text changes")
		}
		return
	}
	rt.Assert(false, "a country has no transliterator")
}

// VH_text: texts of letters of the mapping and some others.
func VH_text(shard int) {
	letters := []string{"shtcyazSHTYuăd", "ljnjdžzDLsǴḱa", "shjaeiyock'wYSp", "jaeučščJŠsïxia"}[shard]
	var rs []rune
	for i := 0; i < 3; i++ {
		rs = append(rs, rt.RuneOf(letters+"я-"))
	}
	if rt.Thorough() {
		rs = append(rs, rt.RuneOf(letters))
	} else {
		rs = append(rs, rt.RuneOf(letters[:2]))
	}
	vhJudge(shard, rs)
}

// VH_pair: any two letters.
func VH_pair(shard int) {
	rs := []rune{rt.Rune(), rt.Rune()}
	if rt.Thorough() {
		rs = append(rs, rt.RuneIn(0, 0xff))
	}
	vhJudge(shard, rs)
}

// VH_cyrillic: any Cyrillic letters.
func VH_cyrillic(shard int) {
	rs := []rune{rt.RuneIn(0x400, 0x52f), rt.RuneIn(0x400, 0x52f, 0x2de0, 0x2dff, 0xa640, 0xa69f), rt.RuneIn(0x400, 0x52f)}
	vhJudge(shard, rs)
	for _, t := range Ts {
		got, _ := t.Transliterate(string(rs))
		rt.Assert(got == string(rs), "a Cyrillic text changes")
	}
}

// VH_long: letters in and after a long text.
func VH_long(shard int) {
	letters := []string{"shtcyazY", "ljnjdžL", "shjaock'", "jaeučščJ"}[shard%4]
	words := []string{"shtyaz x ", "ljubovdž", "shhjayo ", "ščjaj-я"}
	n := []int{5, 70}[rt.Choice(2)]
	l := []rune(letters)
	rs := []rune(strings.Repeat(words[shard%4], n))
	rs = append(rs, rt.RuneOf(letters), l[0], l[1])
	rs = append(rs, []rune(strings.Repeat(words[shard%4], n))...)
	vhJudge(shard%4, append(rs, rt.RuneOf(letters)))
}
