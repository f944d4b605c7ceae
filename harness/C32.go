package c32

import (
	"strings"
	"unicode"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

// The marks: punctuation, and others which are none.
const marks = "-!'’「·_%&@#:;,—¿،𐬹=°1中"
const puncts = "-!'’「·_%&@#:;,—¿،𐬹"

var scripts = []string{"Latn", "Cyrl", "Grek", "Geor", "Hrkt", ""}
var letters = []string{"a", "а", "α", "ა", "ア", "a"}
var others = []string{"b", "б", "β", "ბ", "イ", "b"}

// A form is a specification which names a mark, or not.
type form struct {
	rewrite, transcribe []lib.Rule
	macros, vars        string
	letter              bool // a letter of the script takes part
}

func (f form) with(p, l, k string) form {
	fill := func(rs []lib.Rule) []lib.Rule {
		var out []lib.Rule
		for _, r := range rs {
			rep := strings.NewReplacer("P", p, "L", l, "K", k)
			out = append(out, lib.Rule{From: rep.Replace(r.From), To: rep.Replace(r.To)})
		}
		return out
	}
	f.rewrite, f.transcribe = fill(f.rewrite), fill(f.transcribe)
	f.macros, f.vars = strings.Replace(f.macros, "P", p, -1), strings.NewReplacer("P", p, "K", k).Replace(f.vars)
	return f
}

var forms = []form{
	{transcribe: []lib.Rule{{From: "P", To: "가"}}},
	{transcribe: []lib.Rule{{From: "L", To: "가"}}, letter: true},
	{transcribe: []lib.Rule{{From: "{P}L", To: "가"}, {From: "L", To: "나"}}, letter: true},
	{transcribe: []lib.Rule{{From: "L{~P}", To: "가"}, {From: "L", To: "나"}}, letter: true},
	{transcribe: []lib.Rule{{From: "{P|KK}K", To: "나"}, {From: "[P?]", To: "가"}}, letter: true},
	{transcribe: []lib.Rule{{From: "~~L", To: "다"}, {From: "~~", To: "가"}}, macros: "    \"~~\" = \"P\"\n", letter: true},
	{transcribe: []lib.Rule{{From: "<v>", To: "가"}, {From: "L", To: "나"}}, vars: "    \"v\" = \"KK\", \"P\"\n", letter: true},
	{rewrite: []lib.Rule{{From: "P", To: "K"}}, transcribe: []lib.Rule{{From: "K", To: "가"}}, letter: true},
	{rewrite: []lib.Rule{{From: "L", To: "P"}, {From: "PK", To: "L"}}, transcribe: []lib.Rule{{From: "P", To: "가"}, {From: "L", To: "나"}}, letter: true},
	{rewrite: []lib.Rule{{From: "P", To: "K"}, {From: "L", To: "P"}}, transcribe: []lib.Rule{{From: "P", To: "가"}, {From: "K", To: "나"}}, letter: true},
	{rewrite: []lib.Rule{{From: "PL", To: "PK"}}, transcribe: []lib.Rule{{From: "P", To: "가"}, {From: "K", To: "나"}}, letter: true},
	{rewrite: []lib.Rule{{From: "K", To: "L"}, {From: "L{P}", To: "KK"}}, transcribe: []lib.Rule{{From: "K", To: "나"}}, letter: true},
	{transcribe: []lib.Rule{{From: "{~P}L", To: "가"}, {From: "L", To: "나"}}, letter: true},
	{rewrite: []lib.Rule{{From: "{L}P", To: "K"}, {From: "L", To: "P"}, {From: "P{L}", To: "K"}}, transcribe: []lib.Rule{{From: "P", To: "가"}, {From: "K", To: "나"}}, letter: true},
	{rewrite: []lib.Rule{{From: "{P}K", To: "L"}}, transcribe: []lib.Rule{{From: "L", To: "P"}, {From: "P", To: "가"}}, letter: true},
}

func source(script string, f form) string {
	src := lib.Source(script, f.rewrite, f.transcribe)
	if f.macros != "" {
		src += "macros:\n" + f.macros
	}
	if f.vars != "" {
		src += "vars:\n" + f.vars
	}
	return src
}

// plain has no macros and variables.
func (f form) plain(p, k string) []lib.Rule {
	var out []lib.Rule
	for _, r := range f.transcribe {
		out = append(out, lib.Rule{From: strings.NewReplacer("~~", p, "<v>", "("+k+k+"|"+p+")").Replace(r.From), To: r.To})
	}
	return out
}

func judge(spec *hangulize.Spec, script string, rs []rune, p rune, f form, k string) {
	tr := f.plain(string(p), k)
	// The mark is a letter of the word if a rule names it before one writes it.
	named := false
	if strings.ContainsRune(puncts, p) {
		wrote := false
		for i, r := range append(append([]lib.Rule(nil), f.rewrite...), tr...) {
			wrote = wrote || i < len(f.rewrite) && strings.ContainsRune(r.To, p)
			named = named || !wrote && strings.ContainsRune(r.From, p)
		}
	}
	var cs []lib.Cell
	for _, r := range rs {
		c := lib.Cell{R: r}
		switch {
		case unicode.IsSpace(r):
			c = lib.Cell{R: ' ', Level: 1}
		case lib.InScript(script, r):
			c.Level = 1
		case r == p && named:
			c.Level = 1
		}
		cs = append(cs, c)
	}
	want := lib.Transcribe(lib.Rewrite(cs, f.rewrite), tr)
	want = strings.Replace(want, "\u200b", "", -1)
	rt.Observe("input", string(rs))
	got, err := hangulize.New(spec).Hangulize(string(rs))
	rt.Observe("got", got)
	rt.Observe("want", want)
	rt.Assert(err == nil, "transcribing fails")
	rt.Assert(got == want, "the rules reach other letters than those of the script, spaces and the marks they name")
}

func pick(shard int) (int, rune, form, *hangulize.Spec) {
	s := rt.Choice(len(scripts))
	ms := []rune(marks)
	p := ms[rt.Choice(len(ms))]
	// Japanese marks are localized, whether a rule names them or not.
	rt.Assume(scripts[s] != "Hrkt" || p != '「')
	// A hyphen in a result marks a tail.
	rt.Assume(shard != 14 || p != '-')
	f := forms[shard].with(string(p), letters[s], others[s])
	src := source(scripts[s], f)
	rt.Observe("source", src)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	return s, p, f, spec
}

// VH_words: words of the mark, letters, spaces and others.
func VH_words(shard int) {
	s, p, f, spec := pick(shard)
	all := string(p) + letters[s] + others[s] + " ;"
	n := 3
	if rt.Thorough() {
		n = 4
	}
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf(all))
	}
	judge(spec, scripts[s], rs, p, f, others[s])
}

// VH_any: any letter next to the mark.
func VH_any(shard int) {
	s, p, f, spec := pick(shard)
	r := rt.Rune()
	rt.Assume(scripts[s] != "Hrkt" || r < 0x3000 || r > 0xffff)
	rt.Assume(!f.letter || !lib.InScript(scripts[s], r))
	rs := []rune{r, p}
	if rt.Choice(2) == 1 {
		rs = []rune{p, r}
	}
	judge(spec, scripts[s], rs, p, f, others[s])
}
