package c18

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
)

const head = "lang:\n id = \"x\"\n codes = \"x\", \"xx\"\n script = \"Latn\"\n"

// sources have macros, variables and letters whose names are parts of others.
var sources = []string{
	head + "macros:\n \"@\" = \"b\"\n \"@@\" = \"a\"\n \"@@@\" = \"ab\"\ntranscribe:\n \"@@@\" -> \"가\"\n \"@@\" -> \"나\"\n \"@\" -> \"다\"\n",
	head + "macros:\n \"@\" = \"a\"\n \"#\" = \"@\"\n \"@#\" = \"b\"\nvars:\n v = a, b\n vv = b, c\ntranscribe:\n \"#@\" -> \"가\"\n \"@#{@}\" -> \"나\"\n \"<v>\" -> \"<vv>\"\n \"@#\" -> \"다\"\n \"a\" -> \"라\"\n",
	head + "normalize:\n \"c\" = \"ab\"\n \"b\" = \"a\"\n \"a\" = \"abb\"\ntranscribe:\n a -> \"가\"\n b -> \"나\"\n c -> \"다\"\n",
	head + "normalize:\n \"a\" = \"Á\", \"b\"\n \"c\" = \"b\", \"É\"\n \"b\" = \"É\", \"Á\"\ntranscribe:\n a -> \"가\"\n b -> \"나\"\n c -> \"다\"\n",
	head + "macros:\n \"a\" = \"b\"\n \"b\" = \"c\"\n \"c\" = \"a\"\nvars:\n a = x, y\n b = y, x\nrewrite:\n \"a\" -> \"bc\"\n \"<a>\" -> \"<b>\"\ntranscribe:\n a -> \"가\"\n b -> \"나\"\n c -> \"다\"\n x -> \"라\"\n",
	head + "macros:\n \"<\" = \"{\"\n \"<<\" = \"{~\"\ntranscribe:\n \"a<b}\" -> \"가\"\n \"a<<c}\" -> \"나\"\n b -> \"다\"\n",
}

// wanted are the results of some words, by the longest names and letters.
var wanted = []map[string]string{
	{"ab": "가", "aab": "나가", "a": "나", "b": "다", "ba": "다나", "aa": "나나", "bb": "다다"},
	nil,
	{"ab": "다", "abb": "가", "aab": "나다", "a": "나", "ba": "나나", "abbb": "가나", "aa": "나나", "bb": "나나"},
	nil,
	nil,
	{"ab": "가다", "a": "나", "b": "다", "ac": ""},
}

// VH_orders: parsing in every order and transcribing.
func VH_orders(shard int) {
	src := sources[shard/2]
	alphabet := "abc"
	if shard/2 == 3 {
		alphabet = "abÁÉ"
	}
	if shard/2 == 4 {
		alphabet = "abx"
	}
	var rs []rune
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf(alphabet))
	}
	if shard%2 == 1 || shard == 8 {
		rs = rs[:2]
	}
	word := string(rs)
	rt.Observe("input", word)
	one, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	want, err := hangulize.New(one).Hangulize(word)
	rt.Assert(err == nil, "transcribing fails")
	for k, v := range wanted[shard/2] {
		if k == word {
			rt.Assert(v == want, "a shorter name wins")
		}
	}
	rt.MapOrder(5)
	two, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected in another order")
	got, err := hangulize.New(two).Hangulize(word)
	rt.MapOrder(0)
	rt.Assert(err == nil && got == want, "the order of a map changes a result")
}

// VH_names: macros and letters of any names.
func VH_names(shard int) {
	name := func() string {
		s := string(rt.RuneIn('@', 'C'))
		if rt.Choice(2) == 1 {
			s += string(rt.RuneIn('@', 'C'))
		}
		return s
	}
	a, b := name(), name()
	rt.Assume(a != b)
	src := head
	if shard < 2 {
		src += "macros:\n \"" + a + "\" = \"x\"\n \"" + b + "\" = \"y\"\ntranscribe:\n \"" + a + b + "\" -> \"가\"\n \"" + b + "\" -> \"나\"\n \"x\" -> \"다\"\n"
	} else {
		src += "normalize:\n x = \"" + a + "\"\n y = \"" + b + "\"\ntranscribe:\n xy -> \"가\"\n y -> \"나\"\n x -> \"다\"\n"
	}
	word := []string{"xy", "yx", a + b, b + a + b}[shard]
	rt.Observe("source", src)
	rt.Observe("input", word)
	run := func() string {
		s, err := hangulize.ParseSpec(strings.NewReader(src))
		rt.Assert(err == nil, "a specification is rejected")
		got, err := hangulize.New(s).Hangulize(word)
		rt.Assert(err == nil, "transcribing fails")
		return got
	}
	want := run()
	rt.MapOrder(2)
	got := run()
	rt.MapOrder(0)
	rt.Observe("got", want)
	rt.Assert(got == want, "the order of a map changes a result")
}

// VH_bundled: the bundled specifications, parsed and used in other orders.
func VH_bundled(shard int) {
	langs := hangulize.ListLangs()
	if shard >= len(langs) {
		return
	}
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
	lang := langs[shard]
	rt.Observe("language", lang)
	hangulize.UnloadSpec(lang)
	one, err := hangulize.LoadSpec(lang)
	rt.Assert(err == nil, "a listed language is not loaded")
	for o := 1 + rt.Choice(2); ; {
		rt.MapOrder([]int{0, 1, 4}[o])
		two, err := hangulize.ParseSpec(strings.NewReader(one.Source))
		rt.MapOrder(0)
		rt.Assert(err == nil, "a specification is rejected in another order")
		rt.Assert(len(one.Rewrite) == len(two.Rewrite) && len(one.Transcribe) == len(two.Transcribe), "the order of a map changes the number of rules")
		for i := range one.Rewrite {
			sameRule(one.Rewrite[i], two.Rewrite[i])
		}
		for i := range one.Transcribe {
			sameRule(one.Transcribe[i], two.Transcribe[i])
		}
		// letters of the custom normalization, and others
		var letters []rune
		for to, froms := range one.Normalize {
			letters = append(letters, []rune(to)...)
			for _, f := range froms {
				letters = append(letters, []rune(f)...)
			}
		}
		letters = append(letters, 'a', 'Z', 'я', '!', ' ')
		letters = letters[:len(letters):len(letters)]
		word := string(rt.RuneOf(string(letters)))
		if len(one.Lang.Translit) > 0 {
			return
		}
		a, err := hangulize.New(one).Hangulize(word)
		rt.Assert(err == nil, "transcribing fails")
		rt.MapOrder([]int{0, 1, 4}[o])
		b, err := hangulize.New(two).Hangulize(word)
		rt.MapOrder(0)
		rt.Assert(err == nil && a == b, "the order of a map changes a result")
		return
	}
}

func sameRule(a, b hangulize.Rule) {
	rt.Assert(a.String() == b.String(), "the order of a map changes a rule")
	rt.Assert(a.From.Explain() == b.From.Explain(), "the order of a map changes a pattern")
}
