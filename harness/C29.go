package c29

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/translit"
)

// identity hands a word over as it is.
type identity string

func (s identity) Scheme() string                         { return string(s) }
func (s identity) Transliterate(w string) (string, error) { return w, nil }

func show(s string, err error) string {
	if err != nil {
		return s + "!" + err.Error()
	}
	return s
}

// VH_langs: calls on a bundled language.
func VH_langs(shard int) {
	langs := hangulize.ListLangs()
	rt.Assume(shard < len(langs))
	lang := langs[shard]
	rt.Observe("language", lang)
	spec, err := hangulize.LoadSpec(lang)
	rt.Assert(err == nil, "a listed language is not loaded")
	h := hangulize.New(spec)
	for _, s := range spec.Lang.Translit {
		h.UseTranslit(identity(s))
		hangulize.UseTranslit(identity(s))
	}
	how := rt.Choice(5)
	word := spec.Test[0][0]
	if how != 0 && how != 3 && !rt.Thorough() {
		// one word is enough for what differs from the others
		word += "a"
	} else {
		word += string(rt.Rune())
	}
	rt.Observe("input", word)
	rt.Observe("how", how)
	var got string
	switch how {
	case 0:
		got = rt.Shared(func() string { return show(h.Hangulize(word)) })
	case 1:
		h.Trace(func(hangulize.Trace) {})
		got = rt.Shared(func() string { return show(h.Hangulize(word)) })
	case 2:
		got = rt.Shared(func() string {
			h := hangulize.New(spec)
			for _, s := range spec.Lang.Translit {
				h.UseTranslit(identity(s))
			}
			return show(h.Hangulize(word))
		})
	case 3:
		got = rt.Shared(func() string { return show(hangulize.Hangulize(lang, word)) })
		// what the first calls left behind is shared by the next ones
		got = rt.Shared(func() string { return show(hangulize.Hangulize(lang, word)) })
	case 4:
		hangulize.UnloadSpec(lang)
		got = rt.Shared(func() string {
			r := show(hangulize.Hangulize(lang, word))
			hangulize.UnloadSpec(lang)
			return r
		})
	}
	want := show(h.Hangulize(word))
	rt.Observe("got", got)
	rt.Assert(got == want, "the result is not the one of a single call")
}

// small is a specification with all that a specification may have.
const small = `
lang:
    id = "x"
    codes = "xx", "xxx"
    script = "Latn"

config:
    author = "x"

macros:
    "@" = "<v>"

vars:
    "v" = "a", "o"
    "w" = "e", "u"

normalize:
    "a" = "ä", "â"

rewrite:
    "^<v>" -> "<w>"
    "b{@}" -> "c"
    "{d}b" -> "e-"
    "~" -> ""

transcribe:
    "a{~b}" -> "ㅏ"
    "e" -> "ㅔ"
    "b" -> "ㅂ"
    "c$" -> "-ㄱ"
    "c" -> "ㅋ"
    "u" -> "ㅜ"
    "-" -> "-ㄴ"
`

// VH_small: words of letters, two calls in a row.
func VH_small(shard int) {
	spec, err := hangulize.ParseSpec(strings.NewReader(small))
	rt.Assert(err == nil, "the specification is rejected")
	a := "abcdÄ ~"
	if rt.Thorough() {
		a = "abcdeÄâ ~."
	}
	var ws [2]string
	for i := range ws {
		n := 1 + rt.Choice(2)
		for j := 0; j < n; j++ {
			ws[i] += string(rt.RuneOf(a))
		}
	}
	rt.Observe("input", ws[0]+"|"+ws[1])
	h := hangulize.New(spec)
	f := func() string { return show(h.Hangulize(ws[0])) + "|" + show(h.Hangulize(ws[1])) }
	if shard == 1 {
		got := rt.Shared(func() string { return show(h.Hangulize(ws[0])) })
		got += "|" + rt.Shared(func() string { return show(h.Hangulize(ws[1])) })
		rt.Observe("got", got)
		rt.Assert(got == f(), "the result is not the one of a single call")
		return
	}
	got := rt.Shared(f)
	rt.Observe("got", got)
	rt.Assert(got == f(), "the result is not the one of a single call")
}

// VH_translits: the standard transliterators, from the first call on.
func VH_translits(shard int) {
	ts := translit.Translits()
	rt.Assume(shard < len(ts))
	t := ts[shard]
	rt.Observe("scheme", t.Scheme())
	word := string(rt.Rune()) + string(rt.RuneOf("aжカゝ々中アー"))
	rt.Observe("input", word)
	f := func() string { return show(t.Transliterate(word)) }
	got := rt.Shared(f)
	got = rt.Shared(f)
	rt.Observe("got", got)
	rt.Assert(got == f(), "the result is not the one of a single call")
}

// VH_catalogue: loading, unloading and listing.
func VH_catalogue(shard int) {
	langs := []string{"ita", "epo", "none", ""}
	a, b := rt.Choice(4), rt.Choice(4)
	first, second := langs[a], langs[b]
	ops := rt.Choice(4)
	rt.Observe("input", first+" "+second)
	rt.Observe("ops", ops)
	if rt.Choice(2) == 1 {
		hangulize.LoadSpec(first)
	}
	f := func() string {
		out := ""
		load := func(l string) {
			spec, err := hangulize.LoadSpec(l)
			if err != nil {
				out += "!" + err.Error()
			} else {
				out += " " + spec.Lang.ID
			}
		}
		load(first)
		if ops&1 != 0 {
			hangulize.UnloadSpec(first)
		}
		load(second)
		if ops&2 != 0 {
			out += strings.Join(hangulize.ListLangs(), ",")
			hangulize.UnloadSpec(second)
		}
		return out
	}
	got := rt.Shared(f)
	rt.Observe("got", got)
	rt.Assert(got == rt.Shared(f), "loading again gives something else")
}
