package c05

import (
	"strings"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
)

// identity hands a word over as it is.
type identity string

func (s identity) Scheme() string                         { return string(s) }
func (s identity) Transliterate(w string) (string, error) { return w, nil }

func with(spec *hangulize.Spec) hangulize.Hangulizer {
	h := hangulize.New(spec)
	for _, s := range spec.Lang.Translit {
		h.UseTranslit(identity(s))
	}
	return h
}

func load(shard int) *hangulize.Spec {
	langs := hangulize.ListLangs()
	rt.Assume(shard < len(langs))
	rt.Observe("language", langs[shard])
	spec, err := hangulize.LoadSpec(langs[shard])
	rt.Assert(err == nil, "a listed language is not loaded")
	return spec
}

func judge(spec *hangulize.Spec, word string) {
	rt.Observe("input", word)
	h := with(spec)
	got, err := h.Hangulize(word)
	rt.Observe("got", got)
	rt.Assert(err == nil, "transcribing fails")
	rt.Assert(utf8.ValidString(got), "the result is ill-formed")
	other, err := h.Hangulize("a b" + word + "я")
	rt.Assert(err == nil && utf8.ValidString(other), "the result is ill-formed")
	again, err := h.Hangulize(word)
	rt.Assert(err == nil && again == got, "a repeated call gives another result")
	again, err = with(spec).Hangulize(word)
	rt.Assert(err == nil && again == got, "another Hangulizer gives another result")
}

// VH_runes: any letters.
func VH_runes(shard int) {
	spec := load(shard)
	rs := []rune{rt.Rune()}
	if rt.Thorough() {
		rs = append(rs, rt.Rune())
	}
	judge(spec, string(rs))
}

// VH_bytes: any bytes.
func VH_bytes(shard int) {
	spec := load(shard)
	b := []byte{rt.Byte()}
	if rt.Thorough() {
		b = append(b, rt.ByteOf("a\x80\xe3\xff"))
	}
	judge(spec, string(b))
}

// small is a small specification.
func small(k int) *hangulize.Spec {
	src := []string{
		"lang:\n id=\"x\"\n codes=x,xx\n script=\"Latn\"\nvars:\n v = a, \"é\"\nnormalize:\n b = \"\u00ff\"\nrewrite:\n \"<v>{~c}\" -> \"b<v>\"\n \"^b\" -> \"\"\n \"c{@}\" -> \"a\"\nmacros:\n \"@\" = \"<v>\"\ntranscribe:\n \"a$\" -> \"ㅏ\"\n \"{~b}a\" -> \"-ㄴ\"\n b -> \"ㅂㅏ\"\n",
		"lang:\n id=\"x\"\n codes=x,xx\n script=\"Cyrl\"\ntranscribe:\n \"а\" -> \"ㅏ\"\n \"{~а}-\" -> \"б\"\n",
		"lang:\n id=\"x\"\n codes=x,xx\n script=\"Hrkt\"\ntranscribe:\n \"カ\" -> \"ㄱㅏ-ㄱ\"\n \"ー\" -> \"--\"\n",
	}[k]
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	return spec
}

// VH_small: small specifications on more bytes.
func VH_small(shard int) {
	spec := small(shard % 3)
	pre := []string{"", "a", "\u0430", "\u30ab"}[shard/3]
	n := 2
	if rt.Thorough() {
		n = 3
	}
	b := []byte(pre)
	more := "ac\x00-\x80\xb0\xc3\xe3\xf4\xff"
	for i := 1; i < n; i++ {
		b = append(b, more[rt.Choice(len(more))])
	}
	b = append(b, rt.Byte())
	if rt.Choice(2) == 1 {
		// the other way around
		for i, j := len(pre), len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	judge(spec, string(b))
}

// VH_history: words after other words, which may differ little from them.
func VH_history(shard int) {
	spec := small(shard % 3)
	letters := []string{"aA b1\u200b", "аА б1\u0301", "カ か1。"}[shard%3]
	word := func(n int) string {
		var rs []rune
		for i := 0; i < n; i++ {
			rs = append(rs, rt.RuneOf(letters))
		}
		return string(rs)
	}
	n := 2
	if rt.Thorough() {
		n = 3
	}
	v := word(1 + shard/3%2)
	rt.Observe("input", v)
	want, err := with(spec).Hangulize(v)
	rt.Assert(err == nil, "transcribing fails")
	h := with(spec)
	for i := 0; i < 2; i++ {
		u := word(rt.Choice(n + 1))
		if i == 1 {
			u = v + u
		}
		rt.Observe("before", u)
		_, err = h.Hangulize(u)
		rt.Assert(err == nil, "transcribing fails")
	}
	got, err := h.Hangulize(v)
	rt.Observe("got", got)
	rt.Assert(err == nil && got == want, "the calls before change a result")
}

// VH_many: words after very many other words, of this and of another
// specification.
func VH_many(shard int) {
	spec := small(shard % 3)
	n := []int{40, 300}[shard/3]
	letters := []string{"aAc b1", "аАб в1", "カコ かー。"}[shard%3]
	var rs []rune
	for i := 0; i < 2; i++ {
		rs = append(rs, rt.RuneOf(letters))
	}
	v := string(rs)
	rt.Observe("input", v)
	want, err := with(spec).Hangulize(v)
	rt.Assert(err == nil, "transcribing fails")
	h := with(spec)
	o := with(small((shard + 1) % 3))
	ls := []rune(letters)
	k := rt.Choice(2)
	for i := 0; i < n; i++ {
		u := string([]rune{ls[i%len(ls)], ls[i/6%len(ls)], ls[i/36%len(ls)], ls[(i/7)%len(ls)]}[:1+i%4])
		_, err = h.Hangulize(u)
		rt.Assert(err == nil, "transcribing fails")
		if k == 1 && i%8 == 0 {
			_, err = o.Hangulize(v)
			rt.Assert(err == nil, "transcribing fails")
		}
	}
	got, err := h.Hangulize(v)
	rt.Observe("got", got)
	rt.Assert(err == nil && got == want, "the calls before change a result")
	got, err = with(spec).Hangulize(v)
	rt.Assert(err == nil && got == want, "the calls before change a result of another Hangulizer")
}

// VH_long: words after and before long ones.
func VH_long(shard int) {
	spec := small(shard % 3)
	letters := []string{"aAc b1", "аАб в1", "カコ かー。"}[shard%3]
	v := string([]rune{rt.RuneOf(letters), rt.RuneOf(letters)})
	n := []int{40, 300}[shard/3]
	long := strings.Repeat([]string{"a1b", "а1а", "カ1ー"}[shard%3], n)
	if rt.Choice(2) == 1 {
		long = strings.Repeat([]string{"ab", "а", "カ"}[shard%3], n)
	}
	rt.Observe("input", v)
	want, err := with(spec).Hangulize(v)
	rt.Assert(err == nil, "transcribing fails")
	h := with(spec)
	a, err := h.Hangulize(long + v)
	rt.Assert(err == nil && utf8.ValidString(a), "transcribing fails")
	got, err := h.Hangulize(v)
	rt.Observe("got", got)
	rt.Assert(err == nil && got == want, "a long word changes the next result")
	b, err := with(spec).Hangulize(long + v)
	rt.Assert(err == nil && a == b, "a repeated call gives another result")
	got, err = with(spec).Hangulize(v)
	rt.Assert(err == nil && got == want, "a long word changes the next result of another Hangulizer")
}
