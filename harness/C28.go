package c28

import (
	"strings"
	"unicode"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

// identity hands a word over as it is.
type identity string

func (s identity) Scheme() string                         { return string(s) }
func (s identity) Transliterate(w string) (string, error) { return w, nil }

func load(shard int) (*hangulize.Spec, hangulize.Hangulizer) {
	langs := hangulize.ListLangs()
	rt.Assume(shard < len(langs))
	rt.Observe("language", langs[shard])
	spec, err := hangulize.LoadSpec(langs[shard])
	rt.Assert(err == nil, "a listed language is not loaded")
	h := hangulize.New(spec)
	for _, s := range spec.Lang.Translit {
		h.UseTranslit(identity(s))
	}
	return spec, h
}

func call(h hangulize.Hangulizer, word string) string {
	got, err := h.Hangulize(word)
	rt.Assert(err == nil, "transcribing fails")
	return got
}

// around is the text before and after a letter.
func around(spec *hangulize.Spec) (string, string) {
	k := rt.Choice(3)
	if k == 0 || len(spec.Test) == 0 {
		return "", ""
	}
	rs := []rune(spec.Test[0][0])
	if k == 1 || len(rs) == 1 {
		return string(rs), ""
	}
	return string(rs[:len(rs)/2]), string(rs[len(rs)/2:])
}

// custom are the letters of the custom normalization.
func custom(spec *hangulize.Spec) []rune {
	var out []rune
	for k, froms := range spec.Normalize {
		out = lib.Add(out, []rune(k))
		for _, f := range froms {
			out = lib.Add(out, []rune(f))
		}
	}
	return out
}

// VH_case: upper-case and lower-case letters.
func VH_case(shard int) {
	spec, h := load(shard)
	var x rune
	switch spec.Lang.Script {
	case "Latn":
		x = rt.RuneIn('A', 'Z', 0xc0, 0x24f, 0x1e00, 0x1eff, 0x2c60, 0x2c7f, 0xa722, 0xa7ca, 0xff21, 0xff3a)
	case "Cyrl":
		x = rt.RuneIn(0x400, 0x52f, 0x1c80, 0x1c8f, 0xa640, 0xa69f)
	case "Grek":
		x = rt.RuneIn(0x370, 0x3ff, 0x1f00, 0x1fff)
	default:
		return
	}
	l := unicode.ToLower(x)
	rt.Assume(l != x && lib.InScript(spec.Lang.Script, x) && lib.InScript(spec.Lang.Script, l))
	for _, r := range custom(spec) {
		rt.Assume(x != r && l != r)
	}
	pre, post := around(spec)
	rt.Observe("input", pre+string(x)+post)
	rt.Observe("lower", string(l))
	a := call(h, pre+string(x)+post)
	rt.Observe("got", a)
	rt.Assert(a == call(h, pre+string(l)+post), "the case of a letter matters")
}

// VH_examples: the words of the examples in upper case and in lower case.
func VH_examples(shard int) {
	spec, h := load(shard)
	if s := spec.Lang.Script; s != "Latn" && s != "Cyrl" && s != "Grek" {
		return
	}
	n := 6
	if rt.Thorough() {
		n = 60
	}
	i := rt.Choice(n)
	if i >= len(spec.Test) {
		return
	}
	w := []rune(spec.Test[i][0])
	var ls []rune
	for _, r := range custom(spec) {
		ls = append(ls, r)
	}
	for j := range w {
		// each letter of which the custom normalization does not speak may
		// be in another case
		l, u := unicode.ToLower(w[j]), unicode.ToUpper(w[j])
		if l == u || unicode.ToLower(u) != l || strings.ContainsRune(string(ls), l) || strings.ContainsRune(string(ls), u) || unicode.ToLower(u) != w[j] && unicode.ToUpper(l) != w[j] {
			continue
		}
		w[j] = rt.RuneOf(string([]rune{l, u}))
	}
	rt.Observe("input", string(w))
	rt.Assert(call(h, string(w)) == call(h, spec.Test[i][0]), "the case of a word matters")
}

// VH_listed: the letters of the custom normalization of a language.
func VH_listed(shard int) {
	spec, h := load(shard)
	if len(spec.Normalize) == 0 {
		return
	}
	var from []string
	var to []string
	for k, froms := range spec.Normalize {
		for _, f := range froms {
			from, to = append(from, f), append(to, k)
		}
	}
	// in an order of their own
	for i := range from {
		for j := i; j > 0 && from[j] < from[j-1]; j-- {
			from[j], from[j-1] = from[j-1], from[j]
			to[j], to[j-1] = to[j-1], to[j]
		}
	}
	i := rt.Choice(len(from))
	pre, post := around(spec)
	rt.Observe("input", pre+from[i]+post)
	rt.Observe("as", to[i])
	rt.Assert(call(h, pre+from[i]+post) == call(h, pre+to[i]+post), "a listed letter does not act as the letter it is listed under")
}

// VH_custom: custom normalization of any letters.
func VH_custom(shard int) {
	k := rt.RuneIn(0xc0, 0xd6, 0xd8, 0xf6, 0xf8, 0x17f)
	f := rt.RuneIn('B', 'Y', 0xc0, 0xd6, 0x400, 0x40f, 0x4e00, 0x4e0f)
	rt.Assume(k != f && unicode.ToLower(k) != unicode.ToLower(f))
	rt.Assume(lib.InScript("Latn", k))
	more := ""
	if shard == 1 {
		more = "z"
	}
	src := "lang:\n id=\"x\"\n codes=x,xx\n script=\"Latn\"\nnormalize:\n \"" + string(k) + more + "\" = \"" + string(f) + "\"\ntranscribe:\n \"" + string(k) + "\" -> \"가\"\n z -> \"나\"\n \"[a-y]\" -> \"다\"\n"
	rt.Observe("source", src)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	h := hangulize.New(spec)
	want := "가"
	if shard == 1 {
		want = "가나"
	}
	rt.Assert(call(h, string(f)) == want, "a listed letter does not act as the letter it is listed under")
	rt.Assert(call(h, string(k)) == "가", "a letter of the custom normalization is folded")
	rt.Assert(call(h, "a"+string(f)+string(k)+"Z") == "다"+want+"가나", "custom letters in a word do not act as listed")
}

// VH_long: letters in long words.
func VH_long(shard int) {
	spec, h := load(shard)
	if s := spec.Lang.Script; s != "Latn" && s != "Cyrl" && s != "Grek" || len(spec.Test) == 0 {
		return
	}
	var letters []rune
	for i := 0; i < len(spec.Test) && i < 4; i++ {
		for _, r := range spec.Test[i][0] {
			l := unicode.ToLower(r)
			if u := unicode.ToUpper(l); u != l && unicode.ToLower(u) == l && !strings.ContainsRune(string(custom(spec)), u) && !strings.ContainsRune(string(custom(spec)), l) {
				letters = lib.Add(letters, []rune{l})
			}
		}
	}
	if len(letters) == 0 {
		return
	}
	i := rt.Choice(len(letters))
	pre := strings.Repeat(spec.Test[0][0]+" ", []int{6, 24}[rt.Choice(2)])
	rt.Observe("input", pre+string(letters[i]))
	x := rt.RuneOf(string([]rune{letters[i], unicode.ToUpper(letters[i])}))
	rt.Assert(call(h, pre+string(x)) == call(h, pre+string(letters[i])), "the case of a letter matters")
}
