package c17

import (
	"errors"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
)

const rules = "lang:\n id = \"x\"\n codes = \"x\", \"xx\"\n script = \"Latn\"\nTR\nnormalize:\n b = \"q\"\nrewrite:\n \"c\" -> \"ab\"\ntranscribe:\n \"^a\" -> \"마\"\n \"a\" -> \"ㅏ\"\n \"b\" -> \"ㅂㅣ\"\n"

func specOf(tr string) *hangulize.Spec {
	spec, err := hangulize.ParseSpec(strings.NewReader(strings.Replace(rules, "TR", tr, 1)))
	rt.Assert(err == nil, "a specification is rejected")
	return spec
}

var log []string

// tr is a transliterator which says what it saw.
type tr struct {
	scheme string
	fails  bool
	f      func(string) string
}

var errTr = errors.New("some failure")

func (t *tr) Scheme() string { return t.scheme }
func (t *tr) Transliterate(word string) (string, error) {
	log = append(log, t.scheme+":"+word)
	if t.fails {
		return "no" + word, errTr
	}
	return t.f(word), nil
}

var names = []string{"p", "q", "r"}

// chain returns the declared order and its line in the specification.
func chain(shard int) ([]string, string) {
	c := [][]string{{"p"}, {"p", "q"}, {"q", "p", "r"}, {"p", "q", "p"}, {"q", "q"}, {}}[shard]
	if len(c) == 0 {
		return c, ""
	}
	return c, " translit = " + strings.Join(c, ", ")
}

func letter(shard int) string {
	if shard == 0 || shard == 5 || rt.Thorough() {
		return string(rt.RuneOf("aAbqcC !-가"))
	}
	return string(rt.RuneOf("aC!"))
}

// run calls a Hangulizer once.
func run(call func(string) (string, error), order []string, plain hangulize.Hangulizer, ts map[string]*tr, word string) {
	log = nil
	cur, bad, missing := word, "", false
	var want []string
	for _, s := range order {
		t := ts[s]
		if t == nil {
			bad, missing = s, true
			break
		}
		want = append(want, s+":"+cur)
		if t.fails {
			bad = s
			break
		}
		cur = t.f(cur)
	}
	got, err := call(word)
	rt.Observe("got", got)
	rt.Assert(len(log) == len(want), "another number of transliterators ran")
	for i := range want {
		rt.Assert(log[i] == want[i], "a transliterator got another word, or not its turn")
	}
	if bad != "" {
		rt.Assert(got == "", "a failing call returns a word")
		rt.Assert(err != nil, "a missing or failing transliterator is no error")
		rt.Assert(errors.Is(err, hangulize.ErrTranslitNotImported) == missing, "the error names the wrong condition")
		rt.Assert(errors.Is(err, hangulize.ErrTranslit) == !missing, "the error names the wrong condition")
		rt.Assert(strings.HasSuffix(err.Error(), ": "+bad), "the error does not name the scheme")
		return
	}
	rt.Assert(err == nil, "the call fails")
	res, err := plain.Hangulize(cur)
	rt.Assert(err == nil && got == res, "the transliterated word is not what is transcribed")
}

// VH_chain: any outcome of each transliterator, then all in order.
func VH_chain(shard int) {
	order, line := chain(shard)
	plain := hangulize.New(specOf(""))
	h := hangulize.New(specOf(line))
	word := letter(shard)
	if shard == 0 || rt.Thorough() {
		word += letter(shard)
	}
	if rt.Choice(4) == 3 {
		word = ""
	}
	rt.Observe("input", word)
	ts := map[string]*tr{}
	all := map[string]*tr{}
	for i, n := range names {
		if i > 0 && i >= len(order) {
			break
		}
		n := n
		out := letter(shard)
		k := rt.Choice(5)
		t := &tr{scheme: n, f: func(w string) string {
			switch k {
			case 0:
				return out + w
			case 1:
				return strings.ToUpper(w) + out
			case 4:
				return ""
			}
			return out
		}}
		all[n] = t
		if k != 3 {
			ts[n] = t
			t.fails = k == 2
			rt.Assert(h.UseTranslit(t), "a transliterator is not added")
		}
	}
	rt.Observe("registered", len(ts))
	run(h.Hangulize, order, plain, ts, word)
	run(h.Hangulize, order, plain, ts, word)
	// then with all of them
	for _, n := range names {
		if all[n] == nil {
			continue
		}
		if ts[n] == nil {
			rt.Assert(h.UseTranslit(all[n]), "a transliterator is not added")
		}
		all[n].fails = false
	}
	run(h.Hangulize, order, plain, all, word)
	// then without one
	h.UnuseTranslit("p")
	all["p"] = nil
	run(h.Hangulize, order, plain, all, word)
}

// VH_bundled: the bundled languages use the default registry.
func VH_bundled(shard int) {
	lang := []string{"bul", "mkd", "rus", "ukr", "chi", "jpn", "jpn-ck"}[shard]
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
	spec, err := hangulize.LoadSpec(lang)
	rt.Assert(err == nil && len(spec.Lang.Translit) == 1, "the language has no transliterator")
	scheme := spec.Lang.Translit[0]
	var src []string
	for _, l := range strings.Split(spec.Source, "\n") {
		if !strings.Contains(l, "translit") {
			src = append(src, l)
		}
	}
	bare, err := hangulize.ParseSpec(strings.NewReader(strings.Join(src, "\n")))
	rt.Assert(err == nil && len(bare.Lang.Translit) == 0, "the language without its transliterator is rejected")
	plain := hangulize.New(bare)
	word := string(rt.Rune())
	rt.Observe("input", word)
	call := func(w string) (string, error) { return hangulize.Hangulize(lang, w) }
	run(call, []string{scheme}, plain, map[string]*tr{}, word)
	out := string(rt.RuneOf("да!яn가カ"))
	t := &tr{scheme: scheme, f: func(w string) string { return out + out }}
	t.fails = rt.Choice(2) == 1
	rt.Assert(hangulize.UseTranslit(t), "a transliterator is not added")
	run(call, []string{scheme}, plain, map[string]*tr{scheme: t}, word)
	t.fails = false
	run(call, []string{scheme}, plain, map[string]*tr{scheme: t}, word)
	rt.Assert(hangulize.UnuseTranslit(scheme), "a transliterator is not removed")
	run(call, []string{scheme}, plain, map[string]*tr{}, word)
}

// VH_reenter: a transliterator which transcribes, changes the registry, or
// panics.
func VH_reenter(shard int) {
	plain := hangulize.New(specOf(""))
	h := hangulize.New(specOf(" translit = p, q"))
	word := letter(0) + letter(1)
	rt.Observe("input", word)
	out := letter(1)
	in := false
	var inner string
	p := &tr{scheme: "p"}
	q := &tr{scheme: "q", f: func(w string) string { return out + w }}
	p.f = func(w string) string {
		if in {
			return w
		}
		in = true
		switch shard {
		case 0:
			r, err := h.Hangulize(out)
			rt.Assert(err == nil, "a call in a transliterator fails")
			inner = r
		case 1:
			panic("no more")
		case 2:
			r, err := plain.Hangulize(out)
			rt.Assert(err == nil, "a call in a transliterator fails")
			inner = r
		}
		in = false
		return w
	}
	h.UseTranslit(p)
	h.UseTranslit(q)
	want, err := plain.Hangulize(out + word)
	rt.Assert(err == nil, "transcribing fails")
	r := ""
	panics := rt.Catch(func() { r, err = h.Hangulize(word) }) != nil
	switch shard {
	case 0:
		w, err := plain.Hangulize(out + out)
		rt.Assert(err == nil && inner == w, "a call in a transliterator gives another result")
	case 2:
		w, err := plain.Hangulize(out)
		rt.Assert(err == nil && inner == w, "a call in a transliterator gives another result")
	}
	rt.Assert(panics == (shard == 1), "a panic of a transliterator is lost")
	rt.Assert(panics || err == nil && r == want, "a call in a transliterator changes the result")
	in = true
	r, err = h.Hangulize(word)
	rt.Assert(err == nil && r == want, "a transliterator changes a later result")
	rt.Assert(len(h.Translits()) == 2, "a call changes the registry")
}
