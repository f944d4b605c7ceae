package c15

import (
	"errors"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
)

func start() {
	for _, l := range hangulize.ListLangs() {
		hangulize.UnloadSpec(l)
	}
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
}

func same(a, b *hangulize.Spec) bool {
	if a.Source != b.Source || a.Lang.ID != b.Lang.ID || a.Lang.Script != b.Lang.Script || len(a.Rewrite) != len(b.Rewrite) || len(a.Transcribe) != len(b.Transcribe) || len(a.Test) != len(b.Test) {
		return false
	}
	for i := range a.Rewrite {
		if a.Rewrite[i].String() != b.Rewrite[i].String() {
			return false
		}
	}
	for i := range a.Transcribe {
		if a.Transcribe[i].String() != b.Transcribe[i].String() {
			return false
		}
	}
	return true
}

// catalogue is what the history says about each language.
type catalogue struct {
	held map[string]*hangulize.Spec
	past map[string][]*hangulize.Spec
}

func (c *catalogue) load(lang string) *hangulize.Spec {
	s, err := hangulize.LoadSpec(lang)
	rt.Assert(err == nil && s != nil, "a listed language is not loaded")
	rt.Assert(s.Lang.ID == lang, "another language is loaded")
	c.saw(lang, s)
	return s
}

// saw notes the object which a load returned.
func (c *catalogue) saw(lang string, s *hangulize.Spec) {
	if h := c.held[lang]; h != nil {
		rt.Assert(h == s, "a repeated load returns another object")
		return
	}
	for _, p := range c.past[lang] {
		rt.Assert(p != s, "a load after unloading returns an old object")
		rt.Assert(same(p, s), "a load after unloading returns another specification")
	}
	c.held[lang] = s
	c.past[lang] = append(c.past[lang], s)
}

func (c *catalogue) unload(lang string) {
	hangulize.UnloadSpec(lang)
	delete(c.held, lang)
}

func (c *catalogue) unlisted(name, word string) {
	s, err := hangulize.LoadSpec(name)
	rt.Assert(s == nil && err != nil && errors.Is(err, hangulize.ErrSpecNotFound), "an unlisted name does not give the not-found error")
	got, err := hangulize.Hangulize(name, word)
	rt.Assert(got == word, "an unlisted language changes the word")
	rt.Assert(err != nil && errors.Is(err, hangulize.ErrSpecNotFound), "an unlisted language does not give the not-found error")
}

// VH_history: any history of loads, unloads and calls on two languages.
func VH_history(shard int) {
	start()
	langs := []string{"epo", "vie"}
	words := []string{"bon", "a"}
	res := map[string]string{}
	c := &catalogue{map[string]*hangulize.Spec{}, map[string][]*hangulize.Spec{}}
	n := 3
	if rt.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		op := rt.Choice(4)
		if i == 0 {
			op = shard / 2
		}
		k := 0
		if i == 0 {
			k = shard % 2
		} else {
			k = rt.Choice(2)
		}
		switch op {
		case 0:
			c.load(langs[k])
		case 1:
			c.unload(langs[k])
		case 2:
			got, err := hangulize.Hangulize(langs[k], words[k])
			rt.Assert(err == nil, "a listed language is not used")
			if r, ok := res[langs[k]]; ok {
				rt.Assert(r == got, "the history changes a result")
			}
			res[langs[k]] = got
			c.load(langs[k])
		case 3:
			c.unlisted([]string{"nl", ""}[k], words[k])
			hangulize.UnloadSpec([]string{"nl", ""}[k])
		}
	}
	for _, l := range langs {
		c.load(l)
	}
}

// VH_unknown: any name.
func VH_unknown(shard int) {
	start()
	c := &catalogue{map[string]*hangulize.Spec{}, map[string][]*hangulize.Spec{}}
	c.load("vie")
	n := len(hangulize.ListLangs())
	var name string
	switch shard {
	case 0:
		name = string(rt.Rune())
	case 1:
		name = string([]rune{rt.RuneIn(0, 0x7f), rt.RuneIn(0, 0x7f)})
	case 4:
		name = string([]rune{rt.RuneIn('a', 'z'), rt.RuneIn('a', 'z'), rt.RuneIn('a', 'z')})
	case 2:
		name = "vie" + string(rt.Rune())
	case 3:
		name = []string{"../specs/vie", "./vie", "vie.hsl", "VIE", "", "/", ".", "..", "vie/", "vie\x00", "specs/vie", "*", "nl?", "[n]ld", " vie", "vie "}[rt.Choice(16)]
	}
	rt.Observe("name", name)
	for _, l := range hangulize.ListLangs() {
		rt.Assume(name != l)
	}
	word := string(rt.Rune()) + "vie"
	c.unlisted(name, word)
	hangulize.UnloadSpec(name)
	c.unlisted(name, word)
	c.load("vie")
	rt.Assert(len(hangulize.ListLangs()) == n, "the listing changes")
}

// VH_listed: every language of the listing.
func VH_listed(shard int) {
	start()
	langs := hangulize.ListLangs()
	rt.Assert(len(langs) >= 40, "languages are missing")
	for i, l := range langs {
		if i > 0 {
			rt.Assert(langs[i-1] < l, "the listing is not in order")
		}
		rt.Assert(l != "" && !strings.ContainsAny(l, "./"), "a listed name is none")
	}
	langs[0] = "spoiled"
	langs = hangulize.ListLangs()
	per := (len(langs) + 7) / 8
	c := &catalogue{map[string]*hangulize.Spec{}, map[string][]*hangulize.Spec{}}
	i := shard*per + rt.Choice(per)
	if i >= len(langs) {
		return
	}
	l := langs[i]
	rt.Observe("language", l)
	other := c.load(langs[(i+1)%len(langs)])
	c.load(l)
	c.load(l)
	c.unload(l)
	c.load(l)
	c.unload(l)
	c.unload(l)
	c.load(l)
	rt.Assert(c.load(langs[(i+1)%len(langs)]) == other, "unloading a language unloads another")
}

// VH_all: all languages at once, after many names which are none.
func VH_all(shard int) {
	start()
	langs := hangulize.ListLangs()
	c := &catalogue{map[string]*hangulize.Spec{}, map[string][]*hangulize.Spec{}}
	for i, l := range langs {
		c.load(l)
		if shard == 1 {
			for j := 0; j < 10; j++ {
				c.unlisted("x"+string(rune('a'+j))+string(rune('a'+i%26))+string(rune('a'+i/26)), "a")
			}
		}
	}
	for i := len(langs) - 1; i >= 0; i-- {
		c.load(langs[i])
	}
	k := rt.Choice(len(langs))
	rt.Observe("language", langs[k])
	c.load(langs[k])
	c.unload(langs[k])
	if shard == 0 {
		j := (k + 1 + rt.Choice(2)*7) % len(langs)
		c.unload(langs[j])
	}
	for _, l := range langs {
		c.load(l)
	}
}
