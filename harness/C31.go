package main

import (
	"errors"
	"sort"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	js "github.com/hangulize/hangulize/internal/verifrt/vjs"
)

// vhTranslit adds a letter, leaves nothing, or fails.
type vhTranslit struct {
	scheme string
	fail   bool
}

func (t vhTranslit) Scheme() string { return t.scheme }

func (t vhTranslit) Transliterate(w string) (string, error) {
	if t.fail {
		return "", errors.New("no " + t.scheme)
	}
	if w == "ー" {
		return "", nil
	}
	return w + "t", nil
}

var vhStarted bool

// vhStart runs the program until it waits.
func vhStart() js.Value {
	if vhStarted {
		// natively, the program runs once for all
		for s := range hangulize.Translits() {
			hangulize.UnuseTranslit(s)
		}
		return js.Global().Get("hangulize")
	}
	vhStarted = true
	for s := range hangulize.Translits() {
		hangulize.UnuseTranslit(s)
	}
	js.Reset()
	ready := make(chan bool, 1)
	go func() {
		ready <- true
		main()
	}()
	<-ready
	for i := 0; i < 10000; i++ {
		h := js.Global().Get("hangulize")
		if h.Type() == js.TypeFunction && h.Get("useTranslit").Type() == js.TypeFunction && h.Get("specs").Type() == js.TypeObject {
			return h
		}
		rt.Settle()
	}
	rt.Assert(false, "the interface is not there")
	return js.Undefined()
}

// vhUse registers a transliterator with the interface: a function which
// returns a promise.
func vhUse(h js.Value, t vhTranslit, later bool) bool {
	promise := js.Global().Get("Promise")
	return h.Call("useTranslit", t.scheme, js.FuncOf(func(this js.Value, args []js.Value) any {
		r, err := t.Transliterate(args[0].String())
		return promise.New(js.FuncOf(func(this js.Value, args []js.Value) any {
			f := func() {
				if err != nil {
					args[1].Invoke(js.Global().Get("Error").New(err.Error()))
				} else {
					args[0].Invoke(r)
				}
			}
			if later {
				go f()
			} else {
				f()
			}
			return nil
		}))
	})).Bool()
}

func vhRule(id int, from, to string) string { return string(rune('0'+id%10)) + from + "->" + to }

// vhCompare calls the interface and the package.
func vhCompare(h js.Value, lang, word string, ts []vhTranslit, trace bool) {
	want, err := "", error(nil)
	var log, got []string
	spec, err := hangulize.LoadSpec(lang)
	if err == nil {
		p := hangulize.New(spec)
		for _, t := range ts {
			p.UseTranslit(t)
		}
		p.Trace(func(t hangulize.Trace) {
			r := "-"
			if t.Rule != nil {
				r = vhRule(t.Rule.ID, t.Rule.From.String(), t.Rule.To.String())
			}
			log = append(log, t.Step+"|"+t.Word+"|"+t.Why+"|"+r)
		})
		want, err = p.Hangulize(word)
	}
	args := []any{lang, word}
	if trace {
		args = append(args, js.FuncOf(func(this js.Value, args []js.Value) any {
			t := args[0]
			r := "-"
			if x := t.Get("rule"); !x.IsNull() {
				r = vhRule(x.Get("id").Int(), x.Get("from").String(), x.Get("to").String())
			}
			got = append(got, t.Get("step").String()+"|"+t.Get("word").String()+"|"+t.Get("why").String()+"|"+r)
			return nil
		}))
	}
	v := h.Invoke(args...)
	rt.Assert(v.InstanceOf(js.Global().Get("Promise")), "no promise is returned")
	r, ok := js.Await(v)
	rt.Observe("fulfilled", ok)
	if err != nil {
		rt.Assert(!ok, "the promise is fulfilled though there is an error")
		rt.Assert(r.InstanceOf(js.Global().Get("Error")), "the promise is rejected by no error")
		rt.Observe("message", r.Get("message").String())
		rt.Observe("want", err.Error())
		rt.Assert(r.Get("message").String() == err.Error(), "the message differs")
	} else {
		rt.Assert(ok, "the promise is rejected")
		rt.Observe("got", r.String())
		rt.Observe("want", want)
		rt.Assert(r.Type() == js.TypeString && r.String() == want, "the result differs")
	}
	if trace {
		rt.Observe("traces", strings.Join(got, " "))
		rt.Assert(len(got) == len(log), "the number of traces differs")
		for i := range got {
			rt.Assert(got[i] == log[i], "a trace differs")
		}
	}
}

// VH_langs: any letter in each bundled language.
func VH_langs(shard int) {
	langs := hangulize.ListLangs()
	if !rt.Thorough() {
		langs = []string{"jpn", "jpn-ck", "chi", "rus", "ita", "kat-1", "ell", "vie"}
	}
	rt.Assume(shard < len(langs))
	lang := langs[shard]
	rt.Observe("language", lang)
	spec, err := hangulize.LoadSpec(lang)
	rt.Assert(err == nil, "a listed language is not loaded")
	h := vhStart()
	var ts []vhTranslit
	for _, s := range spec.Lang.Translit {
		t := vhTranslit{s, false}
		ts = append(ts, t)
		rt.Assert(vhUse(h, t, false), "a transliterator is not taken")
	}
	word := spec.Test[0][0] + string(rt.Rune())
	rt.Observe("input", word)
	vhCompare(h, lang, word, ts, rt.Choice(2) == 1)
}

// VH_calls: several calls, failures, and transliterators.
func VH_calls(shard int) {
	hangulize.LoadSpec("jpn")
	hangulize.LoadSpec("ita")
	h := vhStart()
	var ts []vhTranslit
	n := shard % 4
	later := rt.Choice(2) == 1
	if n > 0 {
		t := vhTranslit{"furigana", n == 2}
		ts = append(ts, t)
		rt.Assert(vhUse(h, t, later), "a transliterator is not taken")
		rt.Assert(!vhUse(h, vhTranslit{"furigana", n != 2}, later), "a scheme is taken twice")
	}
	if n == 3 {
		t := vhTranslit{"other", true}
		ts = append(ts, t)
		rt.Assert(vhUse(h, t, later), "a transliterator is not taken")
	}
	for i := 0; i < 2; i++ {
		lang := "jpn"
		if i == 1 {
			lang = []string{"jpn", "ita"}[rt.Choice(2)]
		} else if shard/4 == 1 {
			lang = []string{"ita", "none", ""}[rt.Choice(3)]
		}
		word := ""
		for j := i * rt.Choice(2); j >= 0; j-- {
			word += string(rt.RuneOf("ーa "))
		}
		rt.Observe("input", lang+" "+word)
		vhCompare(h, lang, word, ts, rt.Choice(2) == 1)
	}
}

// VH_specs: what the interface tells of the specifications.
func VH_specs(shard int) {
	h := vhStart()
	specs := h.Get("specs")
	rt.MapOrder(1)
	keys := specs.Keys()
	rt.MapOrder(0)
	sort.Strings(keys)
	langs := append([]string{}, hangulize.ListLangs()...)
	sort.Strings(langs)
	rt.Assert(strings.Join(keys, " ") == strings.Join(langs, " "), "the languages differ")
	texts := func(v js.Value, want []string, msg string) {
		rt.Assert(v.Length() == len(want), msg)
		for i, w := range want {
			rt.Assert(v.Index(i).String() == w, msg)
		}
	}
	for _, l := range langs {
		s, err := hangulize.LoadSpec(l)
		rt.Assert(err == nil, "a listed language is not loaded")
		rt.Observe("language", l)
		v := specs.Get(l)
		lang, config, test := v.Get("lang"), v.Get("config"), v.Get("test")
		rt.Assert(lang.Get("id").String() == s.Lang.ID, "id")
		rt.Assert(lang.Get("code2").String() == s.Lang.Codes[0], "code2")
		rt.Assert(lang.Get("code3").String() == s.Lang.Codes[1], "code3")
		rt.Assert(lang.Get("english").String() == s.Lang.English, "english")
		rt.Assert(lang.Get("korean").String() == s.Lang.Korean, "korean")
		rt.Assert(lang.Get("script").String() == s.Lang.Script, "script")
		texts(lang.Get("translit"), s.Lang.Translit, "translit")
		texts(config.Get("authors"), s.Config.Authors, "authors")
		rt.Assert(config.Get("stage").String() == s.Config.Stage, "stage")
		rt.Assert(test.Length() == len(s.Test), "test")
		for i, e := range s.Test {
			rt.Assert(test.Index(i).Get("word").String() == e[0], "word")
			rt.Assert(test.Index(i).Get("result").String() == e[1], "result")
		}
		rt.Assert(v.Get("source").String() == s.Source, "source")
	}
}
