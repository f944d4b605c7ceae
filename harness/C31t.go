package main

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	js "github.com/hangulize/hangulize/internal/verifrt/vjs"
	"github.com/hangulize/hangulize/translit"
)

var vhStarted bool

func vhStart() js.Value {
	if !vhStarted {
		vhStarted = true
		js.Reset()
		go main()
		for i := 0; i < 10000; i++ {
			f := js.Global().Get("translit")
			if f.Type() == js.TypeFunction && !f.Get("version").IsUndefined() {
				break
			}
			rt.Settle()
		}
	}
	f := js.Global().Get("translit")
	rt.Assert(f.Type() == js.TypeFunction, "the interface is not there")
	return f
}

func vhTranslit(t hangulize.Translit, word string) {
	f := vhStart()
	rt.Observe("scheme", t.Scheme())
	rt.Observe("input", word)
	want, err := t.Transliterate(word)
	got := f.Invoke(t.Scheme(), word)
	if err != nil {
		rt.Assert(got.InstanceOf(js.Global().Get("Error")), "no error is returned")
		rt.Assert(got.Get("message").String() == err.Error(), "the message differs")
		return
	}
	rt.Observe("got", got.String())
	rt.Observe("want", want)
	rt.Assert(got.Type() == js.TypeString && got.String() == want, "the result differs")
}

func vhScheme(s string) hangulize.Translit {
	for _, t := range translit.Translits() {
		if t.Scheme() == s {
			return t
		}
	}
	rt.Assume(false)
	return nil
}

// VH_cyrillic: any two letters.
func VH_cyrillic(shard int) {
	var ts []hangulize.Translit
	for _, t := range translit.Translits() {
		if strings.HasPrefix(t.Scheme(), "cyrillic") {
			ts = append(ts, t)
		}
	}
	rt.Assume(shard < len(ts))
	vhTranslit(ts[shard], string(rt.Rune())+string(rt.RuneOf("aжЁ")))
}

func VH_furigana(shard int) {
	vhTranslit(vhScheme("furigana"), string(rt.Rune())+string(rt.RuneOf("aカゝ々")))
}

func VH_pinyin(shard int) {
	vhTranslit(vhScheme("pinyin"), string(rt.Rune())+string(rt.RuneOf("a中")))
}
