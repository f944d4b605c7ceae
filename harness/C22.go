package furigana

import (
	"strings"

	rt "github.com/hangulize/hangulize/internal/verifrt"
	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
)

// vhTok is a token and what it should be written as.
type vhTok struct {
	tok   kagome.Token
	dummy bool
	text  string
	name  bool
	aux   bool
	mark  bool
}

// vhKana is a kana which no vowel prolongs.
func vhKana() string { return string(rt.RuneIn('ガ', 'ヂ')) }

func vhKnown(text, surface string, f ...string) kagome.Token {
	return kagome.Token{Class: kagome.KNOWN, Surface: surface, F: append(append([]string{}, f...), "読", text)}
}

// vhToken is a token of a kind.
func vhToken(kind int) vhTok {
	t := vhKana()
	switch kind {
	case 0:
		return vhTok{dummy: true, tok: kagome.Token{Class: kagome.DUMMY, Surface: "BOS"}}
	case 1:
		t += vhKana()
		return vhTok{text: t, tok: vhKnown(t, "語", "名詞", "一般", "*", "*", "*", "*", "語")}
	case 2:
		return vhTok{text: t, name: true, tok: vhKnown(t, "名", "名詞", "固有名詞", "人名", "姓", "*", "*", "名")}
	case 3:
		return vhTok{text: t, aux: true, tok: vhKnown(t, "た", "助動詞", "*", "*", "*", "特殊・タ", "基本形", "た")}
	case 4:
		return vhTok{text: "ハ", tok: vhKnown("ワ", "は", "助詞", "係助詞", "*", "*", "*", "*", "は")}
	case 5:
		return vhTok{text: "ヘ", tok: vhKnown("エ", "へ", "助詞", "格助詞", "一般", "*", "*", "*", "へ")}
	case 6:
		return vhTok{text: t, tok: vhKnown(t, "が", "助詞", "格助詞", "一般", "*", "*", "*", "が")}
	case 7:
		p := string(rt.RuneOf("、。「"))
		return vhTok{text: p, mark: true, tok: vhKnown(p, p, "記号", "句点", "*", "*", "*", "*", p)}
	case 8:
		u := t + string(rt.RuneIn('a', 'z'))
		return vhTok{text: u, tok: kagome.Token{Class: kagome.UNKNOWN, Surface: u, F: []string{"名詞", "固有名詞", "人名", "*", "*", "*", "*"}}}
	case 9:
		u := string(rt.RuneOf(" \u3000\n"))
		return vhTok{text: u, mark: true, tok: kagome.Token{Class: kagome.UNKNOWN, Surface: u, F: []string{"記号", "空白", "*", "*", "*", "*", "*"}}}
	case 10:
		return vhTok{text: t, tok: vhKnown(t, "国", "名詞", "固有名詞", "地域", "国", "*", "*", "国")}
	case 11:
		return vhTok{text: t, tok: vhKnown(t, "は", "名詞", "一般", "*", "*", "*", "*", "は")}
	case 12:
		return vhTok{text: t, name: true, tok: vhKnown(t, "家", "名詞", "固有名詞", "人名", "一般", "*", "*", "家")}
	case 13:
		return vhTok{text: t, tok: vhKnown(t, "社", "名詞", "固有名詞", "組織", "*", "*", "*", "社")}
	case 14:
		return vhTok{text: t, mark: true, tok: vhKnown(t, "え", "フィラー", "*", "*", "*", "*", "*", "え")}
	}
	return vhTok{text: t, tok: kagome.Token{Class: kagome.USER, Surface: t, F: []string{"カスタム", t, t}}}
}

const vhKinds = 16

// vhWrite writes the tokens as they should be.
func vhWrite(ts []vhTok) string {
	var b strings.Builder
	var word *vhTok // the word the auxiliaries belong to
	for i := range ts {
		t := &ts[i]
		if t.dummy {
			continue
		}
		if t.aux && word != nil {
			b.WriteString(t.text)
			continue
		}
		if t.name && word != nil && word.name {
			b.WriteString(" ")
		}
		b.WriteString(t.text)
		word = t
	}
	return b.String()
}

// VH_tokens: sequences of tokens of all kinds.
func VH_tokens(shard int) {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	var ts []vhTok
	var toks []kagome.Token
	for i := 0; i < n; i++ {
		k := shard
		if i > 0 {
			k = rt.Choice(vhKinds)
		}
		t := vhToken(k)
		ts = append(ts, t)
		toks = append(toks, t.tok)
	}
	vhJudge(ts, toks)
}

func vhJudge(ts []vhTok, toks []kagome.Token) {
	want := vhWrite(ts)
	rt.Observe("want", want)
	w := newTypewriter(toks)
	got := w.Typewrite()
	rt.Observe("got", got)
	rt.Assert(got == want, "the tokens are not written completely, once and in order")
	rt.Assert(w.Typewrite() == got, "writing twice gives another text")
	split := kagome.Split
	kagome.Split = func(string) []kagome.Token { return toks }
	whole, err := T.Transliterate("漢字")
	kagome.Split = split
	rt.Assert(err == nil && whole == want, "the transliterator writes another text")
}

// VH_few: few tokens, or dummies only.
func VH_few(shard int) {
	var ts []vhTok
	var toks []kagome.Token
	for i := 0; i < shard; i++ {
		t := vhToken(rt.Choice(vhKinds))
		ts = append(ts, t)
		toks = append(toks, t.tok)
	}
	vhJudge(ts, toks)
}

// VH_many: a long text of names, words and dummies.
func VH_many(shard int) {
	var ts []vhTok
	var toks []kagome.Token
	for i := 0; i < 60; i++ {
		t := vhToken([]int{2, 0, 2, 3, 1, 7}[(i*(shard+1))%6])
		ts = append(ts, t)
		toks = append(toks, t.tok)
	}
	vhJudge(ts, toks)
}
