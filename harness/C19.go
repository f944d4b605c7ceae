package c19

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
)

var rewrites = []lib.Rule{
	{From: "a", To: "b"}, {From: "ab", To: "c"}, {From: "^b", To: ""}, {From: "c{~a}", To: "ca"}, {From: "b$", To: "a"}, {From: "cc", To: "a b"}, {From: "b", To: "b"},
}

var transcribes = []lib.Rule{
	{From: "a", To: "가"}, {From: "b", To: "나"}, {From: "ab", To: "다"}, {From: "c$", To: ""}, {From: "c", To: "라마"}, {From: "b ", To: "바"}, {From: "^^a", To: "사"},
}

var steps = []string{"Input", "Transliterate", "Normalize", "Rewrite", "Transcribe", "Syllabify", "Localize"}

func stepOf(s string) int {
	for i, t := range steps {
		if s == t {
			return i
		}
	}
	return -1
}

type event struct {
	step, word string
	rule       int // -1: no rule
}

// events are the events of a word of a, b, c, upper-case letters and spaces
// which the transliterators of these functions transform.
func events(word string, trs []func(string) string, rewrite, transcribe []lib.Rule) []event {
	var out []event
	prev := ""
	add := func(step, w string, rule int) {
		if w != prev {
			out = append(out, event{step, w, rule})
			prev = w
		}
	}
	add("Input", word, -1)
	for _, f := range trs {
		word = f(word)
		add("Transliterate", word, -1)
	}
	word = strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}, word)
	add("Normalize", word, -1)
	show := func(cs []lib.Cell) string {
		var b strings.Builder
		for _, c := range cs {
			if c.Level == 2 {
				b.WriteString(c.Out)
			} else {
				b.WriteRune(c.R)
			}
		}
		return b.String()
	}
	cs := lib.Levels([]rune(word), rewrite, transcribe)
	for i := range rewrite {
		add("Rewrite", show(lib.Rewrite(cs, rewrite[:i+1])), i)
	}
	cs = lib.Rewrite(cs, rewrite)
	for i := range transcribe {
		add("Transcribe", show(lib.Masked(cs, transcribe[:i+1])), i)
	}
	add("Syllabify", lib.Transcribe(cs, transcribe), -1)
	return out
}

func judge(h hangulize.Hangulizer, spec *hangulize.Spec, word string, want []event, schemes []string) {
	silent, err := h.Hangulize(word)
	rt.Assert(err == nil, "transcribing fails")
	var got []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { got = append(got, t) })
	res, err := h.Hangulize(word)
	rt.Observe("result", res)
	rt.Assert(err == nil && res == silent, "tracing changes the result")
	rt.Assert(len(got) == len(want), "another number of events")
	tr := 0
	for i, e := range want {
		g := got[i]
		rt.Assert(g.Word == e.word, "an event has another word")
		rt.Assert(g.Step == e.step, "an event has another step")
		rt.Assert((g.Rule != nil) == (e.rule >= 0), "an event has no rule, or one too many")
		if g.Rule != nil {
			list := spec.Rewrite
			if g.Step == "Transcribe" {
				list = spec.Transcribe
			}
			rt.Assert(g.Rule.ID == e.rule && g.Rule.From == list[e.rule].From && g.Rule.To == list[e.rule].To, "an event names another rule")
		}
		switch g.Step {
		case "Transliterate":
			for tr < len(schemes) && schemes[tr] != g.Why {
				tr++
			}
			rt.Assert(tr < len(schemes), "an event names another transliterator")
			tr++
		case "Normalize":
			rt.Assert(g.Why == "Latn" || g.Why == "", "an event names another script")
		}
	}
	rt.Assert(len(got) > 0 && got[len(got)-1].Word == res, "the last event does not have the result")
	// replaced
	n := len(got)
	var more []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { more = append(more, t) })
	res, err = h.Hangulize(word)
	rt.Assert(err == nil && res == silent, "replacing the trace function changes the result")
	rt.Assert(len(got) == n, "a replaced trace function is called")
	rt.Assert(len(more) == n, "the new trace function is called for other events")
	for i := range got {
		g, m := got[i], more[i]
		rt.Assert(g.Step == m.Step && g.Word == m.Word && g.Why == m.Why, "the new trace function gets other events")
	}
	// removed
	h.Trace(nil)
	res, err = h.Hangulize(word)
	rt.Assert(err == nil && res == silent, "removing the trace function changes the result")
	rt.Assert(len(got) == n && len(more) == n, "a removed trace function is called")
}

// VH_rules: rules on words of letters and spaces.
func VH_rules(shard int) {
	rw := []lib.Rule{rewrites[shard], rewrites[rt.Choice(len(rewrites))]}
	tr := []lib.Rule{transcribes[rt.Choice(len(transcribes))], transcribes[(shard+3)%len(transcribes)]}
	if rt.Thorough() {
		tr[1] = transcribes[rt.Choice(len(transcribes))]
	}
	src := lib.Source("Latn", rw, tr)
	rt.Observe("source", src)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	var rs []rune
	for i := 0; i < 3; i++ {
		rs = append(rs, rt.RuneOf([]string{"abA ", "bc!", "abc"}[i]))
	}
	word := string(rs)
	rt.Observe("input", word)
	judge(hangulize.New(spec), spec, word, events(word, nil, rw, tr), nil)
}

type translit struct {
	scheme string
	f      func(string) string
}

func (t *translit) Scheme() string                         { return t.scheme }
func (t *translit) Transliterate(w string) (string, error) { return t.f(w), nil }

// VH_translits: transliterators which change the word or do not.
func VH_translits(shard int) {
	src := strings.Replace(lib.Source("Latn", rewrites[:2], transcribes[:2]), "script", "translit = p, q, r\n script", 1)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	h := hangulize.New(spec)
	schemes := []string{"p", "q", "r"}
	var fs []func(string) string
	for i, s := range schemes {
		k := rt.Choice(4)
		l := string(rt.RuneOf("ab!"))
		f := func(w string) string {
			switch k {
			case 0:
				return w
			case 1:
				return w + l
			case 2:
				return strings.ToUpper(w)
			}
			return l + "b"
		}
		_ = i
		fs = append(fs, f)
		h.UseTranslit(&translit{s, f})
	}
	word := string([]rune{rt.RuneOf("abB!"), rt.RuneOf("aA ")})[:1+shard]
	rt.Observe("input", word)
	judge(h, spec, word, events(word, fs, rewrites[:2], transcribes[:2]), schemes)
}

// VH_any: words of any letters but NUL.
func VH_any(shard int) {
	src := []string{lib.Source("Latn", rewrites[:3], transcribes[:3]), lib.Source("Hrkt", nil, []lib.Rule{{From: "カ", To: "ㄱㅏ"}}), lib.Source("Cyrl", []lib.Rule{{From: "а", To: "бб"}}, []lib.Rule{{From: "б", To: "ㅂㅣ"}})}[shard%3]
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	rs := []rune{rt.RuneNot("\x00")}
	switch shard / 3 {
	case 1:
		rs = append(rs, rt.RuneOf("aAカа!"))
	case 2:
		rs = append([]rune{rt.RuneOf("b カБ「")}, rs...)
	case 3:
		rs = append(rs, rt.RuneOf(" a"), rs[0])
	}
	word := string(rs)
	rt.Observe("input", word)
	h := hangulize.New(spec)
	var got []hangulize.Trace
	silent, _ := h.Hangulize(word)
	h.Trace(func(t hangulize.Trace) { got = append(got, t) })
	res, err := h.Hangulize(word)
	rt.Assert(err == nil && res == silent, "tracing changes the result")
	rt.Assert(len(got) > 0 && got[0].Step == "Input" && got[0].Word == word, "the first event does not have the input")
	at, id := 0, -1
	for i, g := range got {
		s := stepOf(g.Step)
		rt.Assert(s >= at, "the events are out of order")
		if s > at {
			id = -1
		}
		at = s
		rt.Assert(i == 0 || got[i-1].Word != g.Word, "an event repeats the word before")
		rt.Assert((g.Rule != nil) == (s == 3 || s == 4), "an event has no rule, or one too many")
		if g.Rule != nil {
			rt.Assert(g.Rule.ID > id, "the rules are out of order")
			id = g.Rule.ID
		}
	}
	rt.Assert(got[len(got)-1].Word == res, "the last event does not have the result")
}

// VH_many: many rules, many events, a long word.
func VH_many(shard int) {
	n := []int{8, 20, 30}[shard%3]
	rw := append([]lib.Rule{}, rewrites...)
	tr := append([]lib.Rule{}, transcribes...)
	for i := 0; i < n; i++ {
		// each rewrites the letter the one before has written
		rw = append(rw, lib.Rule{From: "d" + string(rune('e'+i%3)), To: "d" + string(rune('e'+(i+1)%3))})
	}
	src := lib.Source("Latn", rw, tr)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert(err == nil, "a specification is rejected")
	word := string(rt.RuneOf("abA ")) + strings.Repeat("ab c", 1+shard/3*4) + "de" + string(rt.RuneOf("abc"))
	rt.Observe("input", word)
	judge(hangulize.New(spec), spec, word, events(word, nil, rw, tr), nil)
}

// VH_reenter: a trace function which transcribes, too, or panics.
func VH_reenter(shard int) {
	rw, tr := rewrites[:3], transcribes[:3]
	spec, err := hangulize.ParseSpec(strings.NewReader(lib.Source("Latn", rw, tr)))
	rt.Assert(err == nil, "a specification is rejected")
	word := string([]rune{rt.RuneOf("abA "), rt.RuneOf("bc!")})
	other := string([]rune{rt.RuneOf("abc"), rt.RuneOf("aB ")})
	rt.Observe("input", word)
	rt.Observe("other", other)
	h := hangulize.New(spec)
	o, err := h.Hangulize(other)
	rt.Assert(err == nil, "transcribing fails")
	res, err := h.Hangulize(word)
	rt.Assert(err == nil, "transcribing fails")
	want := events(word, nil, rw, tr)
	at := rt.Int(0, 12)
	n, in := 0, false
	var got []hangulize.Trace
	h.Trace(func(t hangulize.Trace) {
		if in {
			return
		}
		got = append(got, t)
		n++
		if n-1 != at {
			return
		}
		in = true
		switch shard {
		case 0:
			r, err := h.Hangulize(other)
			rt.Assert(err == nil && r == o, "a call in a trace function gives another result")
		case 1:
			r, err := hangulize.New(spec).Hangulize(other)
			rt.Assert(err == nil && r == o, "a call in a trace function gives another result")
		case 2:
			panic("no more")
		}
		in = false
	})
	r := ""
	panics := rt.Catch(func() { r, err = h.Hangulize(word) }) != nil
	if shard == 2 && at < len(want) {
		rt.Assert(panics, "a panic of the trace function is lost")
	} else {
		rt.Assert(!panics && err == nil && r == res, "a call in a trace function changes the result")
		rt.Assert(len(got) == len(want), "a call in a trace function changes the events")
		for i, e := range want {
			rt.Assert(got[i].Word == e.word && got[i].Step == e.step, "a call in a trace function changes the events")
		}
	}
	h.Trace(nil)
	r, err = h.Hangulize(other)
	rt.Assert(err == nil && r == o, "the trace function changes a later result")
	r, err = h.Hangulize(word)
	rt.Assert(err == nil && r == res, "the trace function changes a later result")
}
