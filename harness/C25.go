package c25

import (
	"bytes"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/pkg/tracefmt"
	"github.com/mattn/go-runewidth"
)

func rules() []hangulize.Rule {
	spec, err := hangulize.ParseSpec(strings.NewReader("rewrite:\n \"a|b\" -> \"c\"\n \"^x\" -> \"가\"\n"))
	rt.Assert(err == nil, "a specification is rejected")
	return spec.Rewrite
}

// check compares a listing with the events.
func check(traces []hangulize.Trace) {
	var buf bytes.Buffer
	tracefmt.FprintTraces(&buf, traces)
	out := buf.String()
	rt.Observe("got", out)
	rest := out
	step := ""
	column := 0
	for i, t := range traces {
		if t.Step != step {
			step = t.Step
			head := "[" + step + "]\n"
			rt.Assert(strings.HasPrefix(rest, head), "a step has no heading")
			rest = rest[len(head):]
		}
		pre := "  " + t.Word
		rt.Assert(strings.HasPrefix(rest, pre), "an event has no line with its word")
		rest = rest[len(pre):]
		pad := 0
		for strings.HasPrefix(rest, " ") {
			rest = rest[1:]
			pad++
		}
		why := ""
		if t.Rule != nil {
			why = t.Rule.String()
		} else if t.Why != "" {
			why = "(" + t.Why + ")"
		}
		if why != "" {
			rt.Assert(strings.HasPrefix(rest, "| "+why+"\n"), "an event lacks its explanation")
			rest = rest[2+len(why)+1:]
			rt.Assert(pad >= 1, "an explanation touches its word")
			at := runewidth.StringWidth(t.Word) + pad
			rt.Assert(at >= column, "the explanations move left")
			column = at
			// no word so far reaches the explanation
			for _, u := range traces[:i+1] {
				rt.Assert(runewidth.StringWidth(u.Word) < at, "an explanation stands in an earlier word")
			}
		} else {
			rt.Assert(strings.HasPrefix(rest, "\n"), "an event has an explanation it should not")
			rest = rest[1:]
		}
	}
	rt.Assert(rest == "", "the listing has more than the events")
}

// word is a word of a length, of narrow, wide and zero-width letters.
func word(k int) string {
	switch k {
	case 0:
		return ""
	case 1:
		return string(rt.RuneIn('!', '~'))
	case 2:
		return "aaaaaaa" + string(rt.RuneIn('!', '~'))
	case 3:
		return "가나다" + string([]rune{rt.RuneIn('a', 'z', 0x300, 0x310), rt.RuneIn('a', 'b', 'ㄱ', 'ㅎ')})
	}
	return "aaaaaaaa가나다라마" + string(rt.RuneIn('ㄱ', 'ㅎ'))
}

// VH_events: events with rules, reasons or neither.
func VH_events(shard int) {
	rs := rules()
	n := 3
	if rt.Thorough() {
		n = 4
	}
	steps := []string{"Input", "Rewrite", "Transcribe", "Rewrite"}
	at := 0
	var ts []hangulize.Trace
	for i := 0; i < n; i++ {
		k := shard
		if i > 0 {
			k = rt.Choice(5)
		}
		t := hangulize.Trace{Word: word(k)}
		if i > 0 && rt.Choice(2) == 1 {
			at++
		}
		t.Step = steps[at]
		switch rt.Choice(3) {
		case 1:
			t.Rule = &rs[i%2]
			if at == 1 {
				t.Why = "x"
			}
		case 2:
			t.Why = string(rt.RuneIn('a', 'z'))
		}
		ts = append(ts, t)
	}
	rt.Observe("events", len(ts))
	check(ts)
}

// VH_word: words of any letters.
func VH_word(shard int) {
	rs := rules()
	w := []rune{rt.RuneIn(0x21, 0x10ffff)}
	if shard > 0 {
		w = append([]rune(strings.Repeat("b", 5+shard)), w...)
	}
	check([]hangulize.Trace{{Step: "Input", Word: string(w), Why: "y"}, {Step: "Rewrite", Word: "abcdefgh", Rule: &rs[0]}, {Step: "Rewrite", Word: string(w[:1]), Rule: &rs[1]}})
}

// VH_real: the events of a real transcription.
func VH_real(shard int) {
	spec, err := hangulize.ParseSpec(strings.NewReader("lang:\n id=\"x\"\n codes=x,xx\n script=\"Latn\"\nrewrite:\n ab -> \"가나다라\"\ntranscribe:\n a -> ㅏ\n \"b\" -> \"ㅂㅣ\"\n"))
	rt.Assert(err == nil, "a specification is rejected")
	h := hangulize.New(spec)
	var ts []hangulize.Trace
	h.Trace(func(t hangulize.Trace) { ts = append(ts, t) })
	w := string([]rune{rt.RuneOf("abA!"), rt.RuneOf("abB!가"), rt.RuneOf("ab!가")})
	rt.Observe("input", w)
	_, err = h.Hangulize(w)
	rt.Assert(err == nil, "transcribing fails")
	check(ts)
}

// VH_many: many events, whose words grow and shrink.
func VH_many(shard int) {
	rs := rules()
	n := []int{20, 70, 300}[shard]
	var ts []hangulize.Trace
	for i := 0; i < n; i++ {
		t := hangulize.Trace{Step: []string{"Input", "Rewrite", "Transcribe", "Syllabify"}[i*4/n], Word: strings.Repeat("b", i%5)}
		if i%7 == 3 {
			t.Word = strings.Repeat("가", i/9)
		}
		if i%3 != 2 {
			t.Rule = &rs[i%2]
		}
		ts = append(ts, t)
	}
	ts[n/2].Word = word(rt.Choice(5))
	ts[n-1].Word = word(rt.Choice(5))
	ts[n-1].Why = string(rt.RuneIn('a', 'z'))
	check(ts)
}

// VH_why: any reason, also with a step or a word of the same text.
func VH_why(shard int) {
	steps := []string{"Input", "Transliterate", "Normalize", "Rewrite", "Transcribe", "Syllabify", "Localize"}
	r := string(rt.RuneIn(0x20, 0x10ffff))
	s := steps[shard]
	w := word(rt.Choice(5))
	why := []string{r, r + "d", s, w, s + r}[rt.Choice(5)]
	rt.Observe("why", why)
	check([]hangulize.Trace{{Step: s, Word: w, Why: why}, {Step: s, Word: s}, {Step: steps[(shard+1)%7], Word: w, Why: steps[rt.Choice(7)]}})
}
