package c11

import (
	"regexp"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
	"github.com/hangulize/hangulize/pkg/hre"
)

var (
	vars = map[string][]string{"v": {"a", "b", "ä"}, "w": {"b", "ab"}, "u": {"ä", "a"}, "dot": {".", "a", "+"},
		"V": {"1", "22", "가"}, "W": {"P", "<"}, "S": {"s"}, "empty": {}, "E": {"", "e"}}
	macros  = map[string]string{"@": "<w>", "M": "<V>"}
	cores   = []string{"<v>", "a<v>", "<v><w>", "<w><v>", "<v>a<w>", "@<v>", "<v><v>", "<w>", "b?<v>", "<v>b?<u>", "ab", "<dot>"}
	repls   = []string{"x", "<V>", "<V>x", "x<W>", "M<W>", "<W><V>", "<V><V>", "<none>", "<V>{}<W>", "<V><W><S>", "", "<S>", "<empty>", "<E>", "가<W>-"}
	arounds = [][2]string{{"", ""}, {"{<u>}", ""}, {"", "{<u>}"}, {"{~<u>}", "{<v>}"}, {"{<v>}", "{~<w>}"}, {"^", "$"}, {"", "{<u><v>}"}, {"{<u>|<w>}", "$$"}}
)

// segs splits an expression into literals and variables.
func segs(s string) []string {
	var out []string
	for s != "" {
		i := strings.Index(s, "<")
		if i < 0 {
			return append(out, s)
		}
		if i > 0 {
			out = append(out, s[:i])
		}
		j := i + strings.Index(s[i:], ">")
		out = append(out, s[i:j+1])
		s = s[j+1:]
	}
	return out
}

// values finds the values of the variables of the core in a match.
func values(core []string, vars map[string][]string, text string) ([]int, bool) {
	if len(core) == 0 {
		return nil, text == ""
	}
	if core[0][0] == '<' {
		for i, val := range vars[core[0][1:len(core[0])-1]] {
			if !strings.HasPrefix(text, val) {
				continue
			}
			if rest, ok := values(core[1:], vars, text[len(val):]); ok {
				return append([]int{i}, rest...), true
			}
		}
		return nil, false
	}
	for n := len(text); n >= 0; n-- {
		if !regexp.MustCompile("^(?:" + core[0] + ")$").MatchString(text[:n]) {
			continue
		}
		if rest, ok := values(core[1:], vars, text[n:]); ok {
			return rest, true
		}
	}
	return nil, false
}

// replaced is what a match becomes.
func replaced(core, repl []string, vars map[string][]string, text string) string {
	idx, ok := values(core, vars, text)
	rt.Assert(ok, "the oracle does not understand a match")
	out := ""
	for _, seg := range repl {
		if seg[0] != '<' {
			out += seg
			continue
		}
		to := vars[seg[1:len(seg)-1]]
		if len(idx) == 0 || len(to) == 0 {
			return text
		}
		out += to[idx[0]%len(to)]
		idx = idx[1:]
	}
	return out
}

func judge(rule hangulize.Rule, core, repl []string, vars map[string][]string, word string) {
	rt.Observe("input", word)
	ms := rule.From.Find(word, -1)
	want, first := "", ""
	last := 0
	for i, m := range ms {
		rt.Reach("match")
		r := replaced(core, repl, vars, word[m[0]:m[1]])
		want += word[last:m[0]] + r
		if i == 0 {
			first = word[:m[0]] + r + word[m[1]:]
		}
		last = m[1]
	}
	want += word[last:]
	if len(ms) == 0 {
		first = word
	}
	rt.Observe("want", want)
	got := rule.From.Replace(word, rule.To, -1)
	rt.Observe("got", got)
	rt.Assert(got == want, "replacing gives another text")
	rt.Assert(rule.Replace(word) == want, "the rule gives another text")
	rt.Assert(rule.From.Replace(word, rule.To, 0) == word, "replacing nothing changes the text")
	rt.Assert(rule.From.Replace(word, rule.To, 1) == first, "replacing one match gives another text")
}

// VH_small: patterns of literals and variables.
func VH_small(shard int) {
	around := arounds[rt.Choice(len(arounds))]
	expr := around[0] + cores[shard] + around[1]
	to := repls[rt.Choice(len(repls))]
	rt.Observe("pattern", expr)
	rt.Observe("replacement", to)
	from, err := hre.NewPattern(expr, macros, vars)
	rt.Assert(err == nil, "a pattern is rejected")
	rule := hangulize.Rule{From: from, To: hre.NewRPattern(to, macros, vars)}
	n := 4
	if rt.Thorough() {
		n = 5
	}
	letters := "abä"
	if cores[shard] == "<dot>" {
		letters = "ab.+"
	}
	word := ""
	for i := 0; i < n; i++ {
		word += string(rt.RuneOf(letters))
	}
	judge(rule, segs(lib.ExpandMacros(cores[shard], macros)), segs(lib.ExpandMacros(to, macros)), vars, word)
}

// VH_any: whatever surrounds the matches stays.
func VH_any(shard int) {
	expr := cores[shard]
	from, _ := hre.NewPattern(expr, macros, vars)
	to := []string{"<V>", "<V>{}x", "", "<V><V><V>"}[rt.Choice(4)]
	rule := hangulize.Rule{From: from, To: hre.NewRPattern(to, macros, vars)}
	rt.Observe("pattern", expr)
	rt.Observe("replacement", to)
	word := ""
	for i := 0; i < 3; i++ {
		word += string(rt.Rune())
	}
	judge(rule, segs(lib.ExpandMacros(expr, macros)), segs(to), vars, word)
}

// VH_bytes: ill-formed text around the matches stays, too.
func VH_bytes(shard int) {
	from, _ := hre.NewPattern("<v>", macros, vars)
	rule := hangulize.Rule{From: from, To: hre.NewRPattern("<V>", macros, vars)}
	n := 3
	if rt.Thorough() {
		n = 4
	}
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, rt.Byte())
	}
	judge(rule, segs("<v>"), segs("<V>"), vars, string(b))
}

// VH_bundled: the rules of the bundled specifications whose replacements map
// variables, or which are literal.
func VH_bundled(shard int) {
	langs := hangulize.ListLangs()
	n := 3
	if rt.Thorough() {
		n = 5
	}
	for i := shard; i < len(langs); i += 40 {
		spec, err := hangulize.LoadSpec(langs[i])
		rt.Assert(err == nil, "a listed language is not loaded")
		rules := append(append([]hangulize.Rule(nil), spec.Rewrite...), spec.Transcribe...)
		rule := rules[rt.Choice(len(rules))]
		p := lib.Split(rule.From.String(), spec.Macros)
		if strings.ContainsAny(p.Core, "()|[]?*+.\\") {
			return // only literals and variables
		}
		rt.Observe("lang", langs[i])
		rt.Observe("rule", rule.String())
		o := p.Expanded(spec.Vars)
		seen := map[rune]bool{}
		letters := "x"
		for _, r := range o.Core + o.Behind + o.Ahead + " " {
			if !seen[r] && r != 'x' && !strings.ContainsRune("()[]|?*+:~\\", r) {
				letters += string(r)
				seen[r] = true
			}
		}
		word := ""
		for j := 0; j < n; j++ {
			word += string(rt.RuneOf(letters))
		}
		judge(rule, segs(p.Core), segs(lib.ExpandMacros(rule.To.String(), spec.Macros)), spec.Vars, word)
	}
}

// VH_long: letters in and after a long word of many matches.
func VH_long(shard int) {
	n := []int{5, 40}[rt.Choice(2)]
	if rt.Thorough() {
		n = 1 << uint(rt.Choice(8))
	}
	expr := cores[shard]
	to := repls[rt.Choice(len(repls))]
	rt.Observe("pattern", expr)
	rt.Observe("replacement", to)
	from, err := hre.NewPattern(expr, macros, vars)
	rt.Assert(err == nil, "a pattern is rejected")
	rule := hangulize.Rule{From: from, To: hre.NewRPattern(to, macros, vars)}
	word := strings.Repeat("abä", n) + string(rt.RuneOf("abä")) + string(rt.RuneOf("abä")) + strings.Repeat("x ab", n) + string(rt.RuneOf("abä"))
	judge(rule, segs(lib.ExpandMacros(expr, macros)), segs(lib.ExpandMacros(to, macros)), vars, word)
}
