package c10

import (
	"strings"
	"unicode/utf8"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
	"github.com/hangulize/hangulize/pkg/hre"
)

// A pattern by its parts: edge, lookbehind, core, lookahead, edge.
type pat struct {
	el, ll, core, lr, er string
}

func (p pat) expr() string {
	s := p.el
	if p.ll != "" {
		s += "{" + p.ll + "}"
	}
	s += p.core
	if p.lr != "" {
		s += "{" + p.lr + "}"
	}
	return s + p.er
}

var (
	vars   = map[string][]string{"v": {"a", "ä가", "b"}, "w": {"b", "ä"}, "r": {".", "a"}}
	macros = map[string]string{"@": "<w>", "CC": "(a|b)"}
	cores  = []string{"a", "ab", "(a|ab)", "a?b", "a+", "[ab]ä?", "<v>", "@", "(ab|b)<w>", "[äab가]", "ä가?", "CC", "<r>b?", "[b ]a?", "."}
	edgesL = []string{"", "^", "^^"}
	edgesR = []string{"", "$", "$$"}
	looks  = []string{"", "b", "~b", "ä|bb", "~ab|ä", "<w>", "~@", "(a|b)가", "~(b|ä)가", "b+", "~a?b"}
)

func check(p pat, word string, offs []int) {
	rt.Observe("pattern", p.expr())
	pattern, err := hre.NewPattern(p.expr(), macros, vars)
	rt.Assert(err == nil, "a pattern is rejected")
	o := lib.Split(p.expr(), macros).Expanded(vars)
	rt.Assert(o.EdgeL == p.el && o.EdgeR == p.er && o.NegA == strings.HasPrefix(p.lr, "~") && o.NegB == strings.HasPrefix(p.ll, "~"), "the oracle misreads the pattern")
	judge(pattern, o, word, offs)
}

// judge compares the matches of a pattern with what it says.
func judge(pattern *hre.Pattern, o lib.Pat, word string, offs []int) {
	rt.Observe("input", word)
	ms := pattern.Find(word, -1)
	if o.Never() {
		rt.Assert(len(ms) == 0, "a lookaround beyond an edge matched")
		return
	}
	last := 0
	starts := map[int]bool{}
	for _, off := range offs {
		starts[off] = true
	}
	for _, m := range ms {
		rt.Reach("match")
		s, e := m[0], m[1]
		rt.Observe("start", s)
		rt.Observe("stop", e)
		rt.Assert(s < e && last <= s && e <= len(word), "the bounds are not ascending")
		rt.Assert(starts[s] && starts[e], "a bound lies inside a letter")
		last = e
		rt.Assert(o.Matches(word[s:e]), "the text between the bounds does not match")
		rt.Assert(o.After(word[:s]), "the text before does not satisfy the pattern")
		rt.Assert(o.Before(word[e:]), "the text after does not satisfy the pattern")
	}
	for n := 0; n < 3; n++ {
		some := pattern.Find(word, n)
		want := n
		if len(ms) < n {
			want = len(ms)
		}
		rt.Assert(len(some) == want, "a limited search finds another number of matches")
		for i, m := range some {
			rt.Assert(m[0] == ms[i][0] && m[1] == ms[i][1], "a limited search finds other matches")
		}
	}
	// Every place is covered, as far as no lookaround stands in the way: one
	// before the core may have lost its text to an earlier match, and a match
	// which a negative one forbids hides the places in it.
	if (o.EdgeL == "^" || o.EdgeR == "$") && o.Matches(" ") {
		return // an earlier match or the edge may have taken the space
	}
	single := len(o.Core) == 1 && o.Core != "."
	if !single && (o.Behind != "" || o.NegA) {
		return
	}
	for i, s := range offs {
		for j, e := range offs[i+1:] {
			if j == 8 {
				break // longer than any core without repetition
			}
			if !o.Place(word, s, e) {
				continue
			}
			if single && o.Behind != "" && !o.NegB && strings.Contains(word[:s], o.Core) {
				continue
			}
			found := false
			for _, m := range ms {
				if m[0] <= s && s < m[1] {
					found = true
				}
			}
			rt.Observe("place", s)
			rt.Assert(found, "a place where the pattern matches is missed")
			break
		}
	}
}

// symbolic is a word, and its letter boundaries.
func symbolic(n int, letters string) (string, []int) {
	var b strings.Builder
	offs := []int{0}
	for i := 0; i < n; i++ {
		r := rt.RuneOf(letters)
		b.WriteRune(r)
		offs = append(offs, offs[i]+utf8.RuneLen(r))
	}
	return b.String(), offs
}

// VH_edges: patterns with edges, without lookarounds.
func VH_edges(shard int) {
	n := 5
	if rt.Thorough() {
		n = 6
	}
	p := pat{core: cores[shard], el: edgesL[rt.Choice(3)], er: edgesR[rt.Choice(3)]}
	word, offs := symbolic(n, "abä가 {}")
	check(p, word, offs)
}

// VH_looks: patterns with a lookaround on one side or on both.
func VH_looks(shard int) {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	p := pat{core: cores[rt.Choice(6)], ll: looks[shard], lr: looks[rt.Choice(len(looks))]}
	word, offs := symbolic(n, "abä가")
	check(p, word, offs)
}

// VH_both: edges and lookarounds together.
func VH_both(shard int) {
	p := pat{core: cores[rt.Choice(2)], el: edgesL[shard%3], er: edgesR[shard/3], ll: looks[rt.Choice(5)], lr: looks[rt.Choice(5)]}
	word, offs := symbolic(3, "abä {}")
	check(p, word, offs)
}

// VH_any: words of any letters.
func VH_any(shard int) {
	ps := []pat{{core: "a"}, {core: "ä", el: "^"}, {core: "가", er: "$"}, {core: "[b가-힣]", lr: "~a"}, {core: ".", ll: "~ä"}, {core: "a", ll: "ä", lr: "ä"}, {core: ".+", el: "^^", er: "$$"}, {core: `\w`, ll: "."}}
	p := ps[shard]
	var b strings.Builder
	offs := []int{0}
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		r := rt.Rune()
		b.WriteRune(r)
		offs = append(offs, offs[i]+utf8.RuneLen(r))
	}
	check(p, b.String(), offs)
}

// VH_bundled: the patterns of the bundled specifications.
func VH_bundled(shard int) {
	langs := hangulize.ListLangs()
	shards, n := 40, 4
	if rt.Thorough() {
		n = 6
	}
	for i := shard; i < len(langs); i += shards {
		spec, err := hangulize.LoadSpec(langs[i])
		rt.Assert(err == nil, "a listed language is not loaded")
		rules := append(append([]hangulize.Rule(nil), spec.Rewrite...), spec.Transcribe...)
		rule := rules[rt.Choice(len(rules))]
		rt.Observe("lang", langs[i])
		rt.Observe("pattern", rule.From.String())
		o := lib.Split(rule.From.String(), spec.Macros).Expanded(spec.Vars)
		seen := map[rune]bool{}
		letters := "x"
		for _, r := range o.Core + o.Behind + o.Ahead + " {}" {
			if !seen[r] && r != 'x' && !strings.ContainsRune("()[]|?*+:~\\", r) {
				letters += string(r)
				seen[r] = true
			}
		}
		rt.Observe("letters", letters)
		word, offs := symbolic(n, letters)
		judge(rule.From, o, word, offs)
	}
}

// VH_long: letters in and after a long word of many matches.
func VH_long(shard int) {
	n := []int{5, 40}[rt.Choice(2)]
	if rt.Thorough() {
		n = 1 << uint(rt.Choice(8))
	}
	p := pat{core: cores[shard]}
	switch rt.Choice(4) {
	case 1:
		p.lr = looks[1+rt.Choice(4)]
	case 2:
		p.er = "$"
	case 3:
		p.ll = looks[1+rt.Choice(2)]
	}
	word := strings.Repeat("abä", n) + string(rt.RuneOf("abä가")) + string(rt.RuneOf("abä가")) + strings.Repeat("가 ab", n) + string(rt.RuneOf("abä"))
	var offs []int
	for i := range word {
		offs = append(offs, i)
	}
	check(p, word, append(offs, len(word)))
}
