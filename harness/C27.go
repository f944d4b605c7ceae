package c27

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/pkg/hre"
)

const inf = -1

// tree is any expression of a depth, with the number of letters its longest
// match has.
func tree(depth int, first int) (*syntax.Regexp, int) {
	leaf := 3
	n := leaf
	if depth > 0 {
		n = 10
	}
	k := first
	if k < 0 {
		k = rt.Choice(n)
	}
	one := func(op syntax.Op) (*syntax.Regexp, int) {
		sub, w := tree(depth-1, -1)
		re := &syntax.Regexp{Op: op}
		re.Sub = re.Sub0[:1]
		re.Sub[0] = sub
		return re, w
	}
	many := func(op syntax.Op) (*syntax.Regexp, int) {
		re := &syntax.Regexp{Op: op}
		total, max, open := 0, 0, false
		for i := 2 + rt.Choice(2); i > 0; i-- {
			// the last one is deep
			d := 0
			if i == 1 {
				d = depth - 1
			}
			sub, w := tree(d, -1)
			re.Sub = append(re.Sub, sub)
			if w == inf {
				open = true
				continue
			}
			total += w
			if w > max {
				max = w
			}
		}
		if open {
			return re, inf
		}
		if op == syntax.OpConcat {
			return re, total
		}
		return re, max
	}
	switch k {
	case 0: // a literal of symbolic length
		rs := make([]rune, 0, 4)
		n := 2
		if first >= 0 {
			n = rt.Choice(8)
		}
		for i := 0; i < n; i++ {
			rs = append(rs, rt.Rune())
		}
		return &syntax.Regexp{Op: syntax.OpLiteral, Rune: rs}, len(rs)
	case 1: // one letter
		op := syntax.OpCharClass
		if first >= 0 {
			op = []syntax.Op{syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL}[rt.Choice(3)]
		}
		return &syntax.Regexp{Op: op, Rune: []rune{'a', 'z'}}, 1
	case 2: // nothing
		op := 0
		if first >= 0 {
			op = rt.Choice(8)
		}
		ops := []syntax.Op{syntax.OpEmptyMatch, syntax.OpNoMatch, syntax.OpBeginLine, syntax.OpEndLine,
			syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary, syntax.OpNoWordBoundary}
		return &syntax.Regexp{Op: ops[op]}, 0
	case 3:
		return one(syntax.OpCapture)
	case 4:
		return one(syntax.OpQuest)
	case 5:
		re, _ := one(syntax.OpStar)
		return re, inf
	case 6:
		re, _ := one(syntax.OpPlus)
		return re, inf
	case 7:
		re, w := one(syntax.OpRepeat)
		re.Min = rt.Int(0, 1000)
		re.Max = rt.Int(-1, 1000)
		rt.Assume(re.Max == -1 || re.Min <= re.Max)
		if re.Max == -1 || w == inf {
			return re, inf
		}
		return re, w * re.Max
	case 8:
		return many(syntax.OpConcat)
	}
	return many(syntax.OpAlternate)
}

// VH_tree: the width of any parsed expression.
func VH_tree(shard int) {
	d := 2
	if rt.Thorough() {
		d = 3
	}
	re, want := tree(d, shard)
	got := hre.RegexpMaxWidth(re)
	rt.Observe("got", got)
	rt.Observe("want", want)
	if want == inf {
		rt.Assert(got == -1, "an open repetition has a width")
	} else {
		rt.Assert(got == want, "the width differs from the longest match")
	}
}

var exprs = []string{
	`a`, `ab|b`, `a?b`, `(a|bc)?d`, `[ab]{2}`, `(ab){1,2}`, `a{0,3}`, `(a|b{2}){1,2}`, `\w\d`, `.a`, `(?:a|b)(?:c|da)`,
	`a(b(c)?)?`, `가|나다`, `^a?b$`, `\bab\b`, `(?i)ab`, `a|ab|abc`, `(?s).b`, `x{0}a`, `[^a]b?`, `(a{2}|b){2}`, `a??b`,
}

// VH_match: no match of an expression is longer than its width.
func VH_match(shard int) {
	expr := exprs[shard]
	parsed, err := syntax.Parse(expr, syntax.Perl)
	rt.Assert(err == nil, "cannot parse")
	w := hre.RegexpMaxWidth(parsed)
	rt.Observe("width", w)
	n := 4
	if rt.Thorough() {
		n = 6
	}
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf("abcd1가나다 B"))
	}
	word := string(rs)
	rt.Observe("expr", expr)
	rt.Observe("input", word)
	re := regexp.MustCompile(expr)
	for _, m := range re.FindAllStringIndex(word, -1) {
		rt.Assert(utf8.RuneCountInString(word[m[0]:m[1]]) <= w, "a match is longer than the width")
	}
}

// VH_look: the widths a pattern reports are those of its negative lookarounds.
func VH_look(shard int) {
	expr := exprs[shard]
	vars := map[string][]string{"v": {"a", "bcd", "ef"}}
	macros := map[string]string{"@": "<v>"}
	parsed, _ := syntax.Parse(expr, syntax.Perl)
	w := hre.RegexpMaxWidth(parsed)
	if strings.Contains(expr, "(?") { // flags and groups which do not capture are no syntax of lookarounds
		return
	}
	for _, r := range expr {
		if r == '{' || r == '}' || r == '^' || r == '$' {
			return
		}
	}
	type c struct {
		p    string
		a, b int
	}
	for _, c := range []c{{"x", 0, 0}, {"x{~" + expr + "}", w, 0}, {"{~" + expr + "}x", 0, w}, {"{~" + expr + "}x{~yy}", 2, w},
		{"x{" + expr + "}", 0, 0}, {"{~@}x{~@z}", 4, 3}, {"{~<v>?}x{~" + expr + "|@@}", 6, 3}, {"{~a*}x", 0, -1}, {"x{~a+|b}", -1, 0}, {"^{~" + expr + "}x", 0, 0}} {
		p, err := hre.NewPattern(c.p, macros, vars)
		rt.Observe("pattern", c.p)
		rt.Assert(err == nil, "a pattern is rejected")
		a, b := p.NegativeLookaroundWidths()
		rt.Observe("ahead", a)
		rt.Observe("behind", b)
		want := c.a
		if c.p == "{~<v>?}x{~"+expr+"|@@}" && w > want {
			want = w
		}
		rt.Assert(a == want && b == c.b, "a lookaround has another width")
	}
}
