package c13

import (
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
	"github.com/hangulize/hangulize/pkg/hsl"
)

// same compares a parsed document with what it spells.
func same(src string, want []lib.RefSection) {
	rt.Observe("input", src)
	got, err := hsl.Parse(strings.NewReader(src))
	rt.Assert(err == nil, "a document is rejected")
	rt.Assert(len(got) == len(want), "the number of sections differs")
	for _, w := range want {
		sec, ok := got[w.Name]
		rt.Assert(ok, "a section is missing")
		rt.Assert(sec.Line() == w.Line, "a section reports another line")
		_, dict := sec.(*hsl.DictSection)
		rt.Assert(dict == w.Dict, "a section is of the wrong kind")
		pairs := sec.Pairs()
		rt.Assert(len(pairs) == len(w.Pairs), "the number of pairs differs")
		for i, p := range w.Pairs {
			q := pairs[i]
			if w.Dict {
				found := false
				for _, c := range pairs {
					if c.Left() == p.Left {
						q, found = c, true
					}
				}
				rt.Assert(found, "a key is missing")
			}
			rt.Assert(q.Left() == p.Left, "a left side differs")
			rt.Assert(q.Line() == p.Line, "a pair reports another line")
			rt.Assert(len(q.Right()) == len(p.Right), "the number of values differs")
			for j, v := range p.Right {
				rt.Assert(q.Right()[j] == v, "a value differs")
			}
		}
		if d, ok := sec.(*hsl.DictSection); ok {
			for _, p := range w.Pairs {
				all := d.All(p.Left)
				rt.Assert(len(all) == len(p.Right), "the dictionary has another number of values")
				one := ""
				for j, v := range p.Right {
					rt.Assert(all[j] == v, "the dictionary has another value")
					if j == 0 {
						one = v
					}
				}
				rt.Assert(d.One(p.Left) == one, "the dictionary has another first value")
			}
			rt.Assert(len(d.Map()) == len(w.Pairs), "the map has another size")
		}
	}
}

// quoted writes a text as a string. A backslash is escaped, unless it may
// stand alone.
func quoted(rs []rune, lazy bool) string {
	var b strings.Builder
	b.WriteString(`"`)
	for i, r := range rs {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\`)
			if !lazy || i+1 == len(rs) || rs[i+1] == '"' || rs[i+1] == '\\' {
				b.WriteString(`\`)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteString(`"`)
	return b.String()
}

// VH_quoted: any text in quotes, in each position.
func VH_quoted(shard int) {
	lazy := rt.Choice(2) == 1
	var rs []rune
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		rs = append(rs, rt.Rune())
	}
	lines := 0
	for _, r := range rs {
		if r == '\n' {
			lines++
		}
	}
	q, t := quoted(rs, lazy), string(rs)
	switch shard {
	case 0:
		same("s:\n a = "+q+"\n b = c", []lib.RefSection{{Name: "s", Dict: true, Line: 1, Pairs: []lib.RefPair{{"a", []string{t}, 2}, {"b", []string{"c"}, 3 + lines}}}})
	case 1:
		rt.Assume(lines == 0)
		same("s:\n"+q+"->x,"+q+" , y#"+q+"\n"+q+"->z", []lib.RefSection{{Name: "s", Line: 1, Pairs: []lib.RefPair{{t, []string{"x", t, "y"}, 2}, {t, []string{"z"}, 3}}}})
	case 2:
		rt.Assume(lines == 0)
		same("\n"+q+":\n a -> b\n", []lib.RefSection{{Name: t, Line: 2, Pairs: []lib.RefPair{{"a", []string{"b"}, 3}}}})
	case 3:
		rt.Assume(lines == 0 && t != "b")
		same("s:\n"+q+"=x\nb="+q+"\n", []lib.RefSection{{Name: "s", Dict: true, Line: 1, Pairs: []lib.RefPair{{t, []string{"x"}, 2}, {"b", []string{t}, 3}}}})
	}
}

// VH_bare: letters without quotes.
func VH_bare(shard int) {
	first := []rune{'a', 'z', 'A', 'Z', '_', '_', 'ㄱ', 'ㅣ', '가', '힣', 'а', 'я', 'ァ', 'ヴ', 0xdf, 0xf6, 0x10400, 0x1044f}
	more := append([]rune{'0', '9', 0x660, 0x669}, first...)
	t := string([]rune{rt.RuneIn(first...), rt.RuneIn(more...)})
	switch shard {
	case 0:
		same(t+": \n "+t+" = "+t+", "+t+"\n", []lib.RefSection{{Name: t, Dict: true, Line: 1, Pairs: []lib.RefPair{{t, []string{t, t}, 2}}}})
	case 1:
		same(t+":\n"+t+"->"+t+"\n\n"+t+"->"+t+","+t, []lib.RefSection{{Name: t, Line: 1, Pairs: []lib.RefPair{{t, []string{t}, 2}, {t, []string{t, t}, 4}}}})
	}
}

// VH_layout: sections and pairs with blank lines, comments and spaces around.
func VH_layout(shard int) {
	var b strings.Builder
	line := 1
	odd := 2 // unusual places at once
	if rt.Thorough() {
		odd = 4
	}
	choice := func(n int) int {
		if odd == 0 {
			return 0
		}
		c := rt.Choice(n)
		if c > 0 {
			odd--
		}
		return c
	}
	noise := func() {
		switch choice(4) {
		case 1:
			b.WriteString(" \t\n")
			line++
		case 2:
			b.WriteString(" #" + string(rt.RuneNot("\n")) + "\n")
			line++
		case 3:
			b.WriteString("# a = b\n\n  # \"c\n")
			line += 3
		}
	}
	end := func(last bool) {
		switch choice(4) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString("\r\n")
		case 2:
			b.WriteString(" # x: y -> z\n")
		case 3:
			if last {
				return
			}
			b.WriteString("#\n\n")
			line++
		}
		line++
	}
	var want []lib.RefSection
	kinds := []string{"=", "->", " = ", "\t-> "}
	b.WriteString([]string{"", "\n", "# head\n"}[shard/4])
	if shard/4 > 0 {
		line++
	}
	n := 2
	for s := 0; s < n; s++ {
		noise()
		sec := lib.RefSection{Name: string(rune('s' + s)), Dict: (shard+s)%2 == 0, Line: line}
		b.WriteString(sec.Name + []string{":", " : "}[s])
		end(false)
		pairs := 1 + (shard+s)%2
		for i := 0; i < pairs; i++ {
			noise()
			key := string(rune('k' + i))
			if !sec.Dict {
				key = "k"
			}
			p := lib.RefPair{Left: key, Line: line}
			b.WriteString("  " + key + kinds[(shard%4)&2|[]int{0, 1}[btoi(!sec.Dict)]])
			vals := []int{1, 2, 0}[choice(3)]
			for j := 0; j < vals; j++ {
				if j > 0 {
					b.WriteString([]string{",", " , "}[i%2])
				}
				v := string(rt.RuneIn('a', 'z'))
				p.Right = append(p.Right, v)
				if j == 1 {
					v = `"` + v + `"`
				}
				b.WriteString(v)
			}
			sec.Pairs = append(sec.Pairs, p)
			end(s == n-1 && i == pairs-1)
		}
		want = append(want, sec)
	}
	same(b.String(), want)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// VH_any: whatever is no error parses to what the grammar says.
func VH_any(shard int) {
	src := []string{"s:", "s:a=", "s:a->", "s:\n\"", "#", "s:a=b,\"", "s:k=\nl=", "s:\n\"\\"}[shard]
	rs := []rune(src)
	n := 4
	if rt.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf("a1\"\\:,=->#\n \r"))
	}
	want, ok := lib.RefParse(rs)
	rt.Assume(ok)
	same(string(rs), want)
}

// VH_source: a specification keeps its source.
func VH_source(shard int) {
	src := "lang:\n id = \"x\"\n codes = \"x\", \"xx\"\n script = \"Latn\"\n"
	switch shard {
	case 0:
		src += "#" + string([]byte{[]byte("\xe3\xf0\x80a")[rt.Choice(4)], rt.Byte(), rt.Byte()}) + "\n"
	case 1:
		src = "#" + string([]byte{rt.Byte(), rt.Byte()}) + "\r\n" + src + "test: \"a\"->b\n"
	case 2:
		src = strings.Repeat("# long\n", 600) + src + "rewrite:\n a -> b" + []string{"", "\n", "\r\n", " #", "\n\n"}[rt.Choice(5)]
	case 3:
		src += "vars:\n v = " + quoted([]rune{rt.Rune(), rt.Rune()}, false) + "\n" + strings.Repeat(" ", 4090) + string([]rune{rt.RuneOf(" \n\t")})
	}
	rt.Observe("input", src)
	spec, err := hangulize.ParseSpec(strings.NewReader(src))
	if err != nil {
		rt.Assert(shard == 0 || shard == 1, "a specification is rejected")
		return
	}
	rt.Reach("spec")
	rt.Assert(spec.Source == src, "the source differs")
}

// VH_large: many sections, many pairs, many values, long strings.
func VH_large(shard int) {
	n := []int{20, 70, 300}[shard%3]
	x := string([]rune{rt.RuneIn('a', 'z'), rt.RuneIn('0', '9', 'a', 'z')})
	q := string([]rune{rt.RuneOf("a #\\\"=→"), rt.RuneOf("b,\t가")})
	var b strings.Builder
	var want []lib.RefSection
	name := func(i int) string { return "k" + string(rune('a'+i%26)) + string(rune('a'+i/26)) }
	switch shard / 3 {
	case 0: // sections
		for i := 0; i < n; i++ {
			b.WriteString(name(i) + ":\n a -> b\n")
			want = append(want, lib.RefSection{Name: name(i), Line: 2*i + 1, Pairs: []lib.RefPair{{"a", []string{"b"}, 2*i + 2}}})
		}
		b.WriteString("_" + x + ":\n\n " + x + " = " + quoted([]rune(q), false))
		want = append(want, lib.RefSection{Name: "_" + x, Dict: true, Line: 2*n + 1, Pairs: []lib.RefPair{{x, []string{q}, 2*n + 3}}})
	case 1: // pairs
		b.WriteString("s:\n")
		s := lib.RefSection{Name: "s", Line: 1}
		for i := 0; i < n; i++ {
			b.WriteString(" " + name(i/2) + " -> b" + "\n")
			s.Pairs = append(s.Pairs, lib.RefPair{Left: name(i / 2), Right: []string{"b"}, Line: i + 2})
		}
		b.WriteString(x + "->" + quoted([]rune(q), false) + "\n")
		s.Pairs = append(s.Pairs, lib.RefPair{Left: x, Right: []string{q}, Line: n + 2})
		want = append(want, s)
	case 2: // pairs of a dictionary
		b.WriteString("s:\n")
		s := lib.RefSection{Name: "s", Line: 1, Dict: true}
		for i := 0; i < n; i++ {
			b.WriteString(" " + name(i) + " = b" + "\n")
			s.Pairs = append(s.Pairs, lib.RefPair{Left: name(i), Right: []string{"b"}, Line: i + 2})
		}
		b.WriteString("_" + x + "=" + quoted([]rune(q), false) + "\n")
		s.Pairs = append(s.Pairs, lib.RefPair{Left: "_" + x, Right: []string{q}, Line: n + 2})
		want = append(want, s)
	case 3: // values
		b.WriteString("s:\n v = ")
		var vs []string
		for i := 0; i < n; i++ {
			b.WriteString(name(i/2) + ", ")
			vs = append(vs, name(i/2))
		}
		b.WriteString(quoted([]rune(q), false) + " , " + x + "\n w = a")
		vs = append(vs, q, x)
		want = append(want, lib.RefSection{Name: "s", Line: 1, Dict: true, Pairs: []lib.RefPair{{"v", vs, 2}, {"w", []string{"a"}, 3}}})
	case 4: // a long string, a long word, a long comment, many blank lines
		l := strings.Repeat("가b ", n*5)
		w := strings.Repeat("xY", n*5)
		b.WriteString("s: #" + l + "\n" + strings.Repeat("\n", n) + w + x + " = " + quoted([]rune(l+q+l), false) + ", " + x + w + "\n")
		want = append(want, lib.RefSection{Name: "s", Line: 1, Dict: true, Pairs: []lib.RefPair{{w + x, []string{l + q + l, x + w}, n + 2}}})
	}
	same(b.String(), want)
}

// VH_again: sections which come again.
func VH_again(shard int) {
	var b strings.Builder
	var want []lib.RefSection
	line := 1
	n := 3
	if rt.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		name := []string{"s", "t"}[rt.Choice(2)]
		b.WriteString(name + ":\n")
		at := line
		line++
		for j := rt.Choice(3); j > 0; j-- {
			key, val := string(rt.RuneIn('a', 'c')), string(rt.RuneOf("xy"))
			dict := (name == "s") == (shard == 1)
			if dict {
				key = string(rune('d'+line)) + key
			}
			b.WriteString(" " + key + []string{"->", "="}[btoi(dict)] + val + "\n")
			k := 0
			for k < len(want) && want[k].Name != name {
				k++
			}
			if k == len(want) {
				want = append(want, lib.RefSection{Name: name, Dict: dict, Line: at})
			}
			want[k].Pairs = append(want[k].Pairs, lib.RefPair{Left: key, Right: []string{val}, Line: line})
			line++
		}
	}
	same(b.String(), want)
}
