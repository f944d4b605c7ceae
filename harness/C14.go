package c14

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
	"github.com/hangulize/hangulize/pkg/hsl"
)

// VH_bytes: any bytes.
func VH_bytes(shard int) {
	pre := []string{"", "s:a=", "s:\n\"a\"->\"", "#", "s:a=\"\\"}[shard/2]
	b := []byte(pre)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		if i == 0 {
			b = append(b, rt.Byte())
			continue
		}
		c := "a1\"\\:,=->#\n \x00\x80\xbf\xc3\xe3\xf0\xff"
		k := rt.Choice(len(c))
		b = append(b, c[k])
	}
	if shard%2 == 1 {
		b[len(pre)], b[len(b)-1] = b[len(b)-1], b[len(pre)]
	}
	src := string(b)
	rt.Observe("input", src)
	_, ok := lib.RefParse([]rune(src))
	got, err := hsl.Parse(strings.NewReader(src))
	rt.Assert((err == nil) == ok, "the error differs")
	rt.Assert(ok || got == nil, "an error comes with a document")
}

// VH_letters: texts of the letters of the grammar.
func VH_letters(shard int) {
	pre := []string{"", "s:", "s:a=b\n", "s:a->b\n", "s:\"a", "a=", "s:a=b\na=c\n", "s:\n# x\n"}[shard]
	rs := []rune(pre)
	n := 4
	if rt.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		rs = append(rs, rt.RuneOf("a\"\\:,=->#\n \x00!"))
	}
	src := string(rs)
	rt.Observe("input", src)
	_, ok := lib.RefParse(rs)
	_, err := hsl.Parse(strings.NewReader(src))
	rt.Assert((err == nil) == ok, "the error differs")
}

// VH_keys: two keys of a dictionary.
func VH_keys(shard int) {
	var k []string
	for i := 0; i < 2; i++ {
		rs := []rune{rt.RuneIn('a', 'z', '가', '힣')}
		if rt.Choice(2) == 1 {
			rs = append(rs, rt.RuneIn('0', '9', 'a', 'z'))
		}
		k = append(k, string(rs))
	}
	src := "s:\n" + k[0] + "=x\nother=y\n" + []string{"t:\n u->v\ns:\n", ""}[shard] + k[1] + "=" + string(rt.RuneOf("xz"))
	rt.Observe("input", src)
	_, err := hsl.Parse(strings.NewReader(src))
	rt.Assert((err != nil) == (k[0] == k[1]), "a duplicated key is not an error, or others are")
}

type failing struct {
	s   string
	n   int
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	if f.n <= 0 || f.s == "" {
		return 0, f.err
	}
	n := copy(p, f.s[:1])
	f.s = f.s[n:]
	f.n--
	return n, nil
}

const spec = "lang:\n id = \"x\"\n codes = \"x\", \"xx\"\n script = \"Latn\"\nvars:\n v = a, b\nrewrite:\n \"^<v>{~c}\" -> \"d\" # x\ntest:\n a -> b\n"

var errFail = errors.New("fails")

// VH_reader: a reader which fails anywhere.
func VH_reader(shard int) {
	n := shard*25 + rt.Choice(25)
	if n > len(spec) {
		return
	}
	rt.Observe("after", n)
	errFail := []error{errFail, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("read: %w", io.EOF)}[rt.Choice(4)]
	if rt.Choice(2) == 0 {
		_, err := hsl.Parse(&failing{spec, n, errFail})
		rt.Assert(err != nil, "a failing reader is not an error")
	} else {
		s, err := hangulize.ParseSpec(&failing{spec, n, errFail})
		rt.Assert(err != nil && s == nil, "a failing reader is not an error of the specification")
	}
	_, err := hangulize.ParseSpec(&failing{spec, len(spec), io.EOF})
	rt.Assert(err == nil, "a reader which reads letter by letter is an error")
}

// VH_script: the script of a specification.
func VH_script(shard int) {
	known := []string{"", "Latn", "Cyrl", "Geor", "Grek", "Hrkt", "Pron", "Piny", "Kana"}
	if shard == 0 {
		s := string([]rune{rt.RuneIn('A', 'Z'), rt.RuneIn('a', 'z'), rt.RuneIn('a', 'z'), rt.RuneIn('a', 'z')})
		for _, k := range known {
			rt.Assume(s != k)
		}
		_, err := hangulize.ParseSpec(strings.NewReader(strings.Replace(spec, "Latn", s, 1)))
		rt.Observe("script", s)
		rt.Assert(err != nil, "an unknown script is not an error")
		return
	}
	s := []string{"-", "latn", "Latn ", "LATN", "Lat", "Latin", "Latn\\n", "한글", "Cyrl, Latn"}[rt.Choice(9)]
	rt.Observe("script", s)
	_, err := hangulize.ParseSpec(strings.NewReader(strings.Replace(spec, "Latn", s, 1)))
	rt.Assert(err != nil, "an unknown script is not an error")
	for _, k := range []string{"Latn", "Cyrl", "Geor", "Grek", "Hrkt"} {
		_, err := hangulize.ParseSpec(strings.NewReader(strings.Replace(spec, "Latn", k, 1)))
		rt.Assert(err == nil, "a known script is an error")
	}
}

// VH_kinds: sections of the wrong kind, pairs without values, wrong codes and
// macros.
func VH_kinds(shard int) {
	base := []string{"lang:\n id = \"x\"\n", " script = \"Latn\"\n"}
	codes := " codes = \"x\", \"xx\"\n"
	k := string(rt.RuneIn('a', 'z'))
	bad := []string{
		"lang:\n " + k + " -> b\n",
		base[0] + base[1],
		base[0] + " codes = " + k + "\n" + base[1],
		base[0] + " codes = x, y, " + k + "\n" + base[1],
		base[0] + codes + base[1] + "config:\n " + k + " -> b\n",
		base[0] + codes + base[1] + "macros:\n " + k + " -> b\n",
		base[0] + codes + base[1] + "macros:\n " + k + " = b, c\n",
		base[0] + codes + base[1] + "macros:\n " + k + " = b, " + k + "\n",
		base[0] + codes + base[1] + "macros:\n \"\" = b, " + k + "\n",
		base[0] + codes + base[1] + "macros:\n " + k + " = \n",
		base[0] + codes + base[1] + "vars:\n " + k + " -> b\n",
		base[0] + codes + base[1] + "normalize:\n " + k + " -> b\n",
		base[0] + codes + base[1] + "rewrite:\n " + k + " = b\n",
		base[0] + codes + base[1] + "transcribe:\n " + k + " = b\n",
		base[0] + codes + base[1] + "test:\n " + k + " = b\n",
		base[0] + codes + base[1] + "rewrite:\n " + k + " ->\n",
		base[0] + codes + base[1] + "transcribe:\n x -> y\n " + k + " -> # b\n",
		base[0] + codes + base[1] + "test:\n " + k + " -> \n b -> c",
	}
	rt.Observe("input", bad[shard])
	s, err := hangulize.ParseSpec(strings.NewReader(bad[shard]))
	rt.Assert(err != nil && s == nil, "a wrong specification is accepted")
}

// VH_patterns: patterns which do not compile, or look too far.
func VH_patterns(shard int) {
	x := string(rt.RuneIn('a', 'c'))
	bad := []string{
		"", x + "(", x + ")", "[" + x, x + "**", x + "(?", x + "{2,1}x", "(?<" + x, x + "{~a*}", "{~b+}" + x, x + "{~(a|b+)}", "{~(ab*)?}" + x, x + "{~@}", "{~<v>*c}" + x,
		x + "{b}" + x, x + "{~b}c{d}", "{~(a*){2}}" + x, x + "{~.*}", x + "\\\\", x + "[b-a]", "(" + x + "*?", "{~(ab*)?}" + x,
		"{~a}" + x + "{~b*}", "{~a*}" + x + "{~b}", "{~a+}" + x + "{~b+}",
	}
	for _, sec := range []string{"rewrite", "transcribe"} {
		src := "lang:\n id=x\n codes=x,y\n script=Latn\nmacros:\n \"@\" = \"a+\"\nvars:\n v = a, bc\n" + sec + ":\n \"" + bad[shard] + "\" -> \"b\"\n"
		rt.Observe("input", src)
		s, err := hangulize.ParseSpec(strings.NewReader(src))
		rt.Assert(err != nil && s == nil, "a wrong pattern is accepted")
	}
}

// VH_mutated: a specification with one byte replaced, dropped or added.
func VH_mutated(shard int) {
	at := shard*8 + rt.Choice(8)
	if at > len(spec) {
		return
	}
	letters := "a\"\\:,=-># \n(){}~*<$^|+[]0\x00\xff"
	k := rt.Choice(len(letters))
	c := letters[k : k+1]
	src := spec[:at] + c + spec[at:]
	switch rt.Choice(3) {
	case 1:
		if at < len(spec) {
			src = spec[:at] + c + spec[at+1:]
		}
	case 2:
		if at < len(spec) {
			src = spec[:at] + spec[at+1:]
		}
	}
	rt.Observe("input", src)
	s, err := hangulize.ParseSpec(strings.NewReader(src))
	rt.Assert((s == nil) == (err != nil), "neither a specification nor an error")
	if _, ok := lib.RefParse([]rune(src)); !ok {
		rt.Assert(err != nil, "a malformed source is accepted")
	}
}

// VH_runes: any letter after, in and instead of a string without quotes.
func VH_runes(shard int) {
	r := rt.Rune()
	src := []string{"s:\n a" + string(r) + "b = c", "s:\n a -> " + string(r) + "b", "s" + string(r) + ":\n a -> b", "s:\n a = b" + string(r) + ", c\n d = e"}[shard]
	rt.Observe("input", src)
	want, ok := lib.RefParse([]rune(src))
	got, err := hsl.Parse(strings.NewReader(src))
	rt.Assert((err == nil) == ok, "the error differs")
	rt.Assert(!ok || len(got) == len(want), "the number of sections differs")
	for _, w := range want {
		ps := got[w.Name].Pairs()
		rt.Assert(len(ps) == len(w.Pairs), "the number of pairs differs")
		if !w.Dict {
			rt.Assert(ps[0].Left() == w.Pairs[0].Left && len(ps[0].Right()) == len(w.Pairs[0].Right), "a pair differs")
		}
	}
}
