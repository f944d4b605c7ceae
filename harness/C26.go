package main

import (
	"bytes"
	"strings"
	"unicode"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/lib"
	"github.com/hangulize/hangulize/internal/verifrt/vcmd"
	os "github.com/hangulize/hangulize/internal/verifrt/vos"
	"github.com/hangulize/hangulize/pkg/tracefmt"
)

// plain is a specification which hands over most words as they are.
const plain = `lang:
    id = "x"
    codes = "xx", "xxx"
    script = "Grek"
`

// vhRun runs the command: it writes a line for each word. Without arguments
// it is the one which reads a specification.
func vhRun(stdin string, args, words []string) {
	spec, err := hangulize.LoadSpec("ell")
	if args == nil {
		os.Put("x.hsl", plain)
		args = []string{"dev", "x.hsl"}
		spec, err = hangulize.ParseSpec(strings.NewReader(plain))
	}
	rt.Assert(err == nil, "the specification is not loaded")
	code, out, _ := vcmd.Run(main, stdin, args...)
	want := ""
	for _, w := range words {
		r, err := hangulize.New(spec).Hangulize(w)
		rt.Assert(err == nil, "a word cannot be transcribed")
		want += r + "\n"
	}
	rt.Observe("status", code)
	rt.Observe("got", out)
	rt.Observe("want", want)
	rt.Assert(code == 0, "the command fails")
	rt.Assert(out == want, "the output differs")
}

// vhLines are the words of an input: its lines, trimmed, unless blank.
func vhLines(rs []rune) []string {
	var out []string
	var line []rune
	end := func() {
		a, b := 0, len(line)
		for a < b && unicode.IsSpace(line[a]) {
			a++
		}
		for a < b && unicode.IsSpace(line[b-1]) {
			b--
		}
		if a < b {
			out = append(out, string(line[a:b]))
		}
		line = nil
	}
	for _, r := range rs {
		if r == '\n' {
			end()
		} else {
			line = append(line, r)
		}
	}
	end()
	return out
}

func vhLetter(k int) rune {
	switch k {
	case 0:
		return '\n'
	case 1: // other spaces
		return rt.RuneOf(" \t\r\u0085\u00a0\u3000\u2003")
	case 2:
		return rt.RuneIn(0, 8, 0x0e, 0x1f, '!', '~')
	}
	// no spaces, though some are not seen
	return rt.RuneIn(0x80, 0x84, 0x86, 0x9f, 0x180e, 0x180e, 0x200b, 0x200f, 0x2060, 0x2064, 0xfeff, 0xfeff, 0x4e00, 0x9fff, 0x1f600, 0x1f64f)
}

// VH_stdin: any text on the standard input.
func VH_stdin(shard int) {
	hangulize.LoadSpec("ell")
	n := 4
	if rt.Thorough() {
		n = 5
	}
	if shard < 4 {
		n--
	}
	var rs []rune
	n = rt.Choice(n + 1)
	for i := 0; i < n; i++ {
		k := rt.Choice(4)
		if i == 0 && k != shard%4 {
			rt.Assume(false)
		}
		rs = append(rs, vhLetter(k))
	}
	rt.Observe("input", string(rs))
	if shard < 4 {
		vhRun(string(rs), []string{"ell"}, vhLines(rs))
	} else {
		vhRun(string(rs), nil, vhLines(rs))
	}
}

// VH_long: lines longer than the reader's buffer.
func VH_long(shard int) {
	hangulize.LoadSpec("ell")
	rs := []rune(lib.Pad("x", 4093+rt.Choice(4)))
	rs = append(rs, vhLetter(rt.Choice(4)))
	if rt.Thorough() {
		rs = append(rs, vhLetter(rt.Choice(4)))
	}
	if shard == 1 {
		rs = append(rs, []rune(lib.Pad("y", 4100))...)
	}
	rt.Observe("input", string(rs[4093:]))
	vhRun(string(rs), nil, vhLines(rs))
}

// VH_args: words on the command line.
func VH_args(shard int) {
	hangulize.LoadSpec("ell")
	n := 3
	if rt.Thorough() {
		n = 5
	}
	args := []string{"--", "ell"}
	var want []string
	for i := 0; i < n; i++ {
		w := ""
		if i == 1 && !rt.Thorough() {
			w = "x"[:rt.Choice(2)]
		} else {
			m := 3
			if i == 2 && !rt.Thorough() {
				m = 2
			}
			for j := rt.Choice(m); j > 0; j-- {
				w += string(vhLetter(1 + rt.Choice(3)))
			}
		}
		args = append(args, w)
		if w != "" {
			want = append(want, w)
		}
	}
	rt.Observe("input", strings.Join(args, "|"))
	vhRun("not\nread\n", args, want)
}

// VH_modes: verbose output, failures, and the list of languages.
func VH_modes(shard int) {
	spec, _ := hangulize.LoadSpec("ell")
	os.Reset()
	os.Put("x.hsl", plain)
	os.Put("t.hsl", strings.Replace(plain, "\"Grek\"\n", "\"Grek\"\n    translit = \"none\"\n", 1))
	os.Put("bad.hsl", strings.Replace(plain, ", \"xxx\"", "", 1))
	if shard == 3 && rt.Choice(2) == 0 {
		vhList()
		return
	}
	word := string(rt.RuneOf("αβ1中")) + string(rt.RuneOf("aΓς"))
	rt.Observe("input", word)
	switch shard {
	case 0: // what is traced goes elsewhere
		code, out, errs := vcmd.Run(main, word+"\n"+word+"α\n", "-v", "ell")
		want, log := "", ""
		for _, w := range []string{word, word + "α"} {
			var traces []hangulize.Trace
			h := hangulize.New(spec)
			h.Trace(func(t hangulize.Trace) { traces = append(traces, t) })
			r, _ := h.Hangulize(w)
			want += r + "\n"
			var b bytes.Buffer
			tracefmt.FprintTraces(&b, traces)
			log += b.String()
		}
		rt.Observe("got", out+errs)
		rt.Assert(code == 0 && out == want, "the output differs")
		rt.Assert(errs == log, "the traces differ")
	case 1: // no such language, no such file, no specification
		k := rt.Choice(4)
		args := [][]string{{"none", word}, {"dev", "none.hsl"}, {"dev", "bad.hsl"}, {"dev", "x.hsl", word}}[k]
		code, out, errs := vcmd.Run(main, word, args...)
		rt.Observe("args", strings.Join(args, " "))
		rt.Observe("status", code)
		rt.Assert(code != 0, "the command succeeds")
		rt.Assert(out == "" && errs != "", "the failure is not told")
	case 2: // a word which cannot be transcribed
		code, out, errs := vcmd.Run(main, word, "dev", "t.hsl")
		rt.Observe("status", code)
		rt.Assert(code != 0, "the command succeeds")
		rt.Assert(out == "" && errs != "", "the failure is not told")
	case 3: // what is no specification is left out of a list
		os.Put("y.hsl", strings.Replace(plain, "\"x\"", "\""+word+"\"", 1))
		vhList("y.hsl", "bad.hsl", "none.hsl", "x.hsl")
	}
}

// vhList lists the bundled specifications or those of some files.
func vhList(names ...string) {
	var specs []*hangulize.Spec
	for _, l := range names {
		d, _ := os.Get(l)
		if s, err := hangulize.ParseSpec(strings.NewReader(d)); err == nil && d != "" {
			specs = append(specs, s)
		}
	}
	if names == nil {
		for _, l := range hangulize.ListLangs() {
			s, err := hangulize.LoadSpec(l)
			rt.Assert(err == nil, "a listed language is not loaded")
			specs = append(specs, s)
		}
	}
	code, out, errs := vcmd.Run(main, "", append([]string{"ls"}, names...)...)
	out += errs
	rt.Observe("got", out)
	rt.Assert(code == 0 && strings.HasSuffix(out, "\n"), "the command fails")
	lines := strings.Split(out[:len(out)-1], "\n")
	rt.Assert(len(lines) == len(specs)+1, "the number of lines differs")
	for i, s := range specs {
		at := 0
		for _, f := range []string{s.Lang.ID, s.Config.Stage, s.Lang.English, s.Lang.Korean} {
			k := strings.Index(lines[i+1][at:], f)
			rt.Assert(k >= 0, "a field is missing")
			at += k + len(f)
		}
		rt.Assert(strings.HasPrefix(lines[i+1], s.Lang.ID+" "), "a line is not of its language")
	}
}
