package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hangulize/hangulize"
	rt "github.com/hangulize/hangulize/internal/verifrt"
	"github.com/hangulize/hangulize/internal/verifrt/vcmd"
	os "github.com/hangulize/hangulize/internal/verifrt/vos"
)

const vhHead = `lang:
    id = "x"
    codes = "xx", "xxx"
    script = "Latn"
`

var vhBodies = []string{
	`
rewrite:
    "ab" -> "c"
    # a comment
    "d"  -> "a"

transcribe:
    "a" -> "가"
    "b" -> "나"

    "c" -> "다"
`,
	`
transcribe:
    "b{a}" -> "라"
    "a" -> "가"
    "bb" -> "마"
`,
	`
rewrite:
    "a" -> "b"
    "^c" -> ""
`,
}

func vhFile(body int, tests string) string { return vhHead + vhBodies[body] + "\ntest:\n" + tests }

func vhTest(word, want string) string { return "    \"" + word + "\" -> \"" + want + "\"\n" }

// vhWant is what a run of the test command has to do.
type vhWant struct {
	broken  bool // a file cannot be used
	failed  bool
	lines   string
	covered map[string]bool
	total   int
	profile []string
}

func vhExpect(names []string, cover bool) *vhWant {
	w := &vhWant{covered: map[string]bool{}}
	seen := map[string]bool{}
	type fileOf struct {
		name, data string
		spec       *hangulize.Spec
	}
	var fs []fileOf
	for _, name := range names {
		data, ok := os.Get(name)
		if !ok {
			w.broken = true
			return w
		}
		spec, err := hangulize.ParseSpec(strings.NewReader(data))
		if err != nil {
			w.broken = true
			return w
		}
		if !seen[name] {
			fs = append(fs, fileOf{name, data, spec})
		}
		seen[name] = true
		h := hangulize.New(spec)
		if cover {
			h.Trace(func(t hangulize.Trace) {
				if t.Rule != nil {
					w.covered[fmt.Sprintf("%s %s %d", name, t.Step, t.Rule.ID)] = true
				}
			})
		}
		for _, e := range spec.Test {
			got, err := h.Hangulize(e[0])
			if got != e[1] || err != nil {
				w.failed = true
				w.lines += name + ": \"" + e[0] + "\" -> \"" + got + "\", expected: \"" + e[1] + "\"\n"
			}
		}
	}
	if !cover {
		return w
	}
	for _, f := range fs {
		w.total += len(f.spec.Rewrite) + len(f.spec.Transcribe)
		// the rules are the lines with an arrow in the sections of rules
		section, id := "", 0
		for n, line := range strings.Split(f.data, "\n") {
			line = strings.TrimSuffix(line, "\r")
			if strings.HasSuffix(line, ":") {
				section, id = line[:len(line)-1], 0
				continue
			}
			if section != "rewrite" && section != "transcribe" || !strings.Contains(line, "->") {
				continue
			}
			step := map[string]string{"rewrite": "Rewrite", "transcribe": "Transcribe"}[section]
			for i := 0; i < strings.Count(line, "->"); i++ {
				c := 0
				if w.covered[fmt.Sprintf("%s %s %d", f.name, step, id)] {
					c = 1
				}
				w.profile = append(w.profile, fmt.Sprintf("%s:%d.1,%d.%d 1 %d", f.name, n+1, n+1, len(line)+1, c))
				id++
			}
		}
	}
	sort.Strings(w.profile)
	return w
}

var vhOrder = 5

func vhCheck(names []string, mode int) {
	args := []string{"test"}
	switch mode {
	case 1:
		args = append(args, "--cover")
	case 2:
		args = append(args, "--coverprofile=cover.txt")
	case 3:
		args = append(args, "--cover", "--coverprofile", "cover.txt")
		os.Put("cover.txt", strings.Repeat("old\n", 100))
	}
	for _, n := range names {
		d, _ := os.Get(n)
		if i := strings.Index(d, "test:"); i >= 0 {
			d = d[i:]
		}
		rt.Observe("file", n+" "+d)
	}
	rt.Observe("mode", mode)
	w := vhExpect(names, mode != 0)
	old, was := os.Get("cover.txt")
	rt.MapOrder(vhOrder)
	code, out, errs := vcmd.Run(main, "", append(args, names...)...)
	rt.MapOrder(0)
	rt.Observe("status", code)
	rt.Observe("out", out+errs)
	prof, has := os.Get("cover.txt")
	if w.broken || w.failed {
		rt.Assert(code != 0, "the command succeeds")
		rt.Assert(prof == old && has == was, "a coverage profile is written though not all tests have passed")
	} else {
		rt.Assert(code == 0, "the command fails")
	}
	if w.broken {
		return
	}
	if mode != 0 && !w.failed {
		w.lines += fmt.Sprintf("coverage: %.1f%% of rules\n", 100*float64(len(w.covered))/float64(w.total))
	}
	rt.Observe("want", w.lines)
	rt.Assert(out+errs == w.lines, "the output differs")
	if w.failed || mode < 2 {
		return
	}
	rt.Observe("expected profile", strings.Join(w.profile, "|"))
	rt.Assert(has && strings.HasPrefix(prof, "mode: count\n") && strings.HasSuffix(prof, "\n"), "the coverage profile is not complete")
	lines := strings.Split(prof, "\n")
	lines = lines[1 : len(lines)-1]
	sort.Strings(lines)
	rt.Observe("profile", strings.Join(lines, "|"))
	rt.Assert(strings.Join(lines, "\n") == strings.Join(w.profile, "\n"), "the coverage profile differs")
}

// VH_status: one file, two or three examples.
func VH_status(shard int) {
	body := shard % 3
	mode := shard / 3
	n := 2
	if rt.Thorough() {
		n = 3
	}
	tests := ""
	for i := 0; i < n; i++ {
		word := string(rt.RuneOf("abcd"))
		if (i == 1 || rt.Thorough()) && rt.Choice(2) == 1 {
			word += string(rt.RuneOf("ab"))
		}
		want := ""
		m := 3
		if i == 0 && !rt.Thorough() {
			m = 2
		}
		for j := rt.Choice(m); j > 0; j-- {
			want += string(rt.RuneOf("가나다라bd"))
		}
		tests += vhTest(word, want)
	}
	os.Reset()
	os.Put("x.hsl", vhFile(body, tests))
	vhCheck([]string{"x.hsl"}, mode)
}

// VH_files: several files, which may be the same, missing or no specification.
func VH_files(shard int) {
	os.Reset()
	words := []string{"ab", "a", "b", "bb"}
	results := [][]string{{"다", "가", "나", "나나"}, {"가b", "가", "b", "마"}, {"bb", "b", "b", "bb"}}
	var names []string
	n := 2
	if rt.Thorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		k := rt.Choice(5)
		if i == 0 && k != shard%5 {
			rt.Assume(false)
		}
		name := string(rune('a'+k)) + ".hsl"
		names = append(names, name)
		if _, ok := os.Get(name); ok {
			continue
		}
		switch k {
		case 3:
			os.Put(name, strings.Replace(vhHead, ", \"xxx\"", "", 1))
		case 4: // missing
		default:
			t := ""
			w := rt.Choice(4)
			t += vhTest(words[w], results[k][w])
			if i == 1 {
				t += vhTest("a", string(rt.RuneOf("가나b")))
			}
			os.Put(name, vhFile(k, t))
		}
	}
	vhCheck(names, shard/5)
}

// VH_translit: an example which cannot be transcribed has failed.
func VH_translit(shard int) {
	os.Reset()
	want := ""
	for j := rt.Choice(2); j > 0; j-- {
		want += string(rt.RuneOf("가a"))
	}
	os.Put("x.hsl", strings.Replace(vhFile(0, vhTest("a", want)), "\"Latn\"\n", "\"Latn\"\n    translit = \"none\"\n", 1))
	code, _, _ := vcmd.Run(main, "", "test", "x.hsl")
	rt.Observe("want", want)
	rt.Observe("status", code)
	rt.Assert(code != 0, "the command succeeds")
}

// VH_large: files with long lines, other line ends, many rules and examples;
// many files.
func VH_large(shard int) {
	os.Reset()
	word := string([]rune{rt.RuneOf("abd"), rt.RuneOf("ab")})
	got := map[string]string{"aa": "가가", "ab": "다", "ba": "나가", "bb": "나나", "da": "가가", "db": "가나"}[word]
	if rt.Choice(4) == 3 {
		got += "가"
	}
	f := vhFile(0, vhTest("a", "가")+vhTest(word, got))
	names := []string{"x.hsl"}
	switch shard {
	case 0:
		long := "# " + strings.Repeat("long ", 14000)
		f = strings.Replace(f, "# a comment", long, 1)
	case 1:
		f = strings.Replace(f, "\n", "\r\n", -1)
	case 2:
		more := ""
		for i := 0; i < 150; i++ {
			more += "    \"x" + string(rune('a'+i%26)) + string(rune('a'+i/26)) + "\" -> \"가\"\n"
		}
		f = strings.Replace(f, "    # a comment\n", more, 1)
	case 3:
		for i := 0; i < 100; i++ {
			f += vhTest("bab"[i%3:], []string{"나다", "다", "나"}[i%3])
		}
		if rt.Choice(2) == 1 {
			f += vhTest("ab", "가")
		}
	case 4:
		for i := 0; i < 12; i++ {
			n := "f" + string(rune('a'+i)) + ".hsl"
			os.Put(n, vhFile(i%2, vhTest("a", "가")))
			names = append(names, n, n)
		}
	}
	os.Put("x.hsl", f)
	vhOrder = 1
	vhCheck(names, rt.Choice(3))
	vhOrder = 5
}
