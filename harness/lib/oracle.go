package lib

import "strings"

// Rule is a rule whose core is literal or a class of single letters.
type Rule struct {
	From, To string
	pat      Pat
}

// A Cell is a letter of a text under way: its level, and when it has been
// transcribed (R is NUL then) its result.
type Cell struct {
	R     rune
	Level int
	Out   string
}

func text(cs []Cell) (string, []int) {
	var b strings.Builder
	var offs []int
	for _, c := range cs {
		offs = append(offs, b.Len())
		b.WriteRune(c.R)
	}
	return b.String(), append(offs, b.Len())
}

// maxCore is more than the letters of any core of a Rule.
const maxCore = 8

// Apply replaces the leftmost places of a rule, one after another.
func Apply(cs []Cell, r Rule, made func(to string) []Cell) []Cell {
	if r.pat.Core == "" {
		r.pat = Split(r.From, nil).Expanded(nil)
	}
	word, offs := text(cs)
	var out []Cell
	for i := 0; i < len(cs); {
		hit := 0
		for j := i + 1; j <= len(cs) && j <= i+maxCore; j++ {
			if r.pat.Place(word, offs[i], offs[j]) {
				hit = j
				break
			}
		}
		if hit == 0 {
			out = append(out, cs[i])
			i++
			continue
		}
		out = append(out, made(r.To)...)
		i = hit
	}
	return out
}

// Runs calls f for each maximal run of cells which are alike.
func Runs(cs []Cell, alike func(a, b Cell) bool, f func([]Cell) []Cell) []Cell {
	var out []Cell
	for i := 0; i < len(cs); {
		j := i + 1
		for j < len(cs) && alike(cs[i], cs[j]) {
			j++
		}
		out = append(out, f(append([]Cell(nil), cs[i:j]...))...)
		i = j
	}
	return out
}

func level(a, b Cell) bool { return a.Level == b.Level }

// Rewrite applies the rules one after another to each run.
func Rewrite(cs []Cell, rules []Rule) []Cell {
	return Runs(cs, level, func(run []Cell) []Cell {
		for _, r := range rules {
			run = Apply(run, r, func(to string) []Cell {
				var made []Cell
				for _, l := range to {
					made = append(made, Cell{R: l, Level: 1})
				}
				return made
			})
		}
		return run
	})
}

// Masked applies the rules to the meaningful runs.
func Masked(cs []Cell, rules []Rule) []Cell {
	return Runs(cs, level, func(run []Cell) []Cell {
		if run[0].Level == 0 {
			return run
		}
		for _, r := range rules {
			run = Apply(run, r, func(to string) []Cell {
				if to == "" {
					return nil
				}
				return []Cell{{Level: 2, Out: to}}
			})
		}
		return run
	})
}

// Transcribe applies the rules to the meaningful runs, and drops what is left.
func Transcribe(cs []Cell, rules []Rule) string {
	cs = Masked(cs, rules)
	var b strings.Builder
	Runs(cs, level, func(run []Cell) []Cell {
		space := false
		for _, c := range run {
			switch c.Level {
			case 0:
				b.WriteRune(c.R)
			case 1:
				if c.R == ' ' || c.R == '\n' || c.R == '\t' {
					space = true
				}
			case 2:
				b.WriteString(c.Out)
			}
		}
		if space {
			b.WriteString(" ")
		}
		return nil
	})
	return b.String()
}

// Levels are the cells of a word of lower-case Latin letters, digits, spaces
// and marks. A mark is meaningful if a rule matches it, unless that rule or a
// rewriting rule before it writes it.
func Levels(word []rune, rewrite, transcribe []Rule) []Cell {
	var cs []Cell
	for _, r := range word {
		l := 0
		switch {
		case r >= 'a' && r <= 'z' || r == ' ' || r == '\n' || r == '\t':
			l = 1
		case r == '-' || r == '!' || r == ',':
			wrote := false
			for i, rule := range append(append([]Rule(nil), rewrite...), transcribe...) {
				if i < len(rewrite) && strings.ContainsRune(rule.To, r) {
					wrote = true
				}
				if strings.ContainsRune(rule.From, r) && !wrote {
					l = 1
				}
			}
		}
		cs = append(cs, Cell{R: r, Level: l})
	}
	return cs
}

// Source is a specification in HSL.
func Source(script string, rewrite, transcribe []Rule) string {
	var b strings.Builder
	b.WriteString("lang:\n    id = \"x\"\n    codes = \"x\", \"xx\"\n    script = \"" + script + "\"\n")
	for i, rules := range [][]Rule{rewrite, transcribe} {
		b.WriteString([]string{"rewrite:\n", "transcribe:\n"}[i])
		for _, r := range rules {
			b.WriteString("    \"" + r.From + "\" -> \"" + r.To + "\"\n")
		}
	}
	return b.String()
}
