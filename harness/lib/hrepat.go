package lib

import (
	"regexp"
	"strings"
)

// Pat is an HRE pattern by its parts, macros expanded.
type Pat struct {
	EdgeL, Behind, Core, Ahead, EdgeR string // Behind and Ahead without ~
	NegB, NegA                        bool
}

// ExpandMacros replaces the longest macros.
func ExpandMacros(expr string, macros map[string]string) string {
	if len(macros) == 0 {
		return expr
	}
	out := ""
	for expr != "" {
		best := ""
		for src := range macros {
			if strings.HasPrefix(expr, src) && len(src) > len(best) {
				best = src
			}
		}
		if best == "" {
			out += expr[:1]
			expr = expr[1:]
			continue
		}
		out += macros[best]
		expr = expr[len(best):]
	}
	return out
}

// Split takes an HRE pattern apart.
func Split(expr string, macros map[string]string) Pat {
	expr = ExpandMacros(expr, macros)
	var p Pat
	i := 0
	for i < len(expr) && expr[i] == '^' {
		i++
	}
	p.EdgeL = expr[:i]
	expr = expr[i:]
	if strings.HasPrefix(expr, "{") {
		j := strings.Index(expr, "}")
		p.Behind, expr = expr[1:j], expr[j+1:]
	}
	i = len(expr)
	for i > 0 && expr[i-1] == '$' {
		i--
	}
	p.EdgeR = expr[i:]
	expr = expr[:i]
	if strings.HasSuffix(expr, "}") {
		j := strings.LastIndex(expr, "{")
		p.Ahead, expr = expr[j+1:len(expr)-1], expr[:j]
	}
	p.Core = expr
	p.NegB = strings.HasPrefix(p.Behind, "~")
	p.NegA = strings.HasPrefix(p.Ahead, "~")
	p.Behind = strings.TrimPrefix(p.Behind, "~")
	p.Ahead = strings.TrimPrefix(p.Ahead, "~")
	return p
}

// Alts is the expression of a variable.
func Alts(vals []string) string {
	var vs []string
	for _, v := range vals {
		vs = append(vs, regexp.QuoteMeta(v))
	}
	return "(?:" + strings.Join(vs, "|") + ")"
}

// ExpandVars replaces the variables by their values.
func ExpandVars(s string, vars map[string][]string) string {
	out := ""
	for {
		i := strings.Index(s, "<")
		if i < 0 {
			return out + s
		}
		j := i + strings.Index(s[i:], ">")
		out += s[:i] + Alts(vars[s[i+1:j]])
		s = s[j+1:]
	}
}

// Expanded has its variables expanded, and the edges in its lookarounds.
func (p Pat) Expanded(vars map[string][]string) Pat {
	p.Core = ExpandVars(p.Core, vars)
	p.Behind = ExpandVars(p.Behind, vars)
	p.Ahead = ExpandVars(p.Ahead, vars)
	if !p.NegA {
		p.Ahead = strings.Replace(p.Ahead, "$", `(?:\z|\s|\{\})`, -1)
	}
	if !p.NegB {
		p.Behind = strings.Replace(p.Behind, "^", `(?:\A|\s|\{\})`, -1)
	}
	return p
}

// Never: a positive lookaround beyond an edge.
func (p Pat) Never() bool {
	return p.EdgeL != "" && p.Behind != "" && !p.NegB || p.EdgeR != "" && p.Ahead != "" && !p.NegA
}

func match(expr, word string) bool { return regexp.MustCompile(expr).MatchString(word) }

func space(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\f' || c == '\r' }

// After: the text before a place satisfies an expanded pattern.
func (p Pat) After(before string) bool {
	switch p.EdgeL {
	case "":
	case "^":
		if before != "" && !strings.HasSuffix(before, "{}") && !space(before[len(before)-1]) {
			return false
		}
	default:
		if before != "" {
			return false
		}
	}
	if p.Behind == "" || p.NegB && p.EdgeL != "" {
		return true
	}
	return match("(?:"+p.Behind+")$", before) != p.NegB
}

// Before: the text after a place satisfies an expanded pattern.
func (p Pat) Before(after string) bool {
	switch p.EdgeR {
	case "":
	case "$":
		if after != "" && !strings.HasPrefix(after, "{}") && !space(after[0]) {
			return false
		}
	default:
		if after != "" {
			return false
		}
	}
	if p.Ahead == "" || p.NegA && p.EdgeR != "" {
		return true
	}
	return match("^(?:"+p.Ahead+")", after) != p.NegA
}

// Matches: the text matches the core of an expanded pattern.
func (p Pat) Matches(text string) bool { return match("^(?:"+p.Core+")$", text) }

// Place: an expanded pattern matches there.
func (p Pat) Place(word string, s, e int) bool {
	return p.Matches(word[s:e]) && p.After(word[:s]) && p.Before(word[e:])
}
