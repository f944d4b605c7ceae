package lib

import "unicode"

// RefPair is a pair of a document, and the line it stands on.
type RefPair struct {
	Left  string
	Right []string
	Line  int
}

// RefSection is a section of a document.
type RefSection struct {
	Name  string
	Dict  bool
	Line  int
	Pairs []RefPair
}

type refTok struct {
	kind rune // s: string, other: the letter, >: arrow, 0: the end
	text string
	line int
}

// refTokens splits a document into tokens. Comments are ends of lines.
func refTokens(rs []rune) ([]refTok, bool) {
	var ts []refTok
	line := 1
	bare := func(r rune, first bool) bool {
		return r == '_' || unicode.IsLetter(r) || !first && unicode.IsDigit(r)
	}
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case r == '\n':
			ts = append(ts, refTok{'\n', "", line})
			line++
			i++
		case unicode.IsSpace(r):
			i++
		case r == '#':
			for i < len(rs) && rs[i] != '\n' {
				i++
			}
		case r == '"':
			var text []rune
			i++
			for {
				if i >= len(rs) {
					return nil, false
				}
				if rs[i] == '"' {
					i++
					break
				}
				if rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == '"' || rs[i+1] == '\\') {
					i++
				}
				if rs[i] == '\n' {
					line++
				}
				text = append(text, rs[i])
				i++
			}
			ts = append(ts, refTok{'s', string(text), line})
		case bare(r, true):
			j := i + 1
			for j < len(rs) && bare(rs[j], false) {
				j++
			}
			ts = append(ts, refTok{'s', string(rs[i:j]), line})
			i = j
		case r == ':' || r == ',' || r == '=':
			ts = append(ts, refTok{r, "", line})
			i++
		case r == '-' && i+1 < len(rs) && rs[i+1] == '>':
			ts = append(ts, refTok{'>', "", line})
			i += 2
		default:
			return nil, false
		}
	}
	return ts, true
}

// RefParse reads a document. It is not ok if there is an illegal letter, an
// unterminated string, a pair out of a section, or a key twice in a
// dictionary. A section takes the kind of its first pair.
func RefParse(rs []rune) (secs []RefSection, ok bool) {
	ts, ok := refTokens(rs)
	if !ok {
		return nil, false
	}
	last, name, line := "", "", 0
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		switch t.kind {
		case 's':
			last = t.text
		case ':':
			name, line = last, t.line
		case '=', '>':
			if name == "" {
				return nil, false
			}
			p := RefPair{Left: last, Line: t.line}
			for i++; i < len(ts) && ts[i].kind != '\n'; i++ {
				if ts[i].kind == 's' {
					p.Right = append(p.Right, ts[i].text)
				}
			}
			k := 0
			for k < len(secs) && secs[k].Name != name {
				k++
			}
			if k == len(secs) {
				secs = append(secs, RefSection{Name: name, Dict: t.kind == '=', Line: line})
			}
			if secs[k].Dict {
				for _, q := range secs[k].Pairs {
					if q.Left == p.Left {
						return nil, false
					}
				}
			}
			secs[k].Pairs = append(secs[k].Pairs, p)
		}
	}
	return secs, true
}
