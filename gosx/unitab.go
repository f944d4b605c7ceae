package main

import (
	"sync"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// Facts about single runes, taken from the native packages and shared by all
// engines as ranges and piecewise-linear tables.

var uniMu sync.Mutex
var uniSets = map[string][]rg{}
var uniTabs = map[string]*Tab{}

const runeLo, runeHi = -1, 0x110000

// predRanges evaluates a predicate over all runes (and one value on either
// side standing for everything outside).
func predRanges(name string, f func(rune) bool) []rg {
	uniMu.Lock()
	defer uniMu.Unlock()
	if r, ok := uniSets[name]; ok {
		return r
	}
	var out []rg
	for x := int64(runeLo); x <= runeHi; x++ {
		if f(rune(x)) {
			if n := len(out); n > 0 && out[n-1].hi == x-1 {
				out[n-1].hi = x
			} else {
				out = append(out, rg{x, x})
			}
		}
	}
	if len(out) > 0 && out[0].lo == runeLo {
		out[0].lo = -1 << 31
	}
	if n := len(out); n > 0 && out[n-1].hi == runeHi {
		out[n-1].hi = 1<<31 - 1
	}
	uniSets[name] = out
	return out
}

// runeTab tabulates a total function on runes, the identity outside.
func runeTab(name string, f func(rune) rune) *Tab {
	uniMu.Lock()
	defer uniMu.Unlock()
	if t, ok := uniTabs[name]; ok {
		return t
	}
	t := &Tab{name: name}
	add := func(lo, hi int64, lin bool, c int64) {
		if n := len(t.segs); n > 0 {
			s := &t.segs[n-1]
			if s.lin == lin && s.c == c && s.hi == lo-1 {
				s.hi = hi
				return
			}
		}
		t.segs = append(t.segs, Seg{lo, hi, lin, c})
	}
	add(-1<<31, -1, true, 0)
	for x := int64(0); x <= maxRune; x++ {
		add(x, x, true, int64(f(rune(x)))-x)
	}
	add(maxRune+1, 1<<31-1, true, 0)
	uniTabs[name] = t
	return t
}

var unicodePreds = map[string]func(rune) bool{
	"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsSpace": unicode.IsSpace,
	"IsPunct": unicode.IsPunct, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsTitle": unicode.IsTitle,
	"IsMark": unicode.IsMark, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic, "IsPrint": unicode.IsPrint,
	"IsSymbol": unicode.IsSymbol,
}
var unicodeMaps = map[string]func(rune) rune{
	"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold,
}

var unicodeTables = func() map[string]*unicode.RangeTable {
	m := map[string]*unicode.RangeTable{}
	for _, src := range []map[string]*unicode.RangeTable{unicode.Properties, unicode.Scripts, unicode.Categories} {
		for k, v := range src {
			m[k] = v
		}
	}
	m["Letter"], m["Upper"], m["Lower"], m["Title"] = unicode.Letter, unicode.Upper, unicode.Lower, unicode.Title
	m["Mark"], m["Number"], m["Digit"], m["Punct"] = unicode.Mark, unicode.Number, unicode.Digit, unicode.Punct
	m["Symbol"], m["Space"], m["Other"] = unicode.Symbol, unicode.Space, unicode.Other
	return m
}()

// nfcInert: a text of such runes only is its own NFC form.
func nfcInert(f norm.Form) func(r rune) bool {
	return func(r rune) bool {
		if !utf8.ValidRune(r) {
			return false
		}
		s := string(r)
		return f.String(s) == s && f.PropertiesString(s).BoundaryBefore()
	}
}

// nfdStarts: no letter before this one changes its decomposition.
func nfdStarts(r rune) bool {
	return utf8.ValidRune(r) && norm.NFKD.PropertiesString(string(r)).BoundaryBefore()
}

// decomposition shapes of NFD
type nfdShape struct {
	set  []rg // the runes of this shape
	lens []int
	tabs []*Tab
}

var nfdOnce [2]sync.Once
var nfdShapesOf [2][]*nfdShape

// nfdTables are the shapes of the decompositions in NFD or NFKD.
func nfdTables(form norm.Form) []*nfdShape {
	fi := 0
	if form == norm.NFKD {
		fi = 1
	}
	nfdOnce[fi].Do(func() {
		var nfdShapes []*nfdShape
		defer func() { nfdShapesOf[fi] = nfdShapes }()
		by := map[string]*nfdShape{}
		type ent struct {
			r  rune
			rs []rune
		}
		ents := map[string][]ent{}
		for r := rune(0); r <= maxRune; r++ {
			if !utf8.ValidRune(r) {
				continue
			}
			d := form.PropertiesString(string(r)).Decomposition()
			if len(d) == 0 {
				continue
			}
			key := ""
			rs := []rune(string(d))
			for _, x := range rs {
				key += string(rune('0' + utf8.RuneLen(x)))
			}
			s := by[key]
			if s == nil {
				s = &nfdShape{}
				for _, x := range rs {
					s.lens = append(s.lens, utf8.RuneLen(x))
				}
				by[key] = s
				nfdShapes = append(nfdShapes, s)
			}
			if n := len(s.set); n > 0 && s.set[n-1].hi == int64(r)-1 {
				s.set[n-1].hi++
			} else {
				s.set = append(s.set, rg{int64(r), int64(r)})
			}
			ents[key] = append(ents[key], ent{r, rs})
		}
		for key, s := range by {
			for i := range s.lens {
				t := &Tab{name: []string{"nfd_", "nfkd_"}[fi] + key + "_" + string(rune('0'+i))}
				for _, en := range ents[key] {
					x, v := int64(en.r), int64(en.rs[i])
					if n := len(t.segs); n > 0 {
						g := &t.segs[n-1]
						if g.hi == x-1 && g.lin && g.c == v-x {
							g.hi = x
							continue
						}
						if g.hi == x-1 && !g.lin && g.c == v {
							g.hi = x
							continue
						}
						if g.hi == x-1 && g.lo == g.hi && g.lin && g.c+g.lo == v {
							*g = Seg{g.lo, x, false, v}
							continue
						}
					}
					t.segs = append(t.segs, Seg{x, x, true, v - x})
				}
				s.tabs = append(s.tabs, t)
			}
		}
	})
	return nfdShapesOf[fi]
}
