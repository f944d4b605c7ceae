// Package tokenizer stands in for Kagome: tokens carry the features a harness
// gives them and a text splits as a harness says.
package tokenizer

import "fmt"

// TokenClass is the class of a token.
type TokenClass int

// The classes, as in Kagome.
const (
	DUMMY TokenClass = iota
	KNOWN
	UNKNOWN
	USER
)

func (c TokenClass) String() string {
	switch c {
	case DUMMY:
		return "DUMMY"
	case KNOWN:
		return "KNOWN"
	case UNKNOWN:
		return "UNKNOWN"
	case USER:
		return "USER"
	}
	return ""
}

// Token is a morpheme.
type Token struct {
	ID      int
	Class   TokenClass
	Start   int
	End     int
	Surface string
	F       []string // the features
}

// Features are the features the harness gave.
func (t Token) Features() []string { return append([]string(nil), t.F...) }

// Pos is the first feature.
func (t Token) Pos() string {
	if len(t.F) == 0 {
		return ""
	}
	return t.F[0]
}

func (t Token) String() string {
	return fmt.Sprintf("%v(%v, %v)%v[%v]", t.Surface, t.Start, t.End, t.Class, t.ID)
}

// Split cuts a text into tokens. By default the text is one unknown word
// between two dummies.
var Split = func(s string) []Token {
	return []Token{{Class: DUMMY, Surface: "BOS"}, {Class: UNKNOWN, Surface: s, F: []string{"名詞"}}, {Class: DUMMY, Surface: "EOS"}}
}

// Made counts the tokenizers.
var Made int

// Tokenizer cuts texts into tokens.
type Tokenizer struct{}

// New makes a tokenizer.
func New() Tokenizer { Made++; return Tokenizer{} }

// TokenizeMode is the mode of a tokenizer.
type TokenizeMode int

// The modes.
const (
	Normal TokenizeMode = iota + 1
	Search
	Extended
)

// Tokenize cuts a text into tokens.
func (t Tokenizer) Tokenize(s string) []Token { return Split(s) }

// Analyze cuts a text into tokens.
func (t Tokenizer) Analyze(s string, mode TokenizeMode) []Token { return Split(s) }
