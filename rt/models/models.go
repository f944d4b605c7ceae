// Package models holds executable models of the fmt and errors functions the
// code under test uses, for text that may be symbolic. Symbolic text is never
// escaped by %q.
package models

import (
	"io"
	"unicode"
)

func comparable(v any) bool
func native(verb string, v any) string
func kind(v any) int
func asString(v any) string
func asInt(v any) int64
func asUint(v any) uint64
func asBool(v any) bool
func asStrings(v any) []string
func asBytes(v any) []byte
func symbolic(s string) bool
func typeName(v any) string

func itoa(n int64) string {
	if n < 0 {
		return "-" + utoa(uint64(-n))
	}
	return utoa(uint64(n))
}

func utoa(n uint64) string { return base(n, 10, "0123456789abcdef") }

func base(n, b uint64, digits string) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(digits[n%b]) + s
		n /= b
	}
	return s
}

func quote(s string) string {
	if symbolic(s) {
		return "\"" + s + "\""
	}
	return native("q", s)
}

type errStr interface{ Error() string }
type stringer interface{ String() string }
type goStringer interface{ GoString() string }
type formatter interface {
	Format(f interface{ Write([]byte) (int, error) }, c rune)
}

// method calls a method, which may fail on a nil pointer.
func method(v any, f func() string) (s string) {
	if kind(v) == 'n' {
		defer func() {
			if recover() != nil {
				s = "<nil>"
			}
		}()
	}
	return f()
}

func text(verb rune, plus, sharp bool, v any) string {
	if v == nil {
		return "<nil>"
	}
	if sharp && verb == 'v' {
		if g, ok := v.(goStringer); ok {
			return g.GoString()
		}
	} else {
		switch verb {
		case 'v', 's', 'q', 'x', 'X':
			s, ok := "", false
			if x, is := v.(errStr); is {
				s, ok = method(v, x.Error), true
			} else if x, is := v.(stringer); is {
				s, ok = method(v, x.String), true
			}
			if ok {
				if verb == 'q' {
					return quote(s)
				}
				return s
			}
		}
	}
	switch kind(v) {
	case 's':
		s := asString(v)
		if verb == 'q' || sharp {
			return quote(s)
		}
		return s
	case 'i':
		n := asInt(v)
		switch verb {
		case 'c':
			return string(rune(n))
		case 'q':
			return "'" + string(rune(n)) + "'"
		case 'x':
			return base(uint64(n), 16, "0123456789abcdef")
		case 'X':
			return base(uint64(n), 16, "0123456789ABCDEF")
		case 'U':
			h := base(uint64(n), 16, "0123456789ABCDEF")
			for len(h) < 4 {
				h = "0" + h
			}
			return "U+" + h
		}
		return itoa(n)
	case 'u':
		n := asUint(v)
		switch verb {
		case 'c':
			return string(rune(n))
		case 'x':
			return base(n, 16, "0123456789abcdef")
		}
		return utoa(n)
	case 'b':
		if asBool(v) {
			return "true"
		}
		return "false"
	case 'S':
		if sharp {
			out := typeName(v) + "{"
			for i, x := range asStrings(v) {
				if i > 0 {
					out += ", "
				}
				out += quote(x)
			}
			return out + "}"
		}
		out := "["
		for i, x := range asStrings(v) {
			if i > 0 {
				out += " "
			}
			if verb == 'q' {
				x = quote(x)
			}
			out += x
		}
		return out + "]"
	case 'B':
		if verb == 's' {
			return string(asBytes(v))
		}
	}
	if sharp {
		return native("#v", v)
	}
	return native("v", v)
}

func runeCount(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

func Sprintf(format string, args ...any) string {
	out := ""
	arg := 0
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		if j >= len(format) {
			break
		}
		i = j + 1
		plus, sharp, minus, zero := false, false, false, false
		for i < len(format) {
			c := format[i]
			if c == '+' {
				plus = true
			} else if c == '#' {
				sharp = true
			} else if c == '-' {
				minus = true
			} else if c == '0' {
				zero = true
			} else if c != ' ' {
				break
			}
			i++
		}
		width, hasW := 0, false
		if i < len(format) && format[i] == '*' {
			i++
			hasW = true
			if arg < len(args) {
				width = int(asInt(args[arg]))
			}
			arg++
			if width < 0 {
				minus, width = true, -width
			}
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width, hasW = width*10+int(format[i]-'0'), true
			i++
		}
		prec := -1
		if i < len(format) && format[i] == '.' {
			i++
			prec = 0
			if i < len(format) && format[i] == '*' {
				i++
				prec = int(asInt(args[arg]))
				arg++
			}
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		verb, n := rune(0), 0
		for k, r := range format[i:] {
			if k > 0 {
				break
			}
			verb = r
			n = len(string(r))
		}
		i += n
		if verb == '%' {
			out += "%"
			continue
		}
		if arg >= len(args) {
			out += "%!" + string(verb) + "(MISSING)"
			continue
		}
		v := args[arg]
		arg++
		s := ""
		if verb == 'T' {
			s = typeName(v)
		} else if kind(v) == 'f' && verb != 'v' {
			f := string(verb)
			if prec >= 0 {
				f = "." + itoa(int64(prec)) + f
			}
			s = native(f, v)
			if plus && s[0] != '-' {
				s = "+" + s
			}
		} else if verb == 'd' && kind(v) != 'i' && kind(v) != 'u' {
			s = native("v", v)
		} else {
			if verb == 'w' {
				verb = 'v'
			}
			s = text(verb, plus, sharp, v)
			if plus && verb == 'd' && kind(v) == 'i' && asInt(v) >= 0 {
				s = "+" + s
			}
		}
		if prec >= 0 && (verb == 's' || verb == 'v') {
			k := 0
			for p := range s {
				if k == prec {
					s = s[:p]
					break
				}
				k++
			}
		}
		if hasW {
			for c := runeCount(s); c < width; c++ {
				if minus {
					s += " "
				} else if zero {
					s = "0" + s
				} else {
					s = " " + s
				}
			}
		}
		out += s
	}
	if arg < len(args) {
		out += "%!(EXTRA "
		for k := arg; k < len(args); k++ {
			if k > arg {
				out += ", "
			}
			out += typeName(args[k]) + "=" + text('v', false, false, args[k])
		}
		out += ")"
	}
	return out
}

func Sprint(args ...any) string {
	out := ""
	prev := false
	for i, a := range args {
		is := a != nil && kind(a) == 's'
		if i > 0 && !is && !prev {
			out += " "
		}
		out += text('v', false, false, a)
		prev = is
	}
	return out
}

func Sprintln(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += text('v', false, false, a)
	}
	return out + "\n"
}

func write(w io.Writer, s string) (int, error) { return w.Write([]byte(s)) }

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return write(w, Sprintf(format, args...))
}
func Fprint(w io.Writer, args ...any) (int, error)   { return write(w, Sprint(args...)) }
func Fprintln(w io.Writer, args ...any) (int, error) { return write(w, Sprintln(args...)) }

func Printf(format string, args ...any) (int, error) { return len(Sprintf(format, args...)), nil }
func Print(args ...any) (int, error)                 { return len(Sprint(args...)), nil }
func Println(args ...any) (int, error)               { return len(Sprintln(args...)), nil }

func Appendf(b []byte, format string, args ...any) []byte {
	return append(b, Sprintf(format, args...)...)
}
func Append(b []byte, args ...any) []byte   { return append(b, Sprint(args...)...) }
func Appendln(b []byte, args ...any) []byte { return append(b, Sprintln(args...)...) }

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type plainError struct{ msg string }

func (e *plainError) Error() string { return e.msg }

func Errorf(format string, args ...any) error {
	msg := Sprintf(format, args...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == '.' || format[i] >= '0' && format[i] <= '9') {
			i++
		}
		if i >= len(format) || format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if err, ok := args[n].(error); ok {
				return &wrapError{msg, err}
			}
		}
		n++
	}
	return &plainError{msg}
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable(target)
	return is(err, target, cmp)
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && comparable(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if is(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// Fields is strings.Fields.
func Fields(s string) []string {
	out := []string{}
	start := -1
	for i, r := range s {
		if unicode.IsSpace(r) {
			if start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		} else if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// BytesFields is bytes.Fields.
func BytesFields(b []byte) [][]byte {
	out := [][]byte{}
	start := -1
	for i, r := range string(b) {
		if unicode.IsSpace(r) {
			if start >= 0 {
				out = append(out, b[start:i:i])
				start = -1
			}
		} else if start < 0 {
			start = i
		}
	}
	if start >= 0 {
		out = append(out, b[start:len(b):len(b)])
	}
	return out
}

// Compare is strings.Compare.
func Compare(a, b string) int {
	if a < b {
		return -1
	}
	if a == b {
		return 0
	}
	return 1
}

// BytesCompare is bytes.Compare.
func BytesCompare(a, b []byte) int { return Compare(string(a), string(b)) }

// QuoteMeta is regexp.QuoteMeta.
func QuoteMeta(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\', '.', '+', '*', '?', '(', ')', '|', '[', ']', '{', '}', '^', '$':
			out += "\\"
		}
		out += s[i : i+1]
	}
	return out
}
