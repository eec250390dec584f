// Package lex is a reference for the lexical grammar of schema files, written
// from the language description and not from the scanner's code.
package lex

import (
	"hbuf/zz_verif/sym"
	"unicode"
	"unicode/utf8"
)

// Tok is one token; Kind is ident, int, string, comment, eof, ";" (written or
// inserted), a keyword, or the punctuation character itself.
type Tok struct {
	Kind string
	Lit  string
	Off  int
	CR   bool // the literal contains carriage returns
}

func space(c byte) bool { return c == ' ' || c == '\t' || c == '\r' }

func asciiLetter(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_'
}
func digit(c byte) bool { return '0' <= c && c <= '9' }

// letter returns the width of the letter at i, or 0.
func letter(s string, i int) int {
	if s[i] < utf8.RuneSelf {
		if asciiLetter(s[i]) {
			return 1
		}
		return 0
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	if w > 1 && unicode.IsLetter(r) {
		return w
	}
	return 0
}

func digitAt(s string, i int) int {
	if s[i] < utf8.RuneSelf {
		if digit(s[i]) {
			return 1
		}
		return 0
	}
	r, w := utf8.DecodeRuneInString(s[i:])
	if w > 1 && unicode.IsDigit(r) {
		return w
	}
	return 0
}

// encoded reports whether the text is UTF-8 without NUL and with a byte order
// mark at most at its start.
func encoded(s string) bool {
	for i := 0; i < len(s); {
		if s[i] == 0 {
			return false
		}
		if s[i] < utf8.RuneSelf {
			i++
			continue
		}
		r, w := utf8.DecodeRuneInString(s[i:])
		if w == 1 && r == utf8.RuneError {
			return false
		}
		if r == 0xFEFF && i > 0 {
			return false
		}
		i += w
	}
	return true
}

func hexVal(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return 99
}

// escape checks the escape sequence whose backslash is at i-1 and returns the
// index after it and whether it is well formed.
func escape(s string, i int) (int, bool) {
	if i >= len(s) {
		return i, false
	}
	n, base, max := 0, 16, 0x10FFFF
	switch s[i] {
	case 'a', 'b', 'f', 'n', 'r', 't', 'v', '\\', '"':
		return i + 1, true
	case '0', '1', '2', '3', '4', '5', '6', '7':
		n, base, max = 3, 8, 255
	case 'x':
		i++
		n, max = 2, 255
	case 'u':
		i++
		n = 4
	case 'U':
		i++
		n = 8
	default:
		return i, false
	}
	v := 0
	for ; n > 0; n-- {
		if i >= len(s) || hexVal(s[i]) >= base {
			return i, false
		}
		v = v*base + hexVal(s[i])
		i++
	}
	return i, v <= max && !(0xD800 <= v && v <= 0xDFFF)
}

// number returns the index after the number at i and whether it is well formed.
func number(s string, i int) (int, bool) {
	start := i
	base := 10
	prefixed := false
	if s[i] == '0' {
		base = 8
		i++
		if i < len(s) {
			switch s[i] {
			case 'x', 'X':
				base, prefixed = 16, true
			case 'o', 'O':
				base, prefixed = 8, true
			case 'b', 'B':
				base, prefixed = 2, true
			}
		}
		if prefixed {
			i++
		} else {
			i = start
		}
	}
	ok, digits := true, 0
	under := false   // previous character is '_'
	prev := prefixed // a '_' is allowed here
	for i < len(s) {
		c := s[i]
		if c == '_' {
			if !prev {
				ok = false
			}
			prev, under = false, true
			i++
			continue
		}
		if base == 16 {
			if hexVal(c) >= 16 {
				break
			}
		} else {
			if !digit(c) {
				break
			}
			if int(c-'0') >= base {
				ok = false
			}
		}
		digits++
		prev, under = true, false
		i++
	}
	if under || digits == 0 {
		ok = false
	}
	return i, ok
}

func lineEndsIn(s string, i int) bool {
	// i is at the '/' of a comment after a token; is the line over before the
	// next token?
	for i < len(s) {
		switch {
		case space(s[i]):
			i++
		case s[i] == '\n':
			return true
		case s[i] == '/' && i+1 < len(s) && s[i+1] == '/':
			return true
		case s[i] == '/' && i+1 < len(s) && s[i+1] == '*':
			i += 2
			for i < len(s) && !(s[i] == '*' && i+1 < len(s) && s[i+1] == '/') {
				if s[i] == '\n' {
					return true
				}
				i++
			}
			i += 2
		default:
			return false
		}
	}
	return true
}

func hasCR(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' {
			return true
		}
	}
	return false
}

var keywords = []string{"import", "package", "data", "server", "enum"}

// Lex returns the tokens of s, or false if s is malformed.
func Lex(s string, comments bool) ([]Tok, bool) {
	if !encoded(s) {
		return nil, false
	}
	var out []Tok
	i := 0
	if len(s) >= 3 && s[:3] == "\xEF\xBB\xBF" {
		i = 3
	}
	semi := false
	for {
		for i < len(s) && (space(s[i]) || s[i] == '\n' && !semi) {
			i++
		}
		if i >= len(s) {
			if semi {
				out = append(out, Tok{Kind: ";", Lit: "\n", Off: i})
			}
			return append(out, Tok{Kind: "eof", Off: i}), true
		}
		c := s[i]
		start := i
		if c == '\n' {
			out = append(out, Tok{Kind: ";", Lit: "\n", Off: i})
			semi = false
			i++
			continue
		}
		if w := sym.Value(letter(s, i)); w > 0 {
			for i < len(s) {
				w := sym.Value(letter(s, i))
				if w == 0 {
					w = sym.Value(digitAt(s, i))
				}
				if w == 0 {
					break
				}
				i += w
			}
			t := Tok{Kind: "ident", Lit: s[start:i], Off: start}
			semi = true
			for _, k := range keywords {
				if t.Lit == k {
					t.Kind = k
					semi = false
				}
			}
			out = append(out, t)
			continue
		}
		if digit(c) {
			e, ok := number(s, i)
			if !ok {
				return nil, false
			}
			i = e
			out = append(out, Tok{Kind: "int", Lit: s[start:i], Off: start})
			semi = true
			continue
		}
		switch c {
		case '"':
			i++
			for {
				if i >= len(s) || s[i] == '\n' {
					return nil, false
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' {
					e, ok := escape(s, i+1)
					if !ok {
						return nil, false
					}
					i = e
					continue
				}
				i++
			}
			out = append(out, Tok{Kind: "string", Lit: s[start:i], Off: start})
			semi = true
		case '`':
			i++
			for i < len(s) && s[i] != '`' {
				i++
			}
			if i >= len(s) {
				return nil, false
			}
			i++
			out = append(out, Tok{Kind: "string", Lit: s[start:i], Off: start, CR: hasCR(s[start:i])})
			semi = true
		case '/':
			if i+1 >= len(s) || s[i+1] != '/' && s[i+1] != '*' {
				return nil, false
			}
			if semi && lineEndsIn(s, i) {
				out = append(out, Tok{Kind: ";", Lit: "\n", Off: i})
			}
			semi = false
			if s[i+1] == '/' {
				for i < len(s) && s[i] != '\n' {
					i++
				}
			} else {
				i += 2
				for !(i+1 < len(s) && s[i] == '*' && s[i+1] == '/') {
					if i >= len(s) {
						return nil, false
					}
					i++
				}
				i += 2
			}
			if comments {
				out = append(out, Tok{Kind: "comment", Lit: s[start:i], Off: start, CR: hasCR(s[start:i])})
			}
		case '=', '?', '<', '(', '[', '{', ',', ':':
			out = append(out, Tok{Kind: s[i : i+1], Off: i})
			semi = false
			i++
		case '>', ')', ']', '}':
			out = append(out, Tok{Kind: s[i : i+1], Off: i})
			semi = true
			i++
		case ';':
			out = append(out, Tok{Kind: ";", Lit: ";", Off: i})
			semi = false
			i++
		default:
			return nil, false
		}
	}
}
