// Package src splits generated source text into tokens, by the lexical rules
// of the language it is written in.
package src

import "hbuf/zz_verif/sym"

// Kinds of tokens.
const (
	Ident   = 'i'
	Number  = 'n'
	String  = 's' // Text is what is between the quotes
	Comment = 'c' // Text is the whole comment
	Punct   = 'p' // one byte
)

type Tok struct {
	Kind byte
	Text string
	Line int
	Pos  int
	Quo  byte // of a string
}

func word(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' || c >= 0x80
}

// Lex returns the tokens of text, which is written in lang (go, dart, java,
// ts), and what is wrong with it, if anything.
func Lex(lang, text string) (toks []Tok, bad string) {
	line := 1
	i := 0
	n := len(text)
	for i < n {
		c := text[i]
		start := i
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t':
			i++
		case word(c):
			for i < n && word(text[i]) {
				i++
			}
			k := byte(Ident)
			if c >= '0' && c <= '9' {
				k = Number
				for i+1 < n && text[i] == '.' && text[i+1] >= '0' && text[i+1] <= '9' {
					i++
					for i < n && word(text[i]) {
						i++
					}
				}
			}
			toks = append(toks, Tok{k, text[start:i], line, start, 0})
		case c == '/' && i+1 < n && text[i+1] == '/':
			for i < n && text[i] != '\n' {
				i++
			}
			toks = append(toks, Tok{Comment, text[start:i], line, start, 0})
		case c == '/' && i+1 < n && text[i+1] == '*':
			l := line
			i += 2
			for i+1 < n && !(text[i] == '*' && text[i+1] == '/') {
				if text[i] == '\n' {
					line++
				}
				i++
			}
			if i+1 >= n {
				return toks, "unterminated comment"
			}
			i += 2
			toks = append(toks, Tok{Comment, text[start:i], l, start, 0})
		case c == '"' || c == '\'' || c == '`' && (lang == "go" || lang == "ts"):
			l := line
			w := 1
			if lang == "dart" && i+2 < n && text[i+1] == c && text[i+2] == c {
				w = 3
			}
			i += w
			body := i
			for {
				if i >= n {
					return toks, "unterminated string"
				}
				d := text[i]
				if d == c && (w == 1 || i+2 < n && text[i+1] == c && text[i+2] == c) {
					break
				}
				if d == '\n' {
					line++
					if w == 1 && c != '`' {
						return toks, "line break in a string"
					}
				}
				if d == '\\' && !(c == '`' && lang == "go") {
					i++
				}
				i = sym.Value(i + 1)
			}
			toks = append(toks, Tok{String, text[body:i], l, start, c})
			i += w
		case c < ' ' || c == 0x7f:
			return toks, "control character"
		default:
			i++
			toks = append(toks, Tok{Punct, text[start:i], line, start, 0})
		}
	}
	return toks, ""
}

// Code is toks without comments.
func Code(toks []Tok) (r []Tok) {
	for _, t := range toks {
		if t.Kind != Comment {
			r = append(r, t)
		}
	}
	return
}

// Nesting says what is wrong with the brackets of toks, if anything.
func Nesting(toks []Tok) string {
	var open []byte
	for _, t := range toks {
		if t.Kind != Punct {
			continue
		}
		switch c := t.Text[0]; c {
		case '(', '[', '{':
			open = append(open, c)
		case ')', ']', '}':
			if len(open) == 0 {
				return "a bracket too many"
			}
			o := open[len(open)-1]
			open = open[:len(open)-1]
			if o == '(' && c != ')' || o == '[' && c != ']' || o == '{' && c != '}' {
				return "brackets do not match"
			}
		}
	}
	if len(open) > 0 {
		return "a bracket is missing"
	}
	return ""
}

// End returns the index of the bracket that closes toks[i].
func End(toks []Tok, i int) int {
	d := 0
	for ; i < len(toks); i++ {
		if toks[i].Kind != Punct {
			continue
		}
		switch toks[i].Text[0] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(toks)
}

// Is says whether toks[i:] starts with the given texts (of any kind but
// strings); "*" stands for any token.
func Is(toks []Tok, i int, texts ...string) bool {
	if i < 0 || i+len(texts) > len(toks) {
		return false
	}
	for j, s := range texts {
		if s != "*" && (toks[i+j].Kind == String || toks[i+j].Text != s) {
			return false
		}
	}
	return true
}

// Find returns the first index from i on where toks has the given texts, or
// -1.
func Find(toks []Tok, i int, texts ...string) int {
	for ; i+len(texts) <= len(toks); i++ {
		if Is(toks, i, texts...) {
			return i
		}
	}
	return -1
}

// Join is the texts of toks, a space between two words.
func Join(toks []Tok) string {
	s := ""
	w := false
	for _, t := range toks {
		x := t.Kind == Ident || t.Kind == Number
		if w && x {
			s += " "
		}
		w = x
		if t.Kind == String {
			s += "\"" + t.Text + "\""
		} else {
			s += t.Text
		}
	}
	return s
}

// Open returns the index of the first "{" from i on outside round brackets.
func Open(toks []Tok, i int) int {
	d := 0
	for ; i < len(toks); i++ {
		if toks[i].Kind != Punct {
			continue
		}
		switch toks[i].Text[0] {
		case '(':
			d++
		case ')':
			d--
		case '{':
			if d == 0 {
				return i
			}
		}
	}
	return len(toks)
}
