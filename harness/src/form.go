package src

import "hbuf/zz_verif/sym"

// Form says what is wrong with the form of a source text, if anything: a token
// that does not end, brackets that do not match, or an operator or separator
// that lacks what has to follow it.
func Form(lang, text string) string {
	toks, bad := Lex(lang, text)
	if bad != "" {
		return bad
	}
	toks = Code(toks)
	if s := Nesting(toks); s != "" {
		return s
	}
	for i := range toks {
		if s := dangling(toks, i); s != "" {
			return s + " before " + Join(toks[i+1:min(len(toks), i+8)])
		}
	}
	return ""
}

func dangling(toks []Tok, i int) string {
	t := toks[i]
	if t.Kind != Punct || i+1 >= len(toks) {
		return ""
	}
	u := toks[i+1]
	if u.Kind != Punct {
		return ""
	}
	c := t.Text[0]
	n := u.Text[0]
	switch n {
	case ')', ']', '}', ',', ';':
	default:
		return ""
	}
	same := i > 0 && toks[i-1].Kind == Punct && toks[i-1].Text[0] == c && toks[i-1].Pos == t.Pos-1
	switch c {
	case '=', '&', '|', '%', '^', '~':
		return "nothing after an operator"
	case '+', '-':
		if !same {
			return "nothing after an operator"
		}
	case ':', '.':
		return "nothing after " + t.Text
	case ',', '(', '[':
		if n == ',' || n == ';' {
			return "nothing after " + t.Text
		}
	case '>': // "=>" is an operator
		if i > 0 && toks[i-1].Kind == Punct && toks[i-1].Text[0] == '=' && toks[i-1].Pos == t.Pos-1 {
			return "nothing after =>"
		}
	}
	return ""
}

// Interpolated says whether the string token has an expression in it.
func Interpolated(lang string, t Tok) bool {
	for i := 0; i < len(t.Text); i = sym.Value(i + 1) {
		switch t.Text[i] {
		case '\\':
			i++
		case '$':
			if lang == "dart" || lang == "ts" && t.Quo == '`' && i+1 < len(t.Text) && t.Text[i+1] == '{' {
				return true
			}
		}
	}
	return false
}
