// C02: the lexer reports an error exactly when the text is lexically malformed,
// and otherwise classifies it into the right tokens.
package main

import (
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hbuf/zz_verif/lex"
	"hbuf/zz_verif/sym"
)

func main() {
	sym.Main(map[string]func(){"H_any": H_any, "H_mixed": H_mixed, "H_number": H_number, "H_escape": H_escape, "H_comment": H_comment, "H_word": H_word, "H_line": H_line})
}

// H_any: arbitrary bytes.
//
// bounds: every byte string of 0..3 bytes (thorough: 0..4), with and without comment tokens
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid,malformed
func H_any() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := sym.Pick("len", max+1)
	check(sym.Str("src", n))
}

// H_mixed: longer texts over one representative of each lexical class.
//
// bounds: every string of 5 (thorough: 6) bytes over one representative of each lexical character class
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid,malformed
func H_mixed() {
	n := 5
	if sym.Thorough() {
		n = 6
	}
	check(sym.StrOf("src", n, "a_0\"`\\/*\n\r ;}="))
}

// H_number: numbers of every base.
//
// bounds: a digit followed by every string of 5 (thorough: 7) bytes over digits, hex letters, prefix letters, underscore, dot and blank
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid,malformed
func H_number() {
	n := 5
	if sym.Thorough() {
		n = 7
	}
	check(sym.StrOf("first", 1, "0123456789") + sym.StrOf("src", n, "012789_xXobBfFg. "))
}

// H_escape: escape sequences.
//
// bounds: one escape sequence of each kind with symbolic digits, truncated at any place
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid,malformed
func H_escape() {
	var s string
	switch sym.Pick("kind", 5) {
	case 0:
		s = sym.Str("c", 1)
	case 1:
		s = sym.StrOf("c", 3, "01234567893af\"")
	case 2:
		s = "x" + sym.StrOf("c", 2, "0123456789abcdefABCDEFgx\"\n")
	case 3:
		s = "u" + sym.StrOf("c", 4, "0123456789abcdefABCDEFg\"")
	case 4:
		s = "U" + sym.StrOf("c", 8, "014789cdefCDEFg")
	}
	n := sym.Pick("cut", len(s)+1)
	end := []string{"\"", "", "\\\"\""}[sym.Pick("end", 3)]
	check("\"\\" + s[:n] + end)
}

// H_comment: comments and line ends after a token that ends a statement.
//
// bounds: a name, a punctuation mark or nothing, followed by every string of 6 (thorough: 8) bytes over slash, star, newline, carriage return and a letter
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid,malformed
func H_comment() {
	n := 6
	if sym.Thorough() {
		n = 8
	}
	check([]string{"a", "=", ""}[sym.Pick("before", 3)] + sym.StrOf("src", n, "/*\n\ra"))
}

// H_word: keywords and names with arbitrary neighbours.
//
// bounds: each keyword with any one byte replaced by an arbitrary byte, or an arbitrary byte before or after
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid,malformed
func H_word() {
	w := []string{"data", "enum", "server", "import", "package", "\u00e9t\u00e9", "\u4e2d"}[sym.Pick("word", 7)]
	k := sym.Pick("at", len(w)+2)
	x := sym.Str("x", 1)
	switch {
	case k < len(w):
		w = w[:k] + x + w[k+1:]
	case k == len(w):
		w = w + x
	default:
		w = x + w
	}
	check(w)
}

// H_line: statement terminators after every kind of token.
//
// bounds: each kind of token followed by a line end, a comment or the end of the text, with symbolic white space, then each kind of token
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=valid
func H_line() {
	toks := []string{"a", "1", "\"s\"", "`r`", "=", "?", "<", "(", "[", "{", ",", ">", ")", "]", "}", ";", ":", "package", "data", "server", "enum", "import"}
	seps := []string{"\n", "//c\n", "/*c*/", "/*\n*/", "/*c*/\n", "/**//**/\n", ""}
	a := toks[sym.Pick("first", len(toks))]
	b := toks[sym.Pick("second", len(toks))]
	check(a + sym.StrOf("w1", 1, " \t\r\n") + seps[sym.Pick("sep", len(seps))] + sym.StrOf("w2", 1, " \t\r\n") + b)
}

func check(src string) {
	sym.Note("src", src)
	comments := sym.Pick("comments", 2) == 1
	fset := token.NewFileSet()
	f := fset.AddFile("a.hbuf", fset.Base(), len(src))
	var s scanner.Scanner
	mode := scanner.Mode(0)
	if comments {
		mode = scanner.ScanComments
	}
	calls := 0
	bad := false
	s.Init(f, []byte(src), func(pos token.Position, msg string) {
		calls++
		if pos.Offset < 0 || pos.Offset > len(src) || msg == "" {
			bad = true
		}
	}, mode)
	limit := 2*len(src) + 3
	var got []scanned
	for {
		sym.Assert(len(got) <= limit, "the lexer reaches the end of the text")
		pos, tok, lit := s.Scan()
		got = append(got, scanned{f.Offset(pos), tok, lit})
		if tok == token.EOF {
			break
		}
	}
	want, valid := lex.Lex(src, comments)
	for k := 0; valid && k < len(got); k++ {
		sym.Assert(k < len(want), "no token is invented")
		w, g := want[k], got[k]
		tok := g.tok
		sym.Assert(g.off == w.Off, "a token is reported where it is")
		switch w.Kind {
		case "eof":
			sym.Assert(tok == token.EOF, "the end of the text is reported")
		case "ident":
			sym.Assert(tok == token.IDENT, "an identifier is classified as one")
		case "int":
			sym.Assert(tok == token.INT, "a number is classified as one")
		case "string":
			sym.Assert(tok == token.STRING, "a string is classified as one")
		case "comment":
			sym.Assert(tok == token.COMMENT, "a comment is classified as one")
		case ";":
			sym.Assert(tok == token.SEMICOLON, "a statement terminator is reported where one is due")
		case "package", "import", "data", "enum", "server":
			sym.Assert(tok.IsKeyword() && tok.String() == w.Kind, "a keyword is classified as itself")
		default:
			sym.Assert(tok.String() == w.Kind, "punctuation is classified as itself")
		}
		if w.Lit != "" && !w.CR {
			sym.Assert(g.lit == w.Lit, "the token's text is the source text")
		}
	}
	sym.Assert(!valid || len(got) == len(want), "no token is dropped")
	if valid {
		sym.Cover("valid")
		sym.Assert(s.ErrorCount == 0, "well-formed text is accepted")
	} else {
		sym.Cover("malformed")
		sym.Assert(s.ErrorCount > 0, "malformed text is reported")
	}
	sym.Assert(calls == s.ErrorCount && !bad, "every error is passed on with a place in the text")
}

type scanned struct {
	off int
	tok token.Token
	lit string
}
