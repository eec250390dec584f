// C01: the lexer terminates and its tokens cover the source text exactly.
package main

import (
	"unicode/utf8"

	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hbuf/zz_verif/sym"
)

func main() {
	sym.Main(map[string]func(){"H_any": H_any, "H_mixed": H_mixed, "H_comment": H_comment, "H_quoted": H_quoted, "H_word": H_word, "H_pieces": H_pieces})
}

// H_any: arbitrary bytes.
//
// bounds: every byte string of 0..3 bytes (thorough: 0..4), with and without comment tokens
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=eof,ident,string,number,comment,illegal
func H_any() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := sym.Pick("len", max+1)
	src := sym.Str("src", n)
	sym.Note("src", src)
	cover(src, sym.Pick("comments", 2) == 1)
}

// H_mixed: longer texts over the characters that matter to the lexer.
//
// bounds: every string of 5 (thorough: 6) bytes over one representative of each lexical character class
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=eof,ident,string,number,comment,illegal
func H_mixed() {
	n := 5
	if sym.Thorough() {
		n = 6
	}
	src := sym.StrOf("src", n, "a_0x\"`\\/*.\n\r ;}'\x00")
	sym.Note("src", src)
	cover(src, sym.Pick("comments", 2) == 1)
}

// H_comment: comments, line ends and carriage returns.
//
// bounds: every string of 6 (thorough: 8) bytes over slash, star, newline, carriage return and a letter, optionally after a letter
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=eof,comment
func H_comment() {
	n := 6
	if sym.Thorough() {
		n = 8
	}
	src := sym.StrOf("src", n, "/*\n\ra")
	sym.Note("src", src)
	cover(src, sym.Pick("comments", 2) == 1)
}

// H_quoted: string literals.
//
// bounds: a quote or back quote followed by every string of 5 (thorough: 6) bytes over quotes, backslash, escape letters, digits, newline, carriage return and a non-ASCII byte
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=eof,string
func H_quoted() {
	n := 5
	if sym.Thorough() {
		n = 6
	}
	src := []string{"\"", "`"}[sym.Pick("quote", 2)] + sym.StrOf("src", n, "\"`\\xun07\n\r\xc3\xa9")
	sym.Note("src", src)
	cover(src, false)
}

// H_word: identifiers, keywords and numbers with arbitrary neighbours.
//
// bounds: each keyword and several numbers and names with an arbitrary byte before and after
//
//sym:steps=300000 depth=400 time=200 thorough.time=900 cover=eof,ident
func H_word() {
	w := []string{"data", "enum", "server", "import", "package", "12", "0x1f", "0b10", "name", "a1_b", "\u00e9t\u00e9", "\xef\xbb\xbf"}
	src := sym.Str("pre", 1) + w[sym.Pick("word", len(w))] + sym.Str("post", 1)
	if sym.Thorough() {
		src += sym.Str("post2", 1)
	}
	sym.Note("src", src)
	cover(src, sym.Pick("comments", 2) == 1)
}

// H_pieces: sequences of whole pieces with an arbitrary byte between.
//
// bounds: every pair (thorough: triple) of ten pieces (byte order mark, comments, strings, a letter, a number, a letter and digit outside ASCII, line ends) with an arbitrary byte or nothing between
//
//sym:steps=300000 depth=400 time=100 thorough.time=900 cover=eof,illegal
func H_pieces() {
	w := []string{"\ufeff", "/*a*/", "//b\n", "\"c\"", "`\r`", "d", "7", "\u00e9", "\u0663", "\r\n"}
	n := 2
	if sym.Thorough() {
		n = 3
	}
	src := ""
	for i := 0; i < n; i++ {
		if i > 0 && sym.Pick("sep", 2) == 1 {
			src += sym.Str("between", 1)
		}
		src += w[sym.Pick("piece", len(w))]
	}
	sym.Note("src", src)
	cover(src, sym.Pick("comments", 2) == 1)
}

func isSpace(c byte) bool { return sym.In(c, " \t\r\n") }

// runeLen is the width of the character at i; a malformed one is one byte.
func runeLen(s string, i int) int {
	_, w := utf8.DecodeRuneInString(s[i:])
	return w
}

// cover scans src and checks every token against the text.
func cover(src string, comments bool) {
	fset := token.NewFileSet()
	f := fset.AddFile("a.hbuf", fset.Base(), len(src))
	var s scanner.Scanner
	mode := scanner.Mode(0)
	if comments {
		mode = scanner.ScanComments
	}
	s.Init(f, []byte(src), nil, mode)
	end := 0 // everything before is accounted for
	if len(src) >= 3 && src[0] == 0xEF && src[1] == 0xBB && src[2] == 0xBF {
		end = 3
	}
	last := 0
	limit := 2*len(src) + 3
	for k := 0; ; k++ {
		sym.Assert(k <= limit, "end of file is reached after finitely many tokens")
		pos, tok, lit := s.Scan()
		off := f.Offset(pos)
		sym.Assert(off >= last && off <= len(src), "token positions do not go backwards or leave the text")
		last = off
		if tok == token.EOF {
			sym.Cover("eof")
			gap(src, end, len(src), comments)
			sym.Assert(off == len(src), "end of file is reported at the end of the text")
			return
		}
		sym.Assert(off >= end, "tokens do not overlap")
		gap(src, end, off, comments)
		switch {
		case tok == token.SEMICOLON && lit != ";":
			// inserted at a line end, the end of the text, or before a comment that ends the line
			sym.Assert(lit == "\n", "an inserted terminator is a newline")
			end = off
			if off < len(src) && src[off] == '\n' {
				end = off + 1
			}
		case tok == token.IDENT || tok == token.STRING || tok == token.INT || tok.IsKeyword() || tok == token.COMMENT:
			switch tok {
			case token.IDENT:
				sym.Cover("ident")
			case token.STRING:
				sym.Cover("string")
			case token.INT:
				sym.Cover("number")
			case token.COMMENT:
				sym.Cover("comment")
			}
			sym.Assert(len(lit) > 0, "a literal token is not empty")
			end = match(src, off, lit)
			sym.Assert(end >= 0, "a literal token's text is the source text at its position")
		case tok == token.ILLEGAL:
			sym.Cover("illegal")
			sym.Assert(off < len(src), "an illegal token is inside the text")
			w := runeLen(src, off)
			end = off + w
			bad := w == 1 && src[off] >= utf8.RuneSelf
			sym.Assert(bad || lit == src[off:end], "an illegal token's text is the offending character")
		default:
			op := tok.String()
			sym.Assert(off+len(op) <= len(src) && src[off:off+len(op)] == op, "punctuation is where it is reported")
			end = off + len(op)
		}
	}
}

// match compares lit with the text at off, carriage returns aside, and
// returns the end of the token or -1.
func match(src string, off int, lit string) int {
	if off+len(lit) <= len(src) && src[off:off+len(lit)] == lit {
		return off + len(lit)
	}
	j := off
	for i := 0; i < len(lit); i++ {
		for j < len(src) && src[j] == '\r' && lit[i] != '\r' {
			j++
		}
		if j >= len(src) || src[j] != lit[i] {
			return -1
		}
		j++
	}
	return j
}

// gap checks that src[a:b] is white space, or comments when those are skipped.
func gap(src string, a, b int, comments bool) {
	for i := a; i < b; {
		if isSpace(src[i]) {
			i++
			continue
		}
		ok := !comments && src[i] == '/' && i+1 < b && (src[i+1] == '/' || src[i+1] == '*')
		sym.Assert(ok, "only white space and comments lie between tokens")
		if src[i+1] == '/' {
			for i < b && src[i] != '\n' {
				i++
			}
			continue
		}
		open := i + 1
		i += 2
		for i < b && !(src[i-1] == '*' && src[i] == '/' && i-1 > open) {
			i++
		}
		i++
	}
}
