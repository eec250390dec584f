// C03: offsets, lines and columns agree with the text, for one and for several
// registered files.
package main

import (
	"hbuf/pkg/parser"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hbuf/zz_verif/sym"
)

func main() {
	sym.Main(map[string]func(){"H_scan": H_scan, "H_content": H_content, "H_lines": H_lines, "H_merge": H_merge, "H_files": H_files, "H_error": H_error})
}

// place counts the line and column of off in src.
func place(src string, off int) (line, col int) {
	line, col = 1, 1
	for i := 0; i < off; i++ {
		col++
		if src[i] == '\n' {
			line++
			col = 1
		}
	}
	return
}

// atEnd: a position after a final line break may be given on either line.
func atEnd(src string, off int) bool {
	return off == len(src) && len(src) > 0 && src[len(src)-1] == '\n'
}

func checkAt(fset *token.FileSet, f *token.File, name, src string, off int) {
	p := f.Pos(off)
	sym.Assert(f.Offset(p) == off, "mapping an offset to a position and back is the identity")
	pos := fset.Position(p)
	sym.Assert(pos.Filename == name && pos.Offset == off, "a position belongs to its file and offset")
	if atEnd(src, off) {
		return
	}
	line, col := place(src, off)
	sym.Assert(pos.Line == line, "the line is the number of line breaks before, plus one")
	sym.Assert(pos.Column == col, "the column counts the bytes since the line start, plus one")
	sym.Assert(f.Line(p) == line, "File.Line agrees with the full position")
	ls := f.LineStart(line)
	sym.Assert(f.Offset(ls) == off-(col-1), "the line start is where the line begins")
}

// H_scan: the line table built by the scanner.
//
// bounds: every byte string of 0..3 (thorough: 0..4) bytes; all offsets and every token, in both comment modes
//
//sym:steps=400000 depth=400 time=200 thorough.time=900 cover=two,ok
func H_scan() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	n := sym.Pick("len", max+1)
	scanAll(sym.Str("src", n))
}

// H_lines: longer texts with many line ends inside and outside tokens.
//
// bounds: every string of 6 (thorough: 7) bytes over newline, carriage return, letter, slash, star, back quote and blank
//
//sym:steps=400000 depth=400 time=200 thorough.time=900 cover=two,ok
func H_lines() {
	n := 6
	if sym.Thorough() {
		n = 7
	}
	scanAll(sym.StrOf("src", n, "\n\ra/*` "))
}

func scanAll(src string) {
	sym.Note("src", src)
	fset := token.NewFileSet()
	fset.AddFile("before.hbuf", fset.Base(), 3)
	f := fset.AddFile("a.hbuf", fset.Base(), len(src))
	fset.AddFile("after.hbuf", fset.Base(), 2)
	var s scanner.Scanner
	mode := scanner.Mode(0)
	if sym.Pick("comments", 2) == 1 {
		mode = scanner.ScanComments
	}
	s.Init(f, []byte(src), func(pos token.Position, msg string) {
		sym.Assert(pos.Filename == "a.hbuf" && pos.Offset >= 0 && pos.Offset <= len(src), "an error is located in the text")
		if !atEnd(src, pos.Offset) {
			line, col := place(src, pos.Offset)
			sym.Assert(pos.Line == line && pos.Column == col, "an error's line and column agree with its offset")
		}
	}, mode)
	for {
		p, tok, _ := s.Scan()
		checkAt(fset, f, "a.hbuf", src, f.Offset(p))
		if tok == token.EOF {
			break
		}
	}
	lines := 1
	for i := range src {
		_ = i
	}
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' && i+1 < len(src) {
			lines++
		}
	}
	if lines > 2 {
		sym.Cover("two")
	}
	sym.Cover("ok")
	sym.Assert(f.LineCount() == lines, "the number of lines is right")
	for off := 0; off <= len(src); off++ {
		checkAt(fset, f, "a.hbuf", src, off)
	}
}

// H_content: the line table computed from the content at once, at an arbitrary offset.
//
// bounds: every byte string of 0..7 (thorough: 0..10) bytes, any offset in it
//
//sym:steps=400000 depth=400 time=200 thorough.time=600 cover=ok
func H_content() {
	max := 7
	if sym.Thorough() {
		max = 10
	}
	n := sym.Pick("len", max+1)
	src := sym.Str("src", n)
	sym.Note("src", src)
	fset := token.NewFileSet()
	f := fset.AddFile("a.hbuf", fset.Base(), len(src))
	f.SetLinesForContent([]byte(src))
	off := sym.Pick("off", n+1)
	if n == 0 {
		return // an empty text has no lines
	}
	sym.Cover("ok")
	checkAt(fset, f, "a.hbuf", src, off)
}

// H_merge: line tables built and edited directly.
//
// bounds: tables of up to 4 symbolic line starts in a file of symbolic size up to 20, one merge of any line, any offset
//
//sym:steps=400000 depth=400 time=200 cover=set,rejected,merged,added
func H_merge() {
	size := sym.Choose("size", 21)
	fset := token.NewFileSet()
	f := fset.AddFile("a.hbuf", fset.Base(), size)
	n := sym.Pick("n", 4)
	tab := []int{0}
	ok := size > 0
	for i := 0; i < n; i++ {
		x := sym.Choose("l", 22)
		ok = sym.And(ok, x > tab[i], x < size)
		tab = append(tab, x)
	}
	if sym.Pick("how", 2) == 0 {
		got := f.SetLines(append([]int(nil), tab...))
		sym.Assert(got == ok, "a line table is accepted exactly when it increases and lies in the file")
		if !ok {
			sym.Cover("rejected")
			return
		}
		sym.Cover("set")
	} else {
		// AddLine ignores what would not be valid
		want := []int{0}
		for _, x := range tab[1:] {
			f.AddLine(x)
			if x > want[len(want)-1] && x < size {
				want = append(want, x)
			}
		}
		tab = want
		sym.Cover("added")
	}
	sym.Assert(f.LineCount() == len(tab), "the number of lines is right")
	if k := sym.Pick("merge", 5); k > 0 {
		if k >= len(tab) {
			return
		}
		f.MergeLine(k)
		tab = append(append([]int(nil), tab[:k]...), tab[k+1:]...)
		sym.Cover("merged")
	}
	off := sym.Choose("off", 21)
	sym.Assume(off <= size)
	line, col := 0, 0
	for i, x := range tab {
		if x <= off {
			line, col = i+1, off-x+1
		}
	}
	pos := f.Position(f.Pos(off))
	sym.Assert(sym.And(pos.Line == line, pos.Column == col, pos.Offset == off), "position agrees with the line table")
	for i, x := range tab {
		sym.Assert(f.Offset(f.LineStart(i+1)) == x, "the start of a line is the one in the table")
	}
}

// H_files: several files of symbolic sizes and two lookups in a row.
//
// bounds: up to 4 files of symbolic sizes 0..15 with symbolic gaps 0..3 between them, two (thorough: three) lookups of arbitrary positions in a row
//
//sym:steps=400000 depth=400 time=200 cover=hit,miss,cached
func H_files() {
	n := 1 + sym.Pick("files", 4)
	names := []string{"a", "b", "c", "d"}
	fset := token.NewFileSet()
	var base, size []int
	var fs []*token.File
	for i := 0; i < n; i++ {
		s := sym.Choose("size", 16)
		b := fset.Base()
		if sym.Pick("gap", 2) == 1 {
			b += sym.Choose("gapsize", 4)
			fs = append(fs, fset.AddFile(names[i], b, s))
		} else {
			fs = append(fs, fset.AddFile(names[i], -1, s))
		}
		base, size = append(base, b), append(size, s)
		sym.Assert(fs[i].Base() == b && fs[i].Size() == s && fs[i].Name() == names[i], "a file is registered as given")
	}
	looks := 2
	if sym.Thorough() {
		looks = 3
	}
	for q := 0; q < looks; q++ {
		p := sym.Choose("pos", 100)
		owner := -1
		for i := range base {
			if base[i] <= p && p <= base[i]+size[i] {
				sym.Assert(owner < 0, "files do not overlap")
				owner = i
			}
		}
		f := fset.File(token.Pos(p))
		pos := fset.Position(token.Pos(p))
		if owner < 0 {
			sym.Cover("miss")
			sym.Assert(f == nil && !pos.IsValid(), "a position outside every file resolves to none")
			continue
		}
		sym.Cover("hit")
		if q > 0 {
			sym.Cover("cached")
		}
		sym.Assert(p > 0, "no file owns the invalid position")
		sym.Assert(f == fs[owner], "a position resolves to the one file it lies in")
		sym.Assert(pos.Filename == names[owner] && pos.Offset == p-base[owner], "a position resolves to the right name and offset")
	}
	k := 0
	fset.Iterate(func(f *token.File) bool {
		sym.Assert(f == fs[k], "files are visited in order")
		k++
		return true
	})
	sym.Assert(k == n, "every file is visited")
}

// H_error: a diagnostic points at the token it complains about.
//
// bounds: 6 broken schemas with symbolic white space (blank, tab, newline, carriage return) of 2 (thorough: 3) bytes at the start and before the offending token
//
//sym:steps=2000000 depth=400 time=200 thorough.time=600 cover=located
func H_error() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	type broken struct{ pre, bad, post string }
	cases := []broken{
		{"data A {\n", "=", " }"},
		{"data A { int32 x = ", "y", " }\n"},
		{"enum ", "{", " a = 1 }\n"},
		{"data A { int32 x = 1 }\n", "foo", "\n"},
		{"data A { int32", "\"s\"", " = 1 }\n"},
		{"enum E { a = ", "}", "\n"},
	}
	c := cases[sym.Pick("case", len(cases))]
	w1 := sym.StrOf("w1", n, " \t\n\r")
	w2 := sym.StrOf("w2", n, " \t\r")
	src := w1 + c.pre + w2 + c.bad + c.post
	off := len(w1) + len(c.pre) + len(w2)
	sym.Note("src", src)
	fset := token.NewFileSet()
	_, err := parser.ParseFile(fset, "a.hbuf", src, parser.AllErrors|parser.ParseComments)
	sym.Assert(err != nil, "a broken schema is rejected")
	l, ok := err.(scanner.ErrorList)
	sym.Assert(ok && len(l) > 0, "the error lists its places")
	first := l[0].Pos
	for _, e := range l {
		if e.Pos.Offset < first.Offset {
			first = e.Pos
		}
	}
	line, col := place(src, off)
	sym.Cover("located")
	sym.Assert(first.Filename == "a.hbuf", "the error names the file")
	sym.Assert(first.Offset == off && first.Line == line && first.Column == col, "the first error points at the offending token")
}
