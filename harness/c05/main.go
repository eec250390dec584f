// C05: parsing yields exactly the declared schema, whatever the layout.
package main

import (
	"hbuf/pkg/parser"
	"hbuf/pkg/token"
	"hbuf/zz_verif/gram"
	"hbuf/zz_verif/lex"
	"hbuf/zz_verif/sym"
)

func main() {
	sym.Main(map[string]func(){"H_names": H_names, "H_types": H_types, "H_values": H_values, "H_lists": H_lists, "H_space": H_space, "H_breaks": H_breaks, "H_top": H_top})
}

// run parses src and compares the tree with the reference; it returns the
// canonical tree.
func run(src string) (string, gram.Verdict) {
	sym.Note("src", src)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.hbuf", src, parser.AllErrors|parser.ParseComments)
	var tf *token.File
	fset.Iterate(func(x *token.File) bool {
		tf = x
		return true
	})
	want, v := gram.Parse(src)
	if v == gram.Yes {
		sym.Cover("accepted")
		sym.Assert(err == nil, "a well-formed schema is accepted")
	}
	if v == gram.No {
		sym.Assert(err != nil, "a malformed schema is rejected")
		return "", v
	}
	if err != nil {
		return "", gram.No
	}
	got, ok := gram.Dump(f, tf)
	sym.Assert(ok, "the tree is complete")
	sym.Assert(got == want || want == "", "the tree is the declared schema")
	return got, v
}

const letters = "dZ_9\xc3\xa9"

// H_names: every name position with a symbolic name.
//
// bounds: 14 name positions of a schema with all constructs; one of them, any string of 1..4 (thorough: 5) bytes over letters, underscore, a digit and a letter outside ASCII, any 1..2 (thorough: 1..3) bytes at all, and every keyword with one byte before, behind or replaced
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=accepted
func H_names() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	set := sym.Pick("alphabet", 3)
	k := 0
	if set < 2 {
		k = 1 + sym.Pick("len", n)
	}
	if set == 1 {
		sym.Assume(k < 4 && (sym.Thorough() || k < 3))
	}
	p := sym.Pick("place", 14)
	name := ""
	if set == 2 {
		name = []string{"data", "enum", "server", "import", "package"}[sym.Pick("keyword", 5)]
		b := sym.Str("byte", 1)
		switch j := sym.Pick("where", len(name)+2); j {
		case len(name):
			name += b
		case len(name) + 1:
			name = b + name
		default:
			name = name[:j] + b + name[j+1:]
		}
	} else if set == 0 {
		name = sym.StrOf("name", k, letters)
	} else {
		name = sym.Str("name", k)
	}
	x := []string{"go", "t", "k", "A", "B", "u", "T", "f", "K", "E", "i", "S", "m", "q"}
	x[p] = name
	run("package " + x[0] + " = \"p\"\n[" + x[1] + ":" + x[2] + "=\"v\"]\ndata " + x[3] + " : " + x[4] + " = 0 {\n[" + x[5] + ":k=\"v\"]\n" + x[6] + " " + x[7] + " = 0\nV<" + x[8] + "> g = 1\n}\n" +
		"enum " + x[9] + " {\n" + x[10] + " = 0\n}\nserver " + x[11] + " {\nR " + x[12] + "(P " + x[13] + ") = 0\n}\n")
}

// H_types: every shape of a field's type.
//
// bounds: name, list or map of every optional marker combination, one field; any byte as type name (thorough: and as name and number), six as key
//
//sym:steps=800000 depth=400 time=120 thorough.time=600 cover=accepted
func H_types() {
	src := "data A {\n" + typ()
	if sym.Thorough() {
		src += " " + sym.Str("name", 1) + " = " + sym.Str("id", 1) + "\n"
	} else {
		src += " f = 1\n"
	}
	run(src + "}\n")
}

func typ() string {
	q := func() string { return []string{"", "?", " ?"}[sym.Pick("?", 3)] }
	s := sym.Str("type", 1) + q()
	switch sym.Pick("shape", 3) {
	case 1:
		s += []string{"[]", "[ ]"}[sym.Pick("list", 2)] + q()
	case 2:
		s += "<" + sym.StrOf("key", 1, "aZ_4?") + ">" + q()
	}
	return s
}

// H_values: tag values, numbers, import paths and package names.
//
// bounds: at one of six places any text of 0..3 (thorough: 4) arbitrary bytes between quotes, or any 1..3 digits and letters as a number
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=accepted
func H_values() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	x := []string{"\"p\"", "\"f\"", "\"v\"", "\"w\"", "0", "1", "2", "3"}
	p := sym.Pick("place", len(x))
	if p < 4 {
		q := []string{"\"", "`"}[sym.Pick("quote", 2)]
		x[p] = q + sym.Str("text", sym.Pick("len", n)) + q
	} else {
		x[p] = sym.StrOf("digits", 1+sym.Pick("len", 3), "0179xbAf_")
	}
	run("package go = " + x[0] + "\nimport " + x[1] + "\n[t:k=" + x[2] + "," + x[3] + "]\ndata A : B = " + x[4] + " {\nT f = " + x[5] + "\n}\nenum E {\na = " + x[6] + "\n}\nserver S {\nR m(P p) = " + x[7] + "\n}\n")
}

// H_lists: numbers of everything.
//
// bounds: 0..2 packages, imports, tags, entries, values, parents, fields, items, methods (thorough: combined pairwise, else one list at a time), in a schema of three declarations in any order
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=accepted
func H_lists() {
	n := [9]int{1, 1, 1, 1, 1, 1, 1, 1, 1}
	n[sym.Pick("which", 9)] = sym.Pick("count", 4)
	if sym.Thorough() {
		n[sym.Pick("which2", 9)] = sym.Pick("count2", 4)
		n[sym.Pick("which3", 9)] = sym.Pick("count3", 3)
	}
	c := byte('a')
	name := func() string {
		c++
		return "x" + string(c)
	}
	rep := func(k int, sep string, f func() string) string {
		s := ""
		for i := 0; i < n[k]; i++ {
			if i > 0 {
				s += sep
			}
			s += f()
		}
		return s
	}
	q := func() string { return "\"" + name() + "\"" }
	tags := func() string {
		return rep(2, "", func() string {
			return "[" + name() + ":" + rep(3, "; ", func() string { return name() + "=" + q() + rep(4, "", func() string { return "," + q() }) }) + "]\n"
		})
	}
	ext := func() string {
		if n[5] == 0 {
			return ""
		}
		return " : " + rep(5, ", ", func() string { return name() + " = 1" })
	}
	src := rep(0, "", func() string { return "package " + name() + " = " + q() + "\n" }) + rep(1, "", func() string { return "import " + q() + "\n" })
	first := sym.Pick("order", 3)
	for i := 0; i < 3; i++ {
		switch (first + i) % 3 {
		case 0:
			src += tags() + "data " + name() + ext() + " {\n" + rep(6, "", func() string { return tags() + name() + "? " + name() + " = 7\n" }) + "}\n"
		case 1:
			src += tags() + "enum " + name() + " {\n" + rep(7, "", func() string { return tags() + name() + " = 8\n" }) + "}\n"
		case 2:
			src += tags() + "server " + name() + ext() + " {\n" + rep(8, "", func() string { return tags() + name() + " " + name() + "(" + name() + " " + name() + ") = 9\n" }) + "}\n"
		}
	}
	run(src)
}

var parts = []string{"package", "go", "=", "\"p\"", ";", "import", "\"f\"", ";",
	"[", "t", ":", "k", "=", "\"v\"", ",", "\"w\"", ";", "l", "=", "\"x\"", "]", ";",
	"data", "A", ":", "B", "=", "0", ",", "C", "=", "1", "{",
	"[", "u", ":", "k", "=", "\"v\"", "]", ";", "T", "?", "f", "=", "0", ";", "V", "?", "[", "]", "?", "g", "=", "1", ";",
	"W", "<", "K", ">", "?", "h", "=", "2", ";", "}", ";",
	"enum", "E", "{", "a", "=", "0", ";", "b", "=", "1", ";", "}", ";",
	"server", "S", ":", "T", "=", "3", "{", "R", "?", "m", "(", "P", "p", ")", "=", "0", ";", "void", "n", "(", "Q", "q", ")", "=", "1", "}", ";"}

func bare(s string) string { // the dump without offsets
	out := ""
	j := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			out += s[j:i]
			for j = i + 1; j < len(s) && s[j] >= '0' && s[j] <= '9'; j++ {
			}
			i = j - 1
		}
	}
	return out + s[j:]
}

func layout(p int, sep string) string {
	src := ""
	for i, t := range parts {
		if i == p {
			src += sep
		} else {
			src += " "
		}
		src += t
	}
	if p == len(parts) {
		src += sep
	}
	return src
}

func kinds(src string) string {
	t, _ := lex.Lex(src, false)
	s := ""
	for _, x := range t {
		s += x.Kind + " "
	}
	return s
}

func same(p int, src string) {
	base, v0 := gram.Parse(layout(-1, ""))
	sym.Assert(v0 == gram.Yes, "the base schema is well-formed")
	got, v := run(src)
	if v == gram.Yes && kinds(src) == kinds(layout(-1, "")) {
		sym.Cover("same")
		sym.Assert(bare(got) == bare(base), "layout does not change the schema")
	}
}

// H_space: white space and comments between any two tokens.
//
// bounds: a schema of 107 tokens; before any one of them 0..3 (thorough: 4) bytes over blank, tab, carriage return, newline, slash, star and a letter
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=accepted,same
func H_space() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	p := sym.Pick("at", len(parts)+1)
	same(p, layout(p, " "+sym.StrOf("sep", n, " \t\r\n/*c")+" "))
}

// H_breaks: line ends and comments at two places at once, and in place of written terminators.
//
// bounds: any two adjacent (thorough: any two within six) places, each with one of nine separators; the written terminator dropped or kept
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=accepted,same
func H_breaks() {
	seps := []string{"", " ", "\n", "\r\n", "/*c*/", "// c\n", "/*\n*/", "\n\n// d\n\n", "/**/ // e\n"}
	w := 1
	if sym.Thorough() {
		w = 6
	}
	p := sym.Pick("at", len(parts))
	r := p + 1 + sym.Pick("next", w)
	a, b := seps[sym.Pick("sep", len(seps))], seps[sym.Pick("sep2", len(seps))]
	drop := sym.Pick("drop", 2) == 1
	src := ""
	for i, t := range parts {
		switch i {
		case p:
			src += a
		case r:
			src += b
		default:
			src += " "
		}
		if i == p && drop && t == ";" {
			continue
		}
		src += t
	}
	same(p, src)
}

// H_top: any order and number of whole declarations.
//
// bounds: every sequence of 0..3 (thorough: 4) pieces out of ten (packages, imports, declarations, comments), joined by a newline or a blank
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=accepted
func H_top() {
	pieces := []string{"package go = \"p\"", "package java = \"q\"", "import \"f\"", "data A {}", "enum E { a = 0 }", "server S { R m(P p) = 0 }", "[t:k=\"v\"]", "// c", "/* d */", "data B : A = 0 { int x = 0; }"}
	n := 3
	if sym.Thorough() {
		n = 4
	}
	src := ""
	for i := sym.Pick("n", n+1); i > 0; i-- {
		src += pieces[sym.Pick("piece", len(pieces))] + []string{"\n", " "}[sym.Pick("end", 2)]
	}
	run(src)
}
