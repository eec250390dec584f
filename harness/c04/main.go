// C04: parsing any text ends with a tree or an error that points into the
// file; nothing the grammar does not allow is skipped.
package main

import (
	"hbuf/pkg/parser"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hbuf/zz_verif/gram"
	"hbuf/zz_verif/sym"
)

func main() {
	sym.Main(map[string]func(){"H_any": H_any, "H_top": H_top, "H_in": H_in, "H_edit": H_edit, "H_cut": H_cut, "H_byte": H_byte})
}

var modes = []parser.Mode{parser.AllErrors | parser.ParseComments, 0, parser.ParseComments | parser.DeclarationErrors, parser.ImportsOnly, parser.PackageClauseOnly}

func parse(src string, mode parser.Mode) {
	sym.Note("src", src)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "a.hbuf", src, mode)
	sym.Assert(f != nil, "the parser returns a tree")
	if err != nil {
		sym.Cover("rejected")
		list, ok := err.(scanner.ErrorList)
		sym.Assert(ok && len(list) > 0, "an error is a list of located errors")
		for i := 0; i < len(list); i++ {
			e := list[i]
			sym.Assert(e != nil && e.Pos.Filename == "a.hbuf" && e.Pos.Line >= 1 && e.Pos.Offset >= 0 && e.Pos.Offset <= len(src),
				"an error locates the problem inside the file")
		}
		return
	}
	if mode&(parser.ImportsOnly|parser.PackageClauseOnly) != 0 {
		return
	}
	var tf *token.File
	fset.Iterate(func(x *token.File) bool {
		tf = x
		return true
	})
	_, whole := gram.Dump(f, tf)
	sym.Assert(whole, "an accepted text has a complete tree")
	sym.Assert(f.Path == "a.hbuf", "the tree carries its path")
	_, v := gram.Parse(src)
	sym.Assert(v != gram.No, "an accepted text is lexically correct and every token is where the grammar allows it")
	if v == gram.Yes {
		sym.Cover("accepted")
	}
}

func mode() parser.Mode {
	if sym.Thorough() {
		return modes[sym.Pick("mode", len(modes))]
	}
	return modes[sym.Pick("mode", 2)]
}

// H_any: arbitrary bytes.
//
// bounds: every byte string of 0..3 bytes, two (thorough: five) parser modes
//
//sym:steps=400000 depth=400 time=120 thorough.time=900 cover=rejected
func H_any() {
	n := sym.Pick("len", 4)
	m := mode()
	parse(sym.Str("src", n), m)
}

const marks = "a1=:,;\n{}[]()<>?/#"

var words = []string{"", "\"s\"", "data", "enum", "server", "import", "package", "/*c*/"}

// tok is any token: one symbolic byte for the short ones.
func tok(k int) string {
	if k == 0 {
		return sym.StrOf("mark", 1, marks)
	}
	return words[k]
}

func some(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += tok(sym.Pick("token", len(words))) + " "
	}
	return s
}

// H_top: token sequences at file level.
//
// bounds: every sequence of 1..3 (thorough: 4) tokens out of 25
//
//sym:steps=400000 depth=400 time=120 thorough.time=900 cover=rejected
func H_top() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	parse(some(1+sym.Pick("n", n)), modes[0])
}

var places = [][2]string{
	{"package a = \"b\"\n", ""},
	{"package ", "\ndata A {\n}\n"},
	{"import \"f\"\n", "\n"},
	{"[t:", "\n]\ndata A {\n}\n"},
	{"[t:k=\"v\"", "]\nenum A {\n}\n"},
	{"data A", "{\n}\n"},
	{"data A : B = 0", "{\n}\n"},
	{"data A {\n", "\n}\n"},
	{"data A {\nint", " f = 0\n}\n"},
	{"data A {\nint?[", "]? f = 0\n}\n"},
	{"data A {\nint[]", "f = 0\n}\n"},
	{"data A {\nint<", "> f = 0\n}\n"},
	{"data A {\nint<k", "> f = 0\n}\n"},
	{"data A {\nint f", "\n}\n"},
	{"data A {\nint f = ", "\n}\n"},
	{"data A {\nint f = 0", "\nint g = 1\n}\n"},
	{"data A {\nint f = 0\n}", "\n"},
	{"enum A {\n", "\nb = 2\n}\n"},
	{"enum A {\na", " 1\n}\n"},
	{"server A", "{\n}\n"},
	{"server A {\n", "\n}\n"},
	{"server A {\nR", "(P p) = 0\n}\n"},
	{"server A {\nR m(P", ") = 0\n}\n"},
	{"server A {\nR m(P p)", "\n}\n"},
	{"server A {\nR m(P p) = 0", "\nR n(P p) = 1\n}\n"},
	{"server A {\nR m(P p) = 0\n}", "\n"},
}

// H_in: token sequences at every place of the grammar.
//
// bounds: 26 places (inside packages, imports, tags, extension lists, fields, types, items, methods, ends), every sequence of 0..2 (thorough: 3) tokens out of 25 there
//
//sym:steps=400000 depth=400 time=120 thorough.time=900 cover=rejected,accepted
func H_in() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	p := places[sym.Pick("place", len(places))]
	parse(p[0]+" "+some(sym.Pick("n", n+1))+p[1], modes[0])
}

const whole = `package go = "p"
import "b.hbuf"
// doc
[db:name="t", "u"; key="k"]
data A : B = 0, C = 1 {
	[x:y="z"]
	int64? id = 0
	E[]? es = 1 /* c */
	int32<string>? m = 2; bool b = 3
}
enum E { a = 0
	b = 1
}
server S : T = 4 {
	A? get(B p) = 0
	void set(A a) = 1
}
`

// split cuts whole after every token and white space run.
func split() []string {
	var out []string
	i := 0
	for i < len(whole) {
		j := i + 1
		word := func(c byte) bool {
			return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		}
		if word(whole[i]) {
			for word(whole[j]) {
				j++
			}
		}
		out = append(out, whole[i:j])
		i = j
	}
	return out
}

// H_edit: a complete schema with one word dropped, doubled or replaced.
//
// bounds: a 26-construct schema, every position, drop, double or replace by any of 25 tokens (thorough: two such edits within four words)
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=rejected,accepted
func H_edit() {
	parts := split()
	n := len(parts)
	i := sym.Pick("at", n)
	edit(parts, i)
	if sym.Thorough() {
		if j := i + 1 + sym.Pick("near", 4); j < n {
			edit(parts, j)
		}
	}
	src := ""
	for _, p := range parts {
		src += p
	}
	parse(src, modes[0])
}

func edit(parts []string, i int) {
	k := sym.Pick("edit", len(words)+2)
	switch k {
	case len(words):
		parts[i] = ""
	case len(words) + 1:
		parts[i] += " " + parts[i]
	default:
		parts[i] = " " + tok(k) + " "
	}
}

// H_cut: a complete schema cut off anywhere.
//
// bounds: every prefix and every suffix of the schema, followed or preceded by one arbitrary byte
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=rejected
func H_cut() {
	n := sym.Pick("at", len(whole)+1)
	if sym.Pick("side", 2) == 0 {
		parse(whole[:n]+sym.Str("b", 1), mode())
	} else {
		parse(sym.Str("b", 1)+whole[n:], mode())
	}
}

// H_byte: a complete schema with one byte replaced.
//
// bounds: every position, every byte value (thorough: two adjacent bytes)
//
//sym:steps=800000 depth=400 time=120 thorough.time=900 cover=rejected,accepted
func H_byte() {
	n := sym.Pick("at", len(whole))
	k := 1
	if sym.Thorough() && n+1 < len(whole) {
		k = 2
	}
	parse(whole[:n]+sym.Str("b", k)+whole[n+k:], modes[0])
}
