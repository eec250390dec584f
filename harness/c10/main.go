// C10: all targets agree on the JSON wire name of every field.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/tmpl"
	"hbuf/zz_verif/view"
	"strings"
	"unicode"
	"unicode/utf8"
)

func main() {
	sym.Main(map[string]func(){"H_name": H_name, "H_pair": H_pair, "H_types": H_types, "H_up": H_up})
}

// words cuts a name at underscores and before capitals, in small letters.
func words(n string) string {
	r := ""
	for i, c := range n {
		switch {
		case c == '_':
		case unicode.IsUpper(c):
			if r != "" {
				r += "_"
			}
			r += string(unicode.ToLower(c))
		case i > 0 && n[i-1] == '_' && r != "":
			r += "_" + string(c)
		default:
			r += string(c)
		}
	}
	return r
}

// hidden says whether a Go struct cannot export a field of that name.
func hidden(n string) bool {
	c, _ := utf8.DecodeRuneInString(strings.TrimLeft(n, "_"))
	return !unicode.IsUpper(c) && unicode.ToUpper(c) == c
}

// names returns what the class writes and reads, by field.
func names(target, typ string, fs []*File) (write, read []view.Field) {
	var all []*view.Data
	for _, o := range gen.Must(target, fs...) {
		if strings.HasSuffix(o.Path, ".data."+target) {
			sym.Note("text", o.Text)
			all = append(all, view.Datas(target, o.Text)...)
		}
	}
	find := func(n string) (r *view.Data) {
		for _, d := range all {
			if d.Name == n {
				r = d
			}
		}
		return
	}
	d := find(typ)
	sym.Assert(d != nil, "a data type is generated")
	if target != "go" {
		return d.Parts["write"], d.Parts["read"]
	}
	wires, _ := view.Visible(d, find)
	for _, w := range wires {
		for _, x := range all {
			for _, f := range x.Parts["field"] {
				if f.Wire == w && len(write) < len(wires) {
					c, _ := utf8.DecodeRuneInString(f.Name)
					if unicode.IsUpper(c) {
						write = append(write, f)
						goto next
					}
				}
			}
		}
	next:
	}
	return write, write
}

// check compiles the schema for Go, Dart and TypeScript; the type called typ
// has the given fields, its own and inherited ones.
func check(fs []*File, typ string, fields []string) {
	wires := make([]string, len(fields))
	for k, target := range []string{"dart", "ts", "go"} {
		write, read := names(target, typ, fs)
		for j, part := range [][]view.Field{write, read} {
			side := []string{"written", "read"}[j]
			sym.Assert(len(part) == len(fields), "each field is "+side+" once")
			for i, n := range fields {
				found := 0
				for _, f := range part {
					if build.StringToHumpName(f.Name) != build.StringToHumpName(n) {
						continue
					}
					found++
					sym.Observe("wire", f.Wire)
					sym.Assert(f.Wire != "" && !strings.Contains(f.Wire, ","), "a field is "+side+" under one name")
					if wires[i] == "" {
						wires[i] = f.Wire
					}
					sym.Assert(f.Wire == wires[i], []string{"a field is written and read under one name", "all targets use one name for a field"}[min(k, 1)])
				}
				sym.Assert(found == 1, "each field is "+side+" once")
			}
		}
	}
	for i := range wires {
		for j := range wires[:i] {
			sym.Assert(wires[i] != wires[j], "distinct fields have distinct names")
		}
	}
	sym.Cover("checked")
}

func one(fields string) []*File {
	return []*File{{Path: "in.hbuf", Raw: "package go = \"pk\"\npackage java = \"pj\"\nenum Kind {\n\tone = 1\n}\ndata Foo {\n\tint32 id = 0\n}\ndata All {\n" + fields + "}\n"}}
}

const letters = "abcdefghijklmnopqrstuvwxyz"

func word(label string, l int) string {
	n := ""
	for i := 0; i < l; i++ {
		switch k := sym.Pick(label, 4); {
		case k == 0:
			n += sym.StrOf(label, 1, letters)
		case k == 1:
			n += sym.StrOf(label, 1, strings.ToUpper(letters))
		case k == 2:
			n += "_"
		case i > 0 && strings.Trim(n, "_") != "":
			n += sym.StrOf(label, 1, "0123456789")
		default:
			n += "名"
		}
	}
	return n
}

// H_name: a field of any name.
//
// bounds: a field whose name is 3 (thorough: 4) characters, each any small letter, capital, digit, underscore or a letter without case, next to one of a fixed name
//
//sym:steps=60000000 depth=400 time=200 thorough.time=900 cover=checked
func H_name() {
	l := 3
	if sym.Thorough() {
		l = 4
	}
	n := word("name", l)
	sym.Assume(strings.Trim(n, "_") != "")
	sym.Known("go-hidden", hidden(n))
	check(one("\tint32 "+n+" = 0\n\tstring? otherOne = 1\n"), "All", []string{n, "otherOne"})
	sym.Known("go-hidden", false)
}

// H_pair: two fields of any different names.
//
// bounds: two fields whose names are 2 characters each, or 3 and 2, each any small letter, capital or underscore, the first not an underscore
//
//sym:steps=60000000 depth=400 time=200 thorough.time=900 cover=checked,refused
func H_pair() {
	a, b := "", ""
	c := func(s *string) {
		switch sym.Pick("class", 3) {
		case 0:
			*s += sym.StrOf("small", 1, letters)
		case 1:
			*s += sym.StrOf("capital", 1, strings.ToUpper(letters))
		default:
			sym.Assume(*s != "")
			*s += "_"
		}
	}
	for i := 0; i < 2; i++ {
		c(&a)
		c(&b)
	}
	if sym.Pick("longer", 2) == 1 {
		c(&a)
	}
	sym.Assume(a != b)
	fs := one("\tint32 " + a + " = 0\n\tstring? " + b + " = 1\n")
	if _, err := gen.Compile("go", fs, "*.hbuf"); err != nil {
		sym.Assert(words(a) == words(b) || build.StringToHumpName(a) == build.StringToHumpName(b), "fields of different words are accepted")
		sym.Cover("refused")
		return
	}
	check(fs, "All", []string{a, b})
}

// H_types: fields of every type.
//
// bounds: a field of any of 16 types in 7 shapes, whose name has a letter the solver chooses, next to one of any of 16 types
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_types() {
	t := strings.ReplaceAll(tmpl.Shapes[sym.Pick("shape", 7)], "T", tmpl.Bases[sym.Pick("base", 16)])
	n := "it" + sym.StrOf("letter", 1, letters) + "Own"
	o := "Kind"
	if sym.Pick("other", 2) == 1 {
		o = "date?[]?"
	}
	check(one("\t"+t+" "+n+" = 0\n\t"+o+" b_two = 1\n"), "All", []string{n, "b_two"})
}

// H_up: inherited fields.
//
// bounds: a type of two bases, one of which has a base, of one file or three with different packages; fields named by a letter the solver chooses for each; one of the fields of the base and of its base may be declared again by the type, and by the base
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_up() {
	x, y := sym.StrOf("x", 1, "bcd"), sym.StrOf("y", 1, "efg")
	top := "data Top {\n\tint64 top" + x + " = 0\n\tKind[] kinds = 1\n}\nenum Kind {\n\tone = 1\n}\n"
	mid := "data Mid : Top = 0 {\n\tdate? mid_" + y + " = 1\n"
	switch sym.Pick("mid again", 3) {
	case 1:
		mid += "\tint64 top" + x + " = 2\n"
	case 2:
		mid += "\tstring? kinds = 2\n"
	}
	mid += "}\n"
	side := "data Side {\n\tbool side = 0\n}\n"
	again := sym.Pick("again", 3)
	own := "\tint32 own" + x + y + " = 2\n"
	switch again {
	case 1:
		own += "\tdecimal mid_" + y + " = 3\n"
	case 2:
		own += "\tint64 top" + x + " = 3\n"
	}
	all := "data All : " + []string{"Mid = 0, Side = 1", "Side = 0, Mid = 1"}[sym.Pick("order", 2)] + " {\n" + own + "}\n"
	head := "package go = \"P\"\npackage java = \"pj\"\n"
	var fs []*File
	if sym.Pick("files", 2) == 0 {
		fs = []*File{{Path: "in.hbuf", Raw: strings.Replace(head, "P", "pk", 1) + top + mid + side + all}}
	} else {
		fs = []*File{{Path: "in.hbuf", Raw: strings.Replace(head, "P", "pk", 1) + "import \"a.hbuf\"\nimport \"b.hbuf\"\n" + side + all},
			{Path: "a.hbuf", Raw: strings.Replace(head, "P", "pa", 1) + "import \"b.hbuf\"\n" + mid}, {Path: "b.hbuf", Raw: strings.Replace(head, "P", "pb", 1) + top}}
	}
	check(fs, "All", []string{"top" + x, "kinds", "mid_" + y, "side", "own" + x + y})
}
