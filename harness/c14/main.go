// C14: generated source is syntactically well formed.
package main

import (
	"go/parser"
	"go/token"
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/rich"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/tmpl"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_rich": H_rich, "H_types": H_types, "H_maps": H_maps, "H_texts": H_texts, "H_names": H_names, "H_verify": H_verify, "H_ui": H_ui, "H_db": H_db})
}

func lang(path string) string {
	for _, l := range gen.Targets {
		if strings.HasSuffix(path, "."+l) {
			return l
		}
	}
	return "ts" // .tsx
}

func good(outs []gen.Out) {
	for _, o := range outs {
		bad := ""
		l := lang(o.Path)
		if l == "go" {
			if _, err := parser.ParseFile(token.NewFileSet(), o.Path, o.Text, parser.SkipObjectResolution); err != nil {
				bad = err.Error()
			}
		} else if !strings.HasSuffix(o.Path, ".tsx") {
			bad = src.Form(l, o.Text)
		}
		if bad != "" {
			sym.Note("text", o.Text)
			sym.Note("bad", o.Path+": "+bad)
		}
		sym.Assert(bad == "", "generated code is well formed")
	}
	sym.Assert(len(outs) > 0, "code is generated")
}

// H_rich: schemas that use every feature.
//
// bounds: the schemas of harness/rich (types, language texts, inheritance, services, database access, verification, ui, imports); 4 targets
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,java,ts
func H_rich() {
	target := gen.Targets[sym.Pick("target", 4)]
	outs, err := gen.Compile(target, rich.Files(rich.Names[sym.Pick("name", len(rich.Names))]), "in.hbuf")
	sym.Assert(err == nil, "the schema compiles")
	good(outs)
	sym.Cover(target)
}

var bases = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal", "Kind", "Foo"}

func types(ts []Type) []*File {
	d := &Decl{Kind: "data", Name: "All"}
	for i, t := range ts {
		d.Members = append(d.Members, &Member{Name: "it" + string(rune('a'+i)), ID: string(rune('0' + i)), Type: t})
	}
	return []*File{{Path: "in.hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{
		{Kind: "enum", Name: "Kind", Members: []*Member{{Name: "one", ID: "1"}}},
		{Kind: "data", Name: "Foo", Members: []*Member{{Name: "id", ID: "0", Type: Type{Name: "int32"}}}}, d}}}
}

// H_types: plain fields and lists.
//
// bounds: all 14 base types, an enum and a data type; plain or a list, each optional or not and with optional elements or not; 4 targets
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,java,ts
func H_types() {
	target := gen.Targets[sym.Pick("target", 4)]
	n := bases[sym.Pick("base", 16)]
	good(gen.Must(target, types([]Type{{Name: n}, {Name: n, Opt: true}, {Name: n, Shape: List}, {Name: n, Shape: List, Opt: true}, {Name: n, Shape: List, Outer: true}, {Name: n, Shape: List, Opt: true, Outer: true}})...))
	sym.Cover(target)
}

// H_maps: maps.
//
// bounds: any of 15 key types with any of 16 element types, optional or not, with optional elements or not; 4 targets
//
//sym:steps=60000000 depth=400 time=300 cover=go,dart,java,ts
func H_maps() {
	target := gen.Targets[sym.Pick("target", 4)]
	k := bases[sym.Pick("key", 15)]
	n := bases[sym.Pick("base", 16)]
	good(gen.Must(target, types([]Type{{Name: n, Shape: Map, Key: k}, {Name: n, Shape: Map, Key: k, Opt: true}, {Name: n, Shape: Map, Key: k, Outer: true}, {Name: n, Shape: Map, Key: k, Opt: true, Outer: true}})...))
	sym.Cover(target)
}

// places are schemas with a text T in a place of its own.
var places = []struct{ name, text string }{
	{"lang data", "[ui:form=\"true\";table=\"true\"]\n[lang:zh=T]\ndata Foo {\n\t[ui:form=\"text\";table=\"text\"]\n\tstring name = 0\n}\n"},
	{"lang field", "[ui:form=\"true\";table=\"true\"]\ndata Foo {\n\t[ui:form=\"text\";table=\"text\"]\n\t[lang:zh=T]\n\tstring name = 0\n}\n"},
	{"lang enum", "[ui:form=\"true\";table=\"true\"]\n[lang:zh=T]\nenum Foo {\n\tone = 1\n}\n"},
	{"lang item", "[ui:form=\"true\";table=\"true\"]\nenum Foo {\n\t[lang:zh=T;en=\"b\"]\n\tone = 1\n}\n"},
	{"reg", "enum Fault {\n\t[format:reg=T]\n\tone = 1\n}\ndata Foo {\n\t[verify:format=\"Fault.one\"]\n\tstring name = 0\n\t[verify:format=\"Fault.one\"]\n\tstring? other = 1\n}\n"},
	{"tag", "data Foo {\n\tint32 id = 0\n}\nserver User {\n\t[tag:role=T,\"b\"]\n\tFoo get(Foo req) = 0\n}\n"},
	{"where", "[db:name=\"foo\"]\ndata Foo {\n\t[db:key=\"true\"]\n\tint64 id = 0\n}\n[db:table=\"Foo\";list=\"Foo\";get=\"Foo\";count=\"true\";rm=\"true\"]\ndata Query {\n\t[db:where=T]\n\tint64 id = 0\n}\n"},
	{"table", "[db:name=T;list=\"self\";get=\"self\";del=\"true\";rm=\"true\";insert=\"self\";update=\"self\"]\ndata Foo {\n\t[db:key=\"true\"]\n\tint64 id = 0\n\t[db:]\n\tstring name = 1\n}\n"},
	{"order", "[db:name=\"foo\";list=\"self\"]\ndata Foo {\n\t[db:key=\"true\";order=T]\n\tint64 id = 0\n\t[db:group=T]\n\tstring name = 1\n}\n"},
	{"extensions", "[ui:form=\"true\";table=\"true\"]\ndata Foo {\n\t[ui:form=\"image\";table=\"text\";extensions=T,\"b\"]\n\tstring[] name = 0\n\t[ui:form=\"file\";table=\"text\";extensions=T]\n\tstring two = 1\n}\n"},
	{"format", "[ui:form=\"true\";table=\"true\"]\ndata Foo {\n\t[ui:form=\"text\";table=\"text\";format=T]\n\tdate day = 0\n\t[ui:form=\"date\";table=\"text\";format=T]\n\tdate day2 = 1\n}\n"},
	{"doc type", "//T\nenum Kind {\n\t//T\n\tone = 1\n}\n//T\ndata Foo {\n\t//T\n\tstring name = 0\n}\n//T\nserver User {\n\t//T\n\tFoo get(Foo req) = 0\n}\n"},
	{"block doc", "/*T*/\nenum Kind {\n\t/*T*/\n\tone = 1\n}\n/*T*/\ndata Foo {\n\t/*T*/\n\tstring name = 0\n}\n/*T*/\nserver User {\n\t/*T*/\n\tFoo get(Foo req) = 0\n}\n"},
}

// same says whether the tokens of two texts are the same, but for what is in
// strings and comments.
func same(l, a, b string) string {
	x, bad := src.Lex(l, a)
	if bad != "" {
		return bad
	}
	y, _ := src.Lex(l, b)
	x = src.Code(x)
	y = src.Code(y)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].Kind != y[i].Kind || x[i].Kind != src.String && x[i].Text != y[i].Text {
			return "another token: " + x[i].Text
		}
		if x[i].Kind == src.String && src.Interpolated(l, x[i]) && !src.Interpolated(l, y[i]) {
			return "code in a string: " + x[i].Text
		}
	}
	if len(x) != len(y) {
		return "more or less tokens"
	}
	return ""
}

// H_texts: texts of the schema stay in the string or comment they are put in.
//
// bounds: a text of 4 bytes, two of which the solver chooses among letters, quotes, dollar (but not in conditions, where it stands for a value), braces, slash, star, percent, backslash and (in raw strings and block comments) line break, written as an interpreted or a raw string; in language texts, patterns, service tags, database tables, conditions and orders, file extensions, date formats and doc comments; 4 targets
//
//sym:steps=90000000 depth=800 time=300 cover=go,dart,java,ts
func H_texts() {
	target := gen.Targets[sym.Pick("target", 4)]
	p := places[sym.Pick("place", len(places))]
	set := "a '\"`$\\{/*%}"
	doc := strings.Contains(p.name, "doc")
	raw := !doc && sym.Pick("raw", 2) == 1
	if raw || p.name == "block doc" {
		set += "\n"
	}
	if raw {
		set = strings.ReplaceAll(set, "`", "")
	}
	if p.name == "where" || p.name == "order" {
		set = strings.ReplaceAll(set, "$", "") // stands for the value of a field
	}
	c := sym.StrOf("c", 1, set)
	d := sym.StrOf("d", 1, set)
	in := "a" + c + d + "b"
	if !doc {
		if raw {
			in = "`" + in + "`"
		} else {
			esc := func(s string) string {
				if sym.In(s[0], "\"\\") {
					return "\\" + s
				}
				return s
			}
			in = "\"a" + esc(c) + esc(d) + "b\""
		}
	}
	if p.name == "block doc" {
		sym.Assume(!(c == "*" && d == "/"))
	}
	base := "aaab"
	if !doc {
		base = "\"aaab\""
	}
	mk := func(t string) []*File {
		return []*File{{Path: "in.hbuf", Raw: rich.Head + strings.ReplaceAll(p.text, "T", t)}}
	}
	outs, err := gen.Compile(target, mk(in), "in.hbuf")
	plain := gen.Must(target, mk(base)...)
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "a text of any characters can be compiled")
	sym.Assert(len(outs) == len(plain), "the same files are written")
	for i, o := range outs {
		bad := same(lang(o.Path), o.Text, plain[i].Text)
		if bad != "" {
			sym.Note("text", o.Text)
			sym.Note("bad", o.Path+": "+bad)
		}
		sym.Assert(bad == "", "a text stays in its string or comment")
	}
	sym.Cover(target)
}

// H_names: names.
//
// bounds: names of a type, field, item, method and parameter with two bytes each chosen by the solver among letters of either case, digits and underscore; 4 targets
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,java,ts
func H_names() {
	target := gen.Targets[sym.Pick("target", 4)]
	up := "N" + sym.StrOf("type", 2, "aB1_")
	low := "n" + sym.StrOf("name", 2, "aB1_")
	text := "enum E" + up + " {\n\t" + low + " = 1\n}\ndata D" + up + " {\n\tE" + up + "[] " + low + " = 0\n}\nserver S" + up + " {\n\tD" + up + " " + low + "(D" + up + " " + low + ") = 0\n}\n"
	good(gen.Must(target, &File{Path: "in.hbuf", Raw: rich.Head + text}))
	sym.Cover(target)
}

// try checks what is generated for a schema that need not be accepted.
func try(target string, fs []*File) {
	outs, err := gen.Compile(target, fs, "*.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Cover("refused")
		return
	}
	good(outs)
	sym.Cover(target)
}

// H_verify: verification rules.
//
// bounds: a field of any of 16 types, optional or not, with a rule that has any of a minimum, a maximum, a pattern and a null mark, of the same file or an imported one; 3 targets
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,ts
func H_verify() {
	target := []string{"go", "dart", "ts"}[sym.Pick("target", 3)]
	r := tmpl.Verify(bases[sym.Pick("base", 16)], sym.Pick("opt", 2) == 1)
	try(target, r.Files)
}

// H_ui: forms and tables.
//
// bounds: a field of any of 16 types in 7 shapes in any of 16 forms; plain fields of 6 types also in 4 tables, with 4 sets of other attributes; 2 targets
//
//sym:steps=60000000 depth=400 time=300 cover=dart,ts
func H_ui() {
	target := []string{"dart", "ts"}[sym.Pick("target", 2)]
	c := tmpl.UI()
	// a text or file form has no code to read these
	list := strings.Contains(c.Shape, "[")
	odd := strings.Contains(c.Shape, "<") || c.Base == "Foo" && !list
	sym.Known("dart-ui-type", target == "dart" && (odd && c.Form == "text" || (odd || list) && c.Form == "file"))
	try(target, c.Files)
	sym.Known("dart-ui-type", false)
}

// H_db: database access.
//
// bounds: a table, or a query on one, with one of 10 operations, on itself or its parent; with or without a key and a cache; a column of any of 9 types in 5 shapes, with 4 kinds of tags; a query with 8 kinds of conditions
//
//sym:steps=60000000 depth=400 time=300 cover=go
func H_db() {
	try("go", tmpl.DB().Files)
}
