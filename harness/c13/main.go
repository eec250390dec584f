// C13: enum items keep their names and numbers in every target.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/view"
	"strconv"
)

func main() {
	sym.Main(map[string]func(){"H_enum": H_enum, "H_ui": H_ui})
}

const small = "bcdefghijklmnopqrstuvwxyz"
const digit = "123456789"

// number is a literal, written in one of the ways a number may be.
func number(how int) string {
	switch how {
	case 0:
		return sym.StrOf("digit", 1, digit)
	case 1:
		return "4" + sym.StrOf("digit", 1, "0123456789")
	case 2:
		return "0x" + sym.StrOf("hex", 1, "123456789abcdefABCDEF")
	case 3:
		return "0Xf" + sym.StrOf("hex", 1, "0123456789abcdef")
	case 4:
		return "0" + sym.StrOf("octal", 1, "1234567")
	case 5:
		return "0b1" + sym.StrOf("binary", 2, "01")
	case 6:
		return "1_0" + sym.StrOf("digit", 1, "0123456789")
	case 7:
		return "0o1" + sym.StrOf("octal", 1, "01234567")
	case 8:
		return "2147483647"
	}
	return "00"
}

const forms = 10

// agree checks that the text declares just the enums of f.
func agree(target, text string, f *File) {
	es := view.Enums(target, text)
	var want []*Decl
	for _, d := range f.Decls {
		if d.Kind == "enum" {
			want = append(want, d)
		}
	}
	sym.Assert(len(es) == len(want), "every enum is declared once")
	for i, d := range want {
		e := es[i]
		sym.Assert(e.Name == build.StringToHumpName(d.Name), "an enum keeps its name")
		sym.Assert(len(e.Items) == len(d.Members), "every item is declared once")
		sym.Assert(len(e.Values) == len(d.Members), "every item is in the list of items once")
		for k, m := range d.Members {
			it := e.Items[k]
			sym.Note("item", it.Const+" "+it.Value+" "+it.Name)
			c := build.StringToAllUpper(m.Name)
			if target == "go" {
				c = e.Name + build.StringToHumpName(m.Name)
			}
			sym.Assert(it.Const == c, "the items are declared in order")
			sym.Assert(e.Values[k] == c, "the items are listed in order")
			sym.Assert(it.Name == build.StringToHumpName(m.Name), "an item has the same name in every target")
			sym.Assert(it.Value == strconv.Itoa(Value(m.ID)), "an item has the declared number")
		}
		sym.Note("wrong", e.Wrong)
		sym.Assert(e.Wrong == "", "numbers and names are converted to the item declared with them")
	}
}

func suffix(target string) string {
	return map[string]string{"go": ".enum.go", "dart": ".enum.dart", "java": "Enum.java", "ts": ".enum.ts"}[target]
}

// H_enum: the items declared are the items generated.
//
// bounds: enums of 1 to 3 items, one of them with any number written in 10 ways (decimal, hexadecimal, octal, binary, with separators, up to 2147483647) and any two-word names of 3 letters, next to another enum and a data type, with or without tags and comments; all targets
//
//sym:steps=30000000 depth=400 time=120 thorough.time=600 cover=go,dart,java,ts
func H_enum() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	k := sym.Pick("items", 3) + 1
	e := &Decl{Kind: "enum", Name: sym.StrOf("enum", 1, small) + "_" + sym.StrOf("enum", 1, small)}
	how := sym.Pick("form", forms)
	at := sym.Pick("at", k)
	for i := 0; i < k; i++ {
		n := sym.StrOf("name", 1, small) + string(rune('A'+i)) + sym.StrOf("name", 1, small)
		id := []string{"0x100", "077777", "1000"}[i]
		if i == at {
			id = number(how)
		}
		e.Members = append(e.Members, &Member{Name: n, ID: id})
		for j := 0; j < i; j++ {
			sym.Assume(Value(e.Members[j].ID) != Value(e.Members[i].ID))
		}
	}
	if k > 1 {
		deco := sym.Pick("decoration", 4)
		if deco&1 != 0 {
			e.Doc = []string{" an enum"}
			e.Members[1].Doc = []string{" an item"}
		}
		if deco&2 != 0 {
			e.Members[1].Tags = []Tag{{"lang", []KV{{"en", "\"x\""}}}}
		}
	}
	f := &File{Path: "m.hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{
		{Kind: "data", Name: "Some", Members: []*Member{{Type: Type{Name: e.Name}, Name: "x", ID: "0"}}},
		e,
		{Kind: "enum", Name: "Other", Members: []*Member{{Name: "last", ID: "9"}, {Name: "first", ID: "0"}}},
	}}
	text := gen.Find(gen.Must(target, f), suffix(target))
	sym.Note("text", text)
	agree(target, text, f)
	sym.Cover(target)
}

// H_ui: an enum with a user interface has the same items.
//
// bounds: one enum of 2 items with any numbers of two digits, tagged ui; all targets
//
//sym:steps=30000000 depth=400 time=60
func H_ui() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	a, b := number(0), number(1)
	f := &File{Path: "m.hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{
		{Kind: "enum", Name: "Kind", Tags: []Tag{{"ui", []KV{{"form", "\"true\""}}}}, Members: []*Member{{Name: "last", ID: b}, {Name: "first", ID: a}}},
	}}
	text := gen.Find(gen.Must(target, f), suffix(target))
	sym.Note("text", text)
	toks, _ := src.Lex(target, text)
	sym.Assert(target != "java" || src.Find(toks, 0, "context") < 0, "a Java enum has no user interface")
	agree(target, text, f)
}
