// C09: name conversion is total, yields valid identifiers, and every use of a
// name is spelled like its declaration.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"strings"
	"unicode"
	"unicode/utf8"
)

func main() {
	sym.Main(map[string]func(){"H_total": H_total, "H_wide": H_wide, "H_spell": H_spell, "H_style": H_style})
}

func upper(c byte) bool { return c >= 'A' && c <= 'Z' }

// bare is s without underscores, in lower case.
func bare(s string) string {
	r := ""
	for _, c := range s {
		if c != '_' {
			r += string(unicode.ToLower(c))
		}
	}
	return r
}

func valid(s string) bool {
	for i, c := range s {
		if !(c == '_' || unicode.IsLetter(c) || i > 0 && unicode.IsDigit(c)) {
			return false
		}
	}
	return len(s) > 0
}

// words splits a name at underscores and before capitals.
func words(n string) (ws []string) {
	w := ""
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c == '_' || upper(c) {
			if w != "" {
				ws = append(ws, w)
			}
			w = ""
			if c == '_' {
				continue
			}
		}
		w += string(rune(c))
	}
	if w != "" {
		ws = append(ws, w)
	}
	return
}

func check(n string) {
	sym.Note("name", n)
	h := build.StringToHumpName(n)
	f := build.StringToFirstLower(n)
	u := build.StringToUnderlineName(n)
	a := build.StringToAllUpper(n)
	b := bare(n)
	for _, s := range []string{h, f, u, a} {
		sym.Observe("converted", s)
		sym.Assert(valid(s), "a converted name is an identifier")
		sym.Assert(bare(s) == b, "a converted name keeps every letter and digit in order")
	}
	for _, c := range u {
		sym.Assert(!unicode.IsUpper(c), "an underline name has no capital")
	}
	for _, c := range a {
		sym.Assert(!unicode.IsLower(c) || unicode.ToUpper(c) == c, "an upper case name has no small letter")
	}
	hc, hs := utf8.DecodeRuneInString(h)
	fc, fs := utf8.DecodeRuneInString(f)
	sym.Assert(!unicode.IsLower(hc) || unicode.ToUpper(hc) == hc, "a hump name starts with a capital")
	sym.Assert(!unicode.IsUpper(fc), "a first-lower name starts with a small letter")
	sym.Assert(h[hs:] == f[fs:] && unicode.ToLower(hc) == fc, "hump and first-lower name differ in the first letter only")
	if b != "" && !(h[0] == '_') {
		sym.Assert(strings.IndexByte(h, '_') < 0, "a hump name has no underscore")
	}
}

// H_total: every name is converted to every style.
//
// bounds: every identifier of up to 4 (thorough: 6) ASCII letters, digits and underscores; for one without leading, trailing or doubled underscores the exact result in every style
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=exact,odd
func H_total() {
	max := 4
	if sym.Thorough() {
		max = 6
	}
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	l := sym.Pick("length", max) + 1
	n := sym.StrOf("aFirst", 1, al) + sym.StrOf("rest", l-1, al+"0123456789")
	check(n)
	if n[0] == '_' || n[l-1] == '_' || strings.Contains(n, "__") {
		sym.Cover("odd")
		return
	}
	ws := words(n)
	h := ""
	prev := byte('_')
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c != '_' {
			if prev == '_' && c >= 'a' && c <= 'z' {
				c -= 32
			}
			h += string(rune(c))
		}
		prev = n[i]
	}
	sym.Assert(build.StringToHumpName(n) == h, "the hump name joins the words, each with a capital")
	sym.Assert(build.StringToUnderlineName(n) == strings.ToLower(strings.Join(ws, "_")), "the underline name joins the words in small letters")
	sym.Assert(build.StringToAllUpper(n) == strings.ToUpper(strings.Join(ws, "_")), "the upper case name joins the words in capitals")
	sym.Cover("exact")
}

// H_wide: names with letters outside ASCII.
//
// bounds: every identifier of up to 3 (thorough: 4) characters out of a, B, é, É, 名, ß, 1 and underscore
//
//sym:steps=3000000 depth=400 time=120 thorough.time=600
func H_wide() {
	max := 3
	if sym.Thorough() {
		max = 4
	}
	cs := []string{"a", "B", "é", "É", "名", "ß", "_", "1"}
	l := sym.Pick("length", max) + 1
	n := ""
	for i := 0; i < l; i++ {
		k := len(cs)
		if i == 0 {
			k--
		}
		n += cs[sym.Pick("char", k)]
	}
	check(n)
}

var places = []string{"data", "enum", "server", "field", "item", "method", "param", "base", "baseserver", "basemethod"}

var i32 = Type{Name: "int32"}

func field(t Type, name string, id int) *Member {
	return &Member{Type: t, Name: name, ID: string(rune('0' + id))}
}

func pkgs() []KV { return []KV{{"go", "pk"}, {"java", "pj"}} }

// model is a schema with every kind of declaration and reference, in which
// one place is called name.
func model(place, name string) []*File {
	n := map[string]string{"data": "DataFoo", "enum": "EnumFoo", "server": "ServerFoo", "field": "fieldFoo", "item": "itemFoo", "method": "methodFoo", "param": "paramFoo", "base": "BaseFoo", "baseserver": "BaserFoo", "basemethod": "baseMethod"}
	n[place] = name
	d, e := n["data"], n["enum"]
	ui := Tag{"ui", []KV{{"form", "\"true\""}, {"table", "\"true\""}}}
	part := []Tag{{"ui", []KV{{"form", "\"text\""}, {"table", "\"true\""}}}}
	rule := []Tag{{"format", []KV{{"min", "\"1\""}}}}
	verify := Tag{"verify", []KV{{"format", "\"" + e + "." + n["item"] + "\""}}}
	bind := []Tag{{"bind", []KV{{"value", "\"" + n["baseserver"] + "." + n["basemethod"] + "\""}}}}
	lib := &File{Path: "lib.hbuf", Packages: pkgs(), Decls: []*Decl{
		{Kind: "enum", Name: e, Tags: []Tag{ui}, Members: []*Member{{Name: n["item"], ID: "0", Tags: rule}, {Name: "aItem", ID: "1"}}},
		{Kind: "data", Name: n["base"], Members: []*Member{field(i32, "baseField", 0)}},
		{Kind: "server", Name: n["baseserver"], Members: []*Member{
			{Type: Type{Name: n["base"]}, Name: n["basemethod"], Param: Type{Name: n["base"]}, ParamName: "arg", ID: "0"},
		}},
	}}
	main := &File{Path: "main.hbuf", Packages: pkgs(), Imports: []string{"lib.hbuf"}, Decls: []*Decl{
		{Kind: "data", Name: d, Ext: []string{n["base"]}, Tags: []Tag{verify, ui}, Members: []*Member{
			{Type: i32, Name: n["field"], ID: "0", Tags: append([]Tag{verify}, part...)},
			{Type: Type{Name: e}, Name: "aTenth", ID: "10", Tags: append([]Tag{verify}, part...)},
			field(Type{Name: d, Opt: true}, "aFirst", 1),
			field(Type{Name: d, Shape: List}, "aSecond", 2),
			field(Type{Name: d, Shape: Map, Key: e}, "aThird", 3),
			field(Type{Name: e, Opt: true}, "aFourth", 4),
			field(Type{Name: e, Shape: List, Outer: true}, "aFifth", 5),
			field(Type{Name: e}, "aSixth", 6),
			field(Type{Name: e, Opt: true, Shape: Map, Key: "string", Outer: true}, "aSeventh", 7),
			field(Type{Name: d, Opt: true, Shape: List}, "aEighth", 8),
		}},
		{Kind: "server", Name: n["server"], Ext: []string{n["baseserver"]}, Members: []*Member{
			{Type: Type{Name: d}, Name: n["method"], Param: Type{Name: d}, ParamName: n["param"], ID: "0"},
			{Type: Type{Name: d}, Name: "bound", Param: Type{Name: d}, ParamName: "req", ID: "2", Tags: bind},
			{Type: Type{Name: "void"}, Name: "other", Param: Type{Name: d}, ParamName: "arg", ID: "1"},
		}},
	}}
	return []*File{lib, main}
}

// squeeze drops blanks, which the generators use to align columns.
func squeeze(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// unlabel drops the default texts made of the words of n.
func unlabel(s, n string) string {
	for _, x := range []string{build.StringToFirstLower(n), build.StringToAllUpper(n)} {
		s = strings.ReplaceAll(s, "\""+squeeze(build.GetLang(x, "____", nil))+"\"", "\"label\"")
	}
	return s
}

// H_spell: a name in another spelling changes the generated code in the
// spelling of that name only, so that no use is left behind in another style.
//
// bounds: one name (of a data type, enum, service, base type, base service, field, item, method or parameter) of 3 characters, each any capital, any small letter, a digit or an underscore, in 8 (thorough: all) patterns, not a digit after leading underscores; all targets; a schema of two files with references in every position
//
//sym:steps=30000000 depth=400 time=300 thorough.time=1500 cover=go,dart,java,ts
func H_spell() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	place := places[sym.Pick("place", len(places))]
	pats := []string{"aaa", "AAa", "aAA", "a_a", "A7_", "_aA", "a__a", "__A_"}
	if sym.Thorough() {
		for i := 0; i < 36; i++ {
			pats = append(pats, string("aA_"[i%3])+string("aA_7"[i/3%4])+string("aA_7"[i/12]))
		}
	}
	n := ""
	for _, c := range pats[sym.Pick("pattern", len(pats))] {
		switch c {
		case 'a':
			n += sym.StrOf("small", 1, "bcdefghijklmnopqrstuvwxyz")
		case 'A':
			n += sym.StrOf("capital", 1, "BCDEFGHIJKLMNOPQRSTUVWXYZ")
		default:
			n += string(c)
		}
	}
	sym.Assume(build.StringToFirstLower(n)[0] != '_')
	sym.Note("name", n)
	got := gen.Must(target, model(place, n)...)
	base := "qzxJkw"
	want := gen.Must(target, model(place, base)...)
	sym.Assert(len(got) == len(want), "the same files are written")
	for i := range got {
		g, w := squeeze(got[i].Text), want[i].Text
		w = strings.ReplaceAll(w, build.StringToHumpName(base), "\x01")
		w = strings.ReplaceAll(w, build.StringToFirstLower(base), "\x02")
		w = strings.ReplaceAll(w, build.StringToUnderlineName(base), "\x03")
		w = strings.ReplaceAll(w, build.StringToAllUpper(base), "\x04")
		w = unlabel(squeeze(w), base)
		w = strings.ReplaceAll(w, "\x01", build.StringToHumpName(n))
		w = strings.ReplaceAll(w, "\x03", build.StringToUnderlineName(n))
		w = strings.ReplaceAll(w, "\x04", build.StringToAllUpper(n))
		sym.Assert(got[i].Path == want[i].Path, "the same files are written")
		sym.Note("got", got[i].Text)
		g = unlabel(g, n)
		same := g == unlabel(strings.ReplaceAll(w, "\x02", build.StringToFirstLower(n)), n)
		if place == "param" && !same {
			// a parameter may keep clear of a word of the language, all over the file
			same = g == unlabel(strings.ReplaceAll(w, "\x02", build.StringToFirstLower(n)+"_"), n)
		}
		sym.Assert(same, "a name is spelled in one style wherever it is used")
	}
	sym.Cover(target)
}

// H_style: in the code of each target a name is one identifier: the one it is
// declared with. Types are hump names; fields, methods and parameters are
// hump names in Go and first-lower names elsewhere; items are hump names after
// the enum's in Go and upper case names elsewhere.
//
// bounds: the schema of H_spell, every place and target, a name of two words in two spellings, with any first letter
//
//sym:steps=30000000 depth=400 time=120 cover=go,dart,java,ts
func H_style() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	place := places[sym.Pick("place", len(places))]
	n := sym.StrOf("letter", 1, "bcdefghijklmnopqrstuvwxyz") + []string{"zxqJkw", "zxq_jkw"}[sym.Pick("spelling", 2)]
	hump, lower := build.StringToHumpName(n), build.StringToFirstLower(n)
	decl := hump
	switch place {
	case "field", "method", "basemethod":
		if target != "go" {
			decl = lower
		}
	case "param":
		decl = lower
	case "item":
		decl = "EnumFoo" + hump
		if target != "go" {
			decl = build.StringToAllUpper(n)
		}
	}
	sym.Note("name", n)
	found := false
	for _, o := range gen.Must(target, model(place, n)...) {
		toks, _ := src.Lex(target, o.Text)
		for i, t := range toks {
			if t.Kind != src.Ident || !strings.Contains(strings.ToLower(strings.ReplaceAll(t.Text, "_", "")), "zxqjkw") {
				continue
			}
			s := t.Text
			sym.Note("use", s)
			switch {
			case s == decl:
				found = true
			case target == "ts" && place == "item" && s == hump && src.Is(toks, i+1, ":"):
				// the item's text in the language table, found by the item's name
			default:
				// part of a longer name
				ok := len(s) > len(hump) && (strings.Contains(s, hump) || strings.HasPrefix(s, lower))
				sym.Assert(ok, "an identifier is spelled like its declaration")
			}
		}
	}
	sym.Assert(found, "a name is declared")
	sym.Cover(target)
}
