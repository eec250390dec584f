// C19: doc comments stay comments and stay attached.
package main

import (
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/rich"
	"hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"strconv"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_text": H_text, "H_attach": H_attach, "H_lines": H_lines, "H_neutral": H_neutral})
}

const head = "package go=\"v.a\"\npackage dart=\"v.a\"\npackage java=\"v.a\"\npackage ts=\"v.a\"\n"

// A place is an element that may have a doc comment.
type place struct {
	kind  string
	file  string // of the generated code, by kind
	names []string
}

var places = []place{
	{"data", "data", []string{"foo"}},
	{"field", "data", []string{"bar", "getbar", "setbar"}},
	{"enum", "enum", []string{"kind"}},
	{"item", "enum", []string{"baz", "kindbaz"}},
	{"server", "server", []string{"serv", "servclient", "servrouter", "defaultserv"}},
	{"method", "server", []string{"call", "callctx", "servcall"}},
	{"first field", "data", []string{"fore", "getfore", "setfore"}},
	{"first item", "enum", []string{"early", "kindearly"}},
	{"first method", "server", []string{"ahead", "aheadctx", "servahead"}},
	{"last field", "data", []string{"aft", "getaft", "setaft"}},
	{"last item", "enum", []string{"late", "kindlate"}},
	{"last method", "server", []string{"behind", "behindctx", "servbehind"}},
}

// text is the schema with a comment (whole lines, or nothing) at a place, and
// neighbours of all kinds before and after it.
func text(kind, comment, between string) string {
	at := func(k string) string {
		if k == kind {
			return comment
		}
		return ""
	}
	tag := func(k, indent string) string {
		s := at(k)
		if k == kind && between != "" {
			s += indent + "[note:a=\"b\"]\n" + between
		}
		return s
	}
	return head +
		"enum First {\n\tnone = 0\n}\n" +
		tag("enum", "") + "enum Kind {\n" + tag("first item", "\t") + "\tearly = 1\n" + tag("item", "\t") + "\tbaz = 2\n" + tag("last item", "\t") + "\tlate = 3\n}\n" +
		"data Before {\n\tint32 x = 0\n}\n" +
		tag("data", "") + "data Foo {\n" + tag("first field", "\t") + "\tint32 fore = 0\n" + tag("field", "\t") + "\tint32? bar = 1\n" + tag("last field", "\t") + "\tstring aft = 2\n}\n" +
		"data After : Foo = 0 {\n\tint32 y = 4\n}\n" +
		tag("server", "") + "server Serv {\n" + tag("first method", "\t") + "\tvoid ahead(Foo foo) = 0\n" + tag("method", "\t") + "\tFoo call(Foo foo) = 1\n" + tag("last method", "\t") + "\tvoid behind(Foo foo) = 2\n}\n" +
		"server Last : Serv = 0 {\n\tvoid end(Foo foo) = 0\n}\n"
}

type file struct {
	code     []src.Tok
	comments []src.Tok
	before   []int // number of tokens of code before a comment
}

func read(target, text string) file {
	var f file
	toks, bad := src.Lex(target, text)
	if bad != "" {
		sym.Note("code", text)
		sym.Assert(false, "the generated code has tokens: "+bad)
	}
	for _, t := range toks {
		if t.Kind == src.Comment {
			f.comments = append(f.comments, t)
			f.before = append(f.before, len(f.code))
		} else {
			f.code = append(f.code, t)
		}
	}
	return f
}

func generated(target, kind, schemaText string) (string, bool) {
	outs, err := gen.Compile(target, []*schema.File{{Path: "v.hbuf", Raw: schemaText}}, "v.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Assert(false, "a schema with comments is accepted")
		return "", false
	}
	if target == "java" {
		return gen.Find(outs, "V"+strings.ToUpper(kind[:1])+kind[1:]+".java"), true
	}
	return gen.Find(outs, "v."+kind+"."+target), true
}

// plain is a text without white space, which nothing is said about.
func plain(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' && s[i] != '\r' && s[i] != '\n' {
			b = append(b, s[i])
		}
	}
	return string(b)
}

func flat(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// named reports whether the declaration at code[i:] is of one of the names.
func named(code []src.Tok, i int, names []string) bool {
	for k := i; k < len(code) && k < i+16; k++ {
		t := code[k]
		if t.Kind == src.Ident {
			for _, n := range names {
				if flat(t.Text) == n {
					return true
				}
			}
		}
		if k > i && (t.Text == "{" || t.Text == "=" || t.Text == ";") && t.Kind == src.Punct {
			return false
		}
	}
	return false
}

// line reports whether the tokens before code[i] on a line have one of the names.
func line(code []src.Tok, i, at int, names []string) bool {
	for k := i - 1; k >= 0 && code[k].Line == at; k-- {
		for _, n := range names {
			if code[k].Kind == src.Ident && flat(code[k].Text) == n {
				return true
			}
		}
	}
	return false
}

// check compares the code generated from a schema with a comment and without.
// The lines are those of the comment without its marks.
func check(target string, p place, comment, between string, lines []string) {
	with := text(p.kind, comment, between)
	without := text(p.kind, "", "")
	if between != "" {
		without = text(p.kind, "", "\t")
	}
	a, ok := generated(target, p.file, without)
	if !ok {
		return
	}
	b, ok := generated(target, p.file, with)
	if !ok {
		return
	}
	old, now := read(target, a), read(target, b)
	same := len(old.code) == len(now.code)
	for i := 0; same && i < len(now.code); i++ {
		same = sym.Eq(old.code[i].Text, now.code[i].Text) && old.code[i].Kind == now.code[i].Kind
	}
	if !same {
		sym.Note("schema", with)
		sym.Note("code", b)
	}
	sym.Assert(same, "a comment does not change the code")
	// the comments that are new
	var extra []int
	k := 0
	for i, c := range now.comments {
		if k < len(old.comments) && old.before[k] == now.before[i] && old.comments[k].Text == c.Text {
			k++
			continue
		}
		if k < len(old.comments) && old.before[k] == now.before[i] && plain(old.comments[k].Text) == "//" {
			k++ // an empty one was filled
		}
		extra = append(extra, i)
	}
	// every one belongs to the element
	belongs := true
	for _, i := range extra {
		if !named(now.code, now.before[i], p.names) && !line(now.code, now.before[i], now.comments[i].Line, p.names) {
			belongs = false
		}
		escaped(target, now.comments[i].Text, with)
	}
	if !belongs {
		sym.Note("schema", with)
		sym.Note("code", b)
	}
	sym.Assert(belongs, "a comment is at its element")
	// and together they have the text of all lines
	all := ""
	for _, i := range extra {
		all += plain(now.comments[i].Text)
	}
	there := true
	for _, l := range lines {
		l = plain(l)
		if l != "" && !strings.Contains(all, l) {
			there = false
		}
	}
	if !there {
		sym.Note("schema", with)
		sym.Note("code", b)
	}
	sym.Assert(there, "the text of the comment is at the element")
	sym.Cover("checked")
}

// escaped checks for what ends a comment without a line break.
func escaped(target, s, schema string) {
	// Go ends a comment only at a line feed
	ok := target == "go" || strings.IndexByte(s, '\r') < 0
	switch target {
	case "ts":
		ok = ok && !strings.Contains(s, "\u2028") && !strings.Contains(s, "\u2029")
	case "java":
		for i := 0; i < len(s); i++ {
			if s[i] != '\\' {
				continue
			}
			if i+1 < len(s) && s[i+1] == 'u' {
				ok = false
			}
			i++
		}
	}
	if !ok {
		sym.Note("schema", schema)
	}
	sym.Assert(ok, "a comment has nothing that the target does not read as text")
}

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

var targets = []string{"go", "dart", "java", "ts"}

// H_text: the text of a comment.
//
// bounds: a comment of one line before each of the 6 kinds of elements, after // or between /* and */, of 3 (thorough 4) characters that the solver chooses of letters, white space, a colon, a star, slashes, a backslash, quotes, a dollar sign and braces
//
//sym:steps=9000000 depth=4000 time=200 thorough.time=800 cover=checked
func H_text() {
	target := pick("target", targets)
	p := places[sym.Pick("place", 6)]
	n := 3
	if sym.Thorough() {
		n = 4
	}
	s := sym.StrOf("text", n, "au5 \t\r:*/\\`\"'${}")
	c := "//" + s + "\n"
	if sym.Pick("style", 2) == 1 {
		sym.Assume(!strings.Contains(s+"*/", "*/") || !strings.Contains(s, "*/"))
		c = "/*" + s + "*/\n"
	}
	if target == "java" {
		check(target, p, c, "", []string{strings.ReplaceAll(s, "\\u", "\\ u")})
		return
	}
	check(target, p, c, "", []string{s})
}

// H_attach: comments of several lines and styles, and what stands around them.
//
// bounds: each of the 6 kinds of elements, of fields, items and methods the first, one between and the last, which another data or server inherits; 12 texts (3 for the first and the last) (directives of other languages, line and paragraph separators, escapes, long ones); one or two lines of // or one /* */ of two lines, alone, after another comment and an empty line, after a comment on the line before, before or after the tags of the element
//
//sym:steps=9000000 depth=4000 time=200 cover=checked
func H_attach() {
	target := pick("target", targets)
	p := places[sym.Pick("place", len(places))]
	texts := []string{"word", "todo:5", "go:embed x", "C:\\users\\u000a", "a\u2028b", "a\u2029b()", "}", "*", "一 二", "", "import \"x\"", "a // b /* c"}
	if strings.IndexByte(p.kind, ' ') > 0 {
		texts = texts[:3]
	}
	t := pick("text", texts)
	other := string([]byte{sym.ByteOf("other", "mnpq")}) + "second"
	lines := []string{t, other}
	c := ""
	between := ""
	switch sym.Pick("shape", 7) {
	case 0:
		c, lines = "//"+t+"\n", []string{t}
	case 1:
		c = "// " + t + "\n//" + other + "\n"
	case 2:
		c = "/*" + t + "\n " + other + "*/\n"
	case 3:
		c, lines = "// far\n\n//"+t+"\n", []string{t}
	case 4:
		c, lines = "//"+other+"\n// mid\n//\n//\n//"+t+"\n", []string{t, other, "mid"}
	case 5:
		between, lines = "//"+t+"\n", []string{t}
	case 6:
		c, between, lines = "//"+t+"\n", "\t", []string{t}
	}
	if between == "" && c == "" {
		return
	}
	var parts []string
	for _, l := range lines {
		for _, x := range strings.Split(strings.ReplaceAll(l, "\u2029", "\u2028"), "\u2028") {
			if target == "java" {
				x = strings.ReplaceAll(x, "\\u", "\\ u")
			}
			parts = append(parts, x)
		}
	}
	check(target, p, c, between, parts)
}

// H_lines: comments at the end of a line.
//
// bounds: a comment at the end of the line before, or at the end of that of, each of the 6 kinds of elements, with a text of 2 characters the solver chooses: the code does not change, and the next element has no such comment
//
//sym:steps=60000000 depth=4000 time=100 cover=checked
func H_lines() {
	target := pick("target", targets)
	base := text("", "", "")
	var p place
	lines := strings.Split(base, "\n")
	at := sym.Pick("line", len(lines)-1)
	s := sym.StrOf("text", 2, "a{;\"*")
	lines[at] += " //zz" + s
	// the names of what begins on the next line, which the comment is not of
	next := map[string]bool{}
	toks, _ := src.Lex("go", lines[at+1])
	for _, t := range toks {
		if n := flat(t.Text); t.Kind == src.Ident && !common[n] {
			next[n], next["get"+n], next["set"+n], next["kind"+n] = true, true, true, true
		}
	}
	for k := range next {
		p.names = append(p.names, k)
	}
	neutral(target, "data", base, strings.Join(lines, "\n"), p)
	for _, k := range []string{"enum", "server"} {
		neutral(target, k, base, strings.Join(lines, "\n"), p)
	}
}

var common = map[string]bool{"int32": true, "string": true, "void": true, "foo": true, "data": true, "enum": true, "server": true, "package": true, "go": true, "dart": true, "java": true, "ts": true}

func neutral(target, kind, base, now string, not place) {
	a, ok := generated(target, kind, base)
	if !ok {
		return
	}
	b, ok := generated(target, kind, now)
	if !ok {
		return
	}
	x, y := read(target, a), read(target, b)
	same := len(x.code) == len(y.code)
	for i := 0; same && i < len(x.code); i++ {
		same = x.code[i].Text == y.code[i].Text && x.code[i].Kind == y.code[i].Kind
	}
	if !same {
		sym.Note("schema", now)
		sym.Note("code", b)
	}
	sym.Assert(same, "a comment does not change the code")
	for i, c := range y.comments {
		if strings.Contains(c.Text, "zz") && named(y.code, y.before[i], not.names) {
			sym.Note("schema", now)
			sym.Note("code", b)
			sym.Assert(false, "a comment at the end of a line is not of the next element")
		}
	}
	sym.Cover("checked")
}

// H_neutral: a comment between any two tokens.
//
// bounds: the schemas of harness/rich, all targets; /*x*/ after any token (quick: every second one for Go and Java, the others for Dart and TypeScript), or // at the end of any line: every generated file keeps its code
//
//sym:steps=60000000 depth=4000 time=250 thorough.time=800 cover=checked
func H_neutral() {
	target := pick("target", targets)
	name := pick("schema", rich.Names)
	files := rich.Files(name)
	f := files[0]
	t := f.Raw
	toks, _ := src.Lex("go", t)
	var ends []int
	for i, k := range toks {
		n := len(k.Text)
		if k.Kind == src.String {
			n += 2
		}
		ends = append(ends, k.Pos+n)
		_ = i
	}
	if !sym.Thorough() {
		var half []int
		odd := 0
		if target == "go" || target == "java" {
			odd = 1
		}
		for i := range ends {
			if i%2 == odd {
				half = append(half, ends[i])
			}
		}
		ends = half
	}
	at := ends[sym.Pick("token", len(ends))]
	c := "/*x*/"
	if at < len(t) && t[at] == '\n' && sym.Pick("style", 2) == 1 {
		c = "//x"
	}
	g := *f
	g.Raw = t[:at] + c + t[at:]
	now := append([]*schema.File{&g}, files[1:]...)
	a, err := gen.Compile(target, files, f.Path)
	if err != nil {
		sym.Assert(false, "the schema is accepted")
		return
	}
	b, err := gen.Compile(target, now, f.Path)
	if err != nil {
		sym.Note("error", err.Error())
		sym.Note("schema", g.Raw)
		sym.Assert(false, "the schema is accepted with a comment")
		return
	}
	sym.Assert(len(a) == len(b), "a comment does not change the files")
	for i := range a {
		if i >= len(b) {
			break
		}
		x, y := read(target, a[i].Text), read(target, b[i].Text)
		same := a[i].Path == b[i].Path && len(x.code) == len(y.code)
		for k := 0; same && k < len(x.code); k++ {
			same = x.code[k].Text == y.code[k].Text && x.code[k].Kind == y.code[k].Kind
		}
		if !same {
			sym.Note("schema", g.Raw)
			sym.Note("path "+strconv.Itoa(i), b[i].Path)
			sym.Note("code", b[i].Text)
		}
		sym.Assert(same, "a comment does not change the code")
	}
	sym.Cover("checked")
}
