// C08: compiling an accepted schema never crashes, and an error is never
// swallowed.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/rich"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_blank": H_blank, "H_numbers": H_numbers, "H_names": H_names, "H_format": H_format, "H_shapes": H_shapes, "H_loops": H_loops, "H_faults": H_faults, "H_bind": H_bind})
}

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

func target() string { return pick("target", gen.Targets) }

func one(text string) []*File {
	return []*File{{Path: "in.hbuf", Raw: rich.Head + text}}
}

// whole says that no output file stops in the middle.
func whole(target string, outs []gen.Out) {
	for _, o := range outs {
		sym.Note("file", o.Path)
		if !strings.HasSuffix(o.Path, ".tsx") {
			toks, bad := src.Lex(target, o.Text)
			sym.Assert(bad == "" && src.Nesting(src.Code(toks)) == "", "an output file closes what it opens")
		}
		sym.Assert(len(o.Text) > 0, "an output file has content")
	}
}

// has says that one of the files has all the texts.
func has(outs []gen.Out, texts ...string) bool {
	for _, o := range outs {
		n := 0
		for _, t := range texts {
			if strings.Contains(o.Text, t) {
				n++
			}
		}
		if n == len(texts) {
			return true
		}
	}
	return false
}

// declares says that the types of the schema are all written.
func declares(target string, outs []gen.Out, datas, enums, servers []string) {
	text := func(kind string) string {
		if target == "java" {
			return gen.Find(outs, "In"+strings.ToUpper(kind[:1])+kind[1:]+".java")
		}
		return gen.Find(outs, "in."+kind+"."+target)
	}
	type kind struct {
		name  string
		names []string
		word  map[string]string
	}
	for _, k := range []kind{
		{"data", datas, map[string]string{"go": "type X struct", "dart": "class X ", "java": "interface X ", "ts": "class X "}},
		{"enum", enums, map[string]string{"go": "type X int", "dart": "class X", "java": "class X", "ts": "class X"}},
		{"server", servers, map[string]string{"go": "type X interface", "dart": "class X", "java": "interface X", "ts": "interface X"}},
	} {
		for _, n := range k.names {
			w := strings.ReplaceAll(k.word[target], "X", build.StringToHumpName(n))
			sym.Note("want", w)
			sym.Assert(strings.Contains(text(k.name), w), "a type of the schema is in the output")
		}
	}
}

// bounds: one tag, at each of the 7 places a tag can stand in a schema of a data type, an enum and a service (all 10 tag names the generators know, numbered "db" tags and an unknown one; without a parameter, with an unknown parameter, or with each known parameter empty, "0" or two values); 4 targets
//
//sym:steps=9000000 depth=4000 time=100 cover=accepted
func H_blank() {
	tag := pick("tag", []string{"ui", "db", "db1", "dbx", "cache", "verify", "format", "lang", "tag", "bind", "json", "other"})
	keys := map[string][]string{
		"ui":     {"form", "table", "digit", "index", "width", "maxLine", "extensions", "format", "onlyRead"},
		"db":     {"name", "where", "order", "group", "limit", "offset", "list", "map", "get", "count", "del", "rm", "insert", "inserts", "update", "set", "table", "converter", "key", "schema"},
		"cache":  {"min", "max"},
		"verify": {"format"},
		"format": {"null", "reg", "min", "max"},
		"bind":   {"value"},
	}[tag]
	var bodies []string
	bodies = append(bodies, "", "zz=\"q\"")
	for _, k := range keys {
		bodies = append(bodies, k+"=\"\"", k+"=\"0\"", k+"=\"true\",\"b\"")
	}
	body := pick("parameter", bodies)
	at := sym.Pick("place", 7)
	p := make([]string, 7)
	p[at] = "[" + tag + ":" + body + "]\n"
	t := target()
	text := p[0] + "enum Kind {\n" + p[1] + "one = 1\n}\n" + p[2] + "data Foo {\n" + p[3] + "int64 id = 0\n" + p[4] + "Kind[]? name = 1\n}\n" + p[5] + "server Serve {\n" + p[6] + "Foo call(Foo req) = 0\n}\n"
	sym.Note("schema", text)
	outs, err := gen.Compile(t, one(text), "*.hbuf")
	if err != nil {
		return
	}
	sym.Cover("accepted")
	declares(t, outs, []string{"Foo"}, []string{"Kind"}, []string{"Serve"})
	whole(t, outs)
}

// numeral says that s is a plain decimal number.
func numeral(s string) bool {
	for i := 0; i < len(s); i++ {
		if sym.Not(sym.In(s[i], "0123456789")) {
			return false
		}
	}
	return len(s) > 0
}

// bounds: each parameter of the ui and cache tags that is a number has any value of 0 to 2 (thorough 3) characters of 15; on a type or one of its two fields; 4 targets
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=accepted,refused
func H_numbers() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	v := sym.StrOf("value", sym.Pick("length", n+1), "0123456789-+.ex")
	key := pick("parameter", []string{"digit", "index", "width", "height", "maxLine", "maxCount", "min", "max"})
	t := pick("target", []string{"go", "dart", "ts"})
	typ, field := "", ""
	switch {
	case key == "min" || key == "max":
		sym.Assume(t == "go")
	default:
		sym.Assume(t != "go")
		if sym.Pick("on a field", 2) == 1 {
			field = ";" + key + "=\"" + v + "\""
		} else {
			typ = ";" + key + "=\"" + v + "\""
		}
	}
	ok := numeral(v)
	cache := ""
	if t == "go" {
		cache = "[cache:" + key + "=\"" + v + "\"]\n"
	}
	text := cache + "[db:list=\"self\";get=\"self\";insert=\"self\"]\n[ui:form=\"true\";table=\"true\"" + typ + "]\ndata Foo {\n[db:key=\"true\"]\n[ui:form=\"text\";table=\"text\"" + field + "]\nint32 first = 0\n[ui:form=\"text\";table=\"text\"]\nstring second = 1\n}\n"
	outs, err := gen.Compile(t, one(text), "*.hbuf")
	if err != nil {
		sym.Cover("refused")
		sym.Assert(!ok, "a plain number is accepted")
		return
	}
	sym.Cover("accepted")
	switch t {
	case "go":
		sym.Assert(has(outs, ") DbList(", ") DbGet(", ") DbInsert("), "a database type has its operations")
		sym.Assert(has(outs, "cache.DbGet(", "cache.DbSet(", "cache.DbDel("), "a cached type uses the cache")
	case "dart":
		sym.Assert(has(outs, "class FormFooBuild", "TextFormBuild first =", "TextFormBuild second ="), "a form has every field")
		sym.Assert(has(outs, "class TableFooBuild", "tables.columns[\"first\"]", "tables.columns[\"second\"]"), "a table has every column")
	case "ts":
		sym.Assert(has(outs, "FooFormItems =", "\"first\": () =>", "\"second\": () =>"), "a form has every field")
		sym.Assert(has(outs, "FooTableColumn =", "prop=\"first\"", "prop=\"second\""), "a table has every column")
	}
	whole(t, outs)
}

// bounds: a name of 2 letters of 4 (lower case or capital) in each place of a db tag that names a field or a type: the table of a query, the key of a map, and a parameter of a where, order, group, set or get text, as ?{ab} or ${ab}, on a table or a query, with the ten operations
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=accepted,refused
func H_names() {
	v := sym.StrOf("name", 2, "abAB")
	ops := "list=\"self\";count=\"true\";update=\"self\";set=\"self\";get=\"self\";del=\"true\";rm=\"true\";insert=\"self\""
	query := sym.Pick("query", 2) == 1
	place := pick("place", []string{"table", "map", "where", "order", "group", "set"})
	table, more, cond := "Ab", "", ""
	want := []string{") DbList(", ") DbCount(", ") DbUpdate(", ") DbSet(", ") DbGet(", ") DbDel(", ") DbRemove(", ") DbInsert("}
	sign := "?"
	known := sym.Or(v == "aB", v == "bb")
	switch place {
	case "table":
		sym.Assume(query)
		table = v
		known = v == "Ab"
	case "map":
		more = ";map=\"" + v + ":self\""
		want = append(want, ") DbMap(")
	default:
		sign = pick("sign", []string{"?", "$"})
		cond = ";" + place + "=\"AND xx = " + sign + "{" + v + "} AND yy = 1\""
	}
	field := "[db:" + strings.TrimPrefix(cond, ";") + "]\nstring? bb = 1\n"
	text := "enum AB {\none = 1\n}\n"
	if query {
		text += "[db:]\ndata Ab {\n[db:key=\"true\"]\nint64 aB = 0\n[db:]\nstring? bb = 1\n}\n[db:table=\"" + table + "\";" + ops + more + "]\ndata Ask {\n[db:where=\"AND a_b = ?\"]\nint64 aB = 0\n" + field + "}\n"
		sym.Assume(place != "set" || v != "yy")
	} else {
		text += "[db:" + ops + more + "]\ndata Ask {\n[db:key=\"true\"]\nint64 aB = 0\n" + field + "}\n"
	}
	outs, err := gen.Compile("go", one(text), "*.hbuf")
	sym.Note("schema", text)
	if err != nil {
		sym.Cover("refused")
		sym.Assert(!known, "a name of the schema is accepted")
		return
	}
	sym.Cover("accepted")
	sym.Assert(has(outs, want...), "a database type has its operations")
	if cond != "" && (query || place != "where") { // the table's own operations go by its key
		sym.Assert(has(outs, " AND yy = 1\")"), "a condition is printed to its end")
	}
	whole("go", outs)
}

// bounds: a rule named by "Fault." and 1 to 3 characters of 6, or by any text of 0 to 3 characters of 6, on the first or second of two fields with a rule (the other is well formed), in the file of the rules or another; 3 targets, with a form
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=accepted,refused
func H_format() {
	v := ""
	prefix := sym.Pick("prefix", 2) == 1
	if prefix {
		v = "Fault." + sym.StrOf("item", 1+sym.Pick("length", 3), "abd.FK")
	} else {
		v = sym.StrOf("name", sym.Pick("length", 4), "abd.FK")
	}
	known := v == "Fault.bad" || prefix && strings.HasPrefix(v, "Fault.bad.")
	t := pick("target", []string{"go", "dart", "ts"})
	r := []string{"Fault.ok", v}
	at := sym.Pick("field", 2)
	if at == 0 {
		r = []string{v, "Fault.ok"}
	}
	rules := "enum Fault {\n[format:min=\"1\"]\nbad = 1\n[format:max=\"5\"]\nok = 2\n}\nenum K {\nb = 1\n}\ndata F {\nint32 a = 0\n}\n"
	data := "[ui:form=\"true\"]\ndata Foo {\n[ui:form=\"text\"]\n[verify:format=\"" + r[0] + "\"]\nint32 first = 0\n[ui:form=\"text\"]\n[verify:format=\"" + r[1] + "\"]\nint32 second = 1\n}\n"
	fs := one(rules + data)
	if sym.Pick("imported", 2) == 1 {
		fs = []*File{{Path: "in.hbuf", Raw: rich.Head + "import \"o.hbuf\"\n" + data}, {Path: "o.hbuf", Raw: rich.Head + rules}}
	}
	outs, err := gen.Compile(t, fs, "*.hbuf")
	if err != nil {
		sym.Cover("refused")
		sym.Assert(!known, "a rule of the schema is accepted")
		return
	}
	sym.Cover("accepted")
	f := gen.Find(outs, "in.verify."+t)
	sym.Note("text", f)
	for _, n := range []string{"First", "Second"} {
		w := map[string]string{"go": "Verify" + n + "(", "dart": "verifyFoo_" + n + "(", "ts": "verifyFoo_" + n + " "}[t]
		sym.Assert(strings.Contains(f, w), "a field with a rule is verified")
	}
	switch t {
	case "dart":
		sym.Assert(has(outs, "TextFormBuild first =", "TextFormBuild second ="), "a form has every field")
	case "ts":
		sym.Assert(has(outs, "\"first\": () =>", "\"second\": () =>"), "a form has every field")
	}
	whole(t, outs)
}

// bounds: schemas of each part that can be empty, missing or refer to itself: files with no declaration, types with no member, types that contain themselves in 6 shapes, files that import themselves or each other, and the 8 rich schemas; 4 targets
//
//sym:steps=9000000 depth=4000 time=100 cover=accepted
func H_shapes() {
	t := target()
	tags := pick("tags", []string{"", "[ui:form=\"true\";table=\"true\"]\n[lang:en=\"a\"]\n", "[db:list=\"self\";insert=\"self\";inserts=\"self\";count=\"true\"]\n[cache:]\n", "[db:get=\"self\"]\n", "[db:map=\"a:self\"]\n", "[db:set=\"self\"]\n", "[db:update=\"self\"]\n", "[db:del=\"true\";rm=\"true\"]\n"})
	kind := sym.Pick("schema", 5)
	var fs []*File
	var datas, enums, servers []string
	bad := false
	switch kind {
	case 0:
		fs = one("")
	case 1: // without members
		fs = one(tags + "data Foo {\n}\n" + "[lang:en=\"a\"]\n" + "enum Kind {\n}\nserver Serve {\n}\n")
		datas, enums, servers = []string{"Foo"}, []string{"Kind"}, []string{"Serve"}
		bad = strings.HasPrefix(tags, "[db:") && !strings.HasPrefix(tags, "[db:list")
	case 2: // of itself
		ty := strings.ReplaceAll(pick("shape", []string{"T?", "T[]", "T[]?", "T?[]", "T<string>", "T?<int32>"}), "T", "Foo")
		fs = one(tags + "data Foo {\n[ui:form=\"text\";table=\"text\"]\n[db:converter=\"json\"]\n" + ty + " a = 0\n}\n")
		datas = []string{"Foo"}
	case 3: // files that import each other
		fs = one("import \"o.hbuf\"\n" + tags + "data Foo {\n[ui:form=\"text\"]\n[db:key=\"true\"]\nBar? a = 0\n}\n")
		fs = append(fs, &File{Path: "o.hbuf", Raw: rich.Head + "import \"in.hbuf\"\n" + tags + "data Bar {\n[ui:form=\"text\"]\n[db:key=\"true\"]\nFoo? a = 0\n}\n"})
		datas = []string{"Foo"}
	case 4:
		sym.Assume(tags == "")
		fs = rich.Files(pick("rich", rich.Names))
	}
	outs, err := gen.Compile(t, fs, "*.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Assert(bad, "an ordinary schema is accepted")
		return
	}
	sym.Cover("accepted")
	declares(t, outs, datas, enums, servers)
	whole(t, outs)
}

// bounds: a cycle of 1 or 2 types, or files, by inheritance or import, of data types or services, below a type outside the cycle or not; 4 targets
//
//sym:steps=9000000 depth=4000 time=100 cover=refused
func H_loops() {
	t := target()
	n := 1 + sym.Pick("length", 2)
	a, b := "A", "A"
	if n == 2 {
		b = "B"
	}
	text := "data Req {\nint32 x = 0\n}\n"
	kind := pick("kind", []string{"data", "server"})
	body := func(x string) string {
		if kind == "data" {
			return " {\nint32 " + x + " = 0\n}\n"
		}
		return " {\nReq " + x + "(Req req) = 0\n}\n"
	}
	below := kind + " Low : A = 0" + body("low")
	if sym.Pick("below", 2) == 1 {
		text += below
	}
	text += kind + " " + a + " : " + b + " = 0" + body("one")
	if n == 2 {
		text += kind + " " + b + " : " + a + " = 0" + body("two")
	}
	_, err := gen.Compile(t, one(text), "*.hbuf")
	sym.Assert(err != nil, "a cycle of types is refused")
	sym.Cover("refused")
}

// bounds: the files of each of the 8 rich schemas, for 4 targets; the write of any one of the output files fails, because the disk is full or the file cannot be made
//
//sym:steps=60000000 depth=4000 time=100 cover=failed
func H_faults() {
	t := target()
	fs := rich.Files(pick("rich", rich.Names))
	outs := gen.Must(t, fs...)
	n := 0
	for _, o := range outs {
		if o.Text != "" {
			n++
		}
	}
	sym.Assume(n > 0)
	i := sym.Pick("file", n)
	full := sym.Pick("full", 2) == 1
	sym.Note("file", outs[i].Path)
	err := gen.Faulty(t, fs, outs[i].Path, full)
	sym.Assert(err != nil, "a file that cannot be written is an error")
	sym.Cover("failed")
}

// bounds: a method bound to "Other." and 1 to 3 characters of 6, or to any text of 0 to 3 characters of 6, first or second of two methods (the other is bound well, or not bound); Go
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=accepted,refused
func H_bind() {
	v := ""
	prefix := sym.Pick("prefix", 2) == 1
	if prefix {
		v = "Other." + sym.StrOf("item", 1+sym.Pick("length", 3), "abd.OK")
	} else {
		v = sym.StrOf("name", sym.Pick("length", 4), "abd.OK")
	}
	good := v == "Other.bad" || v == "O.b" || prefix && strings.HasPrefix(v, "Other.bad.")
	fine := v == "O.b"
	r := []string{"[bind:value=\"Other.ok\"]\n", "[bind:value=\"" + v + "\"]\n"}
	if sym.Pick("other", 2) == 1 {
		r[0] = ""
	}
	at := sym.Pick("method", 2)
	if at == 1 {
		r[0], r[1] = r[1], r[0]
	}
	void := sym.Pick("void", 2) == 1
	res := "Foo"
	if void {
		res = "void"
	}
	in := "data Foo : Bar = 0 {\n}\nserver Serve {\n" + r[0] + res + " first(Foo a) = 0\n" + r[1] + res + " second(Foo a) = 1\n}\n"
	other := "data Bar {\n}\nserver Other {\n" + "void bad(Bar a) = 0\nvoid ok(Bar a) = 1\n}\nserver O {\nvoid b(Bar a) = 0\n}\nenum K {\nb = 1\n}\ndata F {\nint32 a = 0\n}\n"
	if !void {
		other = strings.ReplaceAll(other, "void", "Bar")
	}
	fs := []*File{{Path: "in.hbuf", Raw: rich.Head + "import \"o.hbuf\"\n" + in}, {Path: "o.hbuf", Raw: rich.Head + other}}
	outs, err := gen.Compile("go", fs, "*.hbuf")
	if err != nil {
		sym.Cover("refused")
		sym.Assert(!good, "a method of the schema is accepted")
		return
	}
	sym.Cover("accepted")
	sym.Note("accepted", v)
	sym.Assert(good, "a method that is not in the schema is refused")
	f := gen.Find(outs, "in.server.go")
	call := "GetOther(ctx).Bad(ctx, &"
	if fine {
		call = "GetO(ctx).B(ctx, &"
	}
	sym.Assert(strings.Contains(f, "func (s *DefaultServe) First("), "a method has a default")
	sym.Assert(strings.Contains(f, "func (s *DefaultServe) Second("), "a method has a default")
	sym.Assert(strings.Contains(f, call), "a bound method calls the one it is bound to")
	sym.Assert(strings.Contains(f, "func NewServeRouter("), "a service has a router")
	whole("go", outs)
}
