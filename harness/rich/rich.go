// Package rich has schemas that use many features of the language together.
package rich

import "hbuf/zz_verif/schema"

const Head = "package go = \"pk\"\npackage java = \"pj\"\n"

// Names of the schemas Files can make.
var Names = []string{"types", "lang", "inherit", "service", "database", "verify", "ui", "imports"}

// Files is the schema of that name; in.hbuf is the file to compile.
func Files(name string) []*schema.File {
	raw := func(path, text string) *schema.File { return &schema.File{Path: path, Raw: Head + text} }
	switch name {
	case "types":
		return []*schema.File{raw("in.hbuf", `enum Kind {
	one = 1
	two_x = 2
}
data Other {
	int32 id = 0
}
data Foo {
	int8 a = 0
	uint16? b = 1
	int64 c = 2
	uint64? d = 3
	decimal e = 4
	date? f = 5
	bool g = 6
	string h = 7
	double? i = 8
	Kind j = 9
	Kind[] k = 10
	Other?<string> l = 11
	Other[]? m = 12
	date<int32> n = 13
}
`)}
	case "lang":
		return []*schema.File{raw("in.hbuf", `[lang:zh="b";fr="c"]
enum Kind {
	[lang:zh="d";de="e"]
	one = 1
	[lang:fr="f"]
	two = 2
}
[lang:zh="g"]
data Foo {
	[lang:en="h";zh="i"]
	int32 a = 0
	Kind k = 1
}
`)}
	case "inherit":
		return []*schema.File{raw("in.hbuf", `data Top {
	int32 id = 0
}
data Left : Top = 0 {
	string name = 0
}
data Right : Top = 0 {
	date day = 0
}
data Low : Left = 0, Right = 1 {
	int32 own = 0
}
`)}
	case "service":
		return []*schema.File{raw("in.hbuf", `data Foo {
	int32 a = 0
}
server Base {
	[tag:role="admin","user";code="7";level="3"]
	Foo first(Foo req) = 0
}
server User : Base = 0 {
	[tag:role="admin"]
	Foo second(Foo req) = 0
	void third(Foo req) = 1
}
`)}
	case "database":
		return []*schema.File{raw("in.hbuf", `[db:name="foo_table";get="self";list="self";map="id:self";count="true";del="true";rm="true";insert="self";inserts="self";update="self";set="self"]
data Foo {
	[db:key="true"]
	int64 id = 0
	[db:]
	string name = 1
	[db:converter="json"]
	Other other = 2
	[db:]
	date? day = 3
}
data Other {
	int32 a = 0
}
[db:table="Foo";list="self";count="true";update="parent";set="self"]
data Query {
	[db:where="AND id = ?"]
	int64 id = 0
	[db:where="AND name like ?"]
	string? name = 1
	[db:offset="offset ?"]
	int32 offset = 2
	[db:limit="limit ?"]
	int32 limit = 3
}
`)}
	case "verify":
		return []*schema.File{raw("in.hbuf", `enum Fault {
	[format:null="true"]
	empty = 1
	[format:min="3";max="9"]
	range = 2
	[format:reg="[a-z]+"]
	text = 3
}
data Foo {
	[verify:format="Fault.empty","Fault.text"]
	string name = 0
	[verify:format="Fault.range"]
	int32 num = 1
	[verify:format="Fault.range"]
	int64? big = 2
}
`)}
	case "ui":
		return []*schema.File{raw("in.hbuf", `[ui:form="true";table="true"]
[lang:zh="a"]
enum Kind {
	one = 1
	two = 2
}
[ui:form="true";table="true"]
data Foo {
	[ui:form="text";table="text"]
	[lang:zh="n"]
	string name = 0
	[ui:form="menu";table="text"]
	Kind kind = 1
	[ui:form="date";table="text";format="yyyy"]
	date day = 2
	[ui:form="switch";table="text"]
	bool on = 3
	[ui:form="image";table="image"]
	string[] pics = 4
}
`)}
	}
	return []*schema.File{
		raw("in.hbuf", `import "b.hbuf"
import "sub/c.hbuf"
import "sub/B.hbuf"
data Foo : Bar = 0 {
	Kind kind = 0
	Baz[] baz = 1
	Bar?<string> bars = 2
	Deep deep = 3
}
server User : Base = 0 {
	[bind:value="Base.get_base"]
	Foo get(Foo req) = 0
}
`),
		raw("sub/B.hbuf", `data Deep {
	string word = 0
}
`),
		raw("b.hbuf", `data Bar {
	int32 id = 0
	date? day = 1
}
server Base {
	Bar get_base(Bar req) = 0
}
`),
		{Path: "sub/c.hbuf", Raw: "package go = \"other.pc\"\npackage java = \"other.pc\"\n" + `enum Kind {
	one = 1
}
data Baz {
	decimal id = 0
}
`},
	}
}
