// Package tmpl makes schemas with one use of the verification, user interface
// or database tags, of which the solver chooses the parts.
package tmpl

import (
	"hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"strings"
)

const head = "package go = \"pk\"\npackage java = \"pj\"\n"

// Bases are the base types; after them come the enum Kind and the data type
// Foo.
var Bases = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal", "Kind", "Foo"}

// Shapes of a type T.
var Shapes = []string{"T", "T?", "T[]", "T[]?", "T?[]", "T<string>", "T<int32>?"}

const types = "enum Kind {\n\tone = 1\n\ttwo = 2\n}\ndata Foo {\n\tint32 id = 0\n}\n"

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

func one(text string) []*schema.File {
	return []*schema.File{{Path: "in.hbuf", Raw: head + text}}
}

// Rule is one rule on a field.
type Rule struct {
	Base     string
	Opt      bool
	Null     bool
	Min, Max string
	Reg      string
	Files    []*schema.File
}

// Verify is a field with a verification rule, of the same file or an imported
// one.
func Verify(base string, opt bool) Rule {
	r := Rule{Base: base, Opt: opt}
	min, max := "3", "9"
	if base == "date" {
		min, max = "2020-01-02T03:04:05Z", "2030-01-02T03:04:05Z"
	}
	var kv []string
	if r.Null = sym.Pick("null", 2) == 1; r.Null {
		kv = append(kv, "null=\"true\"")
	}
	if sym.Pick("min", 2) == 1 {
		r.Min = min
		kv = append(kv, "min=\""+min+"\"")
	}
	if sym.Pick("max", 2) == 1 {
		r.Max = max
		kv = append(kv, "max=\""+max+"\"")
	}
	if sym.Pick("reg", 2) == 1 {
		r.Reg = "[a-z]+"
		kv = append(kv, "reg=\""+r.Reg+"\"")
	}
	fault := "enum Fault {\n"
	if len(kv) > 0 {
		fault += "\t[format:" + strings.Join(kv, ";") + "]\n"
	}
	fault += "\tbad = 5\n\tworse = 6\n}\n"
	t := base
	if opt {
		t += "?"
	}
	data := "data All {\n\t[verify:format=\"Fault.bad\"]\n\t" + t + " it = 0\n}\n"
	if sym.Pick("imported", 2) == 1 {
		r.Files = []*schema.File{{Path: "in.hbuf", Raw: head + "import \"o.hbuf\"\n" + types + data},
			{Path: "o.hbuf", Raw: "package go = \"po\"\npackage java = \"pj\"\n" + fault}}
	} else {
		r.Files = one(fault + types + data)
	}
	return r
}

// Screen is a field in a form and a table.
type Screen struct {
	Form, Base, Shape string
	Files             []*schema.File
}

// UI is a data type with a field in a form and a table.
func UI() Screen {
	c := Screen{Form: pick("form", []string{"", "text", "click", "file", "image", "menu", "date", "dates", "datetime", "month", "year", "switch", "pass", "radio", "radioButton", "other"})}
	i := sym.Pick("base", len(Bases))
	c.Base = Bases[i]
	c.Shape = pick("shape", Shapes)
	table := "text"
	extra := ""
	if i >= 10 && c.Shape == "T" { // one of each kind
		table = pick("table", []string{"text", "", "image", "switch"})
		extra = pick("extra", []string{"", ";onlyRead=\"true\"", ";toNull=\"true\";digit=\"2\";format=\"yyyy\";unlink=\"true\"", ";clip=\"true\";maxCount=\"3\";maxLine=\"2\";extensions=\"png\",\"jpg\";index=\"1\";width=\"5\";height=\"6\""})
	}
	c.Files = one(types + "[ui:form=\"true\";table=\"true\"]\ndata All {\n\t[ui:form=\"" + c.Form + "\";table=\"" + table + "\"" + extra + "]\n\t" + strings.ReplaceAll(c.Shape, "T", c.Base) + " it = 0\n}\n")
	return c
}

// Table is a data type that is a table, or a query on one, with the given
// operation.
type Table struct {
	Op, Val string
	Query   bool
	Cache   bool
	Key     bool
	Files   []*schema.File
}

// Ops are the operations on tables.
var Ops = []string{"list", "map", "count", "del", "rm", "insert", "inserts", "update", "set", "get"}

// DB is a table with one operation. extra are the tags of a column of
// the given type.
func DB() Table {
	t := Table{Op: pick("op", Ops)}
	t.Val = pick("val", []string{"self", "parent"})
	t.Query = sym.Pick("query", 2) == 1
	some := sym.Pick("some type", 2) == 0 // else any type of column
	t.Key = true
	if some {
		t.Cache = sym.Pick("cache", 2) == 1
		t.Key = t.Query || sym.Pick("key", 2) == 1
	}
	v := t.Val
	switch t.Op {
	case "map":
		v = "id:" + v
	case "count", "del", "rm":
		v = "true"
	}
	op := t.Op + "=\"" + v + "\""
	cache := ""
	if t.Cache {
		cache = "[cache:min=\"10\";max=\"20\"]\n"
		if !t.Query && sym.Pick("always", 2) == 1 {
			cache = "[cache:min=\"0\"]\n"
		}
	}
	key := "\t[db:key=\"true\"]\n"
	if !t.Key {
		key = "\t[db:]\n"
	}
	col := pick("column", []string{"\t[db:]\n\tT it = 2\n", "\t[db:converter=\"json\"]\n\tT it = 2\n", "\t[db:name=\"other\"]\n\tT it = 2\n", "\tT it = 2\n"})
	ty := "string?"
	if !some {
		ty = strings.ReplaceAll(pick("shape", Shapes[:5]), "T", pick("base", []string{"int32", "uint64", "bool", "double", "string", "date", "decimal", "Kind", "Foo"}))
	}
	col = strings.ReplaceAll(col, "T", ty)
	text := types
	if !t.Query {
		t.Files = one(text + cache + "[db:name=\"foo_table\";" + op + "]\ndata All {\n" + key + "\tint64 id = 0\n\t[db:]\n\tstring name = 1\n" + col + "}\n")
		return t
	}
	text += "[db:name=\"foo_table\"]\ndata All {\n" + key + "\tint64 id = 0\n\t[db:]\n\tstring name = 1\n" + col + "}\n"
	conds := []string{"\t[db:where=\"AND name = ?\"]\n\tstring name = 1\n", "\t[db:where=\"AND name = ?\"]\n\tstring? name = 1\n",
		"\t[db:where=\"AND name in (?)\"]\n\tstring[] name = 1\n", "\t[db:where=\"AND name >= ?\",\"AND name < ?\"]\n\tstring[]? name = 1\n",
		"\t[db:group=\"name\"]\n\tstring name = 1\n", "\t[db:order=\"name $\"]\n\tstring? name = 1\n",
		"\t[db:offset=\"?\"]\n\tint32 offset = 1\n\t[db:limit=\"?\"]\n\tint32 limit = 2\n", "\t[db:set=\"name = ?\"]\n\tstring? name = 1\n"}
	cond := conds[0]
	if some {
		cond = pick("cond", conds)
	}
	t.Files = one(text + cache + "[db:table=\"All\";" + op + "]\ndata Query {\n\t[db:where=\"AND id = ?\"]\n\tint64 id = 0\n" + cond + "}\n")
	return t
}
