// C12: field types and optionality map correctly to every target.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/view"
)

func main() {
	sym.Main(map[string]func(){"H_types": H_types, "H_maps": H_maps, "H_names": H_names})
}

var bases = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal"}

// meaning is the types that can stand for a base type: of the same kind, and
// wide enough, with the sign where the language has one.
var meaning = map[string]map[string][]string{
	"go": {
		"int8": {"int8"}, "int16": {"int16"}, "int32": {"int32"}, "int64": {"hbuf.Int64"},
		"uint8": {"uint8"}, "uint16": {"uint16"}, "uint32": {"uint32"}, "uint64": {"hbuf.Uint64"},
		"bool": {"bool"}, "float": {"float32"}, "double": {"float64"}, "string": {"string"}, "date": {"hbuf.Time"}, "decimal": {"decimal.Decimal"},
	},
	"dart": {
		"int8": {"int"}, "int16": {"int"}, "int32": {"int"}, "int64": {"Int64"},
		"uint8": {"int"}, "uint16": {"int"}, "uint32": {"int"}, "uint64": {"Int64"},
		"bool": {"bool"}, "float": {"double"}, "double": {"double"}, "string": {"String"}, "date": {"DateTime"}, "decimal": {"Decimal"},
	},
	// boxed types; of an unsigned one the next wider type
	"java": {
		"int8": {"Byte"}, "int16": {"Short"}, "int32": {"Integer"}, "int64": {"Long"},
		"uint8": {"Short", "Integer"}, "uint16": {"Integer"}, "uint32": {"Long"}, "uint64": {"BigInteger"},
		"bool": {"Boolean"}, "float": {"Float"}, "double": {"Double"}, "string": {"String"}, "date": {"Date"}, "decimal": {"BigDecimal"},
	},
	"ts": {
		"int8": {"number"}, "int16": {"number"}, "int32": {"number"}, "int64": {"Long"},
		"uint8": {"number"}, "uint16": {"number"}, "uint32": {"number"}, "uint64": {"Long"},
		"bool": {"boolean"}, "float": {"number"}, "double": {"number"}, "string": {"string"}, "date": {"Date"}, "decimal": {"d.Decimal"},
	},
	// keys of a Record have to be text or numbers
	"tskey": {
		"int64": {"string"}, "uint64": {"string"}, "date": {"number"}, "decimal": {"string"},
	},
}

var primitive = map[string]string{"byte": "Byte", "short": "Short", "int": "Integer", "long": "Long", "boolean": "Boolean", "float": "Float", "double": "Double", "char": "Character"}

// denotes says whether g stands for the schema type called n.
func denotes(target string, g *view.Type, n string, key bool) bool {
	if g == nil || g.Key != nil || g.Elem != nil {
		return false
	}
	name := g.Name
	if target == "java" && primitive[name] != "" && !key {
		name = primitive[name]
	}
	if g.Pack != "" {
		name = g.Pack + "." + name
	}
	ok := meaning[target][n]
	if target == "ts" && key {
		if n == "Kind" {
			return name == "number"
		}
		if x, has := meaning["tskey"][n]; has {
			ok = x
		}
	}
	if ok == nil { // a declared type, with the qualifiers of the language
		switch target {
		case "go":
			return name == n || name == "po."+n
		case "ts":
			return g.Name == n && g.Pack != ""
		}
		return name == n
	}
	for _, x := range ok {
		if x == name {
			return true
		}
	}
	return false
}

// agree says whether the generated type is the schema type. opt tells whether
// the type can be absent from the outside.
func agree(target string, g *view.Type, t Type, opt, anyway bool) bool {
	boxed := func(x *view.Type) bool { return primitive[x.Name] == "" }
	switch target {
	case "java":
		if opt && !boxed(g) || t.Shape != Plain && g.Elem != nil && !boxed(g.Elem) {
			return false
		}
	case "go":
		// a list or map is absent if it is nil
		if t.Shape != Plain {
			opt = false
		}
		if !anyway && g.Opt != opt {
			return false
		}
	default:
		if !anyway && g.Opt != opt {
			return false
		}
	}
	if t.Shape == Plain {
		return denotes(target, g, t.Name, false)
	}
	if g.Elem == nil || (g.Name == "map") != (t.Shape == Map) || g.Name == "?" {
		return false
	}
	if t.Shape == Map && (g.Key == nil || g.Key.Opt || !denotes(target, g.Key, t.Key, true)) {
		return false
	}
	return (target == "java" || g.Elem.Opt == t.Opt) && denotes(target, g.Elem, t.Name, false)
}

func optional(t Type) bool {
	if t.Shape == Plain {
		return t.Opt
	}
	return t.Outer
}

// schema is a data type with fields of all given types, which use types of
// the same file or another one.
func files(ts []Type) []*File {
	kind := &Decl{Kind: "enum", Name: "Kind", Members: []*Member{{Name: "one", ID: "1"}}}
	foo := &Decl{Kind: "data", Name: "Foo", Members: []*Member{{Name: "id", ID: "0", Type: Type{Name: "int32"}}}}
	d := &Decl{Kind: "data", Name: "All"}
	for i, t := range ts {
		d.Members = append(d.Members, &Member{Name: "it" + string(rune('a'+i)), ID: string(rune('0' + i)), Type: t})
	}
	f := &File{Path: "in.hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}}
	switch sym.Pick("place", 3) {
	case 0:
		f.Decls = []*Decl{kind, foo, d}
		return []*File{f}
	case 1:
		f.Decls = []*Decl{d}
		f.Imports = []string{"o.hbuf"}
		return []*File{f, {Path: "o.hbuf", Packages: []KV{{"go", "po"}, {"java", "pj"}}, Decls: []*Decl{kind, foo}}}
	}
	// inherited from another file
	f.Decls = []*Decl{{Kind: "data", Name: "All", Ext: []string{"Up"}}}
	f.Imports = []string{"o.hbuf"}
	d.Name = "Up"
	return []*File{f, {Path: "o.hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{kind, foo, d}}}
}

func text(target string, fs []*File, base, kind string) string {
	outs := gen.Must(target, fs...)
	if target == "java" {
		return gen.Find(outs, build.StringToHumpName(base)+build.StringToHumpName(kind)+".java")
	}
	return gen.Find(outs, base+"."+kind+"."+target)
}

// loose are the parts in which every field can be left out.
var loose = map[string]bool{"with": true, "withimpl": true}

func check(target string, ts []Type) {
	fs := files(ts)
	up := len(fs) > 1 && len(fs[0].Decls[0].Members) == 0
	txt := text(target, fs, "in", "data")
	name := "All"
	if up && target == "go" {
		txt = text(target, fs, "o", "data")
		name = "Up"
	}
	sym.Note("text", txt)
	var d *view.Data
	for _, x := range view.Datas(target, txt) {
		if x.Name == name {
			d = x
		}
	}
	sym.Assert(d != nil, "a data type keeps its name")
	parts := append([]string{}, view.Parts[target]...)
	if !up || target == "go" {
		parts = append(parts, view.Own[target]...)
	}
	for i, t := range ts {
		n := 0
		for _, part := range parts {
			for _, f := range d.Parts[part] {
				if f.Type == nil || build.StringToFirstLower(f.Name) != "it"+string(rune('a'+i)) || src.Join(f.Type) == "this." {
					continue
				}
				n++
				sym.Note("part", part+": "+src.Join(f.Type))
				g := view.ParseType(target, f.Type)
				acc := target == "go" && (part == "get" || part == "set")
				sym.Assert(agree(target, g, t, optional(t), acc || loose[part]), "the generated type is the declared one")
				if part == "factory" {
					sym.Assert(f.Required == !optional(t), "an argument is required exactly where the field is not optional")
				}
			}
		}
		sym.Assert(n > 0, "a field has a type")
	}
	sym.Cover(target)
}

func names() []string { return append(append([]string{}, bases...), "Kind", "Foo") }

// H_types: plain fields and lists.
//
// bounds: all 14 base types, an enum and a data type; plain or a list, each optional or not and with optional elements or not; of the same file, an imported one in another package, or inherited across files; 4 targets; every place the generated data code names a type
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,java,ts
func H_types() {
	target := gen.Targets[sym.Pick("target", 4)]
	n := names()[sym.Pick("base", 16)]
	check(target, []Type{{Name: n}, {Name: n, Opt: true}, {Name: n, Shape: List}, {Name: n, Shape: List, Opt: true}, {Name: n, Shape: List, Outer: true}, {Name: n, Shape: List, Opt: true, Outer: true}})
}

// H_maps: maps.
//
// bounds: any of 15 key types with any of 16 element types, optional or not, with optional elements or not; places and targets as for H_types
//
//sym:steps=60000000 depth=400 time=300 cover=go,dart,java,ts
func H_maps() {
	target := gen.Targets[sym.Pick("target", 4)]
	key := append(append([]string{}, bases...), "Kind")[sym.Pick("key", 15)]
	n := names()[sym.Pick("base", 16)]
	check(target, []Type{{Name: n, Shape: Map, Key: key}, {Name: n, Shape: Map, Key: key, Opt: true}, {Name: n, Shape: Map, Key: key, Outer: true}, {Name: n, Shape: Map, Key: key, Opt: true, Outer: true}})
}

// H_names: a symbolic spelling of the type names.
//
// bounds: a field of a type or of maps of it and an enum, whose names have a letter the solver chooses; 4 targets
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,java,ts
func H_names() {
	target := gen.Targets[sym.Pick("target", 4)]
	a := "Foo" + sym.StrOf("letter", 1, "bcdefgh")
	b := "Foo" + sym.StrOf("letter", 1, "bcdefgh")
	sym.Assume(a != b)
	shape := []Type{{Name: b}, {Name: b, Opt: true}, {Name: b, Shape: List, Outer: true}, {Name: b, Shape: Map, Key: a, Opt: true}, {Name: a, Shape: Map, Key: a}}[sym.Pick("shape", 5)]
	d := &Decl{Kind: "data", Name: "All", Members: []*Member{{Name: "ita", ID: "0", Type: shape}}}
	f := &File{Path: "in.hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{
		{Kind: "enum", Name: a, Members: []*Member{{Name: "one", ID: "1"}}},
		{Kind: "data", Name: b, Members: []*Member{{Name: "id", ID: "0", Type: Type{Name: "int32"}}}}, d}}
	txt := text(target, []*File{f}, "in", "data")
	for _, x := range view.Datas(target, txt) {
		if x.Name != "All" {
			continue
		}
		for _, part := range append(append([]string{}, view.Parts[target]...), view.Own[target]...) {
			for _, fd := range x.Parts[part] {
				if fd.Type == nil || src.Join(fd.Type) == "this." {
					continue
				}
				g := view.ParseType(target, fd.Type)
				for g.Elem != nil {
					if g.Key != nil && target != "ts" {
						sym.Assert(g.Key.Name == shape.Key, "the key type is the declared one")
					}
					g = g.Elem
				}
				sym.Note("part", part+": "+src.Join(fd.Type))
				sym.Assert(g.Name == shape.Name, "the type is the declared one")
				sym.Cover(target)
			}
		}
	}
}
