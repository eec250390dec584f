// C06: a schema is accepted exactly when it is well formed.
package main

import (
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
)

func main() {
	sym.Main(map[string]func(){"H_types": H_types, "H_reserved": H_reserved, "H_members": H_members, "H_ids": H_ids, "H_tags": H_tags, "H_refs": H_refs, "H_methods": H_methods, "H_extends": H_extends})
}

const letters = "abcd"

func name(label string) string { return sym.StrOf(label, 1, letters) }

func id(i int) string { return string(rune('0' + i)) }

var kinds = []string{"data", "enum", "server"}

func kind(label string) string { return kinds[sym.Pick(label, 3)] }

func decl(kind, name string) *Decl { return &Decl{Kind: kind, Name: name} }

func field(t Type, name string, id string) *Member { return &Member{Type: t, Name: name, ID: id} }

func method(r, name, p, pn string, id string) *Member {
	return &Member{Type: Type{Name: r}, Name: name, Param: Type{Name: p}, ParamName: pn, ID: id}
}

var i32 = Type{Name: "int32"}

func one(ds ...*Decl) []*File { return []*File{{Path: "m.hbuf", Decls: ds}} }

// H_types: unique type names in a file and across its imports.
//
// bounds: 3 (thorough: 4) declarations of any kind with any names of one letter out of four, spread over one file, a file that it imports (or imports back, or itself), and a file that those import
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_types() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	m := &File{Path: "m.hbuf"}
	b := &File{Path: "b.hbuf"}
	c := &File{Path: "c.hbuf"}
	fs := []*File{m, b, c}
	switch sym.Pick("imports", 6) {
	case 0:
		fs = fs[:1]
	case 1:
		m.Imports = []string{"b.hbuf"}
		b.Imports = []string{"c.hbuf"}
	case 2:
		m.Imports = []string{"b.hbuf", "c.hbuf"}
	case 3:
		m.Imports = []string{"b.hbuf"}
		b.Imports = []string{"m.hbuf"}
		fs = fs[:2]
	case 4:
		m.Imports = []string{"m.hbuf"}
		fs = fs[:1]
	case 5:
		fs = fs[:2]
	}
	for i := 0; i < n; i++ {
		f := fs[sym.Pick("file", len(fs))]
		f.Decls = append(f.Decls, decl(kind("kind"), name("name")))
	}
	Agree(fs)
}

// H_reserved: no reserved name at any place that declares or extends.
//
// bounds: any name of 3..7 letters and digits at 8 places
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_reserved() {
	n := 3 + sym.Pick("len", 5)
	s := sym.StrOf("first", 1, "abcdefghijklmnopqrstuvwxyz") + sym.StrOf("rest", n-1, "abcdefghijklmnopqrstuvwxyz12346")
	e := decl("enum", "A")
	e.Members = []*Member{{Name: "X", ID: "0"}}
	d := decl("data", "B")
	d.Members = []*Member{field(i32, "f", "0")}
	v := decl("server", "C")
	v.Members = []*Member{method("B", "g", "B", "p", "0")}
	switch sym.Pick("place", 8) {
	case 0:
		e.Name = s
	case 1:
		d.Name = s
		v.Members = nil
	case 2:
		v.Name = s
	case 3:
		e.Members[0].Name = s
	case 4:
		d.Members[0].Name = s
	case 5:
		v.Members[0].Name = s
	case 6:
		v.Members[0].ParamName = s
	case 7:
		d.Members[0].Type.Name = s
	}
	Agree(one(e, d, v))
}

// H_members: unique names of items, fields and methods.
//
// bounds: a declaration of each kind with 3 (thorough: 4) members with any names of one letter out of four
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_members() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	d := decl(kind("kind"), "A")
	for i := 0; i < n; i++ {
		m := field(i32, name("name"), id(i))
		if d.Kind == "server" {
			m = method("B", m.Name, "B", "p", id(i))
		}
		d.Members = append(d.Members, m)
	}
	// a name may come again in another declaration
	o := decl("data", "B")
	o.Members = []*Member{field(i32, name("name"), "0")}
	Agree(one(d, o))
}

// H_ids: unique ids of items and fields, by value.
//
// bounds: 2 items or fields with any decimal, octal, hexadecimal or binary ids of up to 2 digits (quick: the second of one digit)
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_ids() {
	d := decl(kinds[sym.Pick("kind", 2)], "A")
	for i := 0; i < 2; i++ {
		k := 1
		if i == 0 || sym.Thorough() {
			k += sym.Pick("digits", 2)
		}
		s := ""
		switch sym.Pick("base", 4) {
		case 0:
			s = sym.StrOf("dec1", 1, "0123456789")
			if k == 2 {
				sym.Assume(s != "0")
				s += sym.StrOf("dec", 1, "0123456789")
			}
		case 1:
			s = "0" + sym.StrOf("oct", k, "01234567")
		case 2:
			s = "0x" + sym.StrOf("hex", k, "0123456789abcdefABCDEF")
		case 3:
			s = "0b" + sym.StrOf("bin", k, "01")
		}
		d.Members = append(d.Members, field(i32, "f"+id(i), s))
	}
	Agree(one(d))
}

// H_tags: unique tags and unique keys within a tag.
//
// bounds: 2 (thorough: 3) tags with up to 2 keys each, with any names of one letter out of four, at 7 places, beside an unrelated tag
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_tags() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var ts []Tag
	for i := 0; i < n; i++ {
		t := Tag{Name: name("tag")}
		k := 2 - sym.Pick("keys", 2)
		for j := 0; j < k; j++ {
			t.KV = append(t.KV, KV{name("key"), "\"v\""})
		}
		ts = append(ts, t)
	}
	e := decl("enum", "A")
	e.Members = []*Member{{Name: "X", ID: "0"}, {Name: "Y", ID: "1"}}
	d := decl("data", "B")
	d.Members = []*Member{field(i32, "f", "0"), field(i32, "g", "1")}
	v := decl("server", "C")
	v.Members = []*Member{method("B", "g", "B", "p", "0")}
	other := []Tag{{Name: "a", KV: []KV{{"a", "\"v\""}}}}
	switch sym.Pick("place", 7) {
	case 0:
		e.Tags = ts
		e.Members[0].Tags = other
	case 1:
		d.Tags = ts
		d.Members[0].Tags = other
	case 2:
		v.Tags = ts
		v.Members[0].Tags = other
	case 3:
		e.Members[1].Tags = ts
		e.Members[0].Tags = other
	case 4:
		d.Members[0].Tags = ts
		d.Members[1].Tags = other
	case 5:
		d.Members[1].Tags = ts
		d.Tags = other
	case 6:
		v.Members[0].Tags = ts
		v.Tags = other
	}
	Agree(one(e, d, v))
}

// H_refs: what a field's type may name.
//
// bounds: a field of any shape whose value and key types are any names of one letter out of four, or a base type, while the file, a file it imports, and a file it does not import each declare a type of any kind
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_refs() {
	m := &File{Path: "m.hbuf", Imports: []string{"b.hbuf"}}
	b := &File{Path: "b.hbuf", Imports: []string{"c.hbuf"}}
	c := &File{Path: "c.hbuf"}
	fs := []*File{m, b, c}
	d := decl("data", "D")
	for i, f := range fs {
		f.Decls = []*Decl{decl(kind("kind"), letters[i:i+1])}
	}
	if sym.Pick("order", 2) == 0 {
		m.Decls = append(m.Decls, d)
	} else {
		m.Decls = append([]*Decl{d}, m.Decls...)
	}
	t := Type{Name: name("type"), Opt: sym.Pick("opt", 2) == 1}
	switch sym.Pick("shape", 4) {
	case 1:
		t.Shape = List
		t.Outer = sym.Pick("outer", 2) == 1
	case 2:
		t.Shape = Map
		t.Key = name("key")
		t.KeyOp = sym.Pick("keyopt", 2) == 1
	case 3:
		t.Shape = Map
		t.Key = name("key")
		t.Name = "string"
	}
	if t.Shape == Map && t.Name != "string" && sym.Pick("basekey", 2) == 1 {
		t.Key = "int64"
	}
	x := field(t, "f", "1")
	d.Members = []*Member{x}
	if sym.Pick("where", 2) == 1 {
		d.Members = []*Member{field(i32, "g", "0"), x}
	}
	Agree(fs)
}

// H_methods: what a method may take and return.
//
// bounds: a method whose result and parameter are any names of one letter out of four, or a base type, or void, optional or not, while the file, a file it imports, and a file it does not import each declare a type of any kind
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_methods() {
	m := &File{Path: "m.hbuf", Imports: []string{"b.hbuf"}}
	b := &File{Path: "b.hbuf", Imports: []string{"c.hbuf"}}
	c := &File{Path: "c.hbuf"}
	fs := []*File{m, b, c}
	for i, f := range fs {
		f.Decls = []*Decl{decl(kind("kind"), letters[i:i+1])}
	}
	typ := func(label string) Type {
		t := Type{}
		switch sym.Pick(label, 4) {
		case 0:
			t.Name = "void"
		case 1:
			t.Name = "int32"
		case 2:
			t.Name = name(label)
		case 3:
			t.Name = name(label)
			t.Opt = true
		}
		return t
	}
	x := &Member{Type: typ("result"), Name: "f", Param: typ("param"), ParamName: "p", ID: "0"}
	s := decl("server", "S")
	d := decl("data", "D")
	g := method("D", "g", "D", "p", "1")
	s.Members = []*Member{x, g}
	if sym.Pick("where", 2) == 1 {
		s.Members = []*Member{g, x}
	}
	if sym.Pick("order", 2) == 0 {
		m.Decls = append(m.Decls, d, s)
	} else {
		m.Decls = append([]*Decl{s, d}, m.Decls...)
	}
	Agree(fs)
}

// H_extends: what a type may inherit from.
//
// bounds: a data type, server with up to 2 parents of any names of one letter out of four, while the file, a file it imports, and a file it does not import each declare a type of any kind
//
//sym:steps=3000000 depth=400 time=120 thorough.time=900 cover=accepted,rejected
func H_extends() {
	m := &File{Path: "m.hbuf", Imports: []string{"b.hbuf"}}
	b := &File{Path: "b.hbuf", Imports: []string{"c.hbuf"}}
	c := &File{Path: "c.hbuf"}
	fs := []*File{m, b, c}
	for i, f := range fs {
		f.Decls = []*Decl{decl(kind("kind"), letters[i:i+1])}
	}
	d := decl(kinds[2*sym.Pick("kind", 2)], "D")
	n := 1 + sym.Pick("parents", 2)
	for i := 0; i < n; i++ {
		if sym.Pick("reserved", 3) == 2 {
			d.Ext = append(d.Ext, "string")
		} else {
			d.Ext = append(d.Ext, name("parent"))
		}
	}
	if sym.Pick("order", 2) == 0 {
		m.Decls = append(m.Decls, d)
	} else {
		m.Decls = append([]*Decl{d}, m.Decls...)
	}
	Agree(fs)
}
