// C07: inheritance is flattened completely, once, and terminates.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/view"
)

func main() {
	sym.Main(map[string]func(){"H_fields": H_fields, "H_methods": H_methods, "H_four": H_four, "H_cycle": H_cycle})
}

var pk = []KV{{"go", "pk"}, {"java", "pj"}}

var names = []string{"Alpha", "beta_b", "Gamma", "delta"}

// kinds are field types that differ in every target.
var kinds = []string{"bool", "string", "int32", "int64"}

var spelled = map[string][]string{
	"go":   {"bool", "string", "int32", "hbuf.Int64"},
	"dart": {"bool", "String", "int", "Int64"},
	"java": {"Boolean", "String", "Integer", "Long"},
	"ts":   {"boolean", "string", "number", "Long"},
}

// graph returns n declarations of one member each; the first may inherit from
// any of the others, the second from those after it, and so on.
func graph(n int, server bool) []*Decl {
	var ds []*Decl
	for i := 0; i < n; i++ {
		d := &Decl{Kind: "data", Name: names[i]}
		m := &Member{Name: "it" + sym.StrOf("member", 1, "BCDE"), ID: string(rune('1' + i)), Type: Type{Name: kinds[i]}}
		if i == 0 && n < 4 && sym.Pick("spell", 2) == 1 {
			m.Name = "it_" + m.Name[2:]
		}
		if server {
			d.Kind = "server"
			m.Type.Name = "Res" + string(rune('0'+i))
			m.Param.Name = "Ask"
			m.ParamName = "req"
		}
		d.Members = []*Member{m}
		for j := i + 1; j < n; j++ {
			if sym.Bool("inherits") {
				d.Ext = append(d.Ext, names[j])
			}
		}
		ds = append(ds, d)
	}
	return ds
}

// place puts the declarations into files.
func place(ds []*Decl, server bool) []*File {
	var extra []*Decl
	if server {
		for _, n := range []string{"Ask", "Res0", "Res1", "Res2", "Res3"} {
			extra = append(extra, &Decl{Kind: "data", Name: n})
		}
	}
	f := &File{Path: "m.hbuf", Packages: pk}
	k := 3
	if len(ds) > 3 {
		k = 2
	}
	switch (sym.Pick("place", k) + k) % 3 {
	case 0:
		f.Decls = append(extra, ds...)
		return []*File{f}
	case 1:
		f.Decls = extra
		for i := range ds {
			f.Decls = append(f.Decls, ds[len(ds)-1-i])
		}
		return []*File{f}
	}
	f.Decls = ds[:1]
	f.Imports = []string{"o.hbuf"}
	sym.Cover("files")
	return []*File{f, {Path: "o.hbuf", Packages: pk, Decls: append(extra, ds[1:]...)}}
}

func file(target, base, kind string) string {
	if target == "java" {
		return build.StringToHumpName(base) + build.StringToHumpName(kind) + ".java"
	}
	return base + "." + kind + "." + target
}

// once checks that the fields of a part are the wanted ones, in any order.
func once(part string, got []string, want []Flat, spell func(string) string) {
	sym.Note("part", part)
	sym.Assert(len(got) == len(want), "every field is generated once")
	for _, w := range want {
		n := 0
		for _, g := range got {
			for k, m := range w.From {
				if g == spell(m.Name) && (k == 0 || spell(m.Name) != spell(w.From[0].Name)) {
					n++
				}
			}
		}
		sym.Assert(n == 1, "a declared or inherited field is generated once")
	}
}

func list(fs []view.Field) (r []string) {
	for _, f := range fs {
		r = append(r, f.Name)
	}
	return
}

func index(x string) int {
	for i, k := range kinds {
		if k == x {
			return i
		}
	}
	return -1
}

// won says whether the type is that of one of the declarations the field may
// be taken from.
func won(target string, t []src.Tok, w Flat) bool {
	for _, m := range w.From {
		if src.Join(t) == spelled[target][index(m.Type.Name)] {
			return true
		}
	}
	return false
}

// fields checks the data type d.
func fields(target string, fs []*File, f *File, d *Decl, all []*view.Data) {
	find := func(n string) *view.Data {
		var r *view.Data
		for _, x := range all {
			if x.Name == n {
				r = x
			}
		}
		return r
	}
	v := find(build.StringToHumpName(d.Name))
	sym.Assert(v != nil, "a data type keeps its name")
	if v == nil {
		return
	}
	lower := func(n string) string {
		if target == "go" {
			return build.StringToHumpName(n)
		}
		return build.StringToFirstLower(n)
	}
	flat := Flatten(fs, Node{f, d})
	for _, p := range view.Parts[target] {
		spell := lower
		if target == "java" && p != "field" {
			spell = build.StringToHumpName
		}
		once(p, list(v.Parts[p]), flat, spell)
		for _, x := range v.Parts[p] {
			for _, w := range flat {
				if x.Name == spell(w.Name) && p == "field" {
					sym.Assert(won(target, x.Type, w), "a redeclared field takes the place of the inherited one")
				}
			}
		}
	}
	var own []Flat
	for _, m := range d.Members {
		own = append(own, Flat{Name: m.Name, From: []*Member{m}})
	}
	for _, p := range view.Own[target] {
		spell := lower
		if target == "java" {
			spell = build.StringToHumpName
		}
		once(p, list(v.Parts[p]), own, spell)
	}
	if target == "ts" || target == "dart" || target == "java" {
		for _, e := range d.Ext {
			n := 0
			for _, x := range v.Ext {
				if x == build.StringToHumpName(e) {
					n++
				}
			}
			sym.Assert(n == 1, "a data type inherits from the declared ones")
		}
	}
	if target == "go" {
		wires, types := view.Visible(v, find)
		sym.Known("go-diamond", !embeds(fs, Node{f, d}, flat))
		sym.Note("visible", join(wires))
		once("json", wires, flat, build.StringToUnderlineName)
		for i, n := range wires {
			for _, w := range flat {
				if n == build.StringToUnderlineName(w.Name) {
					sym.Assert(won(target, types[i], w), "a redeclared field takes the place of the inherited one")
				}
			}
		}
		sym.Known("go-diamond", false)
	}
}

func join(ss []string) (r string) {
	for _, s := range ss {
		r += s + " "
	}
	return
}

// embeds says whether embedding every base gives n the fields it should have.
func embeds(fs []*File, n Node, flat []Flat) bool {
	above, _ := Above(fs, n)
	var ds []*view.Data
	for _, a := range above {
		d := &view.Data{Name: a.Decl.Name, Ext: a.Decl.Ext, Parts: map[string][]view.Field{}}
		for _, m := range a.Decl.Members {
			t := []src.Tok{{Text: spelled["go"][index(m.Type.Name)]}}
			d.Parts["field"] = append(d.Parts["field"], view.Field{Wire: build.StringToUnderlineName(m.Name), Type: t})
		}
		ds = append(ds, d)
	}
	wires, types := view.Visible(ds[0], func(n string) *view.Data {
		for _, d := range ds {
			if d.Name == n {
				return d
			}
		}
		return nil
	})
	ok := len(wires) == len(flat)
	for i, n := range wires {
		for _, w := range flat {
			ok = ok && (n != build.StringToUnderlineName(w.Name) || won("go", types[i], w))
		}
	}
	return ok
}

func check(target string, n int, server bool) {
	ds := graph(n, server)
	fs := place(ds, server)
	outs := gen.Must(target, fs...)
	if len(ds[0].Ext) > 0 && ds[0].Members[0].Name == ds[1].Members[0].Name {
		sym.Cover("redeclared")
	}
	if server {
		methods(target, fs, outs)
		return
	}
	var all []*view.Data
	for _, f := range fs {
		t := gen.Find(outs, file(target, f.Path[:1], "data"))
		sym.Note("text", t)
		all = append(all, view.Datas(target, t)...)
	}
	sym.Assert(len(all) == n, "every data type is generated once")
	for _, f := range fs {
		for _, d := range f.Decls {
			fields(target, fs, f, d, all)
		}
	}
	sym.Cover(target)
}

func methods(target string, fs []*File, outs []gen.Out) {
	for _, f := range fs {
		t := gen.Find(outs, file(target, f.Path[:1], "server"))
		ss := view.Services(target, t)
		sym.Note("text", t)
		for _, d := range f.Decls {
			if d.Kind != "server" {
				continue
			}
			flat := Flatten(fs, Node{f, d})
			n := 0
			for _, s := range ss {
				if s.Name != build.StringToHumpName(d.Name) {
					continue
				}
				n++
				lists := [][]view.Method{s.Client}
				if target != "java" {
					lists = append(lists, s.Names)
				}
				if target == "dart" {
					lists = append(lists, s.IDs)
				}
				spell := build.StringToFirstLower
				if target == "go" {
					spell = build.StringToHumpName
				}
				for i, l := range lists {
					var got []string
					for _, m := range l {
						got = append(got, m.Name)
						for _, w := range flat {
							if i > 0 || m.Name != spell(w.Name) {
								continue
							}
							ok := false
							for _, x := range w.From {
								ok = ok || m.Result == x.Type.Name
							}
							sym.Assert(ok, "a redeclared method takes the place of the inherited one")
						}
					}
					once("methods", got, flat, spell)
				}
			}
			sym.Assert(n == 1, "every service is generated once")
		}
	}
	sym.Cover(target)
}

// H_fields: the fields of data types.
//
// bounds: 3 data types of one field each in every acyclic inheritance graph, any of 4 names each (so that any may redeclare any, with the same spelling or another one), parents declared before, after, or in another file; all targets
//
//sym:steps=90000000 depth=600 time=200 thorough.time=600 cover=go,dart,java,ts,redeclared,files
func H_fields() {
	check(gen.Targets[sym.Pick("target", len(gen.Targets))], 3, false)
}

// H_methods: the methods of services.
//
// bounds: 3 services of one method each in every acyclic inheritance graph, any of 4 names each, parents declared before, after, or in another file; all targets
//
//sym:steps=90000000 depth=600 time=200 thorough.time=600 cover=go,dart,java,ts,redeclared,files
func H_methods() {
	check(gen.Targets[sym.Pick("target", len(gen.Targets))], 3, true)
}

// H_four: four data types or services.
//
// bounds: 4 data types or services of one member each in every acyclic inheritance graph, any of 4 names each, parents declared before or in another file; all targets
//
//sym:steps=90000000 depth=600 time=1200 only=thorough cover=go,dart,java,ts
func H_four() {
	check(gen.Targets[sym.Pick("target", len(gen.Targets))], 4, sym.Pick("kind", 2) == 1)
}

// H_cycle: a graph with a cycle is an error, one without is not.
//
// bounds: 3 data types or services in every inheritance graph (also with themselves as base), in one file or spread over two that import each other; no target
//
//sym:steps=30000000 depth=400 time=100 cover=cycle,none
func H_cycle() {
	kind := []string{"data", "server"}[sym.Pick("kind", 2)]
	a := &File{Path: "a.hbuf", Packages: pk}
	b := &File{Path: "b.hbuf", Packages: pk}
	spread := sym.Pick("place", 3)
	fs := []*File{a}
	if spread > 0 {
		a.Imports = []string{"b.hbuf"}
		b.Imports = []string{"a.hbuf"}
		fs = append(fs, b)
	}
	for i := 0; i < 3; i++ {
		d := &Decl{Kind: kind, Name: names[i]}
		for j := 0; j < 3; j++ {
			if sym.Bool("inherits") {
				d.Ext = append(d.Ext, names[j])
			}
		}
		if i < spread {
			b.Decls = append(b.Decls, d)
		} else {
			a.Decls = append(a.Decls, d)
		}
	}
	Write(sym.Dir(), fs)
	_, err := Stub(sym.Dir() + "/*.hbuf")
	cycle := false
	for _, f := range fs {
		for _, d := range f.Decls {
			_, c := Above(fs, Node{f, d})
			cycle = cycle || c
		}
	}
	if cycle {
		sym.Assert(err != nil, "a cycle of inheritance is an error")
		sym.Cover("cycle")
	} else {
		if err != nil {
			sym.Note("error", err.Error())
		}
		sym.Assert(err == nil, "inheritance without a cycle is accepted")
		sym.Cover("none")
	}
}
