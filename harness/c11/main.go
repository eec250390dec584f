// C11: client and server agree on every route.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/view"
)

func main() {
	sym.Main(map[string]func(){"H_own": H_own, "H_inherit": H_inherit, "H_ids": H_ids})
}

const small = "bcdefghijklmnopqrstuvwxyz"

// compiled is the service file generated for base.hbuf.
func compiled(target, base string, fs []*File) string {
	outs := gen.Must(target, fs...)
	if target == "java" {
		return gen.Find(outs, build.StringToHumpName(base)+"Server.java")
	}
	return gen.Find(outs, base+".server."+target)
}

func method(name, param, result string, id int) *Member {
	return &Member{Name: name, ID: string(rune('0' + id)), Type: Type{Name: result}, Param: Type{Name: param}, ParamName: "req"}
}

func res(s string) string {
	if s == "void" {
		return ""
	}
	return build.StringToHumpName(s)
}

// spell is the name of a method in the generated code.
func spell(target, n string) string {
	if target == "go" {
		return build.StringToHumpName(n)
	}
	return build.StringToFirstLower(n)
}

// declared says whether m is the method as declared by one of from.
func declared(target string, m view.Method, f Flat) (*Member, bool) {
	for _, d := range f.From {
		if m.Name == spell(target, d.Name) {
			if m.Param == build.StringToHumpName(d.Param.Name) && m.Result == res(d.Type.Name) {
				return d, true
			}
		}
	}
	return nil, false
}

// agree checks the services of one file.
func agree(target string, fs []*File, f *File, text string) {
	sym.Note("text", text)
	ss := view.Services(target, text)
	n := 0
	var routes []string
	for _, d := range f.Decls {
		if d.Kind != "server" {
			continue
		}
		var s *view.Service
		n++
		for _, x := range ss {
			if x.Name == build.StringToHumpName(d.Name) {
				s = x
			}
		}
		sym.Assert(s != nil, "a service keeps its name")
		if s == nil {
			continue
		}
		sym.Assert(len(s.Ext) == len(d.Ext), "a service extends the declared services")
		for i, e := range s.Ext {
			sym.Assert(i < len(d.Ext) && e == build.StringToHumpName(d.Ext[i]), "a service extends the services declared")
		}
		sym.Assert(len(s.Methods) == len(d.Members), "a service has the methods declared in it")
		for i, m := range d.Members {
			_, ok := declared(target, s.Methods[i], Flat{From: []*Member{m}})
			sym.Assert(ok, "a method is declared with its name, parameter and result")
		}
		mount := build.StringToUnderlineName(d.Name)
		sym.Assert(s.ClientName == mount, "the client names its service")
		sym.Assert(target == "java" || s.RouterName == mount, "the server has the name the client gives")
		flat := Flatten(fs, Node{f, d})
		sym.Assert(len(s.Client) == len(flat), "the client has every method once")
		if target != "java" {
			sym.Assert(len(s.Names) == len(flat), "the server registers every method once")
		}
		if target == "dart" {
			sym.Assert(len(s.IDs) == len(flat), "the server registers every method once by number")
		}
		for _, x := range flat {
			hits := 0
			for _, m := range s.Client {
				w, ok := declared(target, m, x)
				if !ok {
					continue
				}
				hits++
				route := build.StringToUnderlineName(d.Name) + "/" + build.StringToUnderlineName(w.Name)
				want := route
				if target == "go" { // below the name the server is mounted at
					want = build.StringToUnderlineName(d.Name) + "/" + route
				}
				sym.Assert(m.Route == want, "a client calls a method by its route")
				sym.Assert(m.Passed == m.Arg, "a client sends the argument")
				sym.Assert(target != "go" || m.Form, "a client encodes the argument")
				sym.Assert(m.Decode == m.Result, "a client reads the declared result")
				for _, r := range routes {
					sym.Assert(r != route, "every method has a route of its own")
				}
				routes = append(routes, route)
				if target == "java" {
					continue
				}
				found := 0
				for _, e := range s.Names {
					if e.Route != route {
						continue
					}
					found++
					sym.Assert(e.Name == m.Name, "a route leads to the method that is called")
					sym.Assert(e.Param == m.Param && e.Decode == m.Param, "a server reads the declared parameter")
					sym.Assert(target != "go" || (e.Result == "void") == (m.Result == "") && e.Form == (m.Result != ""), "a server answers if the method does")
				}
				sym.Assert(found == 1, "the route a client calls is registered once")
				if target == "dart" {
					byID(s, m)
				}
			}
			sym.Assert(hits == 1, "the client has the method with the declared parameter and result")
		}
	}
	sym.Assert(n == len(ss), "there are no other services")
	sym.Cover(target)
}

// byID: the number a client calls leads to the same method, unless another one
// of the service has the number, too.
func byID(s *view.Service, m view.Method) {
	share := 0
	for _, o := range s.Client {
		if o.ID == m.ID {
			share++
		}
	}
	sym.Known("dart-ids", share > 1)
	found, right := 0, false
	for _, e := range s.IDs {
		if e.ID == m.ID {
			found++
			right = e.Name == m.Name && e.Param == m.Param && e.Decode == m.Param
		}
	}
	sym.Assert(found == 1, "the number a client calls is registered once")
	sym.Assert(right, "a number leads to the method that is called")
	sym.Known("dart-ids", false)
}

func pair() []*Decl {
	return []*Decl{
		{Kind: "data", Name: "ask_it", Members: []*Member{{Type: Type{Name: "int32"}, Name: "a", ID: "0"}}},
		{Kind: "data", Name: "Answer", Members: []*Member{{Type: Type{Name: "string"}, Name: "b", ID: "0"}}},
	}
}

var pk = []KV{{"go", "pk"}, {"java", "pj"}}

func word(label string, form int) string {
	c := sym.StrOf(label, 1, small)
	switch form {
	case 0:
		return "do" + c
	case 1:
		return "do_" + c + "x"
	case 2:
		return "do" + string(c[0]-32) + "x"
	}
	return "Do_1" + c
}

// H_own: methods of a service without base.
//
// bounds: 1 or 2 services of 1 or 2 methods, names of 4 spellings with any letter in them, each parameter one of two data types and each result one of them or none, in the same file or another one, with or without comments and tags; all targets
//
//sym:steps=60000000 depth=400 time=120 thorough.time=600 cover=go,dart,java,ts,other
func H_own() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	f := &File{Path: "m.hbuf", Packages: pk}
	fs := []*File{f}
	if sym.Pick("place", 2) == 1 {
		fs = append(fs, &File{Path: "o.hbuf", Packages: pk, Decls: pair()})
		f.Imports = []string{"o.hbuf"}
		sym.Cover("other")
	} else {
		f.Decls = pair()
	}
	types := []string{"ask_it", "Answer"}
	results := []string{"Answer", "ask_it", "void"}
	form := sym.Pick("form", 4)
	a := &Decl{Kind: "server", Name: "my" + sym.StrOf("service", 1, small) + "_service"}
	a.Members = append(a.Members, method(word("method", form), types[sym.Pick("param", 2)], results[sym.Pick("result", 3)], 3))
	f.Decls = append(f.Decls, a)
	if sym.Pick("decoration", 2) == 1 {
		a.Doc = []string{" a service"}
		a.Members[0].Doc = []string{" a method"}
		a.Members[0].Tags = []Tag{{"tag", []KV{{"auth", "\"x\""}}}}
	}
	if sym.Pick("more", 2) == 1 {
		m := method(word("second", form), "ask_it", "Answer", 1)
		sym.Assume(m.Name != a.Members[0].Name)
		a.Members = append(a.Members, m)
		b := &Decl{Kind: "server", Name: "Other" + sym.StrOf("service", 1, "SXYZ") + "ervice", Members: []*Member{method(word("other", form), "Answer", "void", 1)}}
		f.Decls = append(f.Decls, b)
	}
	agree(target, fs, f, compiled(target, "m", fs))
}

// tree is the services A, B, C and U, which inherit in one of 4 ways.
func tree(shape int) []*Decl {
	ds := services(shape)
	if m := ds[len(ds)-1].Members[0]; sym.Pick("spell", 2) == 1 {
		m.Name = m.Name[:2] + "_" + m.Name[2:]
	}
	return ds
}

func services(shape int) []*Decl {
	mk := func(n string, id int, param, result string, ext ...string) *Decl {
		c := sym.StrOf(n, 1, "BCDE")
		return &Decl{Kind: "server", Name: n, Ext: ext, Members: []*Member{method("do"+c, param, result, id)}}
	}
	var ds []*Decl
	switch shape {
	case 0:
		ds = []*Decl{mk("Alpha", 1, "ask_it", "Answer"), mk("the_user", 2, "Answer", "ask_it", "Alpha")}
	case 1:
		ds = []*Decl{mk("Alpha", 1, "ask_it", "Answer"), mk("Beta", 2, "Answer", "void", "Alpha"), mk("the_user", 3, "Answer", "ask_it", "Beta")}
	case 2:
		ds = []*Decl{mk("Alpha", 1, "ask_it", "Answer"), mk("Beta", 2, "Answer", "void"), mk("the_user", 3, "Answer", "ask_it", "Alpha", "Beta")}
	case 3:
		ds = []*Decl{mk("Alpha", 1, "ask_it", "Answer"), mk("Beta", 2, "Answer", "void", "Alpha"), mk("Gamma", 4, "ask_it", "void", "Alpha"), mk("the_user", 3, "Answer", "ask_it", "Beta", "Gamma")}
	}
	return ds
}

// H_inherit: inherited methods, redeclared or not.
//
// bounds: 2 to 4 services that inherit in a line, from two parents, or in a diamond, one method each, any of 4 names each (so that any may redeclare any, with the same spelling or another one), all in one file, or the last one in a file of its own, or in 3 files of 2 packages; all targets
//
//sym:steps=90000000 depth=600 time=200 thorough.time=900 cover=go,dart,java,ts,redeclared,files
func H_inherit() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	shape := sym.Pick("shape", 4)
	ds := tree(shape)
	last := ds[len(ds)-1]
	f := &File{Path: "m.hbuf", Packages: pk}
	fs := []*File{f}
	switch sym.Pick("place", 3) {
	case 0:
		f.Decls = append(pair(), ds...)
	case 1:
		b := &File{Path: "b.hbuf", Packages: pk, Decls: append(pair(), ds[:len(ds)-1]...)}
		f.Imports = []string{"b.hbuf"}
		f.Decls = ds[len(ds)-1:]
		fs = append(fs, b)
	case 2:
		o := &File{Path: "o.hbuf", Packages: pk, Decls: pair()}
		b := &File{Path: "b.hbuf", Packages: []KV{{"go", "base"}, {"java", "pj"}}, Imports: []string{"o.hbuf"}, Decls: ds[:len(ds)-1]}
		f.Imports = []string{"b.hbuf", "o.hbuf"}
		f.Decls = ds[len(ds)-1:]
		fs = append(fs, b, o)
		sym.Cover("files")
	}
	if last.Members[0].Name == ds[0].Members[0].Name {
		sym.Cover("redeclared")
	}
	agree(target, fs, f, compiled(target, "m", fs))
}

// H_ids: the numbers Dart also calls methods by.
//
// bounds: a service of 2 methods that inherits one, any ids of one digit; Dart
//
//sym:steps=60000000 depth=400 time=60 cover=apart
func H_ids() {
	n := func(m *Member) *Member {
		m.ID = sym.StrOf("id", 1, "0123456789")
		return m
	}
	f := &File{Path: "m.hbuf", Packages: pk, Decls: append(pair(),
		&Decl{Kind: "server", Name: "Base", Members: []*Member{n(method("one", "ask_it", "Answer", 0))}},
		&Decl{Kind: "server", Name: "User", Ext: []string{"Base"}, Members: []*Member{n(method("two", "Answer", "Answer", 0)), n(method("three", "ask_it", "ask_it", 0))}},
	)}
	fs := []*File{f}
	agree("dart", fs, f, compiled("dart", "m", fs))
	sym.Cover("apart")
}
