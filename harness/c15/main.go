// C15: generated Go files import exactly the packages they use.
package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/rich"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/tmpl"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_rich": H_rich, "H_types": H_types, "H_across": H_across, "H_clash": H_clash, "H_verify": H_verify, "H_db": H_db, "H_serve": H_serve})
}

const known = " bool byte error string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 float32 float64 any true false nil iota len make append new cap copy delete panic "

// goFile is what one generated file refers to.
type goFile struct {
	file      *ast.File
	path, dir string
	imports   map[string]string // by name
	decls     []string
	free      []string        // names that are not declared in the file
	packs     map[string]bool // names used as packages
}

func base(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }

func read(o gen.Out) *goFile {
	f, err := parser.ParseFile(token.NewFileSet(), o.Path, o.Text, 0)
	sym.Assert(err == nil, "generated Go parses")
	g := &goFile{file: f, path: o.Path, dir: o.Path[:strings.LastIndexByte(o.Path, '/')+1], imports: map[string]string{}, packs: map[string]bool{}}
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, "\"")
		n := base(p)
		if i.Name != nil {
			n = i.Name.Name
		}
		sym.Assert(g.imports[n] == "", "no two imports have one name")
		g.imports[n] = p
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				g.decls = append(g.decls, d.Name.Name)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					g.decls = append(g.decls, s.Name.Name)
				case *ast.ValueSpec:
					for _, n := range s.Names {
						g.decls = append(g.decls, n.Name)
					}
				}
			}
		}
	}
	keys := map[*ast.Ident]bool{} // field names in composite literals
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && x.Obj == nil {
				g.packs[x.Name] = true
			}
		case *ast.CompositeLit:
			if _, ok := n.Type.(*ast.MapType); !ok {
				for _, e := range n.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						if x, ok := kv.Key.(*ast.Ident); ok {
							keys[x] = true
						}
					}
				}
			}
		}
		return true
	})
	for _, x := range f.Unresolved {
		if !keys[x] {
			g.free = append(g.free, x.Name)
		}
	}
	return g
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// check checks all files of a compilation. prefix is the path of the packages
// that are generated.
func check(outs []gen.Out, prefix string) {
	var fs []*goFile
	for _, o := range outs {
		fs = append(fs, read(o))
	}
	in := func(dir, name string) bool {
		for _, g := range fs {
			if g.dir == dir && has(g.decls, name) {
				return true
			}
		}
		return false
	}
	for i, g := range fs {
		note := func(name string) {
			sym.Note("name", name)
			sym.Note("file", g.path+": "+outs[i].Text)
		}
		for n, p := range g.imports {
			if !g.packs[n] || in(g.dir, n) {
				note(n)
			}
			sym.Assert(g.packs[n] && !in(g.dir, n), "an imported package is used")
			_ = p
		}
		for _, n := range g.free {
			if g.imports[n] == "" && !in(g.dir, n) && !strings.Contains(known, " "+n+" ") {
				note(n)
				if g.packs[n] {
					sym.Assert(false, "a package that is used is imported")
				}
				sym.Assert(false, "a name that is used is declared")
			}
		}
	}
	// names of generated packages
	for i, o := range outs {
		foreign := false
		for _, p := range fs[i].imports {
			foreign = foreign || strings.HasPrefix(p, prefix) && !strings.Contains(p[len(prefix):], ".")
		}
		if !foreign {
			continue
		}
		ast.Inspect(fs[i].file, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			x, ok := s.X.(*ast.Ident)
			if !ok || x.Obj != nil {
				return true
			}
			p := fs[i].imports[x.Name]
			if !strings.HasPrefix(p, prefix) || strings.Contains(p[len(prefix):], ".") {
				return true
			}
			for _, g := range fs {
				if g.dir == p[len(prefix):]+"/" { // the package is generated here
					if !in(g.dir, s.Sel.Name) {
						sym.Note("name", x.Name+"."+s.Sel.Name)
						sym.Note("file", o.Path+": "+o.Text)
					}
					sym.Assert(in(g.dir, s.Sel.Name), "a name is imported from the package that declares it")
					break
				}
			}
			return true
		})
	}
	sym.Cover("checked")
}

func compile(fs []*File, pattern string) {
	compileAt([]string{"", "example.com/x/"}[sym.Pick("prefix", 2)], fs, pattern)
}

func compileAt(prefix string, fs []*File, pattern string) {
	outs, err := gen.CompilePack("go", fs, pattern, prefix)
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "the schema compiles")
	check(outs, prefix)
}

// H_rich: schemas that use every feature.
//
// bounds: the schemas of harness/rich; with a package prefix and without
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_rich() { compile(rich.Files(rich.Names[sym.Pick("name", len(rich.Names))]), "*.hbuf") }

// H_types: field types.
//
// bounds: a data type with one field of any of 16 types in 7 shapes, or two fields of any two types; with a package prefix and without
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_types() {
	a := tmpl.Bases[sym.Pick("base", 16)]
	s := tmpl.Shapes[sym.Pick("shape", 7)]
	text := "enum Kind {\n\tone = 1\n}\ndata Foo {\n\tint32 id = 0\n}\ndata All {\n\t" + strings.ReplaceAll(s, "T", a) + " a = 0\n"
	if s == "T" {
		text += "\t" + tmpl.Bases[sym.Pick("other", 16)] + " b = 1\n"
	}
	compile([]*File{{Path: "in.hbuf", Raw: rich.Head + text + "}\n"}}, "*.hbuf")
}

var uses = []string{"data All {\n\tEnu a = 0\n}\n", "data All {\n\tDat? a = 0\n}\n", "data All {\n\tDat[] a = 0\n}\n", "data All {\n\tint32<Enu> a = 0\n}\n", "data All {\n\tEnu?<string> a = 0\n}\n",
	"data All : Dat = 0 {\n\tint32 own = 0\n}\n", "data All {\n\tint32 x = 0\n}\nserver Ser {\n\tDat get(All req) = 0\n}\n", "data All {\n\tint32 x = 0\n}\nserver Ser {\n\tAll get(Dat req) = 0\n}\n",
	"server Ser : Sup = 0 {\n}\n", "data All {\n\tint32 x = 0\n}\nserver Ser : Sup = 0 {\n\tAll own(All req) = 0\n}\n", "data All {\n\tint32 x = 0\n}\nserver Ser {\n\tvoid get(All req) = 0\n}\n", "data All {\n\t[verify:format=\"Enu.one\"]\n\tint32 x = 0\n}\n",
	"data All {\n\tint32 x = 0\n}\nserver Ser {\n\t[bind:value=\"Sup.get\"]\n\tDat own(Dat req) = 0\n}\n", "[db:table=\"Tab\";list=\"parent\";get=\"self\"]\ndata All {\n\t[db:where=\"AND id = ?\"]\n\tint64 id = 0\n}\n", "data All {\n\tdate a = 0\n\tDat b = 1\n}\n"}

// H_across: uses of what another file declares.
//
// bounds: one of 15 uses of a type of an imported file: as a field, element, key, parent, parameter, result, parent of a service, rule, binding, or table; where the imported file declares the same package, another one, or one with dots, whose names have a letter the solver chooses; imported directly or not also by way of another file; with a package prefix and without
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_across() {
	pack := []string{"pk", "po", "q" + sym.StrOf("pack", 1, "abcd"), "qa.q" + sym.StrOf("pack", 1, "bcd")}[sym.Pick("kind", 4)]
	l := sym.StrOf("letter", 1, "abcd")
	text := strings.NewReplacer("Enu", "Enu"+l, "Dat", "Dat"+l, "Sup", "Sup"+l, "Tab", "Tab"+l).Replace(uses[sym.Pick("use", len(uses))])
	in := &File{Path: "in.hbuf", Raw: rich.Head + "import \"o.hbuf\"\n" + text}
	decl := "[format:min=\"3\"]\nenum Enu" + l + " {\n\t[format:min=\"3\"]\n\tone = 1\n}\ndata Dat" + l + " {\n\tint32 id = 0\n\tEnu" + l + " kind = 1\n}\nserver Sup" + l + " {\n\tDat" + l + " get(Dat" + l + " req) = 0\n}\n" +
		"[db:name=\"tab\"]\ndata Tab" + l + " {\n\t[db:key=\"true\"]\n\tint64 id = 0\n\t[db:]\n\tstring name = 1\n}\n"
	o := &File{Path: "o.hbuf", Raw: "package go = \"" + pack + "\"\npackage java = \"pj\"\n" + decl[len("[format:min=\"3\"]\n"):]}
	compile([]*File{in, o}, []string{"in.hbuf", "*.hbuf"}[sym.Pick("pattern", 2)])
}

// H_clash: packages whose names clash.
//
// bounds: the same 15 uses of a type of an imported file, with the type of another imported file; where the last parts of the packages of the two are the same, or that of the file itself, a package the generator imports, a name in generated code, a method's parameter or a letter the solver chooses; declared directly or in a file imported by the other; with a package prefix
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_clash() {
	pack := []string{"qa.u", "qa.pk", "db", "a.json", "context", "rpc", "data", "ctx", "val", "g", "req", "b.hbuf", "cache", "sql", sym.StrOf("pack", 1, "grsvix")}[sym.Pick("pack", 15)]
	other := []string{"qb.u", "pk", "u"}[sym.Pick("other", 3)]
	in := &File{Path: "in.hbuf", Raw: rich.Head + "import \"o.hbuf\"\nimport \"p.hbuf\"\n" + uses[sym.Pick("use", len(uses))] + "data Two {\n\tOth a = 0\n}\n[db:name=\"nn\";list=\"self\"]\ndata Three {\n\t[db:key=\"true\"]\n\tint64 id = 0\n\t[db:converter=\"json\"]\n\tOth a = 1\n}\n"}
	next := ""
	if sym.Pick("chain", 2) == 1 {
		next = "import \"p.hbuf\"\n"
	}
	o := &File{Path: "o.hbuf", Raw: "package go = \"" + pack + "\"\npackage java = \"pj\"\n" + next + "enum Enu {\n\t[format:min=\"3\"]\n\tone = 1\n}\ndata Dat {\n\tint32 id = 0\n\tEnu kind = 1\n}\nserver Sup {\n\tDat get(Dat req) = 0\n}\n" +
		"[db:name=\"tab\"]\ndata Tab {\n\t[db:key=\"true\"]\n\tint64 id = 0\n\t[db:]\n\tstring name = 1\n}\n"}
	p := &File{Path: "p.hbuf", Raw: "package go = \"" + other + "\"\npackage java = \"pj\"\ndata Oth {\n\tint32 id = 0\n}\n"}
	compileAt("example.com/x/", []*File{in, o, p}, "*.hbuf")
}

func try(fs []*File) {
	outs, err := gen.Compile("go", fs, "*.hbuf")
	if err != nil {
		sym.Cover("refused")
		return
	}
	check(outs, "")
}

// H_verify: verification rules.
//
// bounds: a field of any of 16 types, optional or not, with a rule that has any of a minimum, a maximum, a pattern and a null mark, of the same file or an imported one
//
//sym:steps=60000000 depth=400 time=200 cover=checked
func H_verify() {
	try(tmpl.Verify(tmpl.Bases[sym.Pick("base", 16)], sym.Pick("opt", 2) == 1).Files)
}

// H_db: database access.
//
// bounds: a table, or a query on one, with one of 10 operations, on itself or its parent; with or without a key and a cache; a column of any of 9 types in 5 shapes, with 4 kinds of tags; a query with 8 kinds of conditions
//
//sym:steps=60000000 depth=400 time=300 cover=checked
func H_db() { try(tmpl.DB().Files) }

// H_serve: services.
//
// bounds: a service of one or two methods, with a parent or without; each returns data or nothing, and has no binding, or one to a method of an imported service, with a parameter that has rules or without; with a package prefix and without
//
//sym:steps=60000000 depth=400 time=100 thorough.time=600 cover=checked
func H_serve() {
	in := "package go = \"pk\"\nimport \"o.hbuf\"\nenum Rule {\n[format:max=\"5\"]\none = 0\n}\ndata Req : Bar = 0 {\n}\n[verify:format=\"Rule.one\"]\ndata Hard : Bar = 0 {\n[verify:format=\"Rule.one\"]\nint32 a = 0\n}\n"
	parent := []string{"", " : Mine = 0", " : Other = 0"}[sym.Pick("parent", 3)]
	in += "server Serve" + parent + " {\n"
	n := 1 + sym.Pick("methods", 2)
	for i := 0; i < n; i++ {
		k := string(rune('a' + i))
		void := sym.Pick("void "+k, 2) == 1
		switch sym.Pick("bound "+k, 2) {
		case 1:
			in += "[bind:value=\"Other." + map[bool]string{true: "none", false: "get"}[void] + "\"]\n"
		}
		in += map[bool]string{true: "void", false: "Req"}[void] + " method_" + k + "(" + []string{"Req", "Hard"}[sym.Pick("param "+k, 2)] + " req) = " + string(rune('0'+i)) + "\n"
	}
	in += "}\n"
	if parent == " : Mine = 0" {
		in += "server Mine {\nvoid mine(Hard req) = 0\n}\n"
	}
	other := "package go = \"P\"\ndata Bar {\n}\nserver Other {\nvoid none(Bar req) = 5\nBar get(Bar req) = 6\n}\n"
	other = strings.Replace(other, "P", []string{"pk", "po"}[sym.Pick("package", 2)], 1)
	compile([]*File{{Path: "in.hbuf", Raw: in}, {Path: "o.hbuf", Raw: other}}, "*.hbuf")
}
