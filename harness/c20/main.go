// C20: imports are resolved completely and terminate.
package main

import (
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	sym.Main(map[string]func(){"H_graph": H_graph, "H_four": H_four, "H_use": H_use, "H_broken": H_broken, "H_names": H_names, "H_letters": H_letters})
}

// layouts are the folders the files are in.
var layouts = [][]string{
	{"a.hbuf", "b.hbuf", "c.hbuf", "d.hbuf"},
	{"a.hbuf", "sub/b.hbuf", "sub/deep/c.hbuf", "sub/a.hbuf"},
	{"x/a.hbuf", "y/a.hbuf", "b.hbuf", "y/b.hbuf"},
}

var types = []string{"Alpha", "Beta", "Gamma", "Delta"}

// path is how file i names file j, written in one of 5 ways.
func path(dir string, files []string, i, j, how int) string {
	r, err := filepath.Rel(filepath.Dir(files[i]), files[j])
	if err != nil {
		panic(err)
	}
	switch how {
	case 1:
		return "./" + r
	case 2:
		return "sub/../" + r
	case 3:
		return dir + "/" + files[j]
	case 4:
		return ".//" + r
	}
	return r
}

func data(name string, uses ...string) *Decl {
	d := &Decl{Kind: "data", Name: name}
	for i, u := range uses {
		d.Members = append(d.Members, &Member{Name: "f" + string(rune('a'+i)), ID: string(rune('0' + i)), Type: Type{Name: u}})
	}
	return d
}

// graph writes n files with any imports, each of which uses the types of the
// files it imports. It returns the reachable ones.
func graph(n int, files []string, how int, self bool) (fs []*File, reach []string, edges [][]bool) {
	dir := sym.Dir()
	edges = make([][]bool, n)
	for i := 0; i < n; i++ {
		edges[i] = make([]bool, n)
		f := &File{Path: files[i]}
		var uses []string
		for j := 0; j < n; j++ {
			if (self || i != j) && sym.Bool("imports") {
				edges[i][j] = true
				f.Imports = append(f.Imports, path(dir, files, i, j, how))
				uses = append(uses, types[j])
			}
		}
		f.Decls = []*Decl{data(types[i], uses...)}
		fs = append(fs, f)
	}
	seen := make([]bool, n)
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		reach = append(reach, filepath.Join(dir, files[i]))
		for j := range edges[i] {
			if edges[i][j] {
				visit(j)
			}
		}
	}
	visit(0)
	sort.Strings(reach)
	return
}

func same(got, want []string) bool {
	g := append([]string{}, got...)
	sort.Strings(g)
	if len(g) != len(want) {
		return false
	}
	for i := range g {
		if g[i] != want[i] {
			return false
		}
	}
	return true
}

func write(fs []*File) {
	Write(sym.Dir(), fs)
	if err := os.MkdirAll(sym.Dir()+"/sub", 0o755); err != nil {
		panic(err)
	}
}

func check(fs []*File, in string, want []string) {
	write(fs)
	got, err := Stub(in)
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "a schema whose imports exist is compiled")
	for _, g := range got {
		sym.Note("compiled", g)
	}
	sym.Assert(same(got, want), "each reachable file is loaded once, and no other")
}

// H_graph: every import graph of 3 files.
//
// bounds: 3 files with any imports among them (also of themselves), in one folder or several, import paths written in 5 ways (plain, ./, through another folder, absolute, doubled slash), each file using the types of all its imports
//
//sym:steps=60000000 depth=400 time=200 cover=some,all
func H_graph() {
	files := layouts[sym.Pick("layout", len(layouts))]
	fs, want, _ := graph(3, files, sym.Pick("how", 5), true)
	check(fs, sym.Dir()+"/"+files[0], want)
	if len(want) == 3 {
		sym.Cover("all")
	} else {
		sym.Cover("some")
	}
}

// H_four: every import graph of 4 files.
//
// bounds: 4 files with any imports of each other, in one folder or several
//
//sym:steps=60000000 depth=400 time=900 only=thorough
func H_four() {
	files := layouts[sym.Pick("layout", len(layouts))]
	fs, want, _ := graph(4, files, 0, false)
	check(fs, sym.Dir()+"/"+files[0], want)
}

// H_use: the types of a file that is imported directly can be used, and those
// of others cannot; the input may be relative to the working directory.
//
// bounds: 3 files with any imports, the first of which also uses the type of any one of them; the input named absolutely, relative, or with ./
//
//sym:steps=60000000 depth=400 time=200 cover=yes,no
func H_use() {
	files := layouts[0]
	fs, want, edges := graph(3, files, sym.Pick("how", 2), false)
	k := sym.Pick("use", 3)
	d := fs[0].Decls[0]
	d.Members = append(d.Members, &Member{Name: "last", ID: "9", Type: Type{Name: types[k]}})
	write(fs)
	in := sym.Dir() + "/a.hbuf"
	base := sym.Dir()
	if form := sym.Pick("input", 3); form > 0 {
		if err := os.Chdir(sym.Dir()); err != nil {
			panic(err)
		}
		in = []string{"a.hbuf", "./a.hbuf"}[form-1]
		base = ""
	}
	got, err := Stub(in)
	if k == 0 || edges[0][k] {
		if err != nil {
			sym.Note("error", err.Error())
		}
		sym.Assert(err == nil, "a type of a directly imported file can be used")
		for i := range want {
			want[i] = filepath.Join(base, filepath.Base(want[i]))
		}
		sym.Assert(same(got, want), "each reachable file is loaded once, and no other")
		sym.Cover("yes")
	} else {
		sym.Assert(err != nil && len(got) == 0, "a type of another file cannot be used")
		sym.Cover("no")
	}
}

// H_broken: an import of a missing or broken file is an error that tells which.
//
// bounds: 3 files with any imports, one of them missing, a folder, empty of text, or broken in 3 ways (a character, a missing bracket, an undefined type)
//
//sym:steps=60000000 depth=400 time=200 cover=error,unreached
func H_broken() {
	files := layouts[sym.Pick("layout", 2)]
	fs, want, edges := graph(3, files, 0, false)
	dir := sym.Dir()
	k := 1 + sym.Pick("which", 2)
	write(fs)
	p := filepath.Join(dir, files[k])
	how := sym.Pick("broken", 6)
	if err := os.Remove(p); err != nil {
		panic(err)
	}
	text := ""
	switch how {
	case 0: // missing
	case 1:
		if err := os.Mkdir(p, 0o755); err != nil {
			panic(err)
		}
	default:
		text = []string{"", "data A {\n#\n}\n", "data A {\n", "data A {\n Nothing x = 0\n}\n"}[how-2]
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	got, err := Stub(dir + "/" + files[0])
	reached := false
	for _, w := range want {
		reached = reached || w == p
	}
	if !reached {
		sym.Assert(err == nil && same(got, want), "a file that is not imported does not matter")
		sym.Cover("unreached")
		return
	}
	sym.Assert(err != nil, "an import of a missing or broken file is an error")
	sym.Assert(len(got) == 0, "nothing is generated")
	if err != nil {
		sym.Note("error", err.Error())
		file, line, ok := Place(err)
		sym.Assert(ok, "an error has a place")
		right := false
		if how > 2 {
			right = file == p && line > 0
		}
		// a file that misses a type may be told before a broken one
		for i := range files[:3] {
			if edges[i][k] && file == filepath.Join(dir, files[i]) {
				if how <= 1 {
					right = right || line == importLine(fs[i], path(dir, files, i, k, 0))
				} else {
					right = true
				}
			}
		}
		sym.Assert(right, "the error names the import or the broken file")
	}
	sym.Cover("error")
}

func importLine(f *File, p string) int {
	for i, x := range f.Imports {
		if x == p {
			return len(f.Packages) + i + 1
		}
	}
	return -1
}

// H_names: an import means the file of just that name.
//
// bounds: any file name and any imported name of 2 characters out of 8
//
//sym:steps=60000000 depth=400 time=100 cover=found,missing
func H_names() {
	const chars = "abB._-+~"
	disk := sym.StrOf("file", 2, chars) + ".hbuf"
	imp := sym.StrOf("import", 2, chars) + ".hbuf"
	sym.Assume(disk[0] != '.' || disk[1] != '.')
	dir := sym.Dir()
	Write(dir, []*File{{Path: "in.hbuf", Imports: []string{imp}, Decls: []*Decl{data("Alpha", "Beta")}}, {Path: disk, Decls: []*Decl{data("Beta")}}})
	got, err := Stub(dir + "/in.hbuf")
	if imp == disk {
		sym.Assert(err == nil && len(got) == 2, "the file of the imported name is loaded")
		sym.Cover("found")
	} else {
		sym.Assert(err != nil && len(got) == 0, "an import of a missing file is an error")
		sym.Cover("missing")
	}
}

// H_letters: the imported names are symbols the solver chooses.
//
// bounds: 3 files of 1 or 2 imports each, of any of 4 files (also the same one twice, or themselves), one of which does not exist
//
//sym:steps=60000000 depth=400 time=200 cover=found,missing
func H_letters() {
	files := []string{"a.hbuf", "b.hbuf", "c.hbuf"}
	dir := sym.Dir()
	var fs []*File
	more := sym.Pick("imports", 3)
	for i := range files {
		f := &File{Path: files[i], Decls: []*Decl{data(types[i])}}
		for j := 0; j < 1+(more+i)%3/2; j++ {
			f.Imports = append(f.Imports, sym.StrOf("import", 1, "abcz")+".hbuf")
		}
		fs = append(fs, f)
	}
	Write(dir, fs)
	got, err := Stub(dir + "/a.hbuf")
	var want []string
	missing := false
	var visit func(n string)
	visit = func(n string) {
		for _, w := range want {
			if w == filepath.Join(dir, n) {
				return
			}
		}
		for _, f := range fs {
			if f.Path == n {
				want = append(want, filepath.Join(dir, f.Path))
				for _, i := range f.Imports {
					visit(i)
				}
				return
			}
		}
		missing = true
	}
	visit("a.hbuf")
	sort.Strings(want)
	if missing {
		sym.Assert(err != nil && len(got) == 0, "an import of a missing file is an error")
		sym.Cover("missing")
		return
	}
	sym.Assert(err == nil && same(got, want), "each reachable file is loaded once, and no other")
	sym.Cover("found")
}
