// C21: the input pattern selects exactly the intended files.
package main

import (
	"hbuf/pkg/build"
	"hbuf/zz_verif/gen"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/view"
	"os"
	"path/filepath"
	"sort"
)

func main() {
	sym.Main(map[string]func(){"H_chars": H_chars, "H_stars": H_stars, "H_tree": H_tree, "H_outputs": H_outputs, "H_same": H_same})
}

// match says whether the pattern stands for the name.
func match(p, n string) bool {
	if p == "" {
		return n == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(n); i++ {
			if match(p[1:], n[i:]) {
				return true
			}
		}
		return false
	}
	return n != "" && n[0] == p[0] && match(p[1:], n[1:])
}

func put(p, text string) {
	p = sym.Dir() + "/" + p
	sym.Note(p, text)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// selected compiles the pattern and says whether just the wanted files were
// compiled.
func selected(in string, want ...string) bool {
	sym.Note("pattern", in)
	got, err := Stub(sym.Dir() + "/" + in)
	if err != nil {
		sym.Note("error", err.Error())
		return false
	}
	sort.Strings(got)
	sort.Strings(want)
	for _, g := range got {
		sym.Note("compiled", g)
	}
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != filepath.Join(sym.Dir(), want[i]) {
			return false
		}
	}
	return true
}

func pick(ok bool, n string) []string {
	if ok {
		sym.Cover("in")
		return []string{n}
	}
	sym.Cover("out")
	return nil
}

// H_chars: every character but the star stands for itself.
//
// bounds: any stem of 2 characters out of 16 as pattern, with any file name of the same length out of 16 characters or with one letter more in any place
//
//sym:steps=60000000 depth=400 time=200 cover=in,out
func H_chars() {
	p := sym.StrOf("pattern", 2, "ab.+?()[]^$|\\{}A") + ".hbuf"
	n := sym.StrOf("name", 2, "ab.+?()[]^$|\\{}A")
	switch sym.Pick("extra", 4) {
	case 1:
		n = "x" + n
	case 2:
		n = n[:1] + "x" + n[1:]
	case 3:
		n += "x"
	}
	n += ".hbuf"
	sym.Assume(p[0] != '.' || p[1] != '.')
	sym.Assume(n[0] != '.' || n[1] != '.')
	put(n, "data A {\n}\n")
	put("zzz.hbuf", "broken")
	ok := match(p, n)
	sym.Assert(selected(p, pick(ok, n)...), "a pattern without a star selects the file of that name")
}

// H_stars: a star stands for any text.
//
// bounds: patterns of 4 shapes with one or two stars and any letters out of 4, and file names of up to 3 such letters, also behind the suffix
//
//sym:steps=60000000 depth=400 time=200 thorough.time=600 cover=in,out
func H_stars() {
	const chars = "ab.\n"
	c := func() string { return sym.StrOf("pattern", 1, chars) }
	var p string
	switch sym.Pick("shape", 7) {
	case 0:
		p = "*"
	case 1:
		p = "*.hbuf"
	case 2:
		p = c() + "*.hbuf"
	case 3:
		p = "*" + c() + ".hbuf"
	case 4:
		p = c() + "*" + c() + ".hbuf"
	case 5:
		p = "*" + c() + "*"
	case 6:
		p = c() + "*.h*uf"
	}
	n := sym.StrOf("name", 1+sym.Pick("length", 3), chars)
	sym.Assume(n != "." && n != "..")
	n += []string{".hbuf", ".hbufx", ".hbuf.hbuf", "hbuf"}[sym.Pick("suffix", 4)]
	text := "data A {\n}\n"
	if filepath.Ext(n) != ".hbuf" {
		text = "no schema"
	}
	put(n, text)
	ok := match(p, n) && filepath.Ext(n) == ".hbuf"
	sym.Assert(selected(p, pick(ok, n)...), "a star stands for any text")
}

// H_tree: files are found in the whole tree, folders are no files, and files
// that are imported need not match.
//
// bounds: a tree of 5 files and 3 folders, names of one symbolic letter each, folders with or without the suffix of files; matching files import one another or not
//
//sym:steps=60000000 depth=400 time=200 cover=imported,deep
func H_tree() {
	x := func(l string) string { return sym.StrOf(l, 1, "ab") }
	sub := []string{"s", "."}[sym.Pick("hidden", 2)] + x("folder") + []string{"", ".hbuf"}[sym.Pick("suffix", 2)]
	deep := x("deep")
	files := []string{"1" + x("f") + ".hbuf", sub + "/2" + x("f") + ".hbuf", sub + "/" + deep + "/3" + x("f") + ".hbuf", "other/4" + x("f") + ".hbuf"}
	p := "*a.hbuf"
	var want []string
	imp := sym.Pick("import", 3)
	for i, f := range files {
		text := "data D" + string(rune('0'+i)) + " {\n}\n"
		ok := match(p, filepath.Base(f))
		if imp > 0 && i == imp {
			text = "import \"" + up(f) + files[3] + "\"\n" + text
			if ok && !match(p, filepath.Base(files[3])) {
				want = append(want, files[3])
				sym.Cover("imported")
			}
		}
		put(f, text)
		if ok {
			want = append(want, f)
			if i == 2 {
				sym.Cover("deep")
			}
		}
	}
	put("readme.txt", "a text")
	put("a", "a text")
	put(sub+"/brokenb.hbuf", "{{{")
	sym.Assert(selected(p, want...), "just the matching files of the tree and what they import are compiled")
}

func up(f string) string {
	s := ""
	for _, c := range f {
		if c == '/' {
			s += "../"
		}
	}
	return s
}

// outputs is the files a target writes for a schema file with a data type, an
// enum and a service.
func outputs(target, name string) (r []string) {
	for _, k := range []string{"data", "enum", "server"} {
		if target == "java" {
			r = append(r, build.StringToHumpName(name)+build.StringToHumpName(k)+".java")
		} else {
			r = append(r, name+"."+k+"."+target)
		}
	}
	return
}

// H_outputs: each file is written to outputs named after it.
//
// bounds: 3 files with names of symbolic letters, in one folder or three, one of which does not match and is imported or not; all targets
//
//sym:steps=60000000 depth=400 time=200 cover=go,dart,java,ts
func H_outputs() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	x := func(l string) string { return sym.StrOf(l, 1, "abcd") }
	dirs := [][]string{{"", "", ""}, {"", "x/", "y/z/"}}[sym.Pick("folders", 2)]
	names := []string{"one" + x("a"), "two" + x("b") + "_q", "a." + x("c")}
	imports := sym.Bool("imports")
	var fs []*File
	for i, n := range names {
		l := string(rune('A' + i))
		f := &File{Path: dirs[i] + n + ".hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{
			{Kind: "data", Name: "Data" + l, Members: []*Member{{Type: Type{Name: "int32"}, Name: "n", ID: "0"}}},
			{Kind: "enum", Name: "Enum" + l, Members: []*Member{{Name: "n", ID: "0"}}},
			{Kind: "server", Name: "Server" + l, Members: []*Member{{Type: Type{Name: "void"}, Name: "n", ID: "0", Param: Type{Name: "Data" + l}, ParamName: "a"}}},
		}}
		if i == 0 && imports {
			f.Imports = []string{dirs[2] + names[2] + ".hbuf"}
		}
		fs = append(fs, f)
	}
	outs, err := gen.Compile(target, fs, "*"+names[0][3:]+".hbuf")
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "the files are compiled")
	var want []string
	for i, n := range names {
		if match("*"+names[0][3:], n) || i == 2 && imports {
			want = append(want, outputs(target, n)...)
		}
	}
	sort.Strings(want)
	ok := len(outs) == len(want)
	for i := range want {
		p := ""
		if i < len(outs) {
			p = outs[i].Path
			if target == "go" {
				p = filepath.Base(p)
			}
		}
		sym.Note("file", p+" "+want[i])
		ok = ok && p == want[i]
	}
	sym.Assert(ok, "each file is written to outputs named after it, and nothing else is")
	sym.Cover(target)
}

// H_same: files of two folders do not write the same outputs.
//
// bounds: 2 files in 2 folders, with any names of one letter out of 4, in the same package or different ones; all targets
//
//sym:steps=60000000 depth=400 time=100 cover=go,dart,java,ts
func H_same() {
	target := gen.Targets[sym.Pick("target", len(gen.Targets))]
	a, b := sym.StrOf("name", 1, "abcd"), sym.StrOf("name", 1, "abcd")
	pack := []string{"pk", "pq"}[sym.Pick("package", 2)]
	fs := []*File{
		{Path: "x/" + a + ".hbuf", Packages: []KV{{"go", "pk"}, {"java", "pj"}}, Decls: []*Decl{{Kind: "enum", Name: "One", Members: []*Member{{Name: "n", ID: "0"}}}}},
		{Path: "y/" + b + ".hbuf", Packages: []KV{{"go", pack}, {"java", "pj"}}, Decls: []*Decl{{Kind: "enum", Name: "Two", Members: []*Member{{Name: "n", ID: "0"}}}}},
	}
	outs, err := gen.Compile(target, fs, "*.hbuf")
	sym.Assert(err == nil, "the files are compiled")
	sym.Known("same-name", a == b && !(target == "go" && pack == "pq"))
	n := 0
	for _, o := range outs {
		if len(view.Enums(target, o.Text)) == 1 {
			n++
		}
	}
	sym.Assert(n == 2, "each file has outputs of its own")
	sym.Known("same-name", false)
	sym.Cover(target)
}
