// C18: compilation is deterministic.
package main

import (
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/rich"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"path/filepath"
)

func main() {
	sym.Main(map[string]func(){"H_orders": H_orders, "H_pairs": H_pairs, "H_keys": H_keys, "H_error": H_error, "H_again": H_again, "H_alone": H_alone})
}

func alike(a, b []gen.Out) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func orders(n int) {
	target := gen.Targets[sym.Pick("target", 4)]
	fs := rich.Files(rich.Names[sym.Pick("schema", len(rich.Names))])
	first, err := gen.Compile(target, fs, "in.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil && len(first) > 0, "a well formed schema compiles")
	sym.MapOrders(n)
	second, err := gen.Compile(target, fs, "in.hbuf")
	sym.MapOrders(0)
	if !alike(first, second) {
		for i := range second {
			if i < len(first) && first[i] != second[i] {
				sym.Note("got "+second[i].Path, second[i].Text)
				sym.Note("want "+first[i].Path, first[i].Text)
			}
		}
	}
	sym.Assert(err == nil && alike(first, second), "the same schema gives the same files")
	sym.Cover("same")
}

// H_orders: the output does not depend on the order in which a table is gone
// through.
//
// bounds: 8 schemas that use together base types, lists, maps, inheritance, services, languages, database, validation, widgets and imports; 4 targets; any one loop over a hash table takes any order (of a table of more than 4 entries, any two come first), the others the order of insertion
//
//sym:steps=400000000 depth=400 time=300 cover=same
func H_orders() { orders(1) }

// H_pairs: the same, with two loops over tables in any order.
//
// bounds: as H_orders, any two loops in any order
//
//sym:steps=400000000 depth=400 time=1500 only=thorough cover=same
func H_pairs() { orders(2) }

// H_error: the error does not depend on the order in which a table is gone
// through either.
//
// bounds: 3 files with any imports of later ones, each with one of 5 mistakes or none, compiled together or from the first one; all loops over hash tables together take any order
//
//sym:steps=400000000 depth=400 time=300 cover=fails,fine
func H_error() {
	dir := sym.Dir()
	names := []string{"a.hbuf", "b.hbuf", "sub/c.hbuf"}
	types := []string{"Alpha", "Beta", "Gamma"}
	var fs []*File
	for i, n := range names {
		f := &File{Path: n}
		d := &Decl{Kind: "data", Name: types[i], Members: []*Member{{Name: "id", ID: "0", Type: Type{Name: "int32"}}}}
		f.Decls = []*Decl{d}
		for j := i + 1; j < len(names); j++ {
			if sym.Bool("imports") {
				f.Imports = append(f.Imports, names[j])
			}
		}
		switch sym.Pick("mistake", 5) {
		case 1: // two of one name
			f.Decls = append(f.Decls, d)
		case 2: // a type that does not exist
			d.Members = append(d.Members, &Member{Name: "x", ID: "1", Type: Type{Name: "Nothing"}})
		case 3: // two mistakes
			d.Members = append(d.Members, &Member{Name: "x", ID: "0", Type: Type{Name: "Nothing"}})
		case 4: // a cycle
			d.Ext = []string{types[i]}
		}
		fs = append(fs, f)
	}
	in := []string{"*.hbuf", "a.hbuf"}[sym.Pick("input", 2)]
	Write(dir, fs)
	one, err1 := Stub(filepath.Join(dir, in))
	sym.MapOrder(true)
	two, err2 := Stub(filepath.Join(dir, in))
	sym.MapOrder(false)
	sym.Assert((err1 == nil) == (err2 == nil), "compilation fails each time or never")
	sym.Assert(len(one) == len(two), "the same files are compiled")
	for i := range one {
		sym.Assert(one[i] == two[i], "the same files are compiled, in the same order")
	}
	if err1 == nil {
		sym.Cover("fine")
		return
	}
	sym.Note("first", err1.Error())
	sym.Note("second", err2.Error())
	sym.Assert(err1.Error() == err2.Error(), "the same mistake is reported")
	sym.Cover("fails")
}

// H_keys: the keys are symbols, so that the solver decides which are equal and
// how they sort.
//
// bounds: a method with 3 tags, or an enum with 3 languages, of any names out of 6 of one character or more (case also differing), any one loop over a hash table in any order; Go, and Dart or TypeScript
//
//sym:steps=400000000 depth=400 time=300 cover=same
func H_keys() {
	var k [3]string
	for i := range k {
		k[i] = sym.StrOf("key", 1, "abBzZ_") + []string{"", "x"}[sym.Pick("more", 2)]
	}
	target, text := "go", ""
	how := sym.Pick("schema", 3)
	v := k[0] + "=\"p\";" + k[1] + "=\"q\";" + k[2] + "=\"r\""
	if how == 0 {
		text = "data Foo {\n}\nserver User {\n\t[tag:" + v + "]\n\tFoo get(Foo req) = 0\n}\n"
	} else {
		target = []string{"dart", "ts"}[how-1]
		text = "enum Kind {\n\t[lang:" + v + "]\n\tone = 1\n}\n"
	}
	sym.Assume(k[0] != k[1] && k[0] != k[2] && k[1] != k[2])
	fs := []*File{{Path: "in.hbuf", Raw: rich.Head + text}}
	first, err := gen.Compile(target, fs, "in.hbuf")
	sym.Assert(err == nil && len(first) > 0, "a well formed schema compiles")
	sym.MapOrders(1)
	second, err := gen.Compile(target, fs, "in.hbuf")
	sym.MapOrders(0)
	sym.Assert(err == nil && alike(first, second), "the same schema gives the same files")
	sym.Cover("same")
}

// H_again: nothing is left over from an earlier compilation.
//
// bounds: any of 8 schemas compiled before and after any other of them (or a broken one), for the same or another target
//
//sym:steps=400000000 depth=400 time=300 cover=same
func H_again() {
	target := gen.Targets[sym.Pick("target", 4)]
	fs := rich.Files(rich.Names[sym.Pick("schema", len(rich.Names))])
	first, err := gen.Compile(target, fs, "in.hbuf")
	sym.Assert(err == nil && len(first) > 0, "a well formed schema compiles")
	k := sym.Pick("between", len(rich.Names)+1)
	between := target
	if sym.Bool("other target") {
		between = map[string]string{"go": "dart", "dart": "ts", "ts": "java", "java": "go"}[target]
	}
	if k < len(rich.Names) {
		gen.Compile(between, rich.Files(rich.Names[k]), "in.hbuf")
	} else {
		gen.Compile(between, []*File{{Path: "in.hbuf", Raw: rich.Head + "data Foo {\n\tNothing a = 0\n}\n"}}, "in.hbuf")
	}
	second, err := gen.Compile(target, fs, "in.hbuf")
	sym.Assert(err == nil && alike(first, second), "the same schema gives the same files")
	sym.Cover("same")
}

// H_alone: the output for a file does not depend on unrelated files.
//
// bounds: any of 8 schemas compiled with an unrelated file (any other of the schemas, with a name before or after it) and alone; 4 targets; packages alike in the first case and not in the second
//
//sym:steps=400000000 depth=400 time=300 cover=same
func H_alone() {
	target := gen.Targets[sym.Pick("target", 4)]
	fs := rich.Files(rich.Names[sym.Pick("schema", len(rich.Names))])
	where := sym.Pick("name", 2)
	name := []string{"aa", "zz"}[where]
	other := rich.Files(rich.Names[sym.Pick("other", len(rich.Names)-1)])[0]
	other.Path = name + ".hbuf"
	if where == 1 {
		other.Raw = "package go = \"px\"\npackage java = \"px\"\n" + other.Raw[len(rich.Head):]
	}
	alone, err := gen.Compile(target, fs, "in.hbuf")
	sym.Assert(err == nil && len(alone) > 0, "a well formed schema compiles")
	both, err := gen.Compile(target, append(fs, other), "*.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "an unrelated file does not matter")
	for _, a := range alone {
		found := false
		for _, b := range both {
			found = found || a == b
		}
		if !found {
			sym.Note("file", a.Path)
		}
		sym.Assert(found, "the output does not depend on an unrelated file")
	}
	sym.Cover("same")
}
