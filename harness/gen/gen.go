// Package gen compiles a model schema with the real generators and reads what
// they wrote.
package gen

import (
	"hbuf/pkg/build"
	"hbuf/pkg/dart"
	"hbuf/pkg/golang"
	"hbuf/pkg/java"
	ts "hbuf/pkg/typescript"
	"hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Targets are the target names.
var Targets = []string{"go", "dart", "java", "ts"}

// Out is one written file.
type Out struct{ Path, Text string }

func register() {
	build.AddBuildType("go", golang.Build)
	build.AddBuildType("dart", dart.Build)
	build.AddBuildType("java", java.Build)
	build.AddBuildType("ts", ts.Build)
}

func read(dir, rel string) (r []Out) {
	es, err := os.ReadDir(filepath.Join(dir, rel))
	if err != nil {
		return nil
	}
	for _, e := range es {
		p := filepath.Join(rel, e.Name())
		if e.IsDir() {
			r = append(r, read(dir, p)...)
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, p))
		if err != nil {
			panic(err)
		}
		r = append(r, Out{p, string(b)})
	}
	return
}

var n = 0

// Compile writes the files to a fresh folder, compiles folder/pattern and
// returns the files written, sorted by path.
func Compile(target string, files []*schema.File, pattern string) ([]Out, error) {
	return CompilePack(target, files, pattern, "")
}

// CompilePack is Compile with a prefix for the import paths of packages.
func CompilePack(target string, files []*schema.File, pattern, pack string) ([]Out, error) {
	register()
	n++
	dir := sym.Dir() + "/g" + string(rune('a'+n/26)) + string(rune('a'+n%26))
	schema.Write(dir+"/in", files)
	err := build.Build(dir+"/out", dir+"/in/"+pattern, target, pack)
	r := read(dir, "out")
	for i := range r {
		r[i].Path = r[i].Path[len("out/"):]
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Path < r[j].Path })
	return r, err
}

// Must is Compile of everything for a schema that is well formed.
func Must(target string, files ...*schema.File) []Out {
	r, err := Compile(target, files, "*.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "a well formed schema compiles")
	return r
}

// Find returns the text of the file whose name ends in suffix, or "".
func Find(outs []Out, suffix string) string {
	for _, o := range outs {
		if strings.HasSuffix(o.Path, suffix) {
			return o.Text
		}
	}
	return ""
}

// Faulty compiles the files where the output file of that path cannot be
// written: the disk is full, or a folder is in its place.
func Faulty(target string, files []*schema.File, path string, full bool) error {
	register()
	n++
	dir := sym.Dir() + "/g" + string(rune('a'+n/26)) + string(rune('a'+n%26))
	schema.Write(dir+"/in", files)
	p := filepath.Join(dir, "out", path)
	if full {
		os.MkdirAll(filepath.Dir(p), 0o755)
		sym.Full(p)
	} else {
		os.MkdirAll(p, 0o755)
	}
	return build.Build(dir+"/out", dir+"/in/*.hbuf", target, "")
}
