// Package schema is an independent model of schema files: it prints them, and
// says which of their places, if any, break the rules of the language.
package schema

import (
	"hbuf/pkg/ast"
	"hbuf/pkg/build"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hbuf/zz_verif/sym"
	"os"
	"path/filepath"
)

type KV struct{ K, V string }

type Tag struct {
	Name string
	KV   []KV
}

type Shape int

const (
	Plain Shape = iota
	List
	Map
)

// Type is Name, Name[], or Name<Key>, with optional markers.
type Type struct {
	Name  string
	Opt   bool // of the value
	Shape Shape
	Key   string
	KeyOp bool
	Outer bool // optional list or map
}

func q(b bool) string {
	if b {
		return "?"
	}
	return ""
}

func (t Type) String() string {
	s := t.Name + q(t.Opt)
	switch t.Shape {
	case List:
		s += "[]" + q(t.Outer)
	case Map:
		s += "<" + t.Key + q(t.KeyOp) + ">" + q(t.Outer)
	}
	return s
}

// Member is an enum item (Name, ID), a field (Type, Name, ID) or a method
// (Type, Name, Param, ParamName, ID).
type Member struct {
	Doc       []string
	Tags      []Tag
	Name, ID  string
	Type      Type
	Param     Type
	ParamName string
	line      int
	text      string
}

type Decl struct {
	Doc     []string
	Kind    string // data, enum, server
	Name    string
	Tags    []Tag
	Ext     []string
	Members []*Member
	line    int
}

type File struct {
	Path     string
	Packages []KV
	Imports  []string // file names
	Decls    []*Decl
	Raw      string // the text itself, instead of all that
}

func tags(ts []Tag) string {
	s := ""
	for _, t := range ts {
		s += "[" + t.Name + ":"
		for i, kv := range t.KV {
			if i > 0 {
				s += ";"
			}
			s += kv.K + "=" + kv.V
		}
		s += "]\n"
	}
	return s
}

// Text prints the file, every declaration and member on one line.
func (f *File) Text() string {
	if f.Raw != "" {
		return f.Raw
	}
	line := 1
	s := ""
	for _, p := range f.Packages {
		s += "package " + p.K + " = \"" + p.V + "\"\n"
		line++
	}
	for _, p := range f.Imports {
		s += "import \"" + p + "\"\n"
		line++
	}
	for _, d := range f.Decls {
		for _, c := range d.Doc {
			s += "//" + c + "\n"
			line++
		}
		line += len(d.Tags)
		d.line = line
		s += tags(d.Tags) + d.Kind + " " + d.Name
		for i, e := range d.Ext {
			if i == 0 {
				s += " : "
			} else {
				s += ", "
			}
			s += e + " = " + string(rune('0'+i))
		}
		s += " {\n"
		line++
		for _, m := range d.Members {
			for _, c := range m.Doc {
				s += "\t//" + c + "\n"
				line++
			}
			line += len(m.Tags)
			m.line = line
			m.text = tags(m.Tags)
			if d.Kind != "enum" {
				m.text += m.Type.String() + " "
			}
			m.text += m.Name
			if d.Kind == "server" {
				m.text += "(" + m.Param.String() + " " + m.ParamName + ")"
			}
			m.text += " = " + m.ID
			s += "\t" + m.text + "\n"
			line++
		}
		s += "}\n"
		line++
	}
	return s
}

// Write puts the files into dir.
func Write(dir string, files []*File) {
	for _, f := range files {
		t := f.Text()
		p := filepath.Join(dir, f.Path)
		sym.Note(f.Path, t)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
}

// Mark is a place that breaks a rule.
type Mark struct {
	File string
	Line int
}

type checker struct {
	marks []Mark
	f     *File
	d     *Decl
}

// bad marks the member (or, for nil, the declaration) and the line its
// declaration starts on.
func (c *checker) bad(ms ...*Member) {
	c.marks = append(c.marks, Mark{c.f.Path, c.d.line})
	for _, m := range ms {
		if m != nil {
			c.marks = append(c.marks, Mark{c.f.Path, m.line})
		}
	}
}

var base = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "string", "date", "decimal"}
var words = []string{"data", "server", "enum", "import", "package"}

func isBase(n string) bool {
	r := false
	for _, b := range base {
		r = sym.Or(r, sym.Eq(b, n))
	}
	return r
}

func reserved(n string) bool {
	r := isBase(n)
	for _, b := range words {
		r = sym.Or(r, sym.Eq(b, n))
	}
	return r
}

func (c *checker) tags(ts []Tag, m *Member) {
	line := c.d.line - len(ts)
	if m != nil {
		line = m.line - len(ts)
	}
	for i, t := range ts {
		for j := 0; j < i; j++ {
			if ts[j].Name == t.Name {
				c.bad(m)
				c.marks = append(c.marks, Mark{c.f.Path, line + i}, Mark{c.f.Path, line + j})
			}
		}
		for j, kv := range t.KV {
			for k := 0; k < j; k++ {
				if t.KV[k].K == kv.K {
					c.bad(m)
					c.marks = append(c.marks, Mark{c.f.Path, line + i})
				}
			}
		}
	}
}

// find looks a name up in the file and then in its direct imports.
func find(fs []*File, f *File, name string) *Decl {
	for _, d := range f.Decls {
		if d.Name == name {
			return d
		}
	}
	for _, i := range f.Imports {
		for _, g := range fs {
			if g.Path == i {
				for _, d := range g.Decls {
					if d.Name == name {
						return d
					}
				}
			}
		}
	}
	return nil
}

// value of a number literal.
func value(s string) int {
	base := 10
	i := 0
	if len(s) > 1 && s[0] == '0' {
		base = 8
		i = 1
		switch s[1] {
		case 'x', 'X':
			base, i = 16, 2
		case 'b', 'B':
			base, i = 2, 2
		case 'o', 'O':
			i = 2
		}
	}
	v := 0
	for ; i < len(s); i++ {
		switch c := s[i]; {
		case c == '_':
		case c >= '0' && c <= '9':
			v = v*base + int(c-'0')
		case c >= 'a' && c <= 'f':
			v = v*base + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = v*base + int(c-'A') + 10
		}
	}
	return v
}

// Value is the value of a number literal.
func Value(s string) int { return value(s) }

// Check returns the places that break a rule; none means well formed. Cycles
// of inheritance are not its business.
func Check(fs []*File) []Mark {
	c := &checker{}
	for _, f := range fs {
		c.f = f
		for i, d := range f.Decls {
			c.d = d
			if reserved(d.Name) {
				c.bad()
			}
			for j := 0; j < i; j++ {
				if f.Decls[j].Name == d.Name {
					c.bad()
					c.marks = append(c.marks, Mark{f.Path, f.Decls[j].line})
				}
			}
			for _, imp := range f.Imports {
				for _, g := range fs {
					if g.Path == imp && g != f {
						for _, e := range g.Decls {
							if e.Name == d.Name {
								c.bad()
							}
						}
					}
				}
			}
			c.tags(d.Tags, nil)
			for j, e := range d.Ext {
				p := find(fs, f, e)
				if reserved(e) || p == nil || p.Kind != d.Kind {
					c.bad()
				}
				for k := 0; k < j; k++ {
					if d.Ext[k] == e {
						c.bad()
					}
				}
			}
			for j, m := range d.Members {
				c.tags(m.Tags, m)
				if reserved(m.Name) {
					c.bad(m)
				}
				for k := 0; k < j; k++ {
					o := d.Members[k]
					if o.Name == m.Name {
						c.bad(m, o)
					}
					if d.Kind != "server" && value(o.ID) == value(m.ID) {
						c.bad(m, o)
					}
				}
				switch d.Kind {
				case "data":
					c.field(fs, m)
				case "server":
					if reserved(m.ParamName) {
						c.bad(m)
					}
					if m.Type.Opt || !sym.Eq(m.Type.Name, "void") && !isData(fs, f, m.Type.Name) {
						c.bad(m)
					}
					if m.Param.Opt || !isData(fs, f, m.Param.Name) {
						c.bad(m)
					}
				}
			}
		}
	}
	return c.marks
}

func isData(fs []*File, f *File, n string) bool {
	d := find(fs, f, n)
	return d != nil && d.Kind == "data"
}

func (c *checker) field(fs []*File, m *Member) {
	if !isBase(m.Type.Name) {
		d := find(fs, c.f, m.Type.Name)
		if d == nil || d.Kind == "server" {
			c.bad(m)
		}
	}
	if m.Type.Shape == Map {
		ok := !m.Type.KeyOp
		if ok && !isBase(m.Type.Key) {
			d := find(fs, c.f, m.Type.Key)
			ok = d != nil && d.Kind == "enum"
		}
		if !ok {
			c.bad(m)
		}
	}
}

// Stub compiles dir/pattern with a target that only records the files it is
// given.
func Stub(in string) (files []string, err error) {
	build.AddBuildType("stub", func(file *ast.File, fset *token.FileSet, param *build.Param) error {
		files = append(files, file.Path)
		return nil
	})
	err = build.Build(sym.Dir()+"/out", in, "stub", "")
	return
}

// Place is where an error points.
func Place(err error) (file string, line int, ok bool) {
	switch e := err.(type) {
	case scanner.Error:
		return e.Pos.Filename, e.Pos.Line, true
	case *scanner.Error:
		return e.Pos.Filename, e.Pos.Line, true
	case scanner.ErrorList:
		if len(e) > 0 {
			return e[0].Pos.Filename, e[0].Pos.Line, true
		}
	}
	return "", 0, false
}

// Agree compiles the files and compares the verdict with the rules'. It
// reports whether they were accepted.
func Agree(fs []*File) bool {
	dir := sym.Dir()
	Write(dir, fs)
	files, err := Stub(dir + "/*.hbuf")
	marks := Check(fs)
	if len(marks) == 0 {
		sym.Cover("accepted")
		sym.Assert(err == nil, "a well-formed schema is accepted")
		sym.Assert(len(files) == len(fs), "every file is compiled")
		return true
	}
	sym.Cover("rejected")
	sym.Assert(err != nil, "a schema that breaks a rule is rejected")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Assert(len(files) == 0, "nothing is generated from a rejected schema")
		file, line, ok := Place(err)
		sym.Assert(ok, "an error has a place")
		hit := false
		for _, m := range marks {
			if filepath.Join(dir, m.File) == file && m.Line == line {
				hit = true
			}
		}
		sym.Assert(hit, "the error names an offending place")
	}
	return false
}
