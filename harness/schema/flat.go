package schema

import "hbuf/pkg/build"

// Node is a declaration and the file it is in.
type Node struct {
	File *File
	Decl *Decl
}

// Lookup finds the declaration a name in file f stands for.
func Lookup(fs []*File, f *File, name string) (n Node, ok bool) {
	for _, d := range f.Decls {
		if d.Name == name {
			return Node{f, d}, true
		}
	}
	for _, i := range f.Imports {
		for _, g := range fs {
			if g.Path == i {
				for _, d := range g.Decls {
					if d.Name == name {
						return Node{g, d}, true
					}
				}
			}
		}
	}
	return
}

// Above returns n and all it inherits from, each once, n first; cycle says
// whether something inherits from itself.
func Above(fs []*File, n Node) (r []Node, cycle bool) {
	var visit func(n Node, path []*Decl)
	visit = func(n Node, path []*Decl) {
		for _, p := range path {
			if p == n.Decl {
				cycle = true
				return
			}
		}
		seen := false
		for _, o := range r {
			seen = seen || o.Decl == n.Decl
		}
		if !seen {
			r = append(r, n)
		}
		for _, e := range n.Decl.Ext {
			if m, ok := Lookup(fs, n.File, e); ok {
				visit(m, append(path[:len(path):len(path)], n.Decl))
			}
		}
	}
	visit(n, nil)
	return
}

// Flat is one field or method a declaration has, with the declarations it may
// be taken from: those which no other one that declares it inherits from.
type Flat struct {
	Name string
	From []*Member
	In   []Node
}

// Same says whether two names are one name in generated code.
func Same(a, b string) bool { return build.StringToHumpName(a) == build.StringToHumpName(b) }

// Flatten returns what n declares and inherits.
func Flatten(fs []*File, n Node) (r []Flat) {
	above, _ := Above(fs, n)
	type one struct {
		m *Member
		n Node
	}
	var all []one
	for _, a := range above {
		for _, m := range a.Decl.Members {
			all = append(all, one{m, a})
		}
	}
	done := make([]bool, len(all))
	for i := range all {
		if done[i] {
			continue
		}
		f := Flat{Name: all[i].m.Name}
		var group []one
		for j := i; j < len(all); j++ {
			if !done[j] && Same(all[i].m.Name, all[j].m.Name) {
				done[j] = true
				group = append(group, all[j])
			}
		}
		for _, g := range group {
			over := false
			for _, h := range group {
				if h.n.Decl != g.n.Decl {
					up, _ := Above(fs, h.n)
					for _, u := range up {
						over = over || u.Decl == g.n.Decl
					}
				}
			}
			if !over {
				f.From = append(f.From, g.m)
				f.In = append(f.In, g.n)
			}
		}
		r = append(r, f)
	}
	return
}
