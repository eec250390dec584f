// Package gram is a reference for the grammar of schema files, written from
// the language description and not from the parser's code, and a canonical
// dump of a syntax tree to compare with.
package gram

import (
	"strconv"
	"strings"

	"hbuf/pkg/ast"
	"hbuf/pkg/token"
	"hbuf/zz_verif/lex"
)

// Verdict on a text.
type Verdict int

const (
	No    Verdict = iota // must be rejected
	Yes                  // must be accepted
	Maybe                // leniencies the language description leaves open
)

type pars struct {
	t     []lex.Tok
	i     int
	bad   bool
	maybe bool
	open  bool // the tree is unspecified
	out   strings.Builder
}

func (p *pars) kind() string { return p.t[p.i].Kind }
func (p *pars) next() {
	if p.i < len(p.t)-1 {
		p.i++
	}
}
func (p *pars) fail() { p.bad = true }

func (p *pars) expect(k string) lex.Tok {
	t := p.t[p.i]
	if t.Kind != k {
		p.fail()
	}
	p.next()
	return t
}

func (p *pars) got(k string) bool {
	if p.kind() == k {
		p.next()
		return true
	}
	return false
}

func (p *pars) w(s ...string) {
	for _, x := range s {
		p.out.WriteString(x)
	}
}

// raw is a text literal; one in back quotes is written as if it were in double
// quotes (without carriage returns, which do not count), for the spelling does
// not matter.
func raw(s string) string {
	if len(s) < 2 || s[0] != '`' {
		return s
	}
	out := ""
	for i := 1; i < len(s)-1; i++ {
		if s[i] != '\r' {
			out += s[i : i+1]
		}
	}
	return strconv.Quote(out)
}

func at(t lex.Tok) string { return t.Lit + "@" + strconv.Itoa(t.Off) }

// end is the end of a statement: a terminator, or the bracket that closes the list.
func (p *pars) end() {
	if p.kind() == "}" || p.kind() == ")" {
		return
	}
	p.expect(";")
}

func (p *pars) tags() {
	for !p.bad && p.got("[") {
		p.w("[", at(p.expect("ident")), ":")
		p.expect(":")
		if p.kind() == "]" {
			p.maybe = true
		}
		for !p.bad && p.kind() != "]" {
			p.w(at(p.expect("ident")), "=")
			p.expect("=")
			for !p.bad {
				p.w(raw(p.expect("string").Lit))
				if !p.got(",") {
					break
				}
				p.w(",")
			}
			p.w(";")
			if p.kind() != "]" && !p.got(";") {
				p.maybe = true // no terminator between two entries
			}
		}
		p.expect("]")
		p.w("]")
		p.end()
	}
}

func (p *pars) id() {
	p.expect("=")
	p.w("=", at(p.expect("int")))
}

func (p *pars) extends() {
	for k := 0; !p.bad && (p.kind() == ":" || k > 0 && p.kind() == ","); k++ {
		if k > 0 && p.kind() == ":" {
			p.maybe = true
		}
		p.next()
		p.w(":", at(p.expect("ident")))
		p.id()
	}
}

// typ is a type; simple ones are a name only.
func (p *pars) typ(simple bool) {
	p.w("(", at(p.expect("ident")))
	if p.got("?") {
		p.w("?")
	}
	if p.kind() == "[" || p.kind() == "<" {
		if simple {
			p.fail()
			return
		}
		if p.got("[") {
			p.expect("]")
			p.w("[]")
		} else {
			p.expect("<")
			p.w("<")
			k := p.i
			p.typ(false)
			if p.bad {
				return
			}
			// a key that is not a plain name is left to the checker
			if p.i != k+1 {
				p.maybe = true
			}
			p.expect(">")
			p.w(">")
		}
		if p.got("?") {
			p.w("?")
		}
	}
	p.w(")")
}

func (p *pars) decl() {
	p.tags()
	switch {
	case p.bad:
	case p.got("data"):
		p.w("data ", at(p.expect("ident")))
		p.extends()
		p.expect("{")
		for !p.bad && p.kind() != "}" && p.kind() != "eof" {
			p.w(" ")
			p.tags()
			p.typ(false)
			p.w(at(p.expect("ident")))
			p.id()
			if p.kind() == "string" {
				p.maybe = true
				p.next()
			}
			p.end()
		}
	case p.got("enum"):
		p.w("enum ", at(p.expect("ident")))
		p.expect("{")
		for !p.bad && p.kind() != "}" && p.kind() != "eof" {
			p.w(" ")
			p.tags()
			p.w(at(p.expect("ident")))
			p.id()
			p.end()
		}
	case p.got("server"):
		p.w("server ", at(p.expect("ident")))
		p.extends()
		p.expect("{")
		for !p.bad && p.kind() != "}" && p.kind() != "eof" {
			p.w(" ")
			p.tags()
			p.typ(true)
			p.w(at(p.expect("ident")))
			p.expect("(")
			p.typ(true)
			p.w(at(p.expect("ident")))
			p.expect(")")
			p.id()
			p.end()
		}
	default:
		p.fail()
	}
	p.expect("}")
	if p.got("=") {
		p.maybe = true
	}
	p.end()
	p.w("\n")
}

func importOK(lit string) (ok, sure bool) {
	s, err := strconv.Unquote(lit)
	if err != nil {
		return false, false
	}
	if s == "" {
		return false, true
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '_' || c == '.' || c == '/' || c == '-') {
			return false, strings.IndexByte("!\"#$%&'()*,:;<=>?[]^{|}`\\ \t\n", c) >= 0
		}
	}
	return true, true
}

// Parse gives the verdict on src, and the dump of its tree unless it is No.
func Parse(src string) (string, Verdict) {
	t, valid := lex.Lex(src, false)
	if !valid {
		return "", No
	}
	p := &pars{t: t}
	packs := ""
	seen := map[string]bool{}
	for !p.bad && p.got("package") {
		n := p.expect("ident")
		p.expect("=")
		v := p.expect("string")
		p.expect(";")
		if seen[n.Lit] {
			p.maybe, p.open = true, true // two packages for one language: the tree keeps one
		}
		seen[n.Lit] = true
		packs += "package " + at(n) + "=" + raw(v.Lit) + "\n"
	}
	for !p.bad && p.got("import") {
		v := p.expect("string")
		p.end()
		if p.bad {
			break
		}
		ok, sure := importOK(v.Lit)
		if !sure {
			p.maybe = true
		} else if !ok {
			p.fail()
		}
		p.w("import ", raw(v.Lit), "\n")
	}
	for !p.bad && p.kind() != "eof" {
		p.decl()
	}
	if p.bad {
		return "", No
	}
	v := Yes
	if p.maybe {
		v = Maybe
	}
	if p.open {
		return "", v
	}
	return packs + p.out.String(), v
}

type dumper struct {
	strings.Builder
	f   *token.File
	bad bool
}

func (d *dumper) ident(i *ast.Ident) string {
	if i == nil {
		d.bad = true
		return ""
	}
	return i.Name + "@" + strconv.Itoa(d.f.Offset(i.NamePos))
}

func (d *dumper) lit(l *ast.BasicLit, pos bool, kind token.Token) string {
	if l == nil || l.Kind != kind {
		d.bad = true
		return ""
	}
	if pos {
		return l.Value + "@" + strconv.Itoa(d.f.Offset(l.ValuePos))
	}
	return raw(l.Value)
}

func (d *dumper) tags(ts []*ast.Tag) {
	for _, t := range ts {
		if t == nil {
			d.bad = true
			continue
		}
		d.WriteString("[" + d.ident(t.Name) + ":")
		for _, kv := range t.KV {
			if kv == nil {
				d.bad = true
				continue
			}
			d.WriteString(d.ident(kv.Name) + "=")
			for i, v := range kv.Values {
				if i > 0 {
					d.WriteString(",")
				}
				d.WriteString(d.lit(v, false, token.STRING))
			}
			d.WriteString(";")
		}
		d.WriteString("]")
	}
}

func (d *dumper) vtype(v *ast.VarType) {
	if v == nil {
		d.bad = true
		return
	}
	id, ok := v.TypeExpr.(*ast.Ident)
	if !ok {
		d.bad = true
		return
	}
	d.WriteString(d.ident(id))
	if v.Empty {
		d.WriteString("?")
	}
}

func (d *dumper) typ(t ast.Expr) {
	d.WriteString("(")
	switch x := t.(type) {
	case *ast.VarType:
		d.vtype(x)
	case *ast.ArrayType:
		d.vtype(x.VType)
		d.WriteString("[]")
		if x.Empty {
			d.WriteString("?")
		}
	case *ast.MapType:
		d.vtype(x.VType)
		d.WriteString("<")
		d.typ(x.Key)
		d.WriteString(">")
		if x.Empty {
			d.WriteString("?")
		}
	default:
		d.bad = true
	}
	d.WriteString(")")
}

func (d *dumper) extends(es []*ast.Extends) {
	for _, e := range es {
		if e == nil {
			d.bad = true
			continue
		}
		d.WriteString(":" + d.ident(e.Name) + "=" + d.lit(e.Id, true, token.INT))
	}
}

// Dump writes the tree canonically; ok is false if it has holes.
func Dump(f *ast.File, tf *token.File) (s string, ok bool) {
	d := &dumper{f: tf}
	var packs []*ast.PackageSpec
	for k, v := range f.Packages {
		if v == nil || v.Name == nil || v.Name.Name != k {
			d.bad = true
			continue
		}
		i := len(packs)
		packs = append(packs, v)
		for i > 0 && packs[i-1].Name.NamePos > v.Name.NamePos {
			packs[i], packs[i-1] = packs[i-1], packs[i]
			i--
		}
	}
	for _, v := range packs {
		d.WriteString("package " + d.ident(v.Name) + "=" + d.lit(v.Value, false, token.STRING) + "\n")
	}
	imports := 0
	for _, spec := range f.Specs {
		switch x := spec.(type) {
		case *ast.ImportSpec:
			if imports >= len(f.Imports) || f.Imports[imports] != x {
				d.bad = true
			}
			imports++
			d.WriteString("import " + d.lit(x.Path, false, token.STRING) + "\n")
		case *ast.TypeSpec:
			switch t := x.Type.(type) {
			case *ast.DataType:
				d.tags(t.Tags)
				d.WriteString("data " + d.ident(t.Name))
				if t.Name != x.Name {
					d.bad = true
				}
				d.extends(t.Extends)
				if t.Fields == nil {
					d.bad = true
					break
				}
				for _, fd := range t.Fields.List {
					d.WriteString(" ")
					d.tags(fd.Tags)
					d.typ(fd.Type)
					d.WriteString(d.ident(fd.Name) + "=" + d.lit(fd.Id, true, token.INT))
				}
			case *ast.EnumType:
				d.tags(t.Tags)
				d.WriteString("enum " + d.ident(t.Name))
				for _, it := range t.Items {
					d.WriteString(" ")
					d.tags(it.Tags)
					d.WriteString(d.ident(it.Name) + "=" + d.lit(it.Id, true, token.INT))
				}
			case *ast.ServerType:
				d.tags(t.Tags)
				d.WriteString("server " + d.ident(t.Name))
				d.extends(t.Extends)
				for _, m := range t.Methods {
					d.WriteString(" ")
					d.tags(m.Tags)
					d.WriteString("(")
					d.vtype(m.Result)
					d.WriteString(")" + d.ident(m.Name) + "(")
					d.vtype(m.Param)
					d.WriteString(")" + d.ident(m.ParamName) + "=" + d.lit(m.Id, true, token.INT))
				}
			default:
				d.bad = true
			}
			d.WriteString("\n")
		default:
			d.bad = true
		}
	}
	return d.String(), !d.bad && imports == len(f.Imports)
}
