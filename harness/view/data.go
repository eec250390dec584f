package view

import "hbuf/zz_verif/src"

// Field is one mention of a field in a part of a class.
type Field struct {
	Name     string
	Type     []src.Tok // where it is declared
	Wire     string    // where it is read or written; with other names, if any
	Required bool      // a parameter that has to be given
	Omit     bool      // Go: left out if empty
	Expr     []src.Tok // what it is set to, or written as
}

// Data is a generated data type.
type Data struct {
	Name  string
	Ext   []string
	Parts map[string][]Field
}

// Parts is the places that name every field, inherited ones too, in each
// target. "get" and "set" name the own ones only (as "field" does in Go).
var Parts = map[string][]string{
	"go":   {},
	"dart": {"factory", "pass", "with", "field", "new", "read", "write", "withimpl", "withpass", "equal", "hash", "copy", "string"},
	"java": {"field", "getimpl", "setimpl"},
	"ts":   {"field", "read", "write", "copy"},
}

// Own is the places that name the fields a type itself declares.
var Own = map[string][]string{
	"go":   {"field", "get", "set"},
	"dart": {"get", "set"},
	"java": {"get", "set"},
	"ts":   {},
}

// Members cuts the body of a class into its members, without annotations.
func Members(toks []src.Tok) (r [][]src.Tok) {
	for i := 0; i < len(toks); {
		for src.Is(toks, i, "@", "*") {
			i += 2
		}
		from := i
		for ; i < len(toks); i++ {
			if toks[i].Kind != src.Punct {
				continue
			}
			if toks[i].Text == ";" {
				break
			}
			if toks[i].Text == "{" {
				i = src.End(toks, i)
				break
			}
			if toks[i].Text == "(" || toks[i].Text == "[" {
				i = src.End(toks, i)
			}
		}
		if i > from {
			e := i
			if e < len(toks) && toks[e].Text == "}" {
				e++
			}
			r = append(r, toks[from:e])
		}
		i++
	}
	return
}

// Datas returns the data types declared in text, in order.
func Datas(lang, text string) (r []*Data) {
	all, _ := src.Lex(lang, text)
	toks := src.Code(all)
	get := func(n string) *Data {
		for _, d := range r {
			if d.Name == n {
				return d
			}
		}
		d := &Data{Name: n, Parts: map[string][]Field{}}
		r = append(r, d)
		return d
	}
	for i := 0; i < len(toks); i++ {
		if lang == "go" {
			goData(toks, i, get)
			continue
		}
		if toks[i].Kind != src.Ident || !(toks[i].Text == "class" || toks[i].Text == "interface") || i+1 >= len(toks) {
			continue
		}
		o := src.Open(toks, i)
		end := src.End(toks, o)
		head, body := toks[i+1:o], toks[o+1:end]
		if len(head) == 1 && src.Find(body, 0, "interface") >= 0 {
			continue
		}
		i = end
		n := head[0].Text
		var ext []string
		for k, t := range head {
			if t.Text == "extends" || t.Text == "implements" {
				ext = append(ext, bases(head[k+1:])...)
			}
		}
		switch lang {
		case "dart":
			if n[0] == '_' {
				dartImpl(get(n[1:]), body)
			} else {
				d := get(n)
				d.Ext = append(d.Ext, ext...)
				dartClass(d, body)
			}
		case "java":
			if len(ext) > 0 && n == ext[0]+"Impl" {
				javaImpl(get(ext[0]), body)
			} else {
				d := get(n)
				d.Ext = append(d.Ext, ext...)
				javaInterface(d, body)
			}
		case "ts":
			d := get(n)
			d.Ext = append(d.Ext, ext...)
			tsClass(d, body)
		}
	}
	return
}

func (d *Data) add(part string, f Field) { d.Parts[part] = append(d.Parts[part], f) }

// params reads named parameters ("required T x", "T? x", "this.x").
func (d *Data) params(part string, toks []src.Tok) {
	if src.Is(toks, 0, "{") {
		toks = toks[1:src.End(toks, 0)]
	}
	for len(toks) > 0 {
		// up to the next comma outside of <>
		e, in := 0, 0
		for e < len(toks) && (in > 0 || toks[e].Text != ",") {
			switch toks[e].Text {
			case "<":
				in++
			case ">":
				in--
			}
			e++
		}
		p := toks[:e]
		if toks = toks[e:]; len(toks) > 0 {
			toks = toks[1:]
		}
		if len(p) == 0 {
			continue
		}
		f := Field{}
		if p[0].Text == "required" {
			f.Required = true
			p = p[1:]
		}
		f.Name = p[len(p)-1].Text
		f.Type = p[:len(p)-1]
		d.add(part, f)
	}
}

// args reads named arguments.
func (d *Data) args(part string, toks []src.Tok) {
	var args [][]src.Tok
	from := 0
	for _, p := range Split(toks, ",") { // also within < and >
		if n := len(args); n > 0 && (len(p) < 2 || p[0].Kind != src.Ident || p[1].Text != ":") && src.Find(args[n-1], 0, "<") >= 0 {
			args[n-1] = toks[from : from+len(args[n-1])+1+len(p)]
			continue
		} else if n > 0 {
			from += len(args[n-1]) + 1
		}
		args = append(args, p)
	}
	for _, p := range args {
		if len(p) < 3 || p[1].Text != ":" {
			d.add(part, Field{Name: "?" + src.Join(p)})
			continue
		}
		d.add(part, Field{Name: p[0].Text, Expr: p[2:], Wire: wire(p[2:])})
	}
}

// wire is the names looked up in expr; "" if there is none.
func wire(expr []src.Tok) string {
	w := ""
	for i := range expr {
		if (src.Is(expr, i, "map", "[") || src.Is(expr, i, "json", "[")) && i+2 < len(expr) && expr[i+2].Kind == src.String {
			if w != "" && w != expr[i+2].Text {
				return w + "," + expr[i+2].Text
			}
			w = expr[i+2].Text
		}
	}
	return w
}

// entries reads the entries of a map that is returned.
func (d *Data) entries(part string, toks []src.Tok, this bool) {
	for _, p := range Split(toks, ",") {
		if len(p) < 3 || p[0].Kind != src.String || p[1].Text != ":" {
			d.add(part, Field{Name: "?" + src.Join(p)})
			continue
		}
		f := Field{Wire: p[0].Text, Expr: p[2:]}
		for i, t := range f.Expr {
			if t.Kind != src.Ident {
				continue
			}
			mine := this && i > 1 && src.Is(f.Expr, i-2, "this", ".")
			for _, g := range d.Parts["field"] {
				mine = mine || !this && (i == 0 || f.Expr[i-1].Text != ".") && g.Name == t.Text
			}
			if !mine || f.Name == t.Text {
				continue
			}
			if f.Name != "" {
				f.Name += ","
			}
			f.Name += t.Text
		}
		d.add(part, f)
	}
}

func dartClass(d *Data, body []src.Tok) {
	for _, m := range Members(body) {
		n := len(m)
		switch {
		case n > 2 && m[n-2].Text == "get":
			d.add("get", Field{Name: m[n-1].Text, Type: m[:n-2]})
		case m[0].Text == "set" && n > 4:
			d.add("set", Field{Name: m[1].Text, Type: m[3 : n-2]})
		case src.Is(m, 0, "factory", d.Name, "("):
			e := src.End(m, 2)
			d.params("factory", m[3:e])
			if k := src.Find(m, e, "return", "_"+d.Name, "("); k > 0 {
				d.args("pass", m[k+3:src.End(m, k+2)])
			}
		case src.Is(m, 0, d.Name, "copyWith", "("):
			d.params("with", m[3:src.End(m, 2)])
		}
	}
}

func dartImpl(d *Data, body []src.Tok) {
	for _, m := range Members(body) {
		if src.Find(m, 0, "(") < 0 && src.Find(m, 0, "=", ">") < 0 && len(m) > 1 {
			d.add("field", Field{Name: m[len(m)-1].Text, Type: m[:len(m)-1]})
		}
	}
	for _, m := range Members(body) {
		switch {
		case src.Is(m, 0, "_"+d.Name, "("):
			d.params("new", m[2:src.End(m, 1)])
		case src.Is(m, 0, "static", "_"+d.Name, "fromMap"):
			if k := src.Find(m, 0, "return", "_"+d.Name, "("); k > 0 {
				d.args("read", m[k+3:src.End(m, k+2)])
			}
		case src.Find(m, 0, "toMap", "(", ")", "{", "return", "{") > 0:
			k := src.Find(m, 0, "return", "{") + 1
			d.entries("write", m[k+1:src.End(m, k)], false)
		case src.Is(m, 0, "_"+d.Name, "copyWith", "("):
			e := src.End(m, 2)
			d.params("withimpl", m[3:e])
			if k := src.Find(m, e, "return", "_"+d.Name, "("); k > 0 {
				d.args("withpass", m[k+3:src.End(m, k+2)])
			}
		case src.Find(m, 0, "operator") > 0:
			for k := range m {
				if src.Is(m, k, "*", "=", "=", "other", ".", "*") && m[k].Text == m[k+5].Text && m[k].Text != "runtimeType" {
					d.add("equal", Field{Name: m[k].Text})
				}
			}
		case src.Is(m, 0, "int", "get", "hashCode"):
			for k := range m {
				if src.Is(m, k, "*", ".", "hashCode") {
					d.add("hash", Field{Name: m[k].Text})
				}
			}
		case src.Is(m, 0, d.Name, "copy", "("):
			if k := src.Find(m, 0, "return", "_"+d.Name, "("); k > 0 {
				d.args("copy", m[k+3:src.End(m, k+2)])
			}
		case src.Is(m, 0, "String", "toString"):
			for _, t := range m {
				for k := 0; t.Kind == src.String && k < len(t.Text); k++ {
					if t.Text[k] == '$' {
						e := k + 1
						for e < len(t.Text) && t.Text[e] > ' ' {
							e++
						}
						d.add("string", Field{Name: t.Text[k+1 : e]})
					}
				}
			}
		}
	}
}

func accessor(d *Data, m []src.Tok, suffix string) {
	k := src.Find(m, 0, "(")
	if k < 2 || len(m[k-1].Text) < 4 {
		return
	}
	n := m[k-1].Text
	switch n[:3] {
	case "get":
		f := Field{Name: n[3:], Type: m[:k-1]}
		if src.Is(m, src.End(m, k)+1, "{", "return", "this", ".", "*", ";") {
			f.Wire = m[src.End(m, k)+5].Text
		}
		d.add("get"+suffix, f)
	case "set":
		e := src.End(m, k)
		f := Field{Name: n[3:], Type: m[k+1 : e-1]}
		if src.Is(m, e+1, "{", "this", ".", "*", "=", "value", ";") {
			f.Wire = m[e+4].Text
		}
		d.add("set"+suffix, f)
	}
}

func javaInterface(d *Data, body []src.Tok) {
	for _, m := range Members(body) {
		accessor(d, m, "")
	}
}

func javaImpl(d *Data, body []src.Tok) {
	for _, m := range Members(body) {
		if src.Find(m, 0, "(") < 0 && len(m) > 1 {
			d.add("field", Field{Name: m[len(m)-1].Text, Type: m[:len(m)-1]})
		} else if m[0].Text == "public" {
			accessor(d, m[1:], "impl")
		}
	}
}

func tsClass(d *Data, body []src.Tok) {
	for _, m := range Members(body) {
		if m[0].Text == "public" || len(m) < 3 || m[1].Text != ":" {
			continue
		}
		e := src.Find(m, 0, "=")
		if e < 0 {
			e = len(m)
		}
		f := Field{Name: m[0].Text, Type: m[2:e]}
		if e+1 < len(m) {
			f.Expr = m[e+1:]
		}
		d.add("field", f)
	}
	for _, m := range Members(body) {
		switch {
		case src.Is(m, 0, "public", "static", "fromJson"):
			d.assigns("read", m)
		case src.Is(m, 0, "public", "clone"):
			d.assigns("copy", m)
		case src.Is(m, 0, "public", "toJson"):
			if k := src.Find(m, 0, "return", "{"); k > 0 {
				d.entries("write", m[k+2:src.End(m, k+1)], true)
			}
		}
	}
}

// assigns reads what is assigned to fields of ret.
func (d *Data) assigns(part string, toks []src.Tok) {
	from := -1
	for i := range toks {
		if !(src.Is(toks, i, "ret", ".", "*", "=") || src.Is(toks, i, "return", "ret")) {
			continue
		}
		if from >= 0 {
			d.add(part, Field{Name: toks[from+2].Text, Expr: toks[from+4 : i], Wire: wire(toks[from+4 : i])})
		}
		from = i
	}
}

func goData(toks []src.Tok, i int, get func(string) *Data) {
	switch {
	case src.Is(toks, i, "type", "*", "struct", "{"):
		d := get(toks[i+1].Text)
		end := src.End(toks, i+3)
		for k := i + 4; k < end; {
			e := k
			for e < end && toks[e].Line == toks[k].Line {
				e++
			}
			line := toks[k:e]
			k = e
			last := line[len(line)-1]
			if last.Kind != src.String {
				d.Ext = append(d.Ext, Base(line))
				continue
			}
			f := Field{Name: line[0].Text, Type: line[1 : len(line)-1]}
			f.Wire, f.Omit = jsonTag(last.Text)
			d.add("field", f)
		}
	case src.Is(toks, i, "func", "(", "*", "*", "*", ")", "*", "("):
		n := toks[i+6].Text
		if len(n) < 4 || toks[i+3].Text != "*" {
			return
		}
		e := src.End(toks, i+7)
		o := src.Open(toks, e+1)
		body := toks[o+1 : src.End(toks, o)]
		switch n[:3] {
		case "Get":
			f := Field{Name: n[3:], Type: toks[e+1 : o], Expr: body}
			get(toks[i+4].Text).add("get", f)
		case "Set":
			if e < i+10 {
				return
			}
			f := Field{Name: n[3:], Type: toks[i+9 : e], Expr: body}
			get(toks[i+4].Text).add("set", f)
		}
	}
}

// jsonTag reads a tag of a Go struct.
func jsonTag(s string) (name string, omit bool) {
	const p = "json:\""
	for i := 0; i+len(p) <= len(s); i++ {
		if s[i:i+len(p)] == p && (i == 0 || s[i-1] == ' ') {
			s = s[i+len(p):]
			for k := 0; k < len(s); k++ {
				if s[k] == ',' || s[k] == '"' {
					return s[:k], s[k] == ',' && k+10 <= len(s) && s[k:k+10] == ",omitempty"
				}
			}
		}
	}
	return "no json tag", false
}
