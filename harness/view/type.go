package view

import "hbuf/zz_verif/src"

// Type is a type of the generated code.
type Type struct {
	Name string // or "list", "map", "?" if it is none
	Pack string // what qualifies the name
	Opt  bool
	Key  *Type
	Elem *Type
}

// ParseType reads a type.
func ParseType(lang string, toks []src.Tok) *Type {
	p := &typeParser{lang: lang, toks: toks}
	t := p.typ()
	if p.i != len(toks) {
		return &Type{Name: "?"}
	}
	return t
}

type typeParser struct {
	lang string
	toks []src.Tok
	i    int
}

func (p *typeParser) is(texts ...string) bool { return src.Is(p.toks, p.i, texts...) }

func (p *typeParser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}

func (p *typeParser) bad() *Type {
	p.i = len(p.toks) + 1
	return &Type{Name: "?"}
}

// name reads a name that may be qualified.
func (p *typeParser) name() *Type {
	t := &Type{}
	for {
		if p.i >= len(p.toks) || p.toks[p.i].Kind != src.Ident {
			return p.bad()
		}
		t.Name = p.toks[p.i].Text
		p.i++
		if !p.eat(".") {
			return t
		}
		t.Pack = t.Name
	}
}

func (p *typeParser) typ() *Type {
	switch p.lang {
	case "go":
		if p.i < len(p.toks) && p.toks[p.i].Text == "*" {
			p.i++
			t := p.typ()
			if t.Opt {
				return p.bad()
			}
			t.Opt = true
			return t
		}
		if p.is("[", "]") {
			p.i += 2
			return &Type{Name: "list", Elem: p.typ()}
		}
		if p.is("map", "[") {
			p.i += 2
			k := p.typ()
			if !p.eat("]") {
				return p.bad()
			}
			return &Type{Name: "map", Key: k, Elem: p.typ()}
		}
		return p.name()
	case "dart", "java":
		t := p.name()
		if p.eat("<") {
			var as []*Type
			for {
				as = append(as, p.typ())
				if !p.eat(",") {
					break
				}
			}
			if !p.eat(">") {
				return p.bad()
			}
			switch {
			case t.Name == "List" && len(as) == 1:
				t = &Type{Name: "list", Elem: as[0]}
			case t.Name == "Map" && len(as) == 2:
				t = &Type{Name: "map", Key: as[0], Elem: as[1]}
			default:
				return p.bad()
			}
		}
		if p.lang == "dart" {
			t.Opt = p.eat("?")
		}
		return t
	}
	var t *Type
	null := false
	for {
		if p.eat("null") {
			null = true
		} else {
			if t != nil {
				return p.bad()
			}
			t = p.one()
		}
		if !p.eat("|") {
			break
		}
	}
	if t == nil {
		return p.bad()
	}
	t.Opt = t.Opt || null
	return t
}

// one is a TypeScript type that is not a union.
func (p *typeParser) one() *Type {
	var t *Type
	switch {
	case p.eat("("):
		t = p.typ()
		if !p.eat(")") {
			return p.bad()
		}
	case p.is("Record", "<"), p.is("Map", "<"):
		p.i += 2
		k := p.typ()
		if !p.eat(",") {
			return p.bad()
		}
		t = &Type{Name: "map", Key: k, Elem: p.typ()}
		if !p.eat(">") {
			return p.bad()
		}
	default:
		t = p.name()
	}
	for p.is("[", "]") {
		p.i += 2
		t = &Type{Name: "list", Elem: t}
	}
	return t
}
