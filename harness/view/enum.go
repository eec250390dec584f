// Package view reads declarations back from generated source text.
package view

import "hbuf/zz_verif/src"

// Item is an enum item: the constant it is, its number and its name.
type Item struct{ Const, Value, Name string }

type Enum struct {
	Name   string
	Items  []Item
	Values []string // the constants in the list of all items, or the names in the map by name
	Wrong  string   // what is wrong with the conversions, if anything
}

// Split cuts toks at sep outside brackets; an empty last piece is dropped.
func Split(toks []src.Tok, sep string) (r [][]src.Tok) {
	d, from := 0, 0
	for i, t := range toks {
		if t.Kind != src.Punct {
			continue
		}
		switch t.Text {
		case "(", "[", "{":
			d++
		case ")", "]", "}":
			d--
		case sep:
			if d == 0 {
				r = append(r, toks[from:i])
				from = i + 1
			}
		}
	}
	if from < len(toks) {
		r = append(r, toks[from:])
	}
	return
}

// Enums returns the enums declared in text.
func Enums(lang, text string) (r []Enum) {
	all, _ := src.Lex(lang, text)
	toks := src.Code(all)
	for i := 0; i < len(toks); i++ {
		if lang == "go" && src.Is(toks, i, "type", "*", "int") {
			r = append(r, goEnum(toks, toks[i+1].Text))
		}
		if lang != "go" && toks[i].Text == "class" && src.Find(toks[i:src.Open(toks, i)], 0, "extends") < 0 {
			o := src.Open(toks, i)
			e := src.End(toks, o)
			body := toks[o:e]
			if src.Find(body, 0, "valueOf") >= 0 {
				r = append(r, classEnum(lang, body, toks[i+1].Text))
			}
			i = e
		}
	}
	return
}

func goEnum(toks []src.Tok, name string) Enum {
	e := Enum{Name: name, Wrong: "no map of names"}
	for i := range toks {
		if src.Is(toks, i, "const", "*", name, "=") {
			e.Items = append(e.Items, Item{Const: toks[i+1].Text, Value: toks[i+4].Text})
		}
	}
	i := src.Find(toks, 0, "=", "map", "[", name, "]", "string", "{")
	j := src.Find(toks, 0, "=", "map", "[", "string", "]", name, "{")
	if i < 0 || j < 0 {
		return e
	}
	e.Wrong = ""
	n := 0
	for _, kv := range Split(toks[i+7:src.End(toks, i+6)], ",") {
		n++
		for k := range e.Items {
			if len(kv) == 3 && kv[0].Text == e.Items[k].Const && kv[1].Text == ":" && kv[2].Kind == src.String {
				e.Items[k].Name = kv[2].Text
				n--
			}
		}
	}
	if n != 0 {
		e.Wrong = "the map of names has other entries"
	}
	for _, kv := range Split(toks[j+7:src.End(toks, j+6)], ",") {
		ok := false
		for k := range e.Items {
			ok = ok || len(kv) == 3 && kv[0].Kind == src.String && kv[0].Text == e.Items[k].Name && kv[1].Text == ":" && kv[2].Text == e.Items[k].Const
		}
		if !ok {
			e.Wrong = "the map by name has other entries"
		}
		e.Values = append(e.Values, kv[len(kv)-1].Text)
	}
	if f := src.Find(toks, 0, "func", "(", "*", name, ")", "ToName", "(", ")", "string", "{", "return", toks[i-1].Text, "["); f < 0 || !src.Is(toks, f+13, toks[f+2].Text, "]", "}") {
		e.Wrong = "ToName does not look the item up"
	}
	if src.Find(toks, 0, "func", name+"Values", "(", ")", "map", "[", "string", "]", name, "{", "return", toks[j-1].Text, "}") < 0 {
		e.Wrong = "the map by name is not returned"
	}
	return e
}

func classEnum(lang string, toks []src.Tok, name string) Enum {
	e := Enum{Name: name}
	for i := range toks {
		k := i
		switch {
		case lang == "dart" && src.Is(toks, i, "*", "=", name, ".", "_", "("):
			k += 5
		case lang != "dart" && src.Is(toks, i, "*", "=", "new", name, "("):
			k += 4
		default:
			continue
		}
		args := Split(toks[k+1:src.End(toks, k)], ",")
		it := Item{Const: toks[i].Text}
		if len(args) >= 2 && len(args[0]) == 1 && len(args[1]) == 1 && args[1][0].Kind == src.String {
			it.Value, it.Name = args[0][0].Text, args[1][0].Text
		}
		e.Items = append(e.Items, it)
	}
	for i := range toks {
		if !(toks[i].Text == "values") {
			continue
		}
		o := i + 1
		for o < len(toks) && (toks[o].Text == ":" || toks[o].Text == name || toks[o].Text == "[" && toks[o+1].Text == "]" || toks[o].Text == "]" || toks[o].Text == "=" || toks[o].Text == "new") {
			o++
		}
		if src.Find(toks[i:o], 0, "=") < 0 || !(toks[o].Text == "[" || toks[o].Text == "{") {
			continue
		}
		for _, v := range Split(toks[o+1:src.End(toks, o)], ",") {
			if len(v) == 3 && v[0].Text == name && v[1].Text == "." {
				v = v[2:]
			}
			e.Values = append(e.Values, src.Join(v))
		}
	}
	for _, f := range [][2]string{{"valueOf", "value"}, {"nameOf", "name"}} {
		if w := lookup(lang, toks, name, f[0], f[1]); w != "" {
			e.Wrong = w
		}
	}
	return e
}

// lookup checks that a function goes through values and returns the item
// whose field is its argument.
func lookup(lang string, toks []src.Tok, name, fun, field string) string {
	i := src.Find(toks, 0, fun, "(")
	if i < 0 {
		return fun + " is missing"
	}
	o := src.Open(toks, i)
	body := toks[o+1 : src.End(toks, o)]
	if src.Find(body, 0, "for", "(") != 0 {
		return fun + " does not search"
	}
	head := body[2:src.End(body, 1)]
	item := ""
	switch {
	case src.Is(head, 0, "var", "*", "in", "values"):
		item = head[1].Text
	case src.Is(head, 0, name, "*", ":", "values"):
		item = head[1].Text
	case src.Is(head, 0, "const", "*", "in", name, ".", "values"):
		item = name + ".values[" + head[1].Text + "]"
	default:
		return fun + " does not go through the items"
	}
	rest := src.Join(body[src.End(body, 1)+1:])
	eq := item + "." + field + "==" + field
	if lang == "java" && field == "name" {
		eq = item + ".name.equals(name)"
	}
	want := "{if(" + eq + "){return " + item + ";}}throw"
	if len(rest) < len(want) || rest[:len(want)] != want {
		return fun + " does not return the item with that " + field
	}
	return ""
}
