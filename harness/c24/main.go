// C24: values survive JSON.
package main

import (
	"hbuf/zz_verif/codec"
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"hbuf/zz_verif/view"
	"strconv"
)

func main() {
	sym.Main(map[string]func(){"H_write": H_write, "H_read": H_read, "H_keys": H_keys, "H_copy": H_copy, "H_with": H_with, "H_go": H_go})
}

// typ is the type of a field.
type typ struct {
	base  string
	shape string // "", "list", "map"
	key   string // of a map
	opt   bool   // the whole may be null
	inner bool   // the values of the list or map may be null
}

var bases = []string{"int32", "int64", "uint64", "string", "bool", "date", "decimal", "double", "Kind", "Sub", "int8", "int16", "uint8", "uint16", "uint32", "float"}
var keys = []string{"string", "int32", "int64", "uint64", "decimal", "Kind", "int8", "int16", "uint8", "uint16", "uint32"}

func (t typ) String() string {
	q := func(b bool) string {
		if b {
			return "?"
		}
		return ""
	}
	switch t.shape {
	case "list":
		return t.base + q(t.inner) + "[]" + q(t.opt)
	case "map":
		return t.base + q(t.inner) + "<" + t.key + ">" + q(t.opt)
	}
	return t.base + q(t.opt)
}

func text(t typ) string {
	return "package go=\"v.a\"\npackage dart=\"v.a\"\npackage java=\"v.a\"\npackage ts=\"v.a\"\n" +
		"enum Kind {\n\tnone = 0\n\tsome = 7\n}\n" +
		"data Sub {\n\tint32 x = 0\n}\n" +
		"data Base {\n\tstring? head = 0\n}\n" +
		"data Foo : Base = 0 {\n\t" + t.String() + " it = 1\n\tbool tail = 2\n}\n"
}

// a leaf is a value of a base type; null if it has none.
type leaf struct {
	null bool
	n    int    // of a number, a date, an enum, what a data type has
	s    string // of a string
}

// a value is that of a field.
type value struct {
	null bool
	one  leaf
	keys []leaf
	all  []leaf
}

func between(n, lo, hi int) { sym.Assume(n >= lo && n <= hi) }

// draw is any value of a base type.
func draw(name, base string, opt bool) leaf {
	if opt && sym.Pick(name+" null", 2) == 1 {
		return leaf{null: true}
	}
	switch base {
	case "string":
		return leaf{s: sym.StrOf(name, 2, "a0\"\\$ ")}
	case "bool":
		if sym.Bool(name) {
			return leaf{n: 1}
		}
		return leaf{}
	case "Kind":
		return leaf{n: 7 * sym.Pick(name, 2)}
	}
	n := sym.Int(name)
	switch base {
	case "int8":
		between(n, -128, 127)
	case "int16":
		between(n, -32768, 32767)
	case "int32", "Sub":
		between(n, -2147483648, 2147483647)
	case "uint8":
		between(n, 0, 255)
	case "uint16":
		between(n, 0, 65535)
	case "uint32":
		between(n, 0, 4294967295)
	case "date":
		between(n, -8640000000000000, 8640000000000000)
	}
	return leaf{n: n}
}

func drawn(t typ) value {
	if t.opt && sym.Pick("null", 2) == 1 {
		return value{null: true}
	}
	if t.shape == "" {
		return value{one: draw("it", t.base, false)}
	}
	var v value
	n := sym.Pick("length", 3)
	for i := 0; i < n; i++ {
		if t.shape == "map" {
			v.keys = append(v.keys, draw("key"+strconv.Itoa(i), t.key, false))
		}
		v.all = append(v.all, draw("it"+strconv.Itoa(i), t.base, t.inner))
	}
	if n == 2 && t.shape == "map" {
		sym.Assume(v.keys[0].n != v.keys[1].n || v.keys[0].s != v.keys[1].s)
	}
	return v
}

// held is what an object of the target has for a leaf.
func held(m *codec.Machine, base string, l leaf) codec.V {
	if l.null {
		return nil
	}
	switch base {
	case "string":
		return l.s
	case "bool":
		return l.n != 0
	case "int64":
		return codec.Long{Bits: uint64(l.n)}
	case "uint64":
		return codec.Long{Bits: uint64(l.n), Unsigned: m.Lang == "ts"}
	case "date":
		return codec.Date{Ms: int64(l.n)}
	case "decimal":
		return codec.Dec{ID: uint64(l.n)}
	case "float", "double":
		return codec.Flt{ID: uint64(l.n)}
	case "Kind":
		return codec.Enum{Type: "Kind", N: int64(l.n)}
	case "Sub":
		return m.Classes[impl(m.Lang)+"Sub"].New(map[string]codec.V{"x": codec.Num{N: int64(l.n)}})
	}
	return codec.Num{N: int64(l.n)}
}

func impl(lang string) string {
	if lang == "dart" {
		return "_"
	}
	return ""
}

// heldKey is what a map of the target has as a key: a record has only texts.
func heldKey(m *codec.Machine, base string, l leaf) codec.V {
	if m.Lang == "ts" {
		return wireKey(base, l)
	}
	return held(m, base, l)
}

// wire is the JSON of a leaf, as the Go runtime writes it.
func wire(base string, l leaf) codec.V {
	if l.null {
		return nil
	}
	switch base {
	case "string":
		return l.s
	case "bool":
		return l.n != 0
	case "int64":
		return codec.NumText{Bits: uint64(l.n), Signed: true}
	case "uint64":
		return codec.NumText{Bits: uint64(l.n)}
	case "decimal":
		return codec.DecText{ID: uint64(l.n)}
	case "float", "double":
		return codec.Flt{ID: uint64(l.n)}
	case "Sub":
		return &codec.Map{Keys: []codec.V{"x"}, Vals: []codec.V{codec.Num{N: int64(l.n)}}}
	}
	return codec.Num{N: int64(l.n)}
}

func wireKey(base string, l leaf) codec.V {
	w := wire(base, l)
	if n, ok := w.(codec.Num); ok {
		return codec.NumText{Bits: uint64(n.N), Signed: true}
	}
	return w
}

func whole(t typ, v value, key, one func(string, leaf) codec.V) codec.V {
	if v.null {
		return nil
	}
	switch t.shape {
	case "":
		return one(t.base, v.one)
	case "list":
		r := &codec.List{}
		for _, e := range v.all {
			r.Items = append(r.Items, one(t.base, e))
		}
		return r
	}
	r := &codec.Map{}
	for i, e := range v.all {
		r.Keys = append(r.Keys, key(t.key, v.keys[i]))
		r.Vals = append(r.Vals, one(t.base, e))
	}
	return r
}

func inMemory(m *codec.Machine, t typ, v value) codec.V {
	return whole(t, v, func(b string, l leaf) codec.V { return heldKey(m, b, l) }, func(b string, l leaf) codec.V { return held(m, b, l) })
}

func onWire(t typ, v value) codec.V { return whole(t, v, wireKey, wire) }

// json is what the target's encoder makes of what toMap or toJson gives.
func json(lang string, v codec.V) codec.V {
	switch x := v.(type) {
	case codec.Undef:
		return nil
	case *codec.List:
		r := &codec.List{}
		for _, e := range x.Items {
			r.Items = append(r.Items, json(lang, e))
		}
		return r
	case *codec.Map:
		r := &codec.Map{}
		for i, k := range x.Keys {
			if _, ok := x.Vals[i].(codec.Undef); ok {
				continue
			}
			switch k.(type) {
			case string, codec.NumText, codec.DecText:
			default:
				sym.Note("key", codec.Show(k))
				sym.Assert(false, "JSON has only texts as keys")
			}
			r.Keys = append(r.Keys, k)
			r.Vals = append(r.Vals, json(lang, x.Vals[i]))
		}
		return r
	case bool, string, codec.Num, codec.Flt, codec.NumText, codec.DecText, nil:
		return x
	}
	sym.Note("value", codec.Show(v))
	sym.Assert(false, "JSON has no such value")
	return nil
}

// machine has the generated code; done is called with what is wrong with it.
func machine(target string, t typ) *codec.Machine {
	outs, err := gen.Compile(target, []*schema.File{{Path: "v.hbuf", Raw: text(t)}}, "v.hbuf")
	if err != nil {
		sym.Note("schema", text(t))
		sym.Assert(false, "the schema is accepted")
		return nil
	}
	code := gen.Find(outs, "v.data."+target)
	sym.Note("type", t.String())
	sym.Note("code", code)
	m := codec.New(target, code)
	m.AddEnum("Kind")
	return m
}

// try runs what may fail in the generated code.
func try(f func()) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case codec.Err:
			sym.Note("error", string(e))
			sym.Assert(false, "the generated code has a meaning")
		case codec.Throw:
			sym.Note("error", e.Why)
			sym.Assert(false, "the generated code does not throw")
		default:
			panic(e)
		}
	}()
	f()
}

var targets = []string{"dart", "ts"}

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

// anyType is any type; maps have keys that are strings.
func anyType() typ {
	t := typ{base: pick("base", bases), shape: pick("shape", []string{"", "list", "map"}), key: "string"}
	t.opt = sym.Pick("optional", 2) == 1
	if t.shape != "" {
		t.inner = sym.Pick("optional values", 2) == 1
	}
	return t
}

func foo(m *codec.Machine) *codec.Class {
	c := m.Classes[impl(m.Lang)+"Foo"]
	if c == nil {
		panic(codec.Err("there is no class Foo"))
	}
	return c
}

func object(m *codec.Machine, t typ, v value, head leaf, tail leaf) *codec.Data {
	return foo(m).New(map[string]codec.V{"it": inMemory(m, t, v), "head": held(m, "string", head), "tail": held(m, "bool", tail)})
}

func write(target string, t typ) {
	try(func() {
		m := machine(target, t)
		v := drawn(t)
		head, tail := draw("head", "string", true), draw("tail", "bool", false)
		o := object(m, t, v, head, tail)
		name := "toJson"
		if target == "dart" {
			name = "toMap"
		}
		r := foo(m).Call(o, name, nil, nil)
		w, ok := json(target, r).(*codec.Map)
		sym.Assert(ok, "an object is written as an object")
		same := true
		for _, k := range w.Keys {
			s, ok := k.(string)
			same = same && ok && (s == "it" || s == "head" || s == "tail")
		}
		for _, p := range []struct {
			key  string
			want codec.V
		}{{"it", onWire(t, v)}, {"head", wire("string", head)}, {"tail", wire("bool", tail)}} {
			got, _ := w.Get(p.key)
			if !codec.Same(got, p.want) {
				sym.Note("written "+p.key, codec.Show(got))
				sym.Note("expected", codec.Show(p.want))
				same = false
			}
		}
		sym.Assert(same, "a value is written in its JSON form")
		sym.Cover("written")
	})
}

func read(target string, t typ) {
	try(func() {
		m := machine(target, t)
		v := value{}
		absent := sym.Pick("present", 3)
		in := &codec.Map{}
		put := func(k string, v codec.V) { in.Keys, in.Vals = append(in.Keys, k), append(in.Vals, v) }
		head, tail := draw("head", "string", true), draw("tail", "bool", false)
		if !head.null {
			put("head", wire("string", head))
		}
		switch absent {
		case 0:
			v = drawn(t)
			put("it", onWire(t, v))
		case 1:
			v.null = t.opt
			put("it", nil)
		case 2:
			v.null = t.opt
		}
		put("tail", wire("bool", tail))
		name, class := "fromJson", "Foo"
		if target == "dart" {
			name = "fromMap"
		}
		r, ok := m.Classes[class].Call(nil, name, []codec.V{in}, nil).(*codec.Data)
		sym.Assert(ok && r.Class == foo(m), "an object is read as one of its class")
		want := object(m, t, v, head, tail)
		same := codec.Same(r, want)
		if !same {
			sym.Note("read", codec.Show(r))
			sym.Note("expected", codec.Show(want))
		}
		sym.Assert(same, "a value is read from its JSON form")
		sym.Cover("read")
	})
}

// H_write: what toMap and toJson write.
//
// bounds: Dart and TypeScript, a data type with an inherited field, a field of each of the 16 kinds of types alone, in a list or in a map with string keys, the whole and its values optional or not, and one after it; lists and maps of up to 2 values, which are any value of their type (strings of 2 characters)
//
//sym:steps=20000000 depth=4000 time=250 cover=written
func H_write() {
	target := pick("target", targets)
	write(target, anyType())
}

// H_read: what fromMap and fromJson read.
//
// bounds: as H_write; the field may also be absent or null
//
//sym:steps=20000000 depth=4000 time=250 cover=read
func H_read() {
	target := pick("target", targets)
	read(target, anyType())
}

// H_keys: the keys of maps.
//
// bounds: as H_write and H_read, for maps with values that are an int32 or a Sub and keys of each of the 11 types that Go can have as keys in JSON
//
//sym:steps=20000000 depth=4000 time=250 cover=read,written
func H_keys() {
	target := pick("target", targets)
	t := typ{base: pick("base", []string{"int32", "Sub"}), shape: "map", key: pick("key", keys), opt: sym.Pick("optional", 2) == 1, inner: sym.Pick("optional values", 2) == 1}
	if sym.Pick("way", 2) == 0 {
		write(target, t)
	} else {
		read(target, t)
	}
}

// apart reports whether no list, map or object is in both.
func apart(a, b codec.V) bool {
	switch x := a.(type) {
	case *codec.List:
		y := b.(*codec.List)
		if x == y {
			return false
		}
		for i := range x.Items {
			if !apart(x.Items[i], y.Items[i]) {
				return false
			}
		}
	case *codec.Map:
		y := b.(*codec.Map)
		if x == y {
			return false
		}
		for i := range x.Vals {
			if !apart(x.Vals[i], y.Vals[i]) {
				return false
			}
		}
	case *codec.Data:
		y := b.(*codec.Data)
		if x == y {
			return false
		}
		for _, n := range x.Class.Names {
			if !apart(x.Fields[n], y.Fields[n]) {
				return false
			}
		}
	}
	return true
}

// H_copy: copy, clone and what a new object has.
//
// bounds: as H_write, and maps with keys of the 11 types
//
//sym:steps=20000000 depth=4000 time=250 cover=copied
func H_copy() {
	target := pick("target", targets)
	t := anyType()
	if t.shape == "map" && t.base == "int32" {
		t.key = pick("key", keys)
	}
	try(func() {
		m := machine(target, t)
		v := drawn(t)
		o := object(m, t, v, draw("head", "string", true), draw("tail", "bool", false))
		name := "clone"
		if target == "dart" {
			name = "copy"
		}
		c := foo(m).Call(o, name, nil, nil)
		same := codec.Same(o, c)
		if !same {
			sym.Note("copy", codec.Show(c))
			sym.Note("of", codec.Show(o))
		}
		sym.Assert(same, "a copy has the values")
		sym.Assert(apart(o, c), "a copy has its own lists, maps and objects")
		sym.Cover("copied")
		if target == "ts" {
			n := m.New("Foo")
			null := value{null: t.opt}
			want := object(m, t, null, leaf{null: true}, leaf{})
			if d, ok := n.Fields["it"].(codec.Date); ok && d.Ms == codec.Now && t.base == "date" && t.shape == "" && !t.opt {
				want.Fields["it"] = d
			}
			same := codec.Same(n, want)
			if !same {
				sym.Note("new", codec.Show(n))
			}
			sym.Assert(same, "a new object has the values that are read from an empty one")
		}
	})
}

// H_with: copyWith, == and the factory in Dart.
//
// bounds: as H_write for types that are not in a list or map; one of the three fields is replaced, or none
//
//sym:steps=20000000 depth=4000 time=250 cover=replaced
func H_with() {
	t := typ{base: pick("base", bases), opt: sym.Pick("optional", 2) == 1}
	try(func() {
		m := machine("dart", t)
		v := drawn(t)
		head, tail := draw("head", "string", true), draw("tail", "bool", false)
		o := object(m, t, v, head, tail)
		named := map[string]codec.V{}
		want := object(m, t, v, head, tail)
		switch sym.Pick("replaced", 4) {
		case 1:
			named["it"] = held(m, t.base, draw("other", t.base, false))
		case 2:
			named["head"] = held(m, "string", draw("other", "string", false))
		case 3:
			named["tail"] = held(m, "bool", draw("other", "bool", false))
		}
		for k, x := range named {
			want.Fields[k] = x
		}
		c, ok := foo(m).Call(o, "copyWith", nil, named).(*codec.Data)
		sym.Assert(ok && codec.Same(c, want), "copyWith replaces what is given, and nothing else")
		eq, ok := foo(m).Call(o, "==", []codec.V{c}, nil).(bool)
		sym.Assert(ok && eq == codec.Same(o, c), "objects are equal if all their fields are")
		made, ok := m.Make("Foo", map[string]codec.V{"it": o.Fields["it"], "head": o.Fields["head"], "tail": o.Fields["tail"]}).(*codec.Data)
		sym.Assert(ok && codec.Same(made, o), "the factory makes an object of what it is given")
		sym.Cover("replaced")
	})
}

// form is how encoding/json writes a Go type.
func form(t *view.Type, key bool) string {
	if t.Opt {
		return form(&view.Type{Name: t.Name, Pack: t.Pack, Key: t.Key, Elem: t.Elem}, key) + "?"
	}
	name := t.Name
	if t.Pack != "" {
		name = t.Pack + "." + name
	}
	switch name {
	case "list":
		if !t.Elem.Opt && t.Elem.Name == "uint8" {
			return "bytes"
		}
		return form(t.Elem, false) + "[]"
	case "map":
		return form(t.Elem, false) + "<" + form(t.Key, true) + ">"
	case "int8", "int16", "int32", "uint8", "uint16", "uint32", "Kind":
		if key {
			return "text"
		}
		return "number"
	case "float32", "float64":
		if key {
			return "no key"
		}
		return "number"
	case "string", "hbuf.Int64", "hbuf.Uint64", "decimal.Decimal":
		return "text"
	case "hbuf.Time":
		if key {
			return "no key"
		}
		return "number"
	case "bool":
		if key {
			return "no key"
		}
		return "bool"
	case "Sub":
		return "object"
	}
	return "? " + name
}

// H_go: the Go types.
//
// bounds: a field of each type as in H_write, maps with keys of all 15 types: encoding/json writes the JSON form
//
//sym:steps=20000000 depth=4000 time=100 cover=written
func H_go() {
	t := anyType()
	if t.shape == "map" {
		t.key = pick("key", append(append([]string{}, keys...), "bool", "float", "double", "date"))
	}
	outs, err := gen.Compile("go", []*schema.File{{Path: "v.hbuf", Raw: text(t)}}, "v.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Assert(false, "the schema is accepted")
		return
	}
	want := "number"
	switch t.base {
	case "string", "int64", "uint64", "decimal":
		want = "text"
	case "bool":
		want = "bool"
	case "Sub":
		want = "object"
	}
	if t.inner {
		want += "?"
	}
	switch t.shape {
	case "list":
		want += "[]"
	case "map":
		want += "<text>"
	}
	got := ""
	code := gen.Find(outs, "v.data.go")
	for _, d := range view.Datas("go", code) {
		if d.Name != "Foo" {
			continue
		}
		for _, f := range d.Parts["field"] {
			if f.Name == "It" {
				got = form(view.ParseType("go", f.Type), false)
			}
		}
	}
	if t.shape == "" && t.opt {
		want += "?"
	}
	sym.Note("type", t.String())
	sym.Note("form", got)
	sym.Known("bytes", t.base == "uint8" && t.shape == "list" && !t.inner)
	sym.Known("keys", t.shape == "map" && (t.key == "bool" || t.key == "float" || t.key == "double" || t.key == "date"))
	sym.Assert(got == want, "Go writes and reads the JSON form")
	sym.Known("bytes", false)
	sym.Known("keys", false)
	sym.Cover("written")
}
