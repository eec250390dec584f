// C25: tables and forms.
package main

import (
	"hbuf/zz_verif/codec"
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/schema"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"strconv"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_dartform": H_dartform, "H_darttext": H_darttext, "H_darttable": H_darttable, "H_tsform": H_tsform, "H_tstable": H_tstable, "H_which": H_which, "H_order": H_order, "H_select": H_select, "H_labels": H_labels})
}

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

var bases = []string{"int32", "int64", "uint64", "string", "bool", "date", "decimal", "double", "int8", "uint16", "float", "Kind"}

// A leaf is a value of a base type; null if it has none.
type leaf struct {
	null bool
	n    int
	s    string
}

// A field is the one that is looked at, with its tags.
type field struct {
	base string
	opt  bool
	list bool
	tag  string // the pairs of its ui tag behind the form or table
	only bool   // it may only be read
	rule bool   // it has a verify tag
	digit,
	index,
	line,
	count int // -1 where there is none
	width, height int // 0 where there is none
	format        string
	clip, unlink  bool
	extensions    []string
}

func (f field) typ() string {
	t := f.base
	if f.list {
		t += "[]"
	}
	if f.opt {
		t += "?"
	}
	return t
}

const head = "package go=\"v.a\"\npackage dart=\"v.a\"\npackage java=\"v.a\"\npackage ts=\"v.a\"\n"

// text is a schema: userInfo inherits a field, has the field, and one after it.
func text(f field, typeTag, kind string, control string) string {
	rule, least := "", "1"
	if f.base == "date" {
		least = "2020-01-02T03:04:05Z"
	}
	if f.rule {
		rule = "\t[verify:format=\"Fault.bad\"]\n"
	}
	return head + "enum Fault {\n\t[format:min=\"" + least + "\"]\n\tbad = 5\n}\nenum Kind {\n\tnone = 0\n\tsome = 7\n}\n" +
		"data Base {\n\t[ui:" + kind + "=\"text\"]\n\tstring? head = 0\n}\n" +
		"[ui:" + typeTag + "]\ndata userInfo : Base = 0 {\n\tstring? plain = 3\n" + rule + "\t[ui:" + kind + "=\"" + control + "\"" + f.tag + "]\n\t" + f.typ() + " itemName = 1\n" +
		"\t[ui:" + kind + "=\"text\"]\n\tstring? tail = 2\n}\n"
}

func between(n, lo, hi int) { sym.Assume(n >= lo && n <= hi) }

func draw(name, base string, opt bool) leaf {
	if opt && sym.Pick(name+" null", 2) == 1 {
		return leaf{null: true}
	}
	switch base {
	case "string":
		return leaf{s: "h" + sym.StrOf(name, 1, "a0")}
	case "bool":
		if sym.Bool(name) {
			return leaf{n: 1}
		}
		return leaf{}
	case "Kind":
		return leaf{n: 7 * sym.Pick(name, 2)}
	}
	n := sym.Int(name)
	switch base {
	case "int8":
		between(n, -128, 127)
	case "int32":
		between(n, -2147483648, 2147483647)
	case "uint16":
		between(n, 0, 65535)
	case "date":
		between(n, -8640000000000000, 8640000000000000)
	}
	return leaf{n: n}
}

// held is what an object has for a value.
func held(m *codec.Machine, base string, l leaf) codec.V {
	if l.null {
		return nil
	}
	switch base {
	case "string":
		return l.s
	case "bool":
		return l.n != 0
	case "int64":
		return codec.Long{Bits: uint64(l.n)}
	case "uint64":
		return codec.Long{Bits: uint64(l.n), Unsigned: m.Lang == "ts"}
	case "date":
		return codec.Date{Ms: int64(l.n)}
	case "decimal":
		return codec.Dec{ID: uint64(l.n)}
	case "float", "double":
		return codec.Flt{ID: uint64(l.n)}
	case "Kind":
		return codec.Enum{Type: "Kind", N: int64(l.n)}
	}
	return codec.Num{N: int64(l.n)}
}

// shown is the text that shows a value.
func shown(m *codec.Machine, f field, l leaf) codec.V {
	if l.null {
		return ""
	}
	digit, format := 0, "yyyy/MM/dd HH:mm:ss"
	if f.digit >= 0 {
		digit = f.digit
	}
	if f.format != "" {
		format = f.format
	}
	switch f.base {
	case "string":
		return l.s
	case "bool":
		if l.n != 0 {
			return "true"
		}
		return "false"
	case "int64":
		return codec.NumText{Bits: uint64(l.n), Signed: true}
	case "uint64":
		return codec.NumText{Bits: uint64(l.n)}
	case "date":
		return codec.Formatted{Ms: int64(l.n), Format: format}
	case "decimal":
		return codec.Fixed{Of: codec.Dec{ID: uint64(l.n)}, Digit: digit}
	case "float", "double":
		return codec.Fixed{Of: codec.Flt{ID: uint64(l.n)}, Digit: digit}
	case "Kind":
		return codec.Label{Of: "Kind", Name: strconv.Itoa(l.n)}
	}
	return codec.NumText{Bits: uint64(l.n), Signed: true}
}

// typed is the text that a user enters for a value.
func typed(f field, l leaf) codec.V {
	switch f.base {
	case "float", "double":
		return codec.FltText{ID: uint64(l.n)}
	case "decimal":
		return codec.DecText{ID: uint64(l.n)}
	}
	return shown(nil, f, l)
}

// same compares what shows a value; nothing is shown for null.
func same(a, b codec.V) bool {
	if codec.Null(a) {
		a = ""
	}
	if codec.Null(b) {
		b = ""
	}
	return codec.Same(a, b)
}

func expect(got, want codec.V, what string) {
	ok := same(got, want)
	if !ok {
		sym.Note("got", codec.Show(got))
		sym.Note("expected", codec.Show(want))
	}
	sym.Assert(ok, what)
}

var widgets = []string{"TextFormBuild", "ClickFormBuild", "FileFormBuild", "ImageFormBuild", "MenuFormBuild", "DatetimeFormBuild", "SwitchFormBuild"}
var parts = []string{"InputDecoration", "Text", "TablesColumn", "TablesCell", "TablesRow", "Tooltip", "Checkbox", "SizedBox", "DropdownMenuItem"}

func fn(f func(args []codec.V) codec.V) codec.V {
	return codec.Fn(func(args []codec.V, _ map[string]codec.V) codec.V { return f(args) })
}

// library gives what the libraries of the target have.
func library(m *codec.Machine) func(name string) codec.V {
	return func(name string) codec.V {
		for _, w := range parts {
			if name == w && m.Lang == "dart" {
				return codec.Make(name)
			}
		}
		for _, w := range widgets {
			if name == w && m.Lang == "dart" {
				return fn(func([]codec.V) codec.V {
					o := &codec.Obj{Kind: name, Props: map[string]codec.V{}}
					o.Methods = map[string]codec.V{"build": fn(func(a []codec.V) codec.V { return o })}
					return o
				})
			}
		}
		if strings.HasPrefix(name, "verify") {
			return codec.Make(name)
		}
		if m.Lang == "ts" {
			switch name {
			case "defineComponent":
				return fn(func(a []codec.V) codec.V { return a[0] })
			case "useLocale":
				return fn(func([]codec.V) codec.V { return "locale" })
			case "String", "Array":
				return &codec.Obj{Kind: name, Props: map[string]codec.V{}}
			}
			return nil
		}
		switch name {
		case "ImageFormImage":
			return fn(func(a []codec.V) codec.V {
				return &codec.Obj{Kind: name, Props: map[string]codec.V{"url": a[0]}}
			})
		case "TablesBuild":
			return fn(func([]codec.V) codec.V {
				o := &codec.Obj{Kind: name, Props: map[string]codec.V{"columns": &codec.Map{}}}
				o.Methods = map[string]codec.V{"build": fn(func(a []codec.V) codec.V { return o })}
				return o
			})
		case "EdgeInsets":
			return codec.Members(map[string]codec.V{"only": codec.Make("EdgeInsets")})
		case "TextOverflow":
			return codec.Members(map[string]codec.V{"ellipsis": "ellipsis"})
		case "BoxFit":
			return codec.Members(map[string]codec.V{"contain": "contain", "cover": "cover", "fill": "fill"})
		case "Image":
			return codec.Members(map[string]codec.V{"network": codec.Make("Image")})
		}
		if c := strings.TrimSuffix(name, "Localizations"); c != name {
			if l := m.Classes[name]; l != nil {
				return codec.Members(map[string]codec.V{"of": fn(func([]codec.V) codec.V {
					o := &codec.Obj{Kind: name, Props: map[string]codec.V{}}
					for _, g := range l.Getters {
						o.Props[g] = codec.Label{Of: c, Name: g}
					}
					return o
				})})
			}
		}
		return nil
	}
}

// machine has the generated code of a schema.
func machine(target, text string) *codec.Machine {
	sym.Note("schema", text)
	outs, err := gen.Compile(target, []*schema.File{{Path: "v.hbuf", Raw: text}}, "v.hbuf")
	sym.Assert(err == nil, "the schema is accepted")
	ui := gen.Find(outs, "v.ui."+target)
	if target == "ts" {
		ui = gen.Find(outs, "v.ui.tsx")
	}
	sym.Note("ui code", ui)
	m := codec.New(target, gen.Find(outs, "v.data."+target)+"\n"+ui+"\n"+gen.Find(outs, "v.lang."+target))
	m.AddEnum("Kind", 0, 7)
	l := library(m)
	m.Else = l
	if target == "dart" {
		for name := range m.Classes {
			if strings.HasSuffix(name, "Localizations") {
				if v := l(name); v != nil {
					m.Globals[name] = v
				}
			}
		}
	}
	return m
}

func try(f func()) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case codec.Err:
			sym.Note("error", string(e))
			sym.Assert(false, "the generated code has a meaning")
		case codec.Throw:
			sym.Note("error", e.Why)
			sym.Assert(false, "the generated code does not throw")
		default:
			panic(e)
		}
	}()
	f()
}

// refuse runs what may throw.
func refuse(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(codec.Throw); !ok {
				panic(e)
			}
		}
	}()
	f()
}

// item is what an object has in the field.
func item(m *codec.Machine, f field, ls []leaf) codec.V {
	if !f.list {
		return held(m, f.base, ls[0])
	}
	if ls[0].null {
		return nil
	}
	r := &codec.List{}
	for _, l := range ls {
		r.Items = append(r.Items, held(m, f.base, l))
	}
	return r
}

// values are a value of the field; a list has two.
func values(name string, f field) []leaf {
	a := draw(name, f.base, f.opt)
	if f.list && !a.null {
		return []leaf{a, draw(name+" 2", f.base, false)}
	}
	return []leaf{a}
}

func object(m *codec.Machine, f field, ls []leaf) *codec.Data {
	class := "UserInfo"
	if m.Lang == "dart" {
		class = "_UserInfo"
	}
	c := m.Classes[class]
	if c == nil {
		panic(codec.Err("there is no class " + class))
	}
	return c.New(map[string]codec.V{"head": "the head", "itemName": item(m, f, ls), "tail": "the tail", "plain": "plain"})
}

// stored asserts that only the field was set, and to what.
func stored(o *codec.Data, want codec.V, what string) {
	got := o.Fields["itemName"]
	ok := codec.Same(got, want)
	if !ok {
		sym.Note("got", codec.Show(got))
		sym.Note("expected", codec.Show(want))
	}
	sym.Assert(ok, what)
	sym.Assert(codec.Same(o.Fields["head"], "the head") && codec.Same(o.Fields["tail"], "the tail") && codec.Same(o.Fields["plain"], "plain"), "a control stores into its own field only")
}

func call(v codec.V, what string, args ...codec.V) codec.V {
	f, ok := v.(codec.Fn)
	sym.Assert(ok, what)
	return f(args, nil)
}

func obj(v codec.V, kind, what string) *codec.Obj {
	o, ok := v.(*codec.Obj)
	if !ok || o.Kind != kind {
		sym.Note("got", codec.Show(v))
		sym.Note("expected", kind)
		sym.Assert(false, what)
	}
	return o
}

func only(o *codec.Obj, i int) codec.V {
	sym.Assert(len(o.Args) > i, "a "+o.Kind+" has what it shows")
	return o.Args[i]
}

// digitOf is a digit of a tag, and what is written for it.
func digitOf(name string) (int, string) {
	s := sym.StrOf(name, 1, "0123456789")
	return int(s[0] - '0'), s
}

// params draws what the tag of a control or column says besides.
func params(f *field, all bool, which string) {
	f.digit, f.index, f.line, f.count = -1, -1, -1, -1
	if !all {
		return
	}
	add := func(k, v string) { f.tag += ";" + k + "=\"" + v + "\"" }
	num := func(k string) int {
		n, s := digitOf(k)
		add(k, s)
		return n
	}
	for _, w := range strings.Fields(which) {
		switch w {
		case "digit":
			f.digit = num(w)
		case "index":
			f.index = num(w)
		case "maxLine":
			f.line = num(w)
		case "maxCount":
			f.count = num(w)
		case "format":
			f.format = "yyyy-MM-dd HH:mm:ss"
			add(w, f.format)
		case "width":
			f.width = []int{120, 1000000, 25000000}[sym.Pick(w, 3)]
			add(w, strconv.Itoa(f.width))
		case "height":
			f.height = 45
			add(w, "45")
		case "clip":
			f.clip = true
			add(w, "true")
		case "unlink":
			f.unlink = true
			add(w, "true")
		case "extensions":
			f.extensions = []string{"png", "jpg"}
			f.tag += ";extensions=\"png\",\"jpg\""
		}
	}
}

// rest draws the rest of the field: whether it may be null, and is plain, may
// only be read or has a rule; the latter two have parameters.
func rest(f *field, which string) {
	f.opt = sym.Pick("optional", 2) == 1
	v := sym.Pick("variant", 3)
	if f.only = v == 1; f.only {
		f.tag += ";onlyRead=\"true\""
	}
	f.rule = v == 2
	params(f, f.rule, which)
}

// dartForm makes the form of an object.
func dartForm(m *codec.Machine, o *codec.Data, readOnly bool) (form *codec.Data, widgets []codec.V, sizes, padding codec.V) {
	sizes, padding = &codec.Map{}, &codec.Obj{Kind: "padding"}
	form = m.Construct("FormUserInfoBuild", []codec.V{o}, map[string]codec.V{"readOnly": readOnly, "sizes": sizes, "padding": padding})
	called := 0
	l, ok := form.Class.Call(form, "build", []codec.V{"context"}, map[string]codec.V{"builder": fn(func(a []codec.V) codec.V {
		called++
		d, ok := a[1].(*codec.Data)
		sym.Assert(len(a) == 2 && ok && d == form, "the builder gets the form")
		return nil
	})}).(*codec.List)
	sym.Assert(ok, "a form gives its controls")
	sym.Assert(called == 1, "the builder is called")
	return form, l.Items, sizes, padding
}

var dartKinds = map[string]string{"text": "TextFormBuild", "click": "ClickFormBuild", "file": "FileFormBuild", "image": "ImageFormBuild", "menu": "MenuFormBuild", "date": "DatetimeFormBuild", "switch": "SwitchFormBuild"}

func pictures(v codec.V) codec.V {
	l, ok := v.(*codec.List)
	sym.Assert(ok, "an image control has a list of images")
	r := &codec.List{}
	for _, e := range l.Items {
		r.Items = append(r.Items, obj(e, "ImageFormImage", "an image control has a list of images").Prop("url"))
	}
	return r
}

func images(ls []leaf) *codec.List {
	r := &codec.List{}
	for _, l := range ls {
		r.Items = append(r.Items, &codec.Obj{Kind: "ImageFormImage", Props: map[string]codec.V{"url": l.s}})
	}
	return r
}

// H_darttext: the text controls of the form of a data type in Dart.
//
// bounds: as H_dartform, for text controls: 11 base types and a list of strings
//
//sym:steps=20000000 depth=4000 time=300 cover=text,saved,null
func H_darttext() {
	f := field{base: bases[sym.Pick("base", 11)]}
	f.list = f.base == "string" && sym.Pick("list", 2) == 1
	rest(&f, "digit format maxLine")
	try(func() { dartControl("text", f) })
}

// H_dartform: the form of a data type in Dart.
//
// bounds: a data type with an inherited text field, a plain field, the field and a text field after it; the field has each kind of control and each base type that goes with it (text: H_darttext; file and click: 5; image: string and list of strings; menu: an enum; date: date; switch: bool), optional or not; plain, only read or with a rule, the latter with all parameters (digit, format, maxLine, maxCount, width, height, clip, extensions; numbers of one digit, 3 widths); any value shown and any other entered (strings of 2 characters)
//
//sym:steps=20000000 depth=4000 time=300 cover=click,file,image,menu,date,switch,saved,null
func H_dartform() {
	control := pick("form", []string{"click", "file", "image", "menu", "date", "switch"})
	f := field{}
	switch control {
	case "file", "click":
		f.base = pick("base", []string{"string", "uint64", "date", "int32", "bool"})
	case "image":
		f.base = "string"
		f.list = sym.Pick("list", 2) == 1
	case "menu":
		f.base = "Kind"
	case "date":
		f.base = "date"
	case "switch":
		f.base = "bool"
	}
	rest(&f, "digit format maxLine maxCount width height clip extensions")
	try(func() { dartControl(control, f) })
}

func dartControl(control string, f field) {
	m := machine("dart", text(f, "form=\"true\"", "form", control))
	labelled(m)
	was := values("value", f)
	o := object(m, f, was)
	readOnly := sym.Bool("form read only")
	form, controls, sizes, padding := dartForm(m, o, readOnly)
	sym.Assert(len(controls) == 3, "a form has a control for each field that has one")
	for i, n := range []string{"head", "itemName", "tail"} {
		c, ok := controls[i].(*codec.Obj)
		sym.Assert(ok && c == form.Fields[n], "the controls of a form are in the order of its fields")
	}
	stored(o, item(m, f, was), "showing a form changes nothing")
	c := obj(controls[1], dartKinds[control], "a control is of the declared kind")
	// what it looks like
	expect(obj(c.Prop("decoration"), "InputDecoration", "a control has its label").Arg("labelText"), codec.Label{Of: "UserInfo", Name: "itemName"}, "a control has its label")
	expect(c.Prop("readOnly"), readOnly || f.only, "a control is read only when the form or the field is")
	sym.Assert(c.Prop("widthSizes") == sizes && c.Prop("padding") == padding, "a control has the sizes and padding of the form")
	if control == "text" {
		if f.line >= 0 {
			expect(c.Prop("maxLines"), codec.Num{N: int64(f.line)}, "maxLine")
		}
	}
	if control == "image" {
		if f.count >= 0 {
			expect(c.Prop("maxCount"), codec.Num{N: int64(f.count)}, "maxCount")
			expect(c.Prop("outWidth"), codec.Num{N: int64(f.width)}, "width")
			expect(c.Prop("outHeight"), codec.Num{N: int64(f.height)}, "height")
		}
		expect(c.Prop("clip"), f.clip, "clip")
	}
	if (control == "image" || control == "file") && f.extensions != nil {
		l := &codec.List{}
		for _, e := range f.extensions {
			l.Items = append(l.Items, e)
		}
		expect(c.Prop("extensions"), l, "extensions")
	}
	_, has := c.Props["validator"]
	sym.Assert(has == f.rule, "a control has a validator when its field has a rule")
	if f.rule {
		v := obj(call(c.Prop("validator"), "validator", "text"), "verifyUserInfo_ItemName", "the validator is that of the field")
		sym.Assert(len(v.Args) == 2 && codec.Same(v.Args[0], "context") && codec.Same(v.Args[1], "text"), "the validator gets the text")
	}
	// what it shows
	value := item(m, f, was)
	if d, ok := c.Prop("initialValue").(codec.Formatted); ok && f.format == "" {
		f.format = d.Format // any
	}
	switch control {
	case "text", "date", "file":
		want := codec.V("")
		if !was[0].null {
			want = shown(m, f, was[0])
			if f.list {
				j := codec.Joined{Sep: ","}
				for _, l := range was {
					j.Items = append(j.Items, shown(m, f, l))
				}
				want = j
			}
		}
		expect(c.Prop("initialValue"), want, "a control shows the value of its field")
	case "click", "switch":
		sym.Assert(codec.Same(c.Prop("initialValue"), value), "a control shows the value of its field")
	case "menu":
		sym.Assert(codec.Same(c.Prop("value"), value), "a control shows the value of its field")
		l, ok := c.Prop("items").(*codec.List)
		sym.Assert(ok && len(l.Items) == 2, "a menu has each item")
		for i, n := range []int64{0, 7} {
			it := obj(l.Items[i], "DropdownMenuItem", "a menu has each item")
			expect(it.Arg("value"), codec.Enum{Type: "Kind", N: n}, "a menu has each item")
			expect(only(obj(it.Arg("child"), "Text", "an item has its label"), 0), codec.Label{Of: "Kind", Name: strconv.Itoa(int(n))}, "an item has its label")
		}
	case "image":
		want := &codec.List{}
		if !was[0].null && (f.list || !f.opt) {
			for _, l := range was {
				want.Items = append(want.Items, l.s)
			}
		}
		expect(pictures(c.Prop("initialValue")), want, "a control shows the value of its field")
	}
	sym.Cover(control)
	// what it stores
	_, saves := c.Props["onSaved"]
	sym.Assert(saves == !f.only, "a control stores unless its field may only be read")
	if f.only {
		return
	}
	save := c.Prop("onSaved")
	if f.opt && sym.Pick("cleared", 2) == 1 {
		cleared := codec.V(nil)
		switch control {
		case "text", "file", "date":
			if !f.list {
				cleared = ""
			}
		case "image":
			if f.list {
				return
			}
			cleared = &codec.List{}
		}
		call(save, "onSaved", cleared)
		stored(o, nil, "a cleared control stores null")
		sym.Cover("null")
		return
	}
	if !f.opt && sym.Pick("cleared", 2) == 1 {
		// the field may refuse, but must not become null
		switch control {
		case "text", "file", "date":
			refuse(func() { call(save, "onSaved", "") })
			if control == "text" && f.base == "string" && !f.list {
				stored(o, "", "a cleared control stores no text")
			}
		default:
			refuse(func() { call(save, "onSaved", nil) })
		}
		sym.Assert(!codec.Null(o.Fields["itemName"]), "a field that may not be null does not become null")
		return
	}
	g := f
	g.opt = false
	now := values("entered", g)
	want := item(m, f, now)
	switch control {
	case "text", "file":
		if f.base == "date" && f.format == "" {
			f.format = "yyyy-MM-dd HH:mm:ss"
		}
		in := typed(f, now[0])
		if f.list {
			j := codec.Joined{Sep: ","}
			for _, l := range now {
				j.Items = append(j.Items, typed(f, l))
			}
			in = j
		}
		call(save, "onSaved", in)
	case "click", "menu", "switch", "date":
		call(save, "onSaved", want)
	case "image":
		call(save, "onSaved", images(now))
	}
	stored(o, want, "a control stores what is entered into its field")
	sym.Cover("saved")
}

// H_darttable: the table of a data type in Dart.
//
// bounds: as H_dartform, with a column for each of the 12 base types, as text, or a string as an image; a list of strings as either; digit and index of one digit, one format, or none
//
//sym:steps=20000000 depth=4000 time=250 cover=text,image,null
func H_darttable() {
	f := field{base: pick("base", bases)}
	kind := "text"
	if f.base == "string" {
		kind = pick("table", []string{"text", "image"})
		f.list = sym.Pick("list", 2) == 1
	}
	f.opt = sym.Pick("optional", 2) == 1
	params(&f, sym.Pick("parameters", 2) == 1, "digit index format")
	try(func() {
		m := machine("dart", text(f, "table=\"true\"", "table", kind))
		labelled(m)
		was := values("value", f)
		o := object(m, f, was)
		other := object(m, f, was)
		rows := &codec.List{Items: []codec.V{other, o}}
		t := m.Construct("TableUserInfoBuild", []codec.V{rows}, nil)
		tables := obj(t.Class.Call(t, "build", []codec.V{"context"}, map[string]codec.V{"builder": fn(func(a []codec.V) codec.V {
			sym.Assert(len(a) == 1 && a[0] == codec.V(t), "the builder gets the table")
			return nil
		})}), "TablesBuild", "a table is built")
		expect(tables.Prop("rowCount"), codec.Num{N: 2}, "a table has a row for each object")
		row := obj(call(tables.Prop("rowBuilder"), "rowBuilder", "context", codec.Num{N: 1}), "TablesRow", "a row is one of the table")
		sym.Assert(row.Arg("data") == codec.V(o), "a row shows its object")
		cols, ok := tables.Prop("columns").(*codec.Map)
		sym.Assert(ok && len(cols.Keys) == 3, "a table has a column for each field that has one")
		for i, n := range []string{"head", "itemName", "tail"} {
			sym.Assert(codec.Same(cols.Keys[i], n), "the columns are those of the fields, in their order")
			c := obj(cols.Vals[i], "TablesColumn", "a column is one of the table")
			index := i + 1
			if i == 1 && f.index >= 0 {
				index = f.index
			}
			expect(c.Arg("index"), codec.Num{N: int64(index)}, "a column has its index")
			h := obj(call(c.Arg("headerBuilder"), "headerBuilder", "context"), "TablesCell", "a column has a header")
			expect(only(obj(h.Arg("child"), "Text", "a column has a header"), 0), codec.Label{Of: "UserInfo", Name: n}, "a column has its label")
			cell := obj(call(c.Arg("cellBuilder"), "cellBuilder", "context", codec.Num{}, codec.Num{N: 1}, o), "TablesCell", "a column has cells")
			want := codec.V("the " + n)
			if i == 1 {
				want = ""
				if !was[0].null {
					want = shown(m, f, was[0])
					if f.list {
						j := codec.Joined{Sep: ","}
						for _, l := range was {
							j.Items = append(j.Items, shown(m, f, l))
						}
						want = j
					}
				}
				if kind == "image" {
					obj(cell.Arg("child"), "SizedBox", "what is no address is no image")
					p := f
					at := []leaf{{s: "http://a"}, {s: "b"}}
					if !f.list {
						at = at[:1]
					}
					web := object(m, p, at)
					cell := obj(call(c.Arg("cellBuilder"), "cellBuilder", "context", codec.Num{}, codec.Num{N: 1}, web), "TablesCell", "a column has cells")
					expect(only(obj(cell.Arg("child"), "Image", "an address is an image"), 0), "http://a", "a cell shows the value of its field")
					continue
				}
			}
			tip := obj(cell.Arg("child"), "Tooltip", "a cell has a tooltip")
			expect(tip.Arg("message"), want, "a cell shows the value of its field")
			expect(only(obj(tip.Arg("child"), "Text", "a cell has a text"), 0), want, "a cell shows the value of its field")
		}
		stored(o, item(m, f, was), "showing a table changes nothing")
		sym.Cover(kind)
		if was[0].null {
			sym.Cover("null")
		}
	})
}

// H_select: the column that selects rows in a Dart table.
//
// bounds: a table of 2 objects of which any are selected, besides one that is not in the table; the header is changed to each of its states, or a cell is changed
//
//sym:steps=20000000 depth=4000 time=100 cover=all,none,one
func H_select() {
	f := field{base: "int32", digit: -1, index: -1, line: -1, count: -1}
	try(func() {
		m := machine("dart", text(f, "table=\"true\"", "table", "text"))
		var objs []codec.V
		selected := &codec.List{Set: true}
		var in []bool
		for i := 0; i < 2; i++ {
			o := object(m, f, []leaf{{n: i}})
			objs = append(objs, o)
			in = append(in, sym.Pick("selected", 2) == 1)
			if in[i] {
				selected.Items = append(selected.Items, o)
			}
		}
		// a row that is selected and not in the table, as of another page
		if sym.Pick("another", 2) == 1 {
			selected.Items = append(selected.Items, object(m, f, []leaf{{n: 2}}))
		}
		called := 0
		t := m.Construct("TableUserInfoBuild", []codec.V{&codec.List{Items: objs}}, map[string]codec.V{"select": selected, "onSelect": fn(func(a []codec.V) codec.V {
			called++
			sym.Assert(len(a) == 2 && a[1] == codec.V(selected), "what is selected is reported")
			return nil
		})})
		cols := obj(t.Class.Call(t, "build", []codec.V{"context"}, nil), "TablesBuild", "a table is built").Prop("columns").(*codec.Map)
		sym.Assert(len(cols.Keys) == 4, "a table has a column that selects")
		c := obj(cols.Vals[0], "TablesColumn", "a column is one of the table")
		expect(c.Arg("index"), codec.Num{N: -1}, "the column that selects is the first")
		box := obj(obj(call(c.Arg("headerBuilder"), "headerBuilder", "context"), "TablesCell", "a column has a header").Arg("child"), "Checkbox", "rows are selected by a box")
		state := codec.V(nil)
		if in[0] == in[1] {
			state = in[0]
		}
		sym.Assert(codec.Same(box.Arg("value"), state), "the box in the header shows whether all are selected")
		switch sym.Pick("change", 3) {
		case 0:
			call(box.Arg("onChanged"), "onChanged", true)
			in = []bool{true, true}
			sym.Cover("all")
		case 1:
			call(box.Arg("onChanged"), "onChanged", nil)
			in = []bool{false, false}
			sym.Cover("none")
		case 2:
			k := sym.Pick("row", 2)
			b := obj(obj(call(c.Arg("cellBuilder"), "cellBuilder", "context", codec.Num{}, codec.Num{N: int64(k)}, objs[k]), "TablesCell", "a column has cells").Arg("child"), "Checkbox", "rows are selected by a box")
			sym.Assert(codec.Same(b.Arg("value"), in[k]), "a box shows whether its row is selected")
			call(b.Arg("onChanged"), "onChanged", !in[k])
			in[k] = !in[k]
			sym.Cover("one")
		}
		sym.Assert(called == 1, "a change of what is selected is reported")
		for k, o := range objs {
			n, want := 0, 0
			for _, e := range selected.Items {
				if e == o {
					n++
				}
			}
			if in[k] {
				want = 1
			}
			sym.Assert(n == want, "a row is selected or not as the box says")
		}
	})
}

// tsPart is what a component gives, with the context it is shown in.
type tsPart struct {
	props *codec.Obj
	ctx   *codec.Obj
}

func props(kv map[string]codec.V) *codec.Obj { return &codec.Obj{Kind: "props", Props: kv} }

func zoned(v codec.V, to bool) codec.V {
	switch x := v.(type) {
	case nil, codec.Undef:
		return nil
	case codec.Date:
		if to {
			return codec.Zoned{Ms: x.Ms}
		}
	case codec.Zoned:
		if !to {
			return codec.Date{Ms: x.Ms}
		}
	case codec.End:
		if !to {
			return x
		}
	}
	panic(codec.Throw{Why: "a moment of " + codec.Show(v)})
}

func context(model codec.V) *codec.Obj {
	return props(map[string]codec.V{
		"model":    model,
		"position": codec.Undef{},
		"hide":     codec.Undef{},
		"$slots":   &codec.Map{},
		"$t": fn(func(a []codec.V) codec.V {
			if s, ok := a[0].(string); ok {
				return codec.Label{Of: "$t", Name: s}
			}
			l, ok := a[0].(codec.Label)
			if !ok {
				panic(codec.Throw{Why: "label of " + codec.Show(a[0])})
			}
			return l
		}),
		"$fd": fn(func(a []codec.V) codec.V {
			d, ok := a[0].(codec.Date)
			s, is := a[1].(string)
			if !ok || !is {
				panic(codec.Throw{Why: "date of " + codec.Show(a[0])})
			}
			return codec.Formatted{Ms: d.Ms, Format: s}
		}),
		"$timeToLocal":         fn(func(a []codec.V) codec.V { return zoned(a[0], true) }),
		"$timeToUtc":           fn(func(a []codec.V) codec.V { return zoned(a[0], false) }),
		"$datePackerShortcuts": fn(func(a []codec.V) codec.V { return "shortcuts" }),
	})
}

// component renders a component.
func component(m *codec.Machine, name string, p, ctx *codec.Obj) []codec.V {
	c, ok := m.Const(name).(*codec.Map)
	sym.Assert(ok, "the component is there")
	setup, ok := c.Get("setup")
	sym.Assert(ok, "the component is there")
	expectName, _ := c.Get("name")
	sym.Assert(codec.Same(expectName, name), "a component has its name")
	l, ok := call(call(setup, "setup", p), "a component renders", ctx).(*codec.List)
	sym.Assert(ok, "a component renders elements")
	return l.Items
}

func element(v codec.V, name, what string) *codec.Element {
	e, ok := v.(*codec.Element)
	if !ok || e.Name != name {
		sym.Note("got", codec.Show(v))
		sym.Note("expected", "<"+name+">")
		sym.Assert(false, what)
	}
	return e
}

func attr(e *codec.Element, name string) codec.V {
	v, ok := e.Attrs.Get(name)
	if !ok {
		return codec.Undef{}
	}
	return v
}

func flag(e *codec.Element, name string) bool {
	v := attr(e, name)
	b, ok := v.(bool)
	return ok && b
}

var tsKinds = map[string]string{"text": "el-input", "pass": "el-input", "menu": "el-select", "switch": "el-switch", "radio": "el-radio-group", "radioButton": "el-radio-group", "datetime": "el-date-picker", "date": "el-date-picker", "dates": "el-date-picker", "year": "el-date-picker", "month": "el-date-picker"}
var oneDate = map[string]string{"datetime": "datetime", "date": "date", "dates": "dates", "year": "year", "month": "month"}
var manyDates = map[string]string{"datetime": "datetimerange", "date": "daterange", "dates": "dates", "year": "years", "month": "monthrange"}

// H_tsform: the form of a data type in TypeScript.
//
// bounds: as H_dartform, with each kind of control and each base type that goes with it (text and pass: 11 base types, text also a list of strings; menu, radio and radioButton: an enum; switch: bool; datetime, date, dates, year and month: date, or a list of two), and parameters digit, format, unlink
//
//sym:steps=20000000 depth=4000 time=250 cover=text,pass,menu,switch,radio,radioButton,datetime,date,dates,year,month,saved,null
func H_tsform() {
	control := pick("form", []string{"text", "pass", "menu", "switch", "radio", "radioButton", "datetime", "date", "dates", "year", "month"})
	f := field{}
	switch control {
	case "text", "pass":
		f.base = bases[sym.Pick("base", 11)]
		f.list = control == "text" && f.base == "string" && sym.Pick("list", 2) == 1
	case "menu", "radio", "radioButton":
		f.base = "Kind"
	case "switch":
		f.base = "bool"
	default:
		f.base = "date"
		f.list = sym.Pick("list", 2) == 1
	}
	rest(&f, "digit format unlink")
	try(func() { tsControl(control, f) })
}

func tsControl(control string, f field) {
	m := machine("ts", text(f, "form=\"true\"", "form", control))
	labelled(m)
	was := values("value", f)
	sym.Assume(control != "switch" || !was[0].null)
	o := object(m, f, was)
	form := component(m, "UserInfoFormItems", props(map[string]codec.V{"size": "small"}), context(o))
	sym.Assert(len(form) == 3, "a form has a control for each field that has one")
	for i, n := range []string{"head", "itemName", "tail"} {
		e := element(form[i], "el-form-item", "a form has an item for each control")
		expect(attr(e, "prop"), n, "the controls of a form are in the order of its fields")
		expect(attr(e, "label"), codec.Label{Of: "$t", Name: "userInfoLang." + n}, "a control has its label")
		rules, ok := attr(e, "rules").(*codec.List)
		sym.Assert(ok == (i == 1 && f.rule), "a control has rules when its field has one")
		if ok {
			r, ok := rules.Items[0].(*codec.Map)
			sym.Assert(ok && len(rules.Items) == 1, "a control has rules when its field has one")
			v, _ := r.Get("validator")
			obj(v, "verifyUserInfo_ItemName", "the validator is that of the field")
		}
		sym.Assert(len(e.Kids) == 1, "an item has its control")
	}
	stored(o, item(m, f, was), "showing a form changes nothing")
	name := tsKinds[control]
	tags := f.list && control == "text"
	if tags {
		name = "el-select"
	}
	c := element(form[1].(*codec.Element).Kids[0], name, "a control is of the declared kind")
	if !tags && control != "switch" {
		expect(attr(c, "size"), "small", "a control has the size of the form")
	}
	sym.Assert(flag(c, "disabled") == f.only, "a control is disabled when its field may only be read")
	if control != "switch" && control != "radio" && control != "radioButton" {
		sym.Assert(flag(c, "clearable") == f.opt, "a control can be cleared when its field may be null")
	}
	sym.Cover(control)
	value := item(m, f, was)
	if was[0].null {
		sym.Cover("null")
	}
	switch control {
	case "menu", "radio", "radioButton":
		sym.Assert(codec.Same(attr(c, "v-model"), value), "a control shows the value of its field")
		sym.Assert(len(c.Kids) == 2, "a control has each item")
		for i, n := range []int64{0, 7} {
			option := map[string]string{"menu": "el-option", "radio": "el-radio", "radioButton": "el-radio-button"}[control]
			e := element(c.Kids[i], option, "a control has each item")
			expect(attr(e, "value"), codec.Enum{Type: "Kind", N: n}, "a control has each item")
			expect(attr(e, "key"), codec.Num{N: n}, "a control has each item")
			expect(attr(e, "label"), codec.Label{Of: "Kind", Name: strconv.Itoa(int(n))}, "an item has its label")
		}
		return
	case "text", "pass":
		if tags {
			sym.Assert(codec.Same(attr(c, "v-model"), value) && flag(c, "multiple"), "a control shows the value of its field")
			return
		}
		sym.Assert((control == "pass") == codec.Same(attr(c, "type"), "password"), "a password is hidden")
		expect(attr(c, "modelValue"), shown(m, f, was[0]), "a control shows the value of its field")
		if f.digit >= 0 {
			expect(attr(c, "precision"), codec.Num{N: int64(f.digit)}, "digit")
		}
	case "switch":
		sym.Assert(codec.Same(attr(c, "modelValue"), value), "a control shows the value of its field")
	default:
		types := oneDate
		if f.list {
			types = manyDates
		}
		expect(attr(c, "type"), types[control], "a date control is of the declared kind")
		sym.Assert(flag(c, "unlink-panels") == f.unlink, "unlink")
		want := codec.V(nil)
		if !was[0].null {
			want = codec.Zoned{Ms: int64(was[0].n)}
			if f.list {
				l := &codec.List{}
				for _, w := range was {
					l.Items = append(l.Items, codec.Zoned{Ms: int64(w.n)})
				}
				want = l
			}
		}
		sym.Assert(codec.Same(attr(c, "modelValue"), want), "a control shows the value of its field")
	}
	store := attr(c, "onUpdate:modelValue")
	if f.opt && sym.Pick("cleared", 2) == 1 {
		cleared := codec.V(nil)
		if control == "text" || control == "pass" {
			cleared = ""
		}
		call(store, "a control stores", cleared)
		stored(o, nil, "a cleared control stores null")
		return
	}
	g := f
	g.opt = false
	now := values("entered", g)
	want := item(m, f, now)
	in := want
	switch control {
	case "text", "pass":
		in = typed(f, now[0])
	case "switch":
	default:
		z := &codec.List{}
		for _, w := range now {
			z.Items = append(z.Items, codec.Zoned{Ms: int64(w.n)})
		}
		in = z
		if !f.list && control != "dates" {
			in = z.Items[0]
		}
		if f.list {
			w := want.(*codec.List)
			switch control {
			case "date":
				w.Items[1] = codec.End{Of: codec.Zoned{Ms: int64(now[1].n)}, What: "day"}
			case "month":
				w.Items[1] = codec.End{Of: codec.Zoned{Ms: int64(now[1].n)}, What: "month"}
			}
		}
	}
	call(store, "a control stores", in)
	stored(o, want, "a control stores what is entered into its field")
	sym.Cover("saved")
}

// H_tstable: the table of a data type in TypeScript.
//
// bounds: as H_darttable; columns are text, image or (bool) switch, and have a width
//
//sym:steps=20000000 depth=4000 time=250 cover=text,image,switch,null
func H_tstable() {
	f := field{base: pick("base", bases)}
	kind := "text"
	switch f.base {
	case "string":
		kind = pick("table", []string{"text", "image"})
		f.list = kind == "text" && sym.Pick("list", 2) == 1
	case "bool":
		kind = pick("table", []string{"text", "switch"})
	}
	f.opt = sym.Pick("optional", 2) == 1
	params(&f, sym.Pick("parameters", 2) == 1, "digit format width")
	try(func() {
		m := machine("ts", text(f, "table=\"true\"", "table", kind))
		labelled(m)
		was := values("value", f)
		o := object(m, f, was)
		cols := component(m, "UserInfoTableColumn", props(map[string]codec.V{}), context(nil))
		sym.Assert(len(cols) == 3, "a table has a column for each field that has one")
		for i, n := range []string{"head", "itemName", "tail"} {
			e := element(cols[i], "el-table-column", "a column is one of the table")
			expect(attr(e, "prop"), n, "the columns are those of the fields, in their order")
			expect(attr(e, "label"), codec.Label{Of: "$t", Name: "userInfoLang." + n}, "a column has its label")
			if i == 1 && f.width > 0 {
				w, ok := attr(e, "min-width").(string)
				v, err := strconv.ParseFloat(w, 64)
				sym.Assert(ok && err == nil && v == float64(f.width), "a column has its width")
			}
			sym.Assert(len(e.Kids) == 1, "a column has cells")
			slots, ok := e.Kids[0].(*codec.Map)
			sym.Assert(ok, "a column has cells")
			show, _ := slots.Get("default")
			got := call(show, "a column has cells", props(map[string]codec.V{"row": o}))
			if i != 1 {
				expect(got, "the "+n, "a cell shows the value of its field")
				continue
			}
			switch kind {
			case "text":
				want := codec.V("")
				if !was[0].null {
					want = shown(m, f, was[0])
					if f.list {
						j := codec.Joined{Sep: ","}
						for _, l := range was {
							j.Items = append(j.Items, shown(m, f, l))
						}
						want = j
					}
				}
				expect(got, want, "a cell shows the value of its field")
			case "switch":
				s := element(got, "el-switch", "a cell has a switch")
				sym.Assert(flag(s, "disabled") && codec.Same(attr(s, "v-model"), item(m, f, was)), "a cell shows the value of its field")
			case "image":
				frag := element(got, "", "a cell has an image")
				sym.Assert(len(frag.Kids) == 1, "a cell has an image")
				pop := element(frag.Kids[0], "el-popover", "a cell has an image")
				parts, ok := pop.Kids[0].(*codec.Map)
				sym.Assert(ok && len(pop.Kids) == 1, "a cell has an image")
				for _, p := range [][]string{{"default", "el-image"}, {"reference", "el-avatar"}} {
					v, _ := parts.Get(p[0])
					img := element(call(v, "a cell has an image"), p[1], "a cell has an image")
					sym.Assert(codec.Same(attr(img, "src"), item(m, f, was)), "a cell shows the value of its field")
				}
			}
		}
		stored(o, item(m, f, was), "showing a table changes nothing")
		sym.Cover(kind)
		if was[0].null {
			sym.Cover("null")
		}
	})
}

// H_order: which controls and columns a component shows, and in which order.
//
// bounds: TypeScript, a form or table with 3 fields; up to 2 names that are to be first (each of the 3 fields, a slot, or an unknown name), up to 2 that are hidden, and a slot with a new name, with the name of a field, or none
//
//sym:steps=20000000 depth=4000 time=250 cover=form,table
func H_order() {
	f := field{base: "int32", digit: -1, index: -1, line: -1, count: -1}
	kind := pick("kind", []string{"form", "table"})
	try(func() {
		m := machine("ts", text(f, kind+"=\"true\"", kind, "text"))
		o := object(m, f, []leaf{{n: 1}})
		ctx := context(o)
		names := []string{"head", "itemName", "tail", "extra", "other"}
		choose := func(what string, n int) (codec.V, []string) {
			k := sym.Pick(what, n+2)
			if k == 0 {
				return codec.Undef{}, nil
			}
			l := &codec.List{}
			var r []string
			for i := 1; i < k; i++ {
				s := pick(what+strconv.Itoa(i), names)
				l.Items = append(l.Items, s)
				r = append(r, s)
			}
			return l, r
		}
		first, hidden := []string(nil), []string(nil)
		ctx.Props["position"], first = choose("position", 2)
		ctx.Props["hide"], hidden = choose("hide", 1)
		slot := pick("slot", []string{"", "extra", "itemName"})
		has := []string{"head", "itemName", "tail"}
		if slot != "" {
			ctx.Props["$slots"].(*codec.Map).Set(slot, fn(func([]codec.V) codec.V { return "slot" }))
			if slot == "extra" {
				has = append(has, slot)
			}
		}
		name := map[string]string{"form": "UserInfoFormItems", "table": "UserInfoTableColumn"}[kind]
		got := component(m, name, props(map[string]codec.V{}), ctx)
		in := func(l []string, s string) bool {
			for _, e := range l {
				if e == s {
					return true
				}
			}
			return false
		}
		var want []string
		for _, s := range first {
			if in(has, s) && !in(want, s) {
				want = append(want, s)
			}
		}
		for _, s := range has {
			if !in(want, s) && !in(hidden, s) {
				want = append(want, s)
			}
		}
		sym.Assert(len(got) == len(want), "a component shows what is not hidden")
		for i, s := range want {
			if s == slot {
				sym.Assert(codec.Same(got[i], "slot"), "a slot is shown in place of a field")
				continue
			}
			e, ok := got[i].(*codec.Element)
			sym.Assert(ok && codec.Same(attr(e, "prop"), s), "what is to be first is, then the rest in the order of the fields")
		}
		sym.Cover(kind)
	})
}

// H_which: which forms, tables, controls and columns there are.
//
// bounds: Dart and TypeScript; the ui tag of the type is absent or has form and table absent, true or false; that of the field is absent or has form and table absent or text; the field is its own, inherited from the parent or the parent's parent
//
//sym:steps=20000000 depth=4000 time=250 cover=form,table,none
func H_which() {
	target := pick("target", []string{"dart", "ts"})
	yes := []string{"", "true", "false"}
	tag, form, table := "", "", ""
	if sym.Pick("type tag", 2) == 1 {
		form, table = pick("form", yes), pick("table", yes)
		var kv []string
		if form != "" {
			kv = append(kv, "form=\""+form+"\"")
		}
		if table != "" {
			kv = append(kv, "table=\""+table+"\"")
		}
		if len(kv) > 0 {
			tag = "[ui:" + strings.Join(kv, ";") + "]\n"
		}
	}
	inForm, inTable, own := false, false, ""
	if sym.Pick("field tag", 2) == 1 {
		var kv []string
		if inForm = sym.Pick("in form", 2) == 1; inForm {
			kv = append(kv, "form=\"text\"")
		}
		if inTable = sym.Pick("in table", 2) == 1; inTable {
			kv = append(kv, "table=\"text\"")
		}
		if len(kv) > 0 {
			own = "\t[ui:" + strings.Join(kv, ";") + "]\n"
		}
	}
	level := sym.Pick("level", 3)
	levels := []string{"", "", ""}
	levels[level] = own + "\tstring? itemName = 0\n"
	levels[0] += "\t[ui:form=\"text\";table=\"text\"]\n\tstring? last = 1\n"
	schema := head + "data Top {\n" + levels[2] + "}\ndata Base : Top = 0 {\n" + levels[1] + "}\n" + tag + "data userInfo : Base = 0 {\n" + levels[0] + "}\ndata Other {\n\tint32 x = 0\n}\n"
	try(func() {
		m := machine(target, schema)
		class := "UserInfo"
		if target == "dart" {
			class = "_UserInfo"
		}
		o := m.Classes[class].New(map[string]codec.V{"itemName": "a", "last": "b"})
		names := func(in bool) []string {
			if in {
				return []string{"itemName", "last"}
			}
			return []string{"last"}
		}
		if target == "ts" {
			for _, c := range []struct {
				name string
				is   bool
				want []string
			}{{"UserInfoFormItems", form == "true", names(inForm)}, {"UserInfoTableColumn", table == "true", names(inTable)}} {
				if m.Const(c.name) == nil {
					sym.Assert(!c.is, "a form or table that is asked for is there")
					continue
				}
				sym.Assert(c.is, "a form or table is there only when it is asked for")
				got := component(m, c.name, props(map[string]codec.V{}), context(o))
				var have []string
				for _, g := range got {
					if e, ok := g.(*codec.Element); ok {
						if s, ok := attr(e, "prop").(string); ok {
							have = append(have, s)
						}
					}
				}
				sym.Assert(sameSet(have, c.want), "each field that asks for it is shown, once")
			}
			for _, n := range []string{"OtherFormItems", "OtherTableColumn", "TopFormItems", "BaseFormItems"} {
				sym.Assert(m.Const(n) == nil, "a form or table is there only when it is asked for")
			}
		} else {
			sym.Assert((m.Classes["FormUserInfoBuild"] != nil) == (form == "true"), "a form is there when it is asked for")
			sym.Assert((m.Classes["TableUserInfoBuild"] != nil) == (table == "true"), "a table is there when it is asked for")
			for _, n := range []string{"FormOtherBuild", "TableOtherBuild", "FormBaseBuild", "FormTopBuild"} {
				sym.Assert(m.Classes[n] == nil, "a form or table is there only when it is asked for")
			}
			if form == "true" {
				f, got, _, _ := dartForm(m, o, false)
				var have []string
				for _, n := range []string{"itemName", "last"} {
					for _, g := range got {
						if f.Fields[n] != nil && g == f.Fields[n] {
							have = append(have, n)
						}
					}
				}
				sym.Assert(len(got) == len(have) && sameSet(have, names(inForm)), "each field that asks for it is shown, once")
			}
			if table == "true" {
				t := m.Construct("TableUserInfoBuild", []codec.V{&codec.List{}}, nil)
				cols := obj(t.Class.Call(t, "build", []codec.V{"context"}, nil), "TablesBuild", "a table is built").Prop("columns").(*codec.Map)
				var have []string
				for _, k := range cols.Keys {
					s, _ := k.(string)
					have = append(have, s)
				}
				sym.Assert(sameSet(have, names(inTable)), "each field that asks for it is shown, once")
			}
		}
		if form == "true" {
			sym.Cover("form")
		}
		if table == "true" {
			sym.Cover("table")
		}
		if form != "true" && table != "true" {
			sym.Cover("none")
		}
	})
}

// sameSet reports whether two lists have the same names, each once.
func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range b {
		n := 0
		for _, y := range a {
			if x == y {
				n++
			}
		}
		if n != 1 {
			return false
		}
	}
	return true
}

// H_labels: the labels of forms and tables.
//
// bounds: Dart and TypeScript; a form, a table or both, with an inherited and an own field that have a label in en, zh, both or neither, of any 2 characters
//
//sym:steps=20000000 depth=4000 time=250 cover=dart,ts
func H_labels() {
	target := pick("target", []string{"dart", "ts"})
	kind := pick("kind", []string{"form", "table", "both"})
	tag := map[string]string{"form": "form=\"text\"", "table": "table=\"text\"", "both": "form=\"text\";table=\"text\""}[kind]
	typeTag := map[string]string{"form": "form=\"true\"", "table": "table=\"true\"", "both": "form=\"true\";table=\"true\""}[kind]
	labels := map[string]map[string]string{}
	langs := map[string]bool{"en": true}
	fields := map[string]string{}
	for _, n := range []string{"itemName", "last"} {
		labels[n] = map[string]string{}
		var kv []string
		for _, l := range []string{"en", "zh"} {
			if sym.Pick(n+" "+l, 2) == 1 {
				s := sym.StrOf(n+l, 2, "aB 1$")
				labels[n][l] = s
				langs[l] = true
				kv = append(kv, l+"=\""+s+"\"")
			}
		}
		if len(kv) > 0 {
			fields[n] = "\t[lang:" + strings.Join(kv, ";") + "]\n"
		}
		fields[n] += "\t[ui:" + tag + "]\n\tstring? " + n + " = 1\n"
	}
	schema := head + "data Base {\n" + fields["itemName"] + "}\n[ui:" + typeTag + "]\ndata userInfo : Base = 0 {\n" + fields["last"] + "\tint32 none = 2\n}\n"
	try(func() {
		m := machine(target, schema)
		for _, l := range []string{"en", "zh"} {
			for _, n := range []string{"itemName", "last"} {
				got, ok := label(m, l, n)
				sym.Assert(ok == langs[l], "each language that has a label is there")
				if want, is := labels[n][l]; is {
					expect(got, want, "a label is the text that is declared")
				} else if ok {
					_, text := got.(string)
					sym.Assert(text, "a field without a label has some text")
				}
			}
			_, ok := label(m, l, "none")
			sym.Assert(!ok, "only what is shown has a label")
		}
		sym.Cover(target)
	})
}

// labelled asserts that the label that the code shows for the field is there.
func labelled(m *codec.Machine) {
	_, ok := label(m, "en", "itemName")
	sym.Assert(ok, "what is shown has a label")
}

// label is the text of a field in a language.
func label(m *codec.Machine, lang, name string) (codec.V, bool) {
	if m.Lang == "ts" {
		all, _ := m.Const("userInfoLang").(*codec.Map)
		sym.Assert(all != nil, "the languages are there")
		v, _ := all.Get(lang)
		of, _ := v.(*codec.Map)
		if of == nil {
			return nil, false
		}
		return of.Get(name)
	}
	toks := m.Toks()
	for i := 0; i+3 < len(toks); i++ {
		if toks[i].Text != "case" || toks[i+1].Kind != src.String || toks[i+1].Text != lang {
			continue
		}
		for ; i < len(toks) && toks[i].Text != ";"; i++ {
			c := m.Classes[toks[i].Text]
			if c == nil || !strings.HasSuffix(c.Name, "UserInfoLocalizations") || c.Name == "UserInfoLocalizations" {
				continue
			}
			v := c.Get(name)
			return v, !codec.Null(v)
		}
	}
	return nil, false
}
