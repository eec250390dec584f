// C17: declared validation rules are enforced as declared.
package main

import (
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/goeval"
	"hbuf/zz_verif/num"
	"hbuf/zz_verif/schema"
	"hbuf/zz_verif/script"
	"hbuf/zz_verif/src"
	"hbuf/zz_verif/sym"
	"regexp"
	"strconv"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_go": H_go, "H_form": H_form, "H_junk": H_junk, "H_text": H_text, "H_date": H_date, "H_other": H_other, "H_limit": H_limit, "H_all": H_all})
}

// A rule is an item of the enum of rules.
type rule struct {
	plain         bool // without a format
	null          string
	min, max, reg string
}

func (r rule) text() string {
	if r.plain {
		return ""
	}
	var kv []string
	for _, x := range [][2]string{{"null", r.null}, {"reg", r.reg}, {"min", r.min}, {"max", r.max}} {
		if x[1] != "" {
			kv = append(kv, x[0]+"=\""+x[1]+"\"")
		}
	}
	if len(kv) == 0 {
		return "\t[format:]\n"
	}
	return "\t[format:" + strings.Join(kv, ";") + "]\n"
}

// A field has rules, of which it names a part.
type field struct {
	typ   string // base type, or the text of any other type
	opt   bool
	apart bool // the rules are in a file of their own
	rules []rule
}

var names = []string{"one", "two", "six"}

const head = "package go=\"v.a\"\npackage dart=\"v.a\"\npackage java=\"v.a\"\npackage ts=\"v.a\"\n"

func ruleEnum(rules []rule) string {
	s := "enum Rule {\n"
	for i, r := range rules {
		s += r.text() + "\t" + names[i] + " = " + strconv.Itoa(i+1) + "\n"
	}
	return s + "}\n"
}

func (f field) decl(name, id string) string {
	var vs []string
	for i := range f.rules {
		vs = append(vs, "\"Rule."+names[i]+"\"")
	}
	t := f.typ
	if f.opt {
		t += "?"
	}
	return "\t[verify:format=" + strings.Join(vs, ",") + "]\n\t" + t + " " + name + " = " + id + "\n"
}

func (f field) files() []*schema.File {
	if f.apart {
		return []*schema.File{{Path: "v.hbuf", Raw: head + "import \"r.hbuf\"\nenum Kind {\n\tok = 1\n}\ndata Sub {\n\tint32 x = 0\n}\n[verify:]\ndata Foo {\n" + f.decl("it", "0") + "}\n"},
			{Path: "r.hbuf", Raw: strings.ReplaceAll(head, "v.a", "v.b") + ruleEnum(f.rules)}}
	}
	return []*schema.File{{Path: "v.hbuf", Raw: head + ruleEnum(f.rules) + "enum Kind {\n\tok = 1\n}\ndata Sub {\n\tint32 x = 0\n}\n[verify:]\ndata Foo {\n" + f.decl("it", "0") + "}\n"}}
}

// first returns what the rules say: "" or the name of the rule that is broken.
// A value that is missing is decided by the first rule that has a format.
func (f field) first(missing bool, broken func(r rule) bool) string {
	r := ""
	done := false
	first := true
	for i, x := range f.rules {
		if x.plain {
			continue
		}
		bad := broken(x)
		if f.opt && first && missing {
			bad = x.null != "true"
			if !done && bad {
				r = names[i]
			}
			done = true
		}
		first = false
		if !done && bad {
			r = names[i]
			done = true
		}
	}
	return r
}

// Ranges of the types.
var ranges = map[string][2]string{
	"int8": {"-128", "127"}, "int16": {"-32768", "32767"}, "int32": {"-2147483648", "2147483647"}, "int64": {"-9223372036854775808", "9223372036854775807"},
	"uint8": {"0", "255"}, "uint16": {"0", "65535"}, "uint32": {"0", "4294967295"}, "uint64": {"0", "18446744073709551615"},
}

var numbers = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float", "double", "decimal"}

func whole(t string) bool { return ranges[t][0] != "" }

// outside reports whether n breaks the limits.
func outside(n num.Num, min, max string) bool {
	bad := false
	if min != "" && n.Less(num.Must(min)) {
		bad = true
	}
	if max != "" && num.Must(max).Less(n) {
		bad = true
	}
	return bad
}

// ---- Go ----

type F = func(args []goeval.V) goeval.V

// runGo calls a function of the generated code; "" is no error.
func runGo(verify, data *goeval.File, fn string, obj *goeval.Obj) (r string) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(goeval.Err)
			if !ok {
				panic(x)
			}
			sym.Note("code", verify.Text)
			sym.Note("error", string(e))
			sym.Assert(false, "a generated function runs")
		}
	}()
	m := &goeval.Machine{Steps: 5000}
	m.Lit = func(text string) goeval.V {
		n, ok := num.Parse(text)
		if !ok || len(text) > 1 && text[0] == '0' && text[1] != '.' {
			panic(goeval.Err("number " + text))
		}
		return n
	}
	pack := func(ms map[string]F) *goeval.Obj { return &goeval.Obj{Methods: ms} }
	m.Globals = map[string]goeval.V{
		"utf8": pack(map[string]F{"RuneCountInString": func(a []goeval.V) goeval.V { return num.Int(int64(script.Points(a[0].(string)))) }}),
		"regexp": pack(map[string]F{"MatchString": func(a []goeval.V) goeval.V {
			ok, err := regexp.MatchString(a[0].(string), a[1].(string))
			if err != nil {
				return goeval.Tuple{false, &goeval.Obj{Type: "error"}}
			}
			return goeval.Tuple{ok, nil}
		}}),
		"decimal": pack(map[string]F{"RequireFromString": func(a []goeval.V) goeval.V { return decimal(num.Must(a[0].(string))) }}),
	}
	other := &goeval.Obj{Fields: map[string]goeval.V{}}
	m.Globals["b"] = other
	for i, n := range names {
		n := strings.ToUpper(n[:1]) + n[1:]
		m.Globals["Rule"+n] = &goeval.Obj{Type: n, Fields: map[string]goeval.V{"id": i + 1}, Methods: map[string]F{"ToName": func(a []goeval.V) goeval.V { return n }}}
		other.Fields["Rule"+n] = m.Globals["Rule"+n]
	}
	if obj.Methods == nil {
		obj.Methods = map[string]F{}
	}
	for _, f := range []*goeval.File{data, verify} {
		for _, d := range f.Funcs {
			d := d
			if d.Recv != nil && goeval.Recv(d) == obj.Type {
				obj.Methods[d.Name.Name] = func(a []goeval.V) goeval.V {
					return m.Call(d, append([]goeval.V{obj}, a...)...)
				}
			}
		}
	}
	d := verify.Find(obj.Type, fn)
	if d == nil {
		sym.Note("code", verify.Text)
		sym.Assert(false, "a field with rules has a function that verifies it")
		return ""
	}
	v := m.Call(d, obj, nil)
	if v == nil {
		return ""
	}
	o, ok := v.(*goeval.Obj)
	if !ok || o.Type != "Result" {
		panic(goeval.Err("a result that is no error of the schema"))
	}
	code, ok := o.Fields["Code"].(*goeval.Obj)
	if !ok || o.Fields["Msg"] != goeval.V(code.Type) {
		panic(goeval.Err("code and message of different errors"))
	}
	return strings.ToLower(code.Type)
}

func decimal(n num.Num) *goeval.Obj {
	o := &goeval.Obj{Type: "decimal.Decimal", Fields: map[string]goeval.V{"n": n}}
	with := func(f func(a, b num.Num) bool) F {
		return func(a []goeval.V) goeval.V { return f(n, a[0].(*goeval.Obj).Fields["n"].(num.Num)) }
	}
	o.Methods = map[string]F{
		"GreaterThan":        with(func(a, b num.Num) bool { return b.Less(a) }),
		"LessThan":           with(func(a, b num.Num) bool { return a.Less(b) }),
		"GreaterThanOrEqual": with(func(a, b num.Num) bool { return !a.Less(b) }),
		"LessThanOrEqual":    with(func(a, b num.Num) bool { return !b.Less(a) }),
		"Equal":              with(func(a, b num.Num) bool { return a.Equal(b) }),
	}
	return o
}

func parse(text string) *goeval.File {
	f, err := goeval.Parse(text)
	if err != nil {
		sym.Note("code", text)
		sym.Assert(false, "the generated Go code can be parsed")
	}
	return f
}

// checkGo runs the generated Go function on a value, nil if it is missing.
func (f field) checkGo(v goeval.V, want string) {
	outs, err := gen.Compile("go", f.files(), "v.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Assert(false, "a schema with rules is accepted")
		return
	}
	verify := parse(gen.Find(outs, "v.verify.go"))
	if f.opt && v != nil {
		switch v.(type) {
		case *goeval.List:
		default:
			v = &goeval.Ptr{Elem: v, Index: -1}
		}
	}
	obj := &goeval.Obj{Type: "Foo", Fields: map[string]goeval.V{"It": v}}
	got := runGo(verify, parse(gen.Find(outs, "v.data.go")), "VerifyIt", obj)
	f.compare(verify.Text, got, want)
}

func (f field) compare(code, got, want string) {
	if got != want {
		sym.Note("schema", f.files()[0].Raw)
		sym.Note("code", code)
		sym.Note("got", got)
		sym.Note("want", want)
	}
	sym.Assert(got == want, "the error is that of the first rule that is broken")
	sym.Cover("checked")
}

// ---- Dart and TypeScript ----

type nan struct{}

// A day is a text that is a date, and its milliseconds.
type day struct {
	text string
	ms   num.Num
}

func ordered(typ string, n num.Num) *script.Obj {
	o := &script.Obj{Type: typ}
	o.Less = func(a, b *script.Obj) bool {
		x, _ := a.Get("$")
		y, _ := b.Get("$")
		return x.(num.Num).Less(y.(num.Num))
	}
	to := func(v script.V) num.Num {
		switch x := v.(type) {
		case *script.Obj:
			y, _ := x.Get("$")
			return y.(num.Num)
		case num.Num:
			return x
		case string:
			if n, ok := num.Parse(x); ok {
				return n
			}
		}
		panic(script.Err("argument of a comparison"))
	}
	with := func(f func(a, b num.Num) bool) script.Fn {
		return func(a []script.V) script.V { return f(n, to(a[0])) }
	}
	less := with(func(a, b num.Num) bool { return a.Less(b) })
	more := with(func(a, b num.Num) bool { return b.Less(a) })
	atMost := with(func(a, b num.Num) bool { return !b.Less(a) })
	atLeast := with(func(a, b num.Num) bool { return !a.Less(b) })
	cmp := script.Fn(func(a []script.V) script.V {
		m := to(a[0])
		if n.Less(m) {
			return num.Int(-1)
		}
		if m.Less(n) {
			return num.Int(1)
		}
		return num.Int(0)
	})
	ms := map[string]script.V{"$": n}
	if typ == "Decimal" {
		ms["compareTo"] = cmp
	} else {
		ms["lessThan"], ms["lt"], ms["greaterThan"], ms["gt"] = less, less, more, more
		ms["lessThanOrEqualTo"], ms["lte"], ms["greaterThanOrEqualTo"], ms["gte"] = atMost, atMost, atLeast, atLeast
		ms["comparedTo"], ms["cmp"] = cmp, cmp
	}
	o.Get = script.Members(ms).Get
	return o
}

// runScript calls the function that verifies a field of a form on a text, nil
// if there is none.
func runScript(target, code, fn string, text script.V, days []day) (r string) {
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(script.Err)
			if !ok {
				panic(x)
			}
			sym.Note("code", code)
			sym.Note("error", string(e))
			sym.Assert(false, "a generated function runs")
		}
	}()
	toks, bad := src.Lex(target, code)
	if bad != "" {
		panic(script.Err(bad))
	}
	toks = src.Code(toks)
	at := src.Find(toks, 0, fn)
	if at == len(toks) {
		sym.Note("code", code)
		sym.Assert(false, "a field with rules has a function that verifies it")
		return ""
	}
	m := &script.Machine{Lang: target, Globals: map[string]script.V{}}
	matcher := func(name string) script.Fn {
		return func(a []script.V) script.V {
			re, err := regexp.Compile(a[0].(string))
			if err != nil {
				panic(script.Err(err.Error()))
			}
			return script.Members(map[string]script.V{name: script.Fn(func(a []script.V) script.V {
				s, ok := a[0].(string)
				if !ok {
					panic(script.Err("a pattern for what is not a text"))
				}
				return re.MatchString(s)
			})})
		}
	}
	items := map[string]script.V{}
	var called []string
	vars := map[string]script.V{}
	if target == "dart" {
		for _, n := range names {
			n := n
			items[strings.ToUpper(n)] = script.Members(map[string]script.V{"toText": script.Fn(func(a []script.V) script.V { return n })})
		}
		m.Globals["Rule"] = script.Members(items)
		m.Globals["RegExp"] = matcher("hasMatch")
		parse := func(must bool) script.Fn {
			return func(a []script.V) script.V {
				s, ok := a[0].(string)
				if !ok {
					panic(script.Err("Decimal.parse of what is not a text"))
				}
				n, ok := num.Parse(s)
				if !ok {
					if must {
						panic(script.Throw{})
					}
					return nil
				}
				return ordered("Decimal", n)
			}
		}
		m.Globals["Decimal"] = script.Members(map[string]script.V{"parse": parse(true), "tryParse": parse(false), "fromInt": script.Fn(func(a []script.V) script.V {
			return ordered("Decimal", a[0].(num.Num))
		})})
		m.Globals["DateTime"] = script.Members(map[string]script.V{"tryParse": script.Fn(func(a []script.V) script.V {
			for _, d := range days {
				if d.text == a[0] {
					return script.Members(map[string]script.V{"millisecondsSinceEpoch": d.ms})
				}
			}
			return nil
		})})
		i := at + 1
		end := src.End(toks, i)
		var ps []string
		for k := i; k < end; k++ {
			if n := toks[k+1].Text; n == "," || k+1 == end {
				ps = append(ps, toks[k].Text)
			}
		}
		if len(ps) != 2 {
			panic(script.Err("parameters"))
		}
		vars[ps[0]], vars[ps[1]] = script.Members(nil), text
		v, thrown := m.Run(toks, end+1, vars)
		if thrown {
			panic(script.Err("the function throws"))
		}
		if v == nil {
			return ""
		}
		return v.(string)
	}
	for _, n := range names {
		n := n
		items[strings.ToUpper(n)] = script.Members(map[string]script.V{"toString": script.Fn(func(a []script.V) script.V { return n })})
	}
	for i := range toks {
		if src.Is(toks, i, "import", "*", "as") {
			m.Globals[toks[i+3].Text] = script.Members(map[string]script.V{"Rule": script.Members(items)})
			if src.Is(toks, i+4, "from") && toks[i+5].Text == "decimal.js" {
				m.Globals[toks[i+3].Text] = script.Members(map[string]script.V{"Decimal": script.Fn(func(a []script.V) script.V {
					switch x := a[0].(type) {
					case num.Num:
						return ordered("d.Decimal", x)
					case string:
						if n, ok := num.Parse(x); ok {
							return ordered("d.Decimal", n)
						}
					}
					panic(script.Throw{})
				})})
			}
		}
	}
	m.Globals["RegExp"] = matcher("test")
	m.Globals["Array"] = script.Members(map[string]script.V{"from": script.Fn(func(a []script.V) script.V { return script.Len(script.Points(a[0].(string))) })})
	m.Globals["Error"] = script.Fn(func(a []script.V) script.V { return a[0] })
	m.Globals["isNaN"] = script.Fn(func(a []script.V) script.V { _, ok := a[0].(nan); return ok })
	m.Globals["Date"] = script.Fn(func(a []script.V) script.V {
		var ms script.V = nan{}
		for _, d := range days {
			if d.text == a[0] {
				ms = d.ms
			}
		}
		return script.Members(map[string]script.V{"getTime": script.Fn(func([]script.V) script.V { return ms })})
	})
	vars["locale"] = script.Members(map[string]script.V{"t": script.Fn(func(a []script.V) script.V { return a[0] })})
	vars["rule"], vars["value"] = nil, text
	vars["callback"] = script.Fn(func(a []script.V) script.V {
		s := ""
		if len(a) > 0 {
			s = a[0].(string)
		}
		called = append(called, s)
		return nil
	})
	i := src.Find(toks, at, "=", ">")
	i = src.Find(toks, i+2, "=", ">", "{")
	if _, thrown := m.Run(toks, i+2, vars); thrown {
		panic(script.Err("the function throws"))
	}
	if len(called) != 1 {
		panic(script.Err("callback is called " + strconv.Itoa(len(called)) + " times"))
	}
	return called[0]
}

func (f field) checkScript(target string, text script.V, days []day, want string) {
	outs, err := gen.Compile(target, f.files(), "v.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Assert(false, "a schema with rules is accepted")
		return
	}
	code := gen.Find(outs, "v.verify."+target)
	got := runScript(target, code, "verifyFoo_It", text, days)
	if s, ok := text.(string); ok {
		sym.Observe("text", s)
	}
	f.compare(code, got, want)
}

// ---- fields ----

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

// limits chooses a pair of limits for numbers of a type, in the schema's
// writing, of which the last are exactly those of the type.
func limits(t string) (min, max string) {
	lo, mid, hi, lead := "-30", "5", "09", "-07"
	if ranges[t][0] == "0" {
		lo, lead = "2", "07"
	}
	if !whole(t) {
		lo, mid, hi, lead = "-2.5", "0.5", "9.25", "-07.5"
	}
	all := [][2]string{{}, {lo, ""}, {"", hi}, {lo, hi}, {mid, mid}, {lead, "+" + mid}}
	if ranges[t][0] == "0" {
		all[5] = [2]string{"0", lead}
	}
	if whole(t) {
		all = append(all, ranges[t])
	}
	l := all[sym.Pick("limits", len(all))]
	return l[0], l[1]
}

// some chooses a field with one or two rules, and a rule without a format.
func some(t string) field {
	f := field{typ: t}
	r := rule{}
	switch sym.Pick("may be null", 3) {
	case 1:
		f.opt = true
	case 2:
		f.opt = true
		r.null = "true"
	}
	if whole(t) || t == "float" || t == "double" || t == "decimal" {
		r.min, r.max = limits(t)
	}
	f.rules = []rule{r}
	n := 2
	if sym.Thorough() {
		n = 4
	}
	switch sym.Pick("rules", n) {
	case 1:
		f.rules = []rule{{plain: true}, r, {null: "false", max: "4"}}
	case 2:
		f.rules = []rule{{plain: true}, {plain: true}}
	case 3:
		f.rules = []rule{r, {plain: true}, {null: "true", min: "6"}}
	}
	return f
}

// number is a number of a type: any within its range, with up to three digits
// after the point for those that have them.
func number(t string) num.Num {
	n := num.Num{Hi: int64(sym.Int("hi")), Lo: int64(sym.Int("lo"))}
	top := int64(18446744073)
	sym.Assume(sym.And(n.Hi >= -top, n.Hi <= top, n.Lo > -1000000000, n.Lo < 1000000000))
	if whole(t) {
		sym.Assume(sym.Or(sym.And(n.Hi >= 0, n.Lo >= 0), sym.And(n.Hi <= 0, n.Lo <= 0)))
		sym.Assume(!outside(n, ranges[t][0], ranges[t][1]))
		return n
	}
	n.Frac = int64(sym.Int("frac"))
	sym.Assume(sym.And(n.Frac > -1000, n.Frac < 1000))
	sym.Assume(sym.Or(sym.And(n.Hi >= 0, n.Lo >= 0, n.Frac >= 0), sym.And(n.Hi <= 0, n.Lo <= 0, n.Frac <= 0)))
	return n
}

// H_go: numbers in Go.
//
// bounds: a field of any of the 11 types of numbers, that may be null or not, with 1 of 7 pairs of limits (none, either, both, equal, with leading zeros or a sign, those of the type) and up to 2 rules around one without a format; missing, or any value of the type (3 digits after the point)
//
//sym:steps=9000000 depth=4000 time=120 thorough.time=600 cover=checked
func H_go() {
	t := pick("type", numbers)
	f := some(t)
	missing := f.opt && sym.Pick("missing", 2) == 1
	n := number(t)
	var v goeval.V
	if !missing {
		v = n
		if t == "decimal" {
			v = decimal(n)
		}
	}
	f.checkGo(v, f.first(missing, func(r rule) bool { return outside(n, r.min, r.max) }))
}

// H_form: numbers in the forms of Dart and TypeScript.
//
// bounds: fields as of H_go; texts that are missing, empty or a number: a sign or none, 1 digit or one more than the greatest of the type has, and, for some, a point and 2 digits, every digit a variable of the solver
//
//sym:steps=9000000 depth=4000 time=150 thorough.time=800 cover=checked
func H_form() {
	target := pick("target", []string{"dart", "ts"})
	t := pick("type", numbers)
	f := some(t)
	var text script.V
	s := ""
	shape := sym.Pick("text", 6)
	switch shape {
	case 0:
	case 1:
		text = ""
	default:
		k := 1
		if shape > 3 {
			k = 3
			if whole(t) {
				k = len(ranges[t][1]) + 1
			}
		}
		if shape%2 == 1 {
			s = "-"
		}
		s += sym.StrOf("digits", k, "0123456789")
		if !whole(t) && shape > 3 || whole(t) && shape == 2 && sym.Pick("fraction", 2) == 1 {
			s += "." + sym.StrOf("fraction", 2, "0123456789")
		}
		text = s
	}
	f.checkScript(target, text, nil, f.first(shape < 2, func(r rule) bool { return refused(t, s, r) }))
}

// refused reports whether a text is no number of the type within the limits.
func refused(t, s string, r rule) bool {
	n, ok := num.Parse(s)
	if !ok || s[0] == '+' {
		return true
	}
	if whole(t) {
		if strings.IndexByte(s, '.') >= 0 || s[0] == '-' && ranges[t][0] == "0" {
			return true
		}
		if outside(n, ranges[t][0], ranges[t][1]) {
			return true
		}
	}
	return outside(n, r.min, r.max)
}

// H_junk: texts that may be no numbers.
//
// bounds: fields of 5 types without limits (one that may be null); texts of 1 to 3 characters of "-+.0a" and the space that the solver chooses, without those that end in a point
//
//sym:steps=9000000 depth=4000 time=150 thorough.time=800 cover=checked
func H_junk() {
	target := pick("target", []string{"dart", "ts"})
	t := pick("type", []string{"int8", "uint8", "uint64", "double", "decimal"})
	f := field{typ: t, opt: t == "uint8", rules: []rule{{}}}
	s := sym.StrOf("text", 1+sym.Pick("length", 3), "-.0a+ ")
	sym.Assume(s[len(s)-1] != '.')
	f.checkScript(target, s, nil, f.first(false, func(r rule) bool { return refused(t, s, r) }))
}

// H_text: lengths and patterns of texts.
//
// bounds: a field of type string that may be null or not, with 1 of 5 pairs of limits of its length and 1 of 5 patterns, alone or in two rules; texts that are missing or of 0 to 4 characters: letters the solver chooses, and one of 2, 3 or 4 bytes
//
//sym:steps=9000000 depth=4000 time=150 thorough.time=800 cover=checked
func H_text() {
	target := pick("target", []string{"go", "dart", "ts"})
	f := field{typ: "string"}
	r := rule{}
	switch sym.Pick("may be null", 3) {
	case 1:
		f.opt = true
	case 2:
		f.opt = true
		r.null = "true"
	}
	l := [][2]string{{}, {"2", ""}, {"", "03"}, {"1", "2"}, {"0", "0"}}[sym.Pick("limits", 5)]
	r.min, r.max = l[0], l[1]
	k := sym.Pick("pattern", 5)
	second := rule{min: r.min, max: r.max}
	r.reg = []string{"", "^[ab]+$", "b", "^\\\\d*$", "^a.$"}[k]
	f.rules = []rule{r}
	if k > 0 && sym.Pick("rules", 2) == 1 {
		// the pattern and the limits in rules of their own, and a pattern more
		f.rules = []rule{{null: r.null, reg: r.reg}, second, {reg: "^[^b]*$"}}
	}
	var text interface{}
	s := ""
	n := sym.Pick("text", 5+3)
	switch {
	case n == 0 && (target != "go" || f.opt):
	case n < 5:
		s = sym.StrOf("text", n, "ab1")
		text = s
	default:
		s = "a" + []string{"é", "€", "😀"}[n-5]
		text = s
	}
	re := func(p string) bool {
		switch p {
		case "":
			return true
		case "^[ab]+$":
			ok := len(s) > 0
			for i := 0; i < len(s); i++ {
				ok = ok && (s[i] == 'a' || s[i] == 'b')
			}
			return ok
		case "b":
			for i := 0; i < len(s); i++ {
				if s[i] == 'b' {
					return true
				}
			}
			return false
		case "^\\\\d*$":
			for i := 0; i < len(s); i++ {
				if s[i] != '1' {
					return false
				}
			}
			return true
		case "^a.$":
			return script.Points(s) == 2 && s[0] == 'a'
		}
		for i := 0; i < len(s); i++ {
			if s[i] == 'b' {
				return false
			}
		}
		return true
	}
	size := num.Int(int64(script.Points(s)))
	want := f.first(len(s) == 0, func(r rule) bool { return outside(size, r.min, r.max) || !re(r.reg) })
	if target == "go" {
		f.checkGo(text, want)
	} else {
		f.checkScript(target, text, nil, want)
	}
}

// H_date: limits of dates.
//
// bounds: a field of type date that may be null or not, with 1 of 5 pairs of limits, alone or in two rules; missing, empty, no date, or any millisecond from about 292 million years before 1970 to as long after
//
//sym:steps=9000000 depth=4000 time=100 cover=checked
func H_date() {
	target := pick("target", []string{"go", "dart", "ts"})
	f := field{typ: "date"}
	r := rule{}
	switch sym.Pick("may be null", 3) {
	case 1:
		f.opt = true
	case 2:
		f.opt = true
		r.null = "true"
	}
	times := map[string]string{"1969-12-31T23:59:59Z": "-1000", "1970-01-01T00:00:00Z": "0", "2020-01-02T03:04:05Z": "1577934245000"}
	l := [][2]string{{}, {"1969-12-31T23:59:59Z", ""}, {"", "2020-01-02T03:04:05Z"}, {"1970-01-01T00:00:00Z", "2020-01-02T03:04:05Z"}, {"2020-01-02T03:04:05Z", "2020-01-02T03:04:05Z"}}[sym.Pick("limits", 5)]
	r.min, r.max = l[0], l[1]
	f.rules = []rule{r}
	if sym.Pick("rules", 2) == 1 {
		f.rules = []rule{{plain: true}, r, {max: "1970-01-01T00:00:00Z"}}
	}
	ms := number("int64")
	past := func(r rule) bool { return outside(ms, times[r.min], times[r.max]) }
	if target == "go" {
		if f.opt && sym.Pick("missing", 2) == 1 {
			f.checkGo(nil, f.first(true, past))
			return
		}
		t := &goeval.Obj{Type: "hbuf.Time", Methods: map[string]F{"UnixMilli": func([]goeval.V) goeval.V { return ms }}}
		f.checkGo(t, f.first(false, past))
		return
	}
	days := []day{{"a day", ms}}
	switch sym.Pick("text", 4) {
	case 0:
		f.checkScript(target, nil, days, f.first(true, func(rule) bool { return true }))
	case 1:
		f.checkScript(target, "", days, f.first(true, func(rule) bool { return true }))
	case 2:
		f.checkScript(target, "no day", days, f.first(false, func(rule) bool { return true }))
	default:
		f.checkScript(target, "a day", days, f.first(false, past))
	}
}

// H_other: emptiness of other fields.
//
// bounds: a field of type bool, data, an enum, a list or a map, that may be null or not, with one rule or one after a rule without a format; missing or there, an enum also with a value that has no name; rules of the same file and package or another
//
//sym:steps=9000000 depth=4000 time=100 cover=checked
func H_other() {
	target := pick("target", []string{"go", "dart", "ts"})
	f := field{typ: pick("type", []string{"bool", "Sub", "Kind", "int32[]", "string<int32>", "string[]", "Kind[]"})}
	r := rule{}
	switch sym.Pick("may be null", 3) {
	case 1:
		f.opt = true
	case 2:
		f.opt = true
		r.null = "true"
	}
	f.rules = []rule{r}
	if sym.Pick("rules", 2) == 1 {
		f.rules = []rule{{plain: true}, r, {null: "true"}}
	}
	f.apart = sym.Pick("imported", 2) == 1
	fine := func(rule) bool { return false }
	if target != "go" {
		text := []script.V{nil, "", "there"}[sym.Pick("text", 3)]
		f.checkScript(target, text, nil, f.first(text == nil || text == "", fine))
		return
	}
	if f.opt && sym.Pick("missing", 2) == 1 {
		f.checkGo(nil, f.first(true, fine))
		return
	}
	switch f.typ {
	case "Kind":
		// the name of the value, empty if it is none of the enum
		name := sym.StrOf("name", sym.Pick("name", 2), "k")
		v := &goeval.Obj{Type: "Kind", Methods: map[string]F{"ToName": func([]goeval.V) goeval.V { return name }}}
		f.checkGo(v, f.first(false, func(rule) bool { return name == "" }))
	case "bool":
		f.checkGo(false, f.first(false, fine))
	case "Sub":
		f.checkGo(&goeval.Obj{Type: "Sub"}, f.first(false, fine))
	default:
		f.checkGo(&goeval.List{}, f.first(false, fine))
	}
}

// H_limit: limits that are no numbers of the field's type.
//
// bounds: a field of type int8, uint16, int64, uint64, float, double, decimal or string, a limit that is one of 16 texts, either as the least or the greatest
//
//sym:steps=9000000 depth=4000 time=100 cover=refused,taken
func H_limit() {
	target := pick("target", []string{"go", "dart", "ts"})
	t := pick("type", []string{"int8", "uint16", "int64", "uint64", "float", "double", "decimal", "string"})
	limit := pick("limit", []string{"127", "128", "-129", "-1", "65536", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551616", "1.5", "x", "1 || true", "0x10", "--1", "1_0", " 1"})
	r := rule{min: limit}
	if sym.Pick("side", 2) == 1 {
		r = rule{max: limit}
	}
	f := field{typ: t, rules: []rule{r}}
	n, ok := num.Parse(limit)
	if t == "string" {
		ok = ok && !outside(n, "-2147483648", "2147483647") && limit != "1.5"
	}
	if whole(t) {
		ok = ok && !outside(n, ranges[t][0], ranges[t][1]) && limit != "1.5"
	}
	_, err := gen.Compile(target, f.files(), "v.hbuf")
	if ok != (err == nil) {
		sym.Note("schema", f.files()[0].Raw)
	}
	if ok {
		sym.Assert(err == nil, "a limit of the field's type is accepted")
		sym.Cover("taken")
		return
	}
	sym.Assert(err != nil, "a limit that is no number of the field's type is an error")
	if err != nil {
		line := strconv.Itoa(strings.Count(head, "\n") + 2)
		sym.Assert(strings.Contains(err.Error(), "v.hbuf:"+line+":"), "the error is at the limit")
	}
	sym.Cover("refused")
}

// H_all: the function that verifies all fields.
//
// bounds: a Go data type of 1 to 3 fields, some with a rule, and those of a parent (thorough: two), where the rules and the parent may be in an imported file; every field breaks its rule or not
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=400 cover=checked
func H_all() {
	n := 1 + sym.Pick("fields", 3)
	apart := sym.Pick("imported", 2) == 1
	var own, all []string
	rules := ruleEnum([]rule{{max: "3"}, {max: "4"}, {max: "5"}})
	limit := map[string]int64{}
	item := map[string]string{}
	body := func(fs []string, from int) string {
		s := ""
		for i, x := range fs {
			if k := sym.Pick("rule of "+x, 3); k > 0 {
				s += "\t[verify:format=\"Rule." + names[k] + "\"]\n"
				limit[x] = int64(3 + k)
				item[x] = names[k]
			}
			s += "\tint32 " + x + " = " + strconv.Itoa(from+i) + "\n"
		}
		return s
	}
	own = []string{"a", "b", "c"}[:n]
	foo := body(own, 0)
	all = append(all, own...)
	up := ""
	sup := ""
	if sym.Pick("parent", 2) == 1 {
		up = " : Up = 1"
		sup = "data Up {\n" + body([]string{"u"}, 0) + "}\n"
		all = append(all, "u")
	}
	foo = "[verify:]\ndata Foo" + up + " {\n" + foo + "}\n"
	files := []*schema.File{{Path: "v.hbuf", Raw: head + rules + sup + foo}}
	if apart {
		files = []*schema.File{{Path: "v.hbuf", Raw: head + "import \"r.hbuf\"\n" + foo}, {Path: "r.hbuf", Raw: strings.ReplaceAll(head, "v.a", "v.b") + rules + sup}}
	}
	outs, err := gen.Compile("go", files, "v.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
		sym.Note("schema", files[0].Raw)
		sym.Assert(false, "a schema with rules is accepted")
		return
	}
	verify := parse(gen.Find(outs, "v.verify.go"))
	obj := &goeval.Obj{Type: "Foo", Fields: map[string]goeval.V{}, Methods: map[string]F{}}
	want := ""
	broken := map[string]bool{}
	for _, x := range all {
		v := int64(sym.Int(x))
		sym.Assume(sym.And(v >= 0, v <= 9))
		obj.Fields[strings.ToUpper(x)] = num.Num{Lo: v}
		if x == "u" {
			v := v
			obj.Methods["GetU"] = func([]goeval.V) goeval.V { return num.Num{Lo: v} }
		}
		if l, ok := limit[x]; ok && v > l {
			broken[item[x]] = true
			want += " " + item[x]
		}
	}
	got := runGo(verify, parse(gen.Find(outs, "v.data.go")), "Verify", obj)
	ok := broken[got] || got == "" && want == ""
	if !ok {
		sym.Note("schema", files[0].Raw)
		sym.Note("code", verify.Text)
		sym.Note("got", got)
		sym.Note("want", want)
	}
	sym.Assert(ok, "all fields are verified, and the error is that of a rule that is broken")
	sym.Cover("checked")
}
