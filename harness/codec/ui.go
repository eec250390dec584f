package codec

import (
	"hbuf/zz_verif/src"
	"regexp"
	"strconv"
	"strings"
)

// Obj is an object of a library: what was made, of what, and what was set.
type Obj struct {
	Kind    string
	Args    []V
	Named   map[string]V
	Props   map[string]V
	Methods map[string]V
}

// Element is one of JSX. An attribute without a value is true.
type Element struct {
	Name  string
	Attrs *Map
	Kids  []V
}

// Label is a text of the language of the user, by the name it has.
type Label struct{ Of, Name string }

// Fixed is the text of a number with so many digits behind the point,
// Formatted that of a moment, Joined that of a list.
type Fixed struct {
	Of    V
	Digit int
}
type Formatted struct {
	Ms     int64
	Format string
}
type Joined struct {
	Items []V
	Sep   string
}

// FltText is the text of a number that need not be an integer.
type FltText struct{ ID uint64 }

// Zoned is a moment as a control shows it, here or at UTC.
type Zoned struct{ Ms int64 }

// Part is a part of a moment.
type Part struct {
	Of   Zoned
	What string
	Plus int64
}

// End is the last millisecond of the day or month of a moment.
type End struct {
	Of   Zoned
	What string
}

// Regex is a regular expression.
type Regex struct{ Text string }

// Make is a function that makes objects of a library.
func Make(kind string) V {
	return Fn(func(args []V, named map[string]V) V {
		return &Obj{Kind: kind, Args: args, Named: named, Props: map[string]V{}}
	})
}

func (o *Obj) Set(name string, v V) { o.Props[name] = v }

func (o *Obj) method(name string) V { return o.Methods[name] }

// Set sets the value of a key.
func (m *Map) Set(key string, v V) {
	for i, k := range m.Keys {
		if s, ok := k.(string); ok && s == key {
			m.Vals[i] = v
			return
		}
	}
	m.Keys = append(m.Keys, key)
	m.Vals = append(m.Vals, v)
}

// Eval evaluates the expression at a token.
func (m *Machine) Eval(i int) V {
	v, _ := m.expr(i, &scope{vars: map[string]V{}}, 0, true)
	return v
}

// Toks are the tokens of the code.
func (m *Machine) Toks() []src.Tok { return m.toks }

// loop reads for (var x in y) at its ( .
func (m *Machine) loop(i int, s *scope) ([]V, string) {
	end := src.End(m.toks, i)
	i++
	switch m.tok(i) {
	case "var", "const", "let", "final":
		i++
	}
	name := m.tok(i)
	if !m.ident(i) || m.tok(i+1) != "in" && m.tok(i+1) != "of" {
		fail("for")
	}
	keys := m.Lang == "ts" && m.tok(i+1) == "in"
	v, j := m.expr(i+2, s, 0, true)
	if j != end {
		fail("for")
	}
	switch x := v.(type) {
	case nil, Undef:
		if keys {
			return nil, name
		}
	case *List:
		if !keys {
			return x.Items, name
		}
		var r []V
		for k := range x.Items {
			r = append(r, strconv.Itoa(k))
		}
		return r, name
	case *Map:
		if keys {
			return append([]V{}, x.Keys...), name
		}
	}
	throw("for of what has no items")
	return nil, ""
}

// items reads an item of a list, which may be a loop or a condition.
func (m *Machine) items(i int, s *scope, run bool) ([]V, int) {
	if m.Lang == "dart" && m.tok(i) == "for" {
		end := src.End(m.toks, i+1)
		var r []V
		if !run {
			_, j := m.items(end+1, s, false)
			return nil, j
		}
		all, name := m.loop(i+1, s)
		for _, item := range all {
			in := &scope{vars: map[string]V{name: item}, this: s.this, up: s}
			vs, _ := m.items(end+1, in, true)
			r = append(r, vs...)
		}
		_, j := m.items(end+1, s, false)
		return r, j
	}
	if m.Lang == "dart" && m.tok(i) == "if" {
		c, j := m.expr(i+2, s, 0, run)
		if j != src.End(m.toks, i+1) {
			fail("condition")
		}
		yes := run && m.truthy(c)
		vs, j := m.items(j+1, s, yes)
		if m.tok(j) == "else" {
			ws, k := m.items(j+1, s, run && !yes)
			return append(vs, ws...), k
		}
		return vs, j
	}
	v, j := m.expr(i, s, 0, run)
	if !run {
		return nil, j
	}
	return []V{v}, j
}

// item is an item of a list by its index.
func (m *Machine) item(l *List, k V) V {
	n := -1
	switch x := k.(type) {
	case Num:
		n = int(x.N)
	case string:
		if m.Lang == "ts" {
			if v, err := strconv.Atoi(x); err == nil {
				n = v
			}
		}
	}
	if n < 0 || n >= len(l.Items) {
		if m.Lang == "ts" {
			return Undef{}
		}
		throw("index of a list")
	}
	return l.Items[n]
}

// generic returns the ( behind the type arguments at <, or 0.
func (m *Machine) generic(i int) int {
	if m.tok(i-1) == "Array" && m.Lang == "ts" {
		return m.angle(i) + 1
	}
	if m.Lang != "dart" {
		return 0
	}
	depth := 0
	for ; i < len(m.toks); i++ {
		switch m.tok(i) {
		case "<":
			depth++
		case ">":
			depth--
			if depth == 0 {
				if m.tok(i+1) == "(" {
					return i + 1
				}
				return 0
			}
		case ",", "?", ".":
		default:
			if !m.ident(i) {
				return 0
			}
		}
	}
	return 0
}

// real reads a number with a point or an exponent, as the integer it is.
func (m *Machine) real(i int) (V, int) {
	t := m.toks[i].Text
	j := i + 1
	e := false
	for k := 0; k < len(t); k++ {
		if t[k] == 'E' || t[k] == 'e' {
			e = true
		} else if t[k] != '.' && (t[k] < '0' || t[k] > '9') {
			return nil, 0
		}
	}
	if !e {
		return nil, 0
	}
	if c := t[len(t)-1]; (c == 'E' || c == 'e') && (m.tok(j) == "+" || m.tok(j) == "-") {
		t += m.tok(j) + m.tok(j+1)
		j += 2
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil || f != float64(int64(f)) {
		fail("number " + t)
	}
	return Num{int64(f)}, j
}

// function reads (...) { ... }.
func (m *Machine) function(i int, s *scope) (V, int) {
	end := src.End(m.toks, i)
	var names []string
	for j := i + 1; j < end; {
		name, _, _, k := m.param(j, end)
		names = append(names, name)
		j = k
	}
	if m.tok(end+1) != "{" {
		fail("function without a body")
	}
	return m.lambda(names, end+1, s)
}

// try runs try { } catch (e) { }.
func (m *Machine) try(i int, s *scope) (v V, done bool, next int) {
	end := src.End(m.toks, i+1)
	if m.tok(end+1) != "catch" {
		fail("try without catch")
	}
	body := end + 2
	if m.tok(body) == "(" {
		body = src.End(m.toks, body) + 1
	}
	v, done, caught := m.attempt(i+1, s)
	if caught {
		v, done = m.block(body, s)
	}
	return v, done, src.End(m.toks, body) + 1
}

func (m *Machine) attempt(i int, s *scope) (v V, done, caught bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Throw); !ok {
				panic(r)
			}
			v, done, caught = nil, false, true
		}
	}()
	v, done = m.block(i, s)
	return v, done, false
}

// regex reads a regular expression.
func (m *Machine) regex(i int) (V, func(V), int) {
	if m.Lang != "ts" {
		fail("unexpected /")
	}
	from := m.toks[i].Pos + 1
	for i++; m.tok(i) != "/"; i++ {
		if i >= len(m.toks) {
			fail("/ without /")
		}
	}
	return Regex{m.text[from:m.toks[i].Pos]}, nil, i + 1
}

// test reports whether a regular expression matches; for a text of any number
// it must not matter which of its sign it is.
func (r Regex) test(v V) bool {
	re := regexp.MustCompile(r.Text)
	all := func(texts ...string) bool {
		p := re.MatchString(texts[0])
		for _, t := range texts {
			if re.MatchString(t) != p {
				fail("a regular expression that looks into a number")
			}
		}
		return p
	}
	switch x := v.(type) {
	case string:
		return re.MatchString(x)
	case NumText:
		if x.Signed && int64(x.Bits) < 0 {
			return all("-1", "-42", "-9223372036854775808")
		}
		return all("0", "7", "10", "18446744073709551615")
	case FltText, Fixed, DecText:
		return all("0.5", "-12.25", "3", "-4")
	}
	throw("a regular expression on no text")
	return false
}

// plus is a + b.
func plus(a, b V) V {
	if x, ok := a.(string); ok && x == "" {
		switch y := b.(type) {
		case nil:
			return "null"
		case Undef:
			return "undefined"
		case *List:
			return Joined{y.Items, ","}
		case string, NumText:
			return y
		}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if x, ok := a.(Part); ok {
		if y, ok := b.(Num); ok {
			x.Plus += y.N
			return x
		}
	}
	fail("operands of +")
	return nil
}

// jsx reads an element at <.
func (m *Machine) jsx(i int, s *scope, run bool) (V, func(V), int) {
	name, i := m.tag(i + 1)
	e := &Element{Name: name, Attrs: &Map{}}
	for m.tok(i) != ">" && m.tok(i) != "/" {
		attr, j := m.tag(i)
		if j == i {
			fail("attribute of " + name + " at " + m.tok(i))
		}
		var v V = true
		if m.tok(j) == "=" {
			j++
			if m.toks[j].Kind == src.String {
				v = m.toks[j].Text
				j++
			} else if m.tok(j) == "{" {
				end := src.End(m.toks, j)
				v, j = m.expr(j+1, s, 0, run)
				if j != end {
					fail("value of " + attr)
				}
				j++
			} else {
				fail("value of " + attr)
			}
		}
		if _, ok := e.Attrs.Get(attr); ok {
			fail("the attribute " + attr + " is given again")
		}
		e.Attrs.Set(attr, v)
		i = j
	}
	if m.tok(i) == "/" {
		if m.tok(i+1) != ">" {
			fail("/ without >")
		}
		return e, nil, i + 2
	}
	i++
	for {
		switch {
		case m.tok(i) == "<" && m.tok(i+1) == "/":
			end, j := m.tag(i + 2)
			if end != name || m.tok(j) != ">" {
				fail("<" + name + "> and </" + end + ">")
			}
			return e, nil, j + 1
		case m.tok(i) == "<":
			v, _, j := m.jsx(i, s, run)
			e.Kids = append(e.Kids, v)
			i = j
		case m.tok(i) == "{":
			end := src.End(m.toks, i)
			v, j := m.expr(i+1, s, 0, run)
			if j != end {
				fail("{ in " + name)
			}
			if l, ok := v.(*List); ok {
				e.Kids = append(e.Kids, l.Items...)
			} else {
				e.Kids = append(e.Kids, v)
			}
			i = end + 1
		default:
			fail("text in " + name)
		}
	}
}

// tag reads the name of an element or attribute.
func (m *Machine) tag(i int) (string, int) {
	if !m.ident(i) {
		return "", i
	}
	name := m.tok(i)
	i++
	for (m.tok(i) == "-" || m.tok(i) == ":") && m.ident(i+1) {
		name += m.tok(i) + m.tok(i+1)
		i += 2
	}
	return name, i
}

func digits(v V) int {
	n, ok := v.(Num)
	if !ok {
		fail("digits")
	}
	return int(n.N)
}

// shown is a member that shows a value, and others of lists; nil if there is
// none.
func (m *Machine) shown(v V, name string, call, set bool) V {
	dart := m.Lang == "dart"
	if !dart && name == "toString" {
		switch x := v.(type) {
		case Enum:
			return none(func() V { return Label{x.Type, strconv.FormatInt(x.N, 10)} })
		case Label:
			return none(func() V { return x })
		}
	}
	switch x := v.(type) {
	case Num, Flt, Dec:
		if name == "toStringAsFixed" && dart || name == "toFixed" && !dart {
			return fn(func(n V) V { return Fixed{x, digits(n)} })
		}
	case Fixed:
		if name == "length" {
			return Num{1}
		}
		if name == "toString" {
			return none(func() V { return x })
		}
	case FltText:
		if name == "toString" {
			return none(func() V { return x })
		}
		if name == "length" {
			return Num{1}
		}
	case NumText, DecText, Formatted, Joined:
		if name == "length" {
			return Num{1}
		}
	case Regex:
		if name == "test" {
			return fn(func(t V) V { return x.test(t) })
		}
	case string:
		switch name {
		case "startsWith":
			return fn(func(p V) V {
				q, ok := p.(string)
				if !ok {
					fail("startsWith")
				}
				return len(x) >= len(q) && x[:len(q)] == q
			})
		case "isEmpty":
			return len(x) == 0
		case "isNotEmpty":
			return len(x) > 0
		case "length":
			return Num{int64(len(x))}
		case "split":
			return fn(func(sep V) V {
				s, ok := sep.(string)
				if !ok {
					fail("split")
				}
				l := &List{}
				for _, p := range strings.Split(x, s) {
					l.Items = append(l.Items, p)
				}
				return l
			})
		}
	case Date:
		if name == "format" && dart {
			return fn(func(f V) V {
				s, ok := f.(string)
				if !ok {
					fail("format")
				}
				return Formatted{x.Ms, s}
			})
		}
	case Enum:
		if name == "toText" && dart {
			return fn(func(V) V { return Label{x.Type, strconv.FormatInt(x.N, 10)} })
		}
	}
	switch x := v.(type) {
	case Joined:
		if name == "split" {
			return fn(func(sep V) V {
				if s, ok := sep.(string); !ok || s != x.Sep {
					throw("split at another separator")
				}
				return &List{Items: append([]V{}, x.Items...)}
			})
		}
	case Zoned:
		switch name {
		case "getFullYear", "getMonth":
			return none(func() V { return Part{x, name, 0} })
		case "setHours":
			return Fn(func(a []V, _ map[string]V) V {
				if len(a) != 4 {
					fail("setHours")
				}
				for k, n := range []int64{23, 59, 59, 999} {
					if !Same(a[k], Num{n}) {
						throw("not the end of the day")
					}
				}
				return End{x, "day"}
			})
		}
	case *List:
		switch name {
		case "map":
			return fn(func(f V) V { return each(x, f) })
		case "join":
			return fn(func(sep V) V {
				s, ok := sep.(string)
				if !ok {
					fail("join")
				}
				return Joined{append([]V{}, x.Items...), s}
			})
		case "includes", "contains":
			if (name == "contains") == dart {
				return fn(func(w V) V { return m.at(x, w) >= 0 })
			}
		case "push", "add":
			if (name == "add") == dart {
				return fn(func(w V) V {
					if name == "push" || m.at(x, w) < 0 || !x.Set {
						x.Items = append(x.Items, w)
					}
					return nil
				})
			}
		case "length":
			return Num{int64(len(x.Items))}
		}
		if !dart {
			break
		}
		switch name {
		case "isEmpty":
			return len(x.Items) == 0
		case "isNotEmpty":
			return len(x.Items) > 0
		case "first":
			if len(x.Items) == 0 {
				throw("first of none")
			}
			return x.Items[0]
		case "where":
			return fn(func(f V) V {
				r := &List{}
				for _, e := range x.Items {
					if truth(f.(Fn)([]V{e}, nil)) {
						r.Items = append(r.Items, e)
					}
				}
				return r
			})
		case "clear":
			return none(func() V { x.Items = nil; return nil })
		case "remove":
			return fn(func(w V) V {
				if k := m.at(x, w); k >= 0 {
					x.Items = append(append([]V{}, x.Items[:k]...), x.Items[k+1:]...)
				}
				return nil
			})
		}
	}
	return nil
}

func (m *Machine) at(l *List, v V) int {
	for k, e := range l.Items {
		if m.equal(e, v, false) {
			return k
		}
	}
	return -1
}

// Members has the members of a module or of a class of a library.
func Members(m map[string]V) V { return members(m) }

// Construct calls the constructor of a class with arguments.
func (m *Machine) Construct(class string, args []V, named map[string]V) *Data {
	if m.Classes[class] == nil {
		fail("there is no class " + class)
	}
	d, ok := m.make(m.Classes[class], args, named).(*Data)
	if !ok {
		fail("constructor of " + class)
	}
	return d
}

// Const evaluates what a TypeScript constant is declared as; nil if there is
// none.
func (m *Machine) Const(name string) V {
	for i := 0; i+2 < len(m.toks); i++ {
		if m.tok(i) == "const" && m.tok(i+1) == name && m.tok(i+2) == "=" {
			return m.Eval(i + 3)
		}
	}
	return nil
}

// Prop is what was set in an object, and Arg what it was made with by name.
func (o *Obj) Prop(name string) V {
	v, ok := o.Props[name]
	if !ok {
		return Undef{}
	}
	return v
}

func (o *Obj) Arg(name string) V {
	v, ok := o.Named[name]
	if !ok {
		return Undef{}
	}
	return v
}
