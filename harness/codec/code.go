package codec

import (
	"hbuf/zz_verif/num"
	"hbuf/zz_verif/src"
	"strconv"
)

// Class is a class of the code.
type Class struct {
	Name    string
	Names   []string // of its fields
	m       *Machine
	fields  map[string]int // where the value of a field starts, 0 if it has none
	methods map[string]method
	Getters []string // and setters
	getters map[string]method
	maker   method // the constructor or factory
}

type method struct {
	params int // the ( of the parameters, 0 if there are none
	body   int // the { or the token after =>
	arrow  bool
	init   bool // a constructor without a body
	static bool
}

// Machine has the code of a file.
type Machine struct {
	Lang    string
	Globals map[string]V
	Classes map[string]*Class
	Else    func(name string) V // gives what is not declared
	toks    []src.Tok
	text    string
	depth   int
}

type scope struct {
	vars map[string]V
	this *Data
	up   *scope
}

// New reads a file.
func New(lang, text string) *Machine {
	m := &Machine{Lang: lang, Classes: map[string]*Class{}, text: text}
	toks, bad := src.Lex(lang, text)
	if bad != "" {
		fail(bad)
	}
	m.toks = src.Code(toks)
	m.Globals = runtime(m)
	for i := 0; i < len(m.toks); i++ {
		if m.tok(i) == "class" && m.toks[i].Kind == src.Ident {
			i = m.class(i + 1)
		}
	}
	return m
}

func (m *Machine) tok(i int) string {
	if i < 0 || i >= len(m.toks) || m.toks[i].Kind == src.String {
		return ""
	}
	return m.toks[i].Text
}

func (m *Machine) ident(i int) bool {
	return i >= 0 && i < len(m.toks) && m.toks[i].Kind == src.Ident
}

// op returns the operator at i, which may be of several bytes.
func (m *Machine) op(i int) string {
	if i >= len(m.toks) || m.toks[i].Kind != src.Punct {
		return ""
	}
	at := func(k int) byte {
		if i+k < len(m.toks) && m.toks[i+k].Kind == src.Punct && m.toks[i+k].Pos == m.toks[i].Pos+k {
			return m.toks[i+k].Text[0]
		}
		return 0
	}
	s := string([]byte{at(0), at(1), at(2)})
	for _, o := range []string{"===", "!==", "??="} {
		if s == o {
			return o
		}
	}
	for _, o := range []string{"==", "!=", "<=", ">=", "&&", "||", "??", "?.", "=>"} {
		if s[:2] == o {
			return o
		}
	}
	return s[:1]
}

// class reads the class whose name is at i and returns its last token.
func (m *Machine) class(i int) int {
	c := &Class{Name: m.tok(i), m: m, fields: map[string]int{}, methods: map[string]method{}, getters: map[string]method{}}
	for m.tok(i) != "{" {
		i++
		if i >= len(m.toks) {
			fail("class " + c.Name + " without a body")
		}
	}
	end := src.End(m.toks, i)
	i++
	for i < end {
		i = m.member(c, i)
	}
	if m.Classes[c.Name] != nil {
		fail("class " + c.Name + " is declared again")
	}
	m.Classes[c.Name] = c
	m.Globals[c.Name] = c
	return end
}

// member reads the member of a class at i and returns the token after it.
func (m *Machine) member(c *Class, i int) int {
	var f method
	name := ""
	get := false
	for {
		switch t := m.tok(i); t {
		case "@":
			i += 2
			continue
		case "public", "static", "private", "readonly", "final", "const", "factory", "late", "protected", "external":
			f.static = f.static || t == "static"
			i++
			continue
		}
		break
	}
	if m.Lang == "ts" {
		if (m.tok(i) == "get" || m.tok(i) == "set") && m.ident(i+1) {
			get = true
			i++
		}
		name = m.tok(i)
		i++
		if m.tok(i) != "(" {
			// a field
			for m.tok(i) != "=" && m.tok(i) != ";" {
				if m.tok(i) == "}" || i >= len(m.toks) || m.toks[i].Line > m.toks[i-1].Line {
					fail("field " + name)
				}
				if t := m.tok(i); t == "(" || t == "[" || t == "{" {
					i = src.End(m.toks, i)
				}
				i++
			}
			at := 0
			if m.tok(i) == "=" {
				at = i + 1
			}
			for m.tok(i) != ";" {
				if t := m.tok(i); t == "(" || t == "[" || t == "{" {
					i = src.End(m.toks, i)
				}
				i++
				if i < len(m.toks) && m.toks[i].Line > m.toks[i-1].Line {
					i--
					break
				}
			}
			if _, ok := c.fields[name]; ok {
				fail(c.Name + "." + name + " is declared again")
			}
			c.fields[name] = at
			c.Names = append(c.Names, name)
			return i + 1
		}
		f.params = i
		i = src.End(m.toks, i) + 1
		for m.tok(i) != "{" {
			i++
			if i >= len(m.toks) {
				fail("method " + name)
			}
		}
		f.body = i
		m.add(c, name, f, get)
		return src.End(m.toks, i) + 1
	}
	field := true
	for {
		switch t := m.tok(i); t {
		case "get", "set":
			if m.ident(i+1) && m.tok(i+1) != "(" {
				get = true
			}
		case "operator":
			for m.tok(i+1) != "(" {
				i++
				name += m.tok(i)
			}
		case "(":
			if m.tok(i-1) == "Function" {
				i = src.End(m.toks, i) // a type
				break
			}
			if name == "" {
				name = m.tok(i - 1)
			}
			field = false
			f.params = i
			i = src.End(m.toks, i)
		case ";", "{", "=":
			if t == "=" && m.op(i) == "=>" {
				f.arrow = true
			}
			if name == "" {
				name = m.tok(i - 1)
			}
			if f.arrow {
				f.body = i + 2
				for m.tok(i) != ";" {
					if t := m.tok(i); t == "(" || t == "[" || t == "{" {
						i = src.End(m.toks, i)
					}
					i++
					if i >= len(m.toks) {
						fail("method " + name)
					}
				}
				m.add(c, name, f, get)
				return i + 1
			}
			if t == "{" {
				f.body = i
				m.add(c, name, f, get)
				return src.End(m.toks, i) + 1
			}
			if field && !get {
				if _, ok := c.fields[name]; ok {
					fail(c.Name + "." + name + " is declared again")
				}
				c.fields[name] = 0
				c.Names = append(c.Names, name)
				if t == "=" {
					c.fields[name] = i + 1
					return m.skip(i)
				}
			} else if name == c.Name {
				f.init = true
				c.maker = f
			} else if get {
				c.Getters = append(c.Getters, name)
			}
			if t == "=" {
				fail("member " + name)
			}
			return i + 1
		}
		i++
		if i >= len(m.toks) {
			fail("member of " + c.Name)
		}
	}
}

func (m *Machine) add(c *Class, name string, f method, get bool) {
	if get {
		c.Getters = append(c.Getters, name)
		c.getters[name] = f
		return
	}
	if name == c.Name || name == "constructor" {
		c.maker = f
		return
	}
	if _, ok := c.methods[name]; ok {
		fail(c.Name + "." + name + " is declared again")
	}
	c.methods[name] = f
}

// New makes an object with these fields, without the constructor of the class.
func (c *Class) New(fields map[string]V) *Data {
	d := &Data{c, map[string]V{}}
	for _, n := range c.Names {
		v, ok := fields[n]
		if !ok {
			fail(c.Name + " has a field " + n)
		}
		d.Fields[n] = v
	}
	if len(fields) != len(c.Names) {
		fail("a field of " + c.Name + " is missing")
	}
	return d
}

// Has reports whether there is a method.
func (c *Class) Has(name string) bool { _, ok := c.methods[name]; return ok }

// Call calls a method, of an object or static.
func (c *Class) Call(this *Data, name string, args []V, named map[string]V) V {
	f, ok := c.methods[name]
	if !ok {
		fail(c.Name + " has no method " + name)
	}
	if this == nil && !f.static {
		fail(c.Name + "." + name + " is not static")
	}
	if f.static {
		this = nil
	}
	return c.m.run(f, this, args, named)
}

func (m *Machine) make(c *Class, args []V, named map[string]V) V {
	if m.Lang == "ts" {
		if c.maker.body > 0 || len(args) > 0 {
			fail("constructor of " + c.Name)
		}
		d := &Data{c, map[string]V{}}
		for _, n := range c.Names {
			d.Fields[n] = Undef{}
			if at := c.fields[n]; at > 0 {
				v, _ := m.expr(at, &scope{vars: map[string]V{}, this: d}, 0, true)
				d.Fields[n] = v
			}
		}
		return d
	}
	if c.maker.params == 0 {
		fail(c.Name + " has no constructor")
	}
	if !c.maker.init {
		return m.run(c.maker, nil, args, named)
	}
	d := &Data{c, map[string]V{}}
	for _, n := range c.Names {
		d.Fields[n] = nil
		if at := c.fields[n]; at > 0 {
			d.Fields[n], _ = m.expr(at, &scope{vars: map[string]V{}}, 0, true)
		}
	}
	m.bind(c.maker.params, args, named, func(name string, this bool, v V) {
		if !this {
			fail("parameter " + name)
		}
		if _, ok := c.fields[name]; !ok {
			fail(c.Name + " has no field " + name)
		}
		d.Fields[name] = v
	})
	return d
}

// bind gives the arguments to the parameters at (.
func (m *Machine) bind(i int, args []V, named map[string]V, set func(name string, this bool, v V)) {
	end := src.End(m.toks, i)
	i++
	n, used := 0, 0
	for i < end {
		if t := m.tok(i); t == "{" && m.Lang == "dart" {
			close := src.End(m.toks, i)
			i++
			for i < close {
				need := false
				if m.tok(i) == "required" && m.ident(i+1) {
					need = true
					i++
				}
				name, this, def, j := m.param(i, close)
				v, ok := named[name]
				if !ok && def > 0 {
					v, _ = m.expr(def, &scope{vars: map[string]V{}}, 0, true)
				}
				if !ok && need {
					fail("the argument " + name + " is missing")
				}
				if ok {
					used++
				}
				set(name, this, v)
				i = j
			}
			i = close + 1
			continue
		}
		name, this, _, j := m.param(i, end)
		if n >= len(args) {
			fail("the argument " + name + " is missing")
		}
		set(name, this, args[n])
		n++
		i = j
	}
	if used != len(named) || n != len(args) {
		fail("arguments without a parameter")
	}
}

// param reads a parameter and returns where its default value is, if it has
// one, and the token after it and its comma.
func (m *Machine) param(i, end int) (name string, this bool, def, next int) {
	depth := 0
	for i < end && (m.tok(i) != "," || depth > 0) {
		switch t := m.tok(i); {
		case t == "<":
			depth++
		case t == ">":
			depth--
		case t == "(" || t == "[" || t == "{":
			i = src.End(m.toks, i)
		case t == "=" && depth == 0 && def == 0:
			def = i + 1
		case t == "this" && m.tok(i+1) == "." && def == 0:
			this = true
		case m.ident(i) && depth == 0 && def == 0 && (m.Lang == "dart" || name == ""):
			name = t
		}
		i++
	}
	if name == "" {
		fail("parameter")
	}
	return name, this, def, i + 1
}

func (m *Machine) run(f method, this *Data, args []V, named map[string]V) V {
	m.depth++
	if m.depth > 200 {
		fail("does not end")
	}
	s := &scope{vars: map[string]V{}, this: this}
	if f.params > 0 {
		m.bind(f.params, args, named, func(name string, _ bool, v V) {
			s.vars[name] = v
		})
	}
	var v V
	if f.arrow {
		v, _ = m.expr(f.body, s, 0, true)
	} else {
		v, _ = m.block(f.body, s)
	}
	m.depth--
	return v
}

// block runs { ... }.
func (m *Machine) block(i int, up *scope) (v V, done bool) {
	end := src.End(m.toks, i)
	s := &scope{vars: map[string]V{}, this: up.this, up: up}
	i++
	for i < end {
		v, done, i = m.stmt(i, s)
		if done {
			return v, true
		}
	}
	return nil, false
}

func (m *Machine) skip(i int) int {
	switch {
	case m.tok(i) == "{":
		return src.End(m.toks, i) + 1
	case m.tok(i) == "for":
		return m.skip(src.End(m.toks, i+1) + 1)
	case m.tok(i) == "if":
		j := m.skip(src.End(m.toks, i+1) + 1)
		if m.tok(j) == "else" {
			j = m.skip(j + 1)
		}
		return j
	}
	for ; i < len(m.toks); i++ {
		switch m.tok(i) {
		case ";":
			return i + 1
		case "(", "[", "{":
			i = src.End(m.toks, i)
		case "}":
			return i
		}
		if m.Lang == "ts" && i+1 < len(m.toks) && m.toks[i+1].Line > m.toks[i].Line {
			return i + 1
		}
	}
	return i
}

func (m *Machine) semi(i int) int {
	if m.tok(i) == ";" {
		return i + 1
	}
	if m.Lang == "ts" && (m.tok(i) == "}" || i < len(m.toks) && m.toks[i].Line > m.toks[i-1].Line) {
		return i
	}
	fail("missing ; at " + m.tok(i))
	return i
}

func (m *Machine) stmt(i int, s *scope) (v V, done bool, next int) {
	switch m.tok(i) {
	case ";":
		return nil, false, i + 1
	case "{":
		v, done := m.block(i, s)
		return v, done, src.End(m.toks, i) + 1
	case "if":
		c, j := m.expr(i+2, s, 0, true)
		if j != src.End(m.toks, i+1) {
			fail("condition")
		}
		j++
		if m.truthy(c) {
			v, done, _ := m.stmt(j, s)
			return v, done, m.skip(i)
		}
		j = m.skip(j)
		if m.tok(j) == "else" {
			return m.stmt(j+1, s)
		}
		return nil, false, j
	case "for":
		end := src.End(m.toks, i+1)
		items, name := m.loop(i+1, s)
		for _, item := range items {
			in := &scope{vars: map[string]V{name: item}, this: s.this, up: s}
			if v, done, _ := m.stmt(end+1, in); done {
				return v, true, m.skip(i)
			}
		}
		return nil, false, m.skip(i)
	case "try":
		return m.try(i, s)
	case "return":
		if m.tok(i+1) == ";" || m.tok(i+1) == "}" {
			return nil, true, i + 2
		}
		v, j := m.expr(i+1, s, 0, true)
		return v, true, m.semi(j)
	case "var", "const", "let", "final", "dynamic":
		return m.declare(i+1, s)
	}
	if m.Lang == "dart" && m.ident(i) && m.tok(i) != "const" && m.tok(i) != "new" {
		if j := m.typ(i); j > i && m.ident(j) && (m.op(j+1) == "=" || m.tok(j+1) == ";") {
			return m.declare(j, s)
		}
	}
	_, j := m.expr(i, s, 0, true)
	return nil, false, m.semi(j)
}

func (m *Machine) declare(i int, s *scope) (V, bool, int) {
	if m.Lang == "dart" && m.ident(i+1) {
		i = m.typ(i)
	}
	name := m.tok(i)
	if !m.ident(i) {
		fail("declaration of " + name)
	}
	if _, ok := s.vars[name]; ok {
		fail(name + " is declared again")
	}
	j := i + 1
	if m.Lang == "ts" && m.tok(j) == ":" {
		line := m.toks[j].Line
		for j < len(m.toks) && m.tok(j) != "=" && m.tok(j) != ";" && m.toks[j].Line == line {
			j++
		}
	}
	var v V
	if m.op(j) == "=" {
		v, j = m.expr(j+1, s, 0, true)
	} else if m.Lang == "ts" {
		v = Undef{}
	}
	s.vars[name] = v
	return nil, false, m.semi(j)
}

// typ returns the token after the type at i.
func (m *Machine) typ(i int) int {
	if !m.ident(i) {
		return i
	}
	i++
	for m.tok(i) == "." && m.ident(i+1) {
		i += 2
	}
	if m.tok(i) == "<" {
		i = m.angle(i) + 1
	}
	if m.tok(i) == "?" && m.ident(i+1) && (m.op(i+2) == "=" || m.tok(i+2) == ";") {
		i++
	}
	return i
}

// angle returns the > of the < at i.
func (m *Machine) angle(i int) int {
	depth := 0
	for ; i < len(m.toks); i++ {
		switch m.tok(i) {
		case "<":
			depth++
		case ">":
			depth--
			if depth == 0 {
				return i
			}
		}
	}
	fail("< without >")
	return i
}

// truthy is what v is as a condition.
func (m *Machine) truthy(v V) bool {
	if m.Lang == "dart" {
		return truth(v)
	}
	switch x := v.(type) {
	case nil, Undef:
		return false
	case bool:
		return x
	case string:
		return len(x) > 0
	case Num:
		return x.N != 0
	case Flt:
		return x.ID != 0
	}
	return true
}

func truth(v V) bool {
	b, ok := v.(bool)
	if !ok {
		fail("a condition that is not a bool")
	}
	return b
}

func level(o string) int {
	switch o {
	case "??":
		return 1
	case "||":
		return 2
	case "&&":
		return 3
	case "==", "!=", "===", "!==":
		return 4
	case "is", "as", "instanceof":
		return 5
	case "^":
		return 6
	case "+", "-":
		return 7
	}
	return -1
}

func (m *Machine) binop(i int) string {
	if m.ident(i) {
		switch t := m.tok(i); t {
		case "is", "as", "instanceof":
			return t
		}
		return ""
	}
	return m.op(i)
}

// expr evaluates the expression at i with operators of at least level min. If
// run is false it is only read.
func (m *Machine) expr(i int, s *scope, min int, run bool) (V, int) {
	// lambda
	if m.ident(i) && m.op(i+1) == "=>" {
		return m.lambda([]string{m.tok(i)}, i+3, s)
	}
	if m.tok(i) == "(" {
		if end := src.End(m.toks, i); m.op(end+1) == "=>" {
			var names []string
			for j := i + 1; j < end; {
				name, _, _, k := m.param(j, end)
				names = append(names, name)
				j = k
			}
			return m.lambda(names, end+3, s)
		} else if m.Lang == "dart" && m.tok(end+1) == "{" {
			v, j := m.function(i, s)
			return v, j
		}
	}
	v, set, i := m.unary(i, s, run)
	if o := m.op(i); o == "=" || o == "??=" {
		if set == nil && run {
			fail("assignment to what cannot be assigned")
		}
		if o == "??=" && !Null(v) {
			_, i = m.expr(i+3, s, 0, false)
			return v, i
		}
		v, i = m.expr(i+len(o), s, 0, run)
		if run {
			set(v)
		}
		return v, i
	}
	for {
		o := m.binop(i)
		if o == "?" && min <= 0 {
			c := run && m.truthy(v)
			a, j := m.expr(i+1, s, 0, run && c)
			if m.tok(j) != ":" {
				fail("? without : at " + m.tok(j))
			}
			b, k := m.expr(j+1, s, 0, run && !c)
			if c {
				v = a
			} else {
				v = b
			}
			i = k
			continue
		}
		l := level(o)
		if l < 0 || l < min {
			return v, i
		}
		switch o {
		case "??":
			null := run && Null(v)
			w, j := m.expr(i+2, s, l+1, null)
			if null {
				v = w
			}
			i = j
			continue
		case "||", "&&":
			var p bool
			if run {
				p = m.truthy(v)
			}
			more := run && p == (o == "&&")
			w, j := m.expr(i+2, s, l+1, more)
			if more {
				v = w
				if m.Lang == "dart" {
					v = truth(w)
				}
			}
			i = j
			continue
		case "is", "as", "instanceof":
			not := false
			j := i + 1
			if o == "is" && m.op(j) == "!" {
				not = true
				j++
			}
			t := m.tok(j)
			k := m.typ(j)
			for m.tok(k) == "[" && m.tok(k+1) == "]" {
				k += 2
			}
			if k == j {
				fail("type after " + o)
			}
			if run {
				if o == "as" {
					if m.Lang == "dart" && !m.isType(v, t) {
						throw("as " + t)
					}
				} else {
					v = m.isType(v, t) != not
				}
			}
			i = k
			continue
		}
		w, j := m.expr(i+len(o), s, l+1, run)
		i = j
		if run {
			v = m.binary(o, v, w)
		}
	}
}

func (m *Machine) lambda(names []string, body int, s *scope) (V, int) {
	var end int
	block := m.tok(body) == "{"
	if block {
		end = src.End(m.toks, body) + 1
	} else {
		_, end = m.expr(body, s, 0, false)
	}
	return Fn(func(args []V, _ map[string]V) V {
		in := &scope{vars: map[string]V{}, this: s.this, up: s}
		if len(args) != len(names) && (m.Lang == "dart" || len(names) > len(args)) {
			fail("a function with another number of parameters")
		}
		for i, n := range names {
			in.vars[n] = args[i]
		}
		var v V
		if block {
			v, _ = m.block(body, in)
		} else {
			v, _ = m.expr(body, in, 0, true)
		}
		return v
	}), end
}

func (m *Machine) isType(v V, t string) bool {
	switch t {
	case "num":
		switch v.(type) {
		case Num, Flt:
			return true
		}
		return false
	case "int":
		_, ok := v.(Num)
		return ok
	case "double":
		_, ok := v.(Flt)
		return ok
	case "bool":
		_, ok := v.(bool)
		return ok
	case "String":
		switch v.(type) {
		case string, NumText, DecText:
			return true
		}
		return false
	case "List":
		_, ok := v.(*List)
		return ok
	case "Map":
		_, ok := v.(*Map)
		return ok
	case "any", "unknown", "dynamic", "Object":
		return !Null(v) || m.Lang == "ts"
	}
	if c := m.Classes[t]; c != nil {
		d, ok := v.(*Data)
		return ok && (d.Class == c || d.Class.Name == "_"+c.Name)
	}
	fail("type " + t)
	return false
}

func (m *Machine) binary(o string, a, b V) V {
	switch o {
	case "==", "===", "!=", "!==":
		return m.equal(a, b, o[len(o)-1] == '=' && len(o) == 3) == (o[0] == '=')
	case "^":
		return Num{0}
	case "+":
		return plus(a, b)
	}
	fail("operands of " + o)
	return nil
}

func (m *Machine) equal(a, b V, strict bool) bool {
	if Null(a) || Null(b) {
		if strict {
			_, p := a.(Undef)
			_, q := b.(Undef)
			return Null(a) && Null(b) && p == q
		}
		return Null(a) && Null(b)
	}
	switch x := a.(type) {
	case *List:
		y, ok := b.(*List)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Class:
		y, ok := b.(*Class)
		return ok && x == y
	case *Data:
		y, ok := b.(*Data)
		if !ok || m.Lang == "ts" || !x.Class.Has("==") {
			return ok && x == y
		}
		return truth(x.Class.Call(x, "==", []V{y}, nil))
	case Long, Dec, Date:
		if m.Lang == "ts" {
			fail("== of objects")
		}
	}
	return Same(a, b)
}

// unary evaluates an operand; set assigns to it.
func (m *Machine) unary(i int, s *scope, run bool) (V, func(V), int) {
	switch m.op(i) {
	case "!":
		v, _, j := m.unary(i+1, s, run)
		if run {
			v = !m.truthy(v)
		}
		return v, nil, j
	case "-":
		v, _, j := m.unary(i+1, s, run)
		if n, ok := v.(Num); ok {
			v = Num{-n.N}
		}
		return v, nil, j
	}
	v, set, i := m.primary(i, s, run)
	off := false // behind a ?. of null
	for {
		switch o := m.op(i); {
		case o == "." || o == "?.":
			i += len(o)
			name := m.tok(i)
			if !m.ident(i) {
				fail("member " + name)
			}
			i++
			if off || !run {
				continue
			}
			if Null(v) {
				if o == "." {
					throw("." + name + " of null")
				}
				off = true
				if m.Lang == "ts" {
					v = Undef{}
				} else {
					v = nil
				}
				continue
			}
			at := v
			set = nil
			if o, ok := at.(*Obj); ok {
				set = func(w V) { o.Set(name, w) }
			}
			if d, ok := at.(*Data); ok {
				set = func(w V) {
					if _, ok := d.Class.fields[name]; !ok {
						fail(d.Class.Name + " has no field " + name)
					}
					d.Fields[name] = w
				}
			}
			v = m.field(at, name, m.tok(i) == "(", set != nil && m.op(i) == "=")
		case o == "(":
			end := src.End(m.toks, i)
			var args []V
			var named map[string]V
			for i++; i < end; {
				name := ""
				if m.Lang == "dart" && m.ident(i) && m.tok(i+1) == ":" {
					name = m.tok(i)
					i += 2
				}
				a, j := m.expr(i, s, 0, run && !off)
				if j < end && m.tok(j) != "," {
					fail("argument: " + m.tok(j))
				}
				if name != "" {
					if named == nil {
						named = map[string]V{}
					}
					if _, ok := named[name]; ok {
						fail("the argument " + name + " is given again")
					}
					named[name] = a
				} else {
					args = append(args, a)
				}
				i = j + 1
			}
			i = end + 1
			set = nil
			if off || !run {
				continue
			}
			switch f := v.(type) {
			case Fn:
				v = f(args, named)
			case *Class:
				v = m.make(f, args, named)
			default:
				fail("call of what is not a function")
			}
		case o == "[":
			end := src.End(m.toks, i)
			k, j := m.expr(i+1, s, 0, run && !off)
			if j != end {
				fail("index")
			}
			i = end + 1
			set = nil
			if off || !run {
				continue
			}
			if l, ok := v.(*List); ok {
				v = m.item(l, k)
				continue
			}
			w, ok := v.(*Map)
			key, text := k.(string)
			if !ok || !text {
				fail("index of what is no map")
			}
			set = func(e V) { w.Set(key, e) }
			if e, ok := w.Get(key); ok {
				v = e
			} else if m.Lang == "ts" {
				v = Undef{}
			} else {
				v = nil
			}
		case o == "<" && m.generic(i) > 0:
			i = m.generic(i)
		case o == "!" && m.op(i) == "!":
			if run && !off && Null(v) && m.Lang == "dart" {
				throw("! of null")
			}
			i++
		default:
			return v, set, i
		}
	}
}

func (m *Machine) primary(i int, s *scope, run bool) (V, func(V), int) {
	if i >= len(m.toks) {
		fail("end of the code")
	}
	t := m.toks[i]
	switch t.Kind {
	case src.String:
		return text(m, t), nil, i + 1
	case src.Number:
		if v, j := m.real(i); j > 0 {
			return v, nil, j
		}
		n, ok := num.Parse(t.Text)
		if !ok || n.Frac != 0 || n.Hi != 0 {
			if v, err := strconv.ParseInt(t.Text, 10, 64); err == nil {
				return Num{v}, nil, i + 1
			}
			fail("number " + t.Text)
		}
		return Num{n.Lo}, nil, i + 1
	case src.Punct:
		switch t.Text {
		case "(":
			v, j := m.expr(i+1, s, 0, run)
			if m.tok(j) != ")" {
				fail("( without ) at " + m.tok(j))
			}
			return v, nil, j + 1
		case "/":
			return m.regex(i)
		case "<":
			if m.Lang == "ts" {
				return m.jsx(i, s, run)
			}
			i = m.angle(i) + 1
			if t := m.tok(i); t != "[" && t != "{" {
				fail("type arguments")
			}
			return m.primary(i, s, run)
		case "[":
			end := src.End(m.toks, i)
			l := &List{}
			for i++; i < end; {
				vs, j := m.items(i, s, run)
				if j < end && m.tok(j) != "," {
					fail("item: " + m.tok(j))
				}
				l.Items = append(l.Items, vs...)
				i = j + 1
			}
			return l, nil, end + 1
		case "{":
			end := src.End(m.toks, i)
			r := &Map{}
			for i++; i < end; {
				var k V
				j := i + 1
				if m.Lang == "ts" && m.ident(i) {
					k = m.tok(i)
					if m.tok(j) == "(" {
						f, next := m.function(j, s)
						r.Keys = append(r.Keys, k)
						r.Vals = append(r.Vals, f)
						i = next + 1
						continue
					}
				} else {
					k, j = m.expr(i, s, 1, run)
				}
				if m.tok(j) != ":" {
					fail("entry: " + m.tok(j))
				}
				v, j := m.expr(j+1, s, 0, run)
				if j < end && m.tok(j) != "," {
					fail("entry: " + m.tok(j))
				}
				if run {
					if key, ok := k.(string); ok {
						if _, ok := r.Get(key); ok {
							fail("the key " + key + " is given again")
						}
					}
				}
				r.Keys = append(r.Keys, k)
				r.Vals = append(r.Vals, v)
				i = j + 1
			}
			return r, nil, end + 1
		}
	case src.Ident:
		switch t.Text {
		case "null":
			return nil, nil, i + 1
		case "undefined":
			return Undef{}, nil, i + 1
		case "true":
			return true, nil, i + 1
		case "false":
			return false, nil, i + 1
		case "new", "const":
			return m.primary(i+1, s, run)
		case "function":
			v, j := m.function(i+1, s)
			return v, nil, j
		case "this":
			if run && s.this == nil {
				fail("this")
			}
			return s.this, nil, i + 1
		}
		if !run {
			return nil, nil, i + 1
		}
		for at := s; at != nil; at = at.up {
			if v, ok := at.vars[t.Text]; ok {
				at := at
				return v, func(w V) { at.vars[t.Text] = w }, i + 1
			}
		}
		if m.Lang == "dart" && s.this != nil {
			d := s.this
			if v, ok := d.Fields[t.Text]; ok {
				return v, func(w V) { d.Fields[t.Text] = w }, i + 1
			}
			if t.Text == "runtimeType" {
				return d.Class, nil, i + 1
			}
			if d.Class.Has(t.Text) {
				return m.field(d, t.Text, true, false), nil, i + 1
			}
		}
		if v, ok := m.Globals[t.Text]; ok {
			return v, nil, i + 1
		}
		if m.Else != nil {
			if v := m.Else(t.Text); v != nil {
				return v, nil, i + 1
			}
		}
		if m.Lang == "ts" && t.Text[0] == '$' {
			return module{m}, nil, i + 1
		}
		fail("undeclared " + t.Text)
	}
	fail("unexpected " + t.Text)
	return nil, nil, i
}

// text is the value of a literal.
func text(m *Machine, t src.Tok) V {
	var r []byte
	for i := 0; i < len(t.Text); i++ {
		c := t.Text[i]
		if c == '\\' && i+1 < len(t.Text) {
			i++
			c = t.Text[i]
			switch {
			case c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '\n':
				return Undef{}
			}
		} else if c == '\\' || c == '$' && m.Lang == "dart" {
			return Undef{}
		}
		r = append(r, c)
	}
	return string(r)
}

// Get evaluates a getter that needs no object.
func (c *Class) Get(name string) V {
	f, ok := c.getters[name]
	if !ok {
		return Undef{}
	}
	return c.m.run(f, nil, nil, nil)
}

// New makes an object with new, Make with the constructor of a class.
func (m *Machine) New(class string) *Data {
	d, ok := m.make(m.Classes[class], nil, nil).(*Data)
	if !ok {
		fail("new " + class)
	}
	return d
}

// Make calls the constructor or factory of a class.
func (m *Machine) Make(class string, named map[string]V) V {
	return m.make(m.Classes[class], nil, named)
}
