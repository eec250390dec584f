// Package script runs the functions of generated Dart and TypeScript code: an
// interpreter of the statements and expressions that the generators write for
// verification. Names and their members are given by the harness.
package script

import (
	"hbuf/zz_verif/num"
	"hbuf/zz_verif/src"
)

// V is nil, bool, string, num.Num, *Obj or Fn.
type V interface{}

// Fn is a function.
type Fn func(args []V) V

// Obj has members.
type Obj struct {
	Type string
	Get  func(name string) (V, bool)
	Less func(a, b *Obj) bool // if it has an order
}

// Err is what is wrong with the code.
type Err string

// Throw is an exception of the code.
type Throw struct{}

type scope struct {
	vars map[string]V
	up   *scope
}

// Machine runs code.
type Machine struct {
	Lang    string
	Globals map[string]V
	toks    []src.Tok
	steps   int
}

func (m *Machine) fail(s string) { panic(Err(s)) }

func (m *Machine) tok(i int) string {
	if i < 0 || i >= len(m.toks) || m.toks[i].Kind == src.String {
		return ""
	}
	return m.toks[i].Text
}

// op returns the operator at i, which may be of several bytes.
func (m *Machine) op(i int) string {
	if i >= len(m.toks) || m.toks[i].Kind != src.Punct {
		return ""
	}
	at := func(k int) byte {
		if i+k < len(m.toks) && m.toks[i+k].Kind == src.Punct && m.toks[i+k].Pos == m.toks[i].Pos+k {
			return m.toks[i+k].Text[0]
		}
		return 0
	}
	s := string([]byte{at(0), at(1), at(2)})
	for _, o := range []string{"===", "!==", "??="} {
		if s == o {
			return o
		}
	}
	for _, o := range []string{"==", "!=", "<=", ">=", "&&", "||", "??", "?.", "=>", "+=", "-="} {
		if s[:2] == o {
			return o
		}
	}
	return s[:1]
}

// Run runs the body of a function: the block that starts at toks[i] with {.
// It returns what the function returns, Throw if it throws.
func (m *Machine) Run(toks []src.Tok, i int, vars map[string]V) (r V, thrown bool) {
	m.toks = toks
	m.steps = 0
	f := &scope{vars: vars}
	_, v, _, th := m.block(i, f)
	return v, th
}

// block runs { ... } and returns the token after it. Once something was
// returned or thrown the rest is not run.
func (m *Machine) block(i int, up *scope) (next int, v V, done, thrown bool) {
	end := src.End(m.toks, i)
	s := &scope{map[string]V{}, up}
	i++
	for i < end {
		next, v, done, thrown := m.stmt(i, s)
		if done || thrown {
			return end + 1, v, done, thrown
		}
		i = next
	}
	return end + 1, nil, false, false
}

// skip returns the token after the statement at i.
func (m *Machine) skip(i int) int {
	switch {
	case m.tok(i) == "{":
		return src.End(m.toks, i) + 1
	case m.tok(i) == "if":
		j := m.skip(src.End(m.toks, i+1) + 1)
		if m.tok(j) == "else" {
			j = m.skip(j + 1)
		}
		return j
	case m.tok(i) == "try":
		j := src.End(m.toks, i+1) + 1
		for m.tok(j) == "catch" || m.tok(j) == "finally" {
			for m.tok(j) != "{" {
				j++
			}
			j = src.End(m.toks, j) + 1
		}
		return j
	}
	for ; i < len(m.toks); i++ {
		switch m.tok(i) {
		case ";":
			return i + 1
		case "(", "[", "{":
			i = src.End(m.toks, i)
		case "}":
			return i
		}
		if m.Lang == "ts" && i+1 < len(m.toks) && m.toks[i+1].Line > m.toks[i].Line {
			return i + 1
		}
	}
	return i
}

func (m *Machine) stmt(i int, s *scope) (next int, v V, done, thrown bool) {
	m.steps++
	if m.steps > 2000 {
		m.fail("does not end")
	}
	semi := func(i int) int {
		if m.tok(i) == ";" {
			return i + 1
		}
		if m.Lang == "ts" && (m.tok(i) == "}" || i < len(m.toks) && m.toks[i].Line > m.toks[i-1].Line) {
			return i
		}
		m.fail("missing ; at " + m.tok(i))
		return i
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(Throw); !ok {
				panic(e)
			}
			next, v, done, thrown = m.skip(i), nil, false, true
		}
	}()
	switch m.tok(i) {
	case ";":
		return i + 1, nil, false, false
	case "{":
		return m.block(i, s)
	case "if":
		if m.tok(i+1) != "(" {
			m.fail("if without (")
		}
		c, j := m.expr(i+2, s, 0)
		b, ok := c.(bool)
		if !ok {
			m.fail("a condition that is not a bool")
		}
		if j != src.End(m.toks, i+1) {
			m.fail("condition: " + m.tok(j))
		}
		j++
		if b {
			_, v, done, thrown := m.stmt(j, s)
			return m.skip(i), v, done, thrown
		}
		j = m.skip(j)
		if m.tok(j) == "else" {
			return m.stmt(j+1, s)
		}
		return j, nil, false, false
	case "return":
		if m.tok(i+1) == ";" || m.tok(i+1) == "}" {
			return i + 2, nil, true, false
		}
		v, j := m.expr(i+1, s, 0)
		return semi(j), v, true, false
	case "try":
		next, v, done, thrown := m.block(i+1, s)
		if thrown && m.tok(next) == "catch" {
			for m.tok(next) != "{" {
				next++
			}
			next, v, done, thrown = m.block(next, s)
		}
		return m.skip(i), v, done, thrown
	case "throw":
		return m.skip(i), nil, false, true
	case "var", "const", "let", "final":
		return m.declare(i+1, s, semi)
	}
	if m.Lang == "dart" && m.toks[i].Kind == src.Ident {
		j := i + 1
		if m.tok(j) == "?" {
			j++
		}
		if j < len(m.toks) && m.toks[j].Kind == src.Ident && m.op(j+1) == "=" {
			return m.declare(j, s, semi)
		}
	}
	if m.toks[i].Kind == src.Ident {
		at := s
		for at != nil {
			if _, ok := at.vars[m.tok(i)]; ok {
				break
			}
			at = at.up
		}
		switch o := m.op(i + 1); o {
		case "=", "??=":
			if at == nil {
				m.fail("undeclared " + m.tok(i))
			}
			if o == "??=" && at.vars[m.tok(i)] != nil {
				return m.skip(i), nil, false, false
			}
			v, j := m.expr(i+1+len(o), s, 0)
			at.vars[m.tok(i)] = v
			return semi(j), nil, false, false
		}
	}
	_, j := m.expr(i, s, 0)
	return semi(j), nil, false, false
}

func (m *Machine) declare(i int, s *scope, semi func(int) int) (int, V, bool, bool) {
	name := m.tok(i)
	if m.Lang == "ts" && m.tok(i+1) == ":" {
		for i+1 < len(m.toks) && m.op(i+1) != "=" {
			i++
		}
	}
	if m.op(i+1) != "=" {
		m.fail("declaration of " + name)
	}
	v, j := m.expr(i+2, s, 0)
	if _, ok := s.vars[name]; ok {
		m.fail(name + " is declared again")
	}
	s.vars[name] = v
	return semi(j), nil, false, false
}

func level(o string) int {
	switch o {
	case "??":
		return 1
	case "||":
		return 2
	case "&&":
		return 3
	case "==", "!=", "===", "!==":
		return 4
	case "<", ">", "<=", ">=":
		return 5
	case "+", "-":
		return 6
	}
	return -1
}

// expr evaluates the expression at i with operators of at least level min.
func (m *Machine) expr(i int, s *scope, min int) (V, int) {
	v, i := m.unary(i, s)
	for {
		o := m.op(i)
		if o == "?" && min <= 0 {
			b, ok := v.(bool)
			if !ok {
				m.fail("a condition that is not a bool")
			}
			// both sides are pure
			a, j := m.expr(i+1, s, 0)
			if m.tok(j) != ":" {
				m.fail("? without :")
			}
			c, k := m.expr(j+1, s, 0)
			if b {
				v = a
			} else {
				v = c
			}
			i = k
			continue
		}
		l := level(o)
		if l < 0 || l < min {
			return v, i
		}
		switch o {
		case "??":
			w, j := m.expr(i+2, s, l+1)
			if v == nil {
				v = w
			}
			i = j
			continue
		case "||", "&&":
			p, ok := v.(bool)
			if !ok {
				m.fail("a condition that is not a bool")
			}
			if p == (o == "||") {
				i = m.pass(i+2, l+1)
				v = p
				continue
			}
			w, j := m.expr(i+2, s, l+1)
			q, ok := w.(bool)
			if !ok {
				m.fail("a condition that is not a bool")
			}
			v, i = q, j
			continue
		}
		w, j := m.expr(i+len(o), s, l+1)
		v, i = m.binary(o, v, w), j
	}
}

// pass returns the token after the expression at i.
func (m *Machine) pass(i, min int) int {
	for ; i < len(m.toks); i++ {
		switch t := m.tok(i); t {
		case "(", "[", "{":
			i = src.End(m.toks, i)
			continue
		case ")", "]", "}", ";", ",", ":":
			return i
		}
		if o := m.op(i); o == "?" || level(o) >= 0 && level(o) < min {
			return i
		}
		i += len(m.op(i))
		if m.op(i) == "" {
			continue
		}
		i--
	}
	return i
}

func (m *Machine) binary(o string, a, b V) V {
	switch o {
	case "==", "===":
		return m.equal(a, b)
	case "!=", "!==":
		return !m.equal(a, b)
	}
	switch p := a.(type) {
	case num.Num:
		q, ok := b.(num.Num)
		if !ok {
			m.fail("operands of " + o)
		}
		switch o {
		case "<":
			return p.Less(q)
		case ">":
			return q.Less(p)
		case "<=":
			return !q.Less(p)
		case ">=":
			return !p.Less(q)
		}
	case *Obj:
		q, ok := b.(*Obj)
		if !ok || p.Less == nil || q.Type != p.Type || m.Lang == "ts" {
			m.fail("operands of " + o)
		}
		switch o {
		case "<":
			return p.Less(p, q)
		case ">":
			return p.Less(q, p)
		case "<=":
			return !p.Less(q, p)
		case ">=":
			return !p.Less(p, q)
		}
	case string:
		if o == "+" {
			switch q := b.(type) {
			case string:
				return p + q
			case nil:
				if m.Lang == "ts" {
					return p + "null"
				}
			}
		}
	}
	m.fail("operands of " + o)
	return nil
}

func (m *Machine) equal(a, b V) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch p := a.(type) {
	case string:
		q, ok := b.(string)
		return ok && p == q
	case bool:
		q, ok := b.(bool)
		return ok && p == q
	case num.Num:
		q, ok := b.(num.Num)
		return ok && p.Equal(q)
	}
	m.fail("operands of ==")
	return false
}

func (m *Machine) unary(i int, s *scope) (V, int) {
	switch m.op(i) {
	case "!":
		v, j := m.unary(i+1, s)
		b, ok := v.(bool)
		if !ok {
			m.fail("! of what is not a bool")
		}
		return !b, j
	case "-":
		v, j := m.unary(i+1, s)
		n, ok := v.(num.Num)
		if !ok {
			m.fail("- of what is not a number")
		}
		return n.Neg(), j
	}
	v, i := m.primary(i, s)
	for {
		switch o := m.op(i); {
		case o == "." || o == "?.":
			i += len(o)
			name := m.tok(i)
			i++
			if v == nil {
				if o == "." {
					m.fail("." + name + " of null")
				}
				for m.op(i) == "(" {
					i = src.End(m.toks, i) + 1
				}
				continue
			}
			v = m.member(v, name)
		case o == "(":
			f, ok := v.(Fn)
			if !ok {
				m.fail("call of what is not a function")
			}
			var args []V
			var end = src.End(m.toks, i)
			i++
			for i < end {
				a, j := m.expr(i, s, 0)
				args = append(args, a)
				i = j
				if i < end && m.tok(i) != "," {
					m.fail("argument: " + m.tok(i))
				}
				if i < end {
					i++
				}
			}
			i = end + 1
			v = f(args)
		case o == "!" && m.op(i) == "!":
			if v == nil && m.Lang == "dart" {
				m.fail("! of null")
			}
			i++
		default:
			return v, i
		}
	}
}

func (m *Machine) member(v V, name string) V {
	switch x := v.(type) {
	case string:
		switch {
		case name == "length":
			return num.Int(int64(units(x)))
		case name == "isEmpty" && m.Lang == "dart":
			return len(x) == 0
		case name == "isNotEmpty" && m.Lang == "dart":
			return len(x) != 0
		case name == "runes" && m.Lang == "dart":
			return Len(points(x))
		}
	case *Obj:
		if w, ok := x.Get(name); ok {
			return w
		}
	}
	m.fail("no member " + name)
	return nil
}

// Len is an object with a length.
func Len(n int) *Obj {
	return &Obj{Get: func(name string) (V, bool) {
		if name == "length" {
			return num.Int(int64(n)), true
		}
		return nil, false
	}}
}

// Members is an object with these members.
func Members(ms map[string]V) *Obj {
	return &Obj{Get: func(name string) (V, bool) {
		v, ok := ms[name]
		return v, ok
	}}
}

func points(s string) (n int) {
	for i := 0; i < len(s); i++ {
		if s[i]&0xc0 != 0x80 {
			n++
		}
	}
	return n
}

// Points is the number of code points of s.
func Points(s string) int { return points(s) }

func units(s string) int {
	n := points(s)
	for i := 0; i < len(s); i++ {
		if s[i] >= 0xf0 {
			n++
		}
	}
	return n
}

func (m *Machine) primary(i int, s *scope) (V, int) {
	if i >= len(m.toks) {
		m.fail("end of the code")
	}
	t := m.toks[i]
	switch t.Kind {
	case src.String:
		return m.text(t), i + 1
	case src.Number:
		n, ok := num.Parse(t.Text)
		if !ok {
			m.fail("number " + t.Text)
		}
		return n, i + 1
	case src.Punct:
		if t.Text == "(" {
			v, j := m.expr(i+1, s, 0)
			if m.tok(j) != ")" {
				m.fail("( without )")
			}
			return v, j + 1
		}
	case src.Ident:
		switch t.Text {
		case "null", "undefined":
			return nil, i + 1
		case "true":
			return true, i + 1
		case "false":
			return false, i + 1
		case "new":
			return m.primary(i+1, s)
		}
		for at := s; at != nil; at = at.up {
			if v, ok := at.vars[t.Text]; ok {
				return v, i + 1
			}
		}
		if v, ok := m.Globals[t.Text]; ok {
			return v, i + 1
		}
		m.fail("undeclared " + t.Text)
	}
	m.fail("unexpected " + t.Text)
	return nil, i
}

// text is the value of a literal.
func (m *Machine) text(t src.Tok) string {
	var b []byte
	for i := 0; i < len(t.Text); i++ {
		c := t.Text[i]
		if c == '$' && m.Lang == "dart" {
			m.fail("$ in a string")
		}
		if c == '\\' && i+1 < len(t.Text) {
			i++
			c = t.Text[i]
			switch c {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case 'x', 'u':
				m.fail("escape")
			}
		}
		b = append(b, c)
	}
	return string(b)
}
