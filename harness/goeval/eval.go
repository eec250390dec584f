// Package goeval runs the functions of generated Go code: an interpreter of
// the part of Go that the generators write. What the code calls in other
// packages is given by the harness.
package goeval

import (
	"go/ast"
	"go/parser"
	"go/token"
	"strconv"
)

// V is a value: nil, bool, int64, float64, string, *Obj, *Ptr, *List, Fn,
// Tuple, or anything a function of the harness returned.
type V interface{}

// Obj is a structure, or anything else with members.
type Obj struct {
	Type    string
	Fields  map[string]V
	Methods map[string]func(args []V) V
}

// Ptr points to a field of an object, to an element, or to a value of its own.
type Ptr struct {
	Of    *Obj
	Field string
	Elem  V
	Index int // of an element of Of.Field, else -1
}

// List is a slice.
type List struct{ Elems []V }

// Fn is a function.
type Fn func(args []V) V

// Tuple is what a function with several results returns.
type Tuple []V

// File is a parsed file.
type File struct {
	Funcs []*ast.FuncDecl
	Text  string
	fset  *token.FileSet
}

// Parse parses a file.
func Parse(text string) (*File, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "g.go", text, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	r := &File{Text: text, fset: fset}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			r.Funcs = append(r.Funcs, fd)
		}
	}
	return r, nil
}

// Recv is the type of the receiver of a function.
func Recv(f *ast.FuncDecl) string {
	if f.Recv == nil || len(f.Recv.List) != 1 {
		return ""
	}
	t := f.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if x, ok := t.(*ast.Ident); ok {
		return x.Name
	}
	return ""
}

// Find finds a method.
func (f *File) Find(recv, name string) *ast.FuncDecl {
	for _, d := range f.Funcs {
		if d.Name.Name == name && Recv(d) == recv {
			return d
		}
	}
	return nil
}

// Err is what running the code panics with when it cannot go on.
type Err string

type env struct {
	up   *env
	vars map[string]V
}

func (e *env) find(name string) *env {
	for ; e != nil; e = e.up {
		if _, ok := e.vars[name]; ok {
			return e
		}
	}
	return nil
}

// Machine runs functions.
type Machine struct {
	Globals map[string]V // packages, and names of the same package
	Steps   int
	New     func(typ string) *Obj // makes a structure, if not nil
	Store   func(key, val V)      // is told of what is stored in a map
	Lit     func(text string) V   // what a number in the code is, if not nil
}

func (m *Machine) fail(s string) { panic(Err(s)) }

// Call runs a function of a file; the first value is the receiver if it has
// one.
func (m *Machine) Call(f *ast.FuncDecl, args ...V) V {
	e := &env{vars: map[string]V{}}
	if f.Recv != nil {
		for _, n := range f.Recv.List[0].Names {
			e.vars[n.Name] = args[0]
		}
		args = args[1:]
	}
	return m.run(f.Type, f.Body, e, args)
}

func (m *Machine) run(t *ast.FuncType, body *ast.BlockStmt, up *env, args []V) V {
	e := &env{up: up, vars: map[string]V{}}
	i := 0
	for _, p := range t.Params.List {
		for _, n := range p.Names {
			if i < len(args) {
				e.vars[n.Name] = args[i]
			}
			i++
		}
	}
	r, _ := m.block(body.List, e)
	return r
}

func (m *Machine) block(list []ast.Stmt, e *env) (V, bool) {
	for _, s := range list {
		if r, done := m.stmt(s, e); done {
			return r, true
		}
	}
	return nil, false
}

func (m *Machine) stmt(s ast.Stmt, e *env) (V, bool) {
	if m.Steps--; m.Steps < 0 {
		m.fail("too many steps")
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		return m.block(s.List, &env{up: e, vars: map[string]V{}})
	case *ast.ExprStmt:
		m.expr(s.X, e)
	case *ast.DeferStmt:
	case *ast.EmptyStmt:
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			return m.expr(s.Results[0], e), true
		}
		var t Tuple
		for _, x := range s.Results {
			t = append(t, m.expr(x, e))
		}
		return t, true
	case *ast.DeclStmt:
		for _, sp := range s.Decl.(*ast.GenDecl).Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				m.fail("declaration")
			}
			for i, n := range vs.Names {
				if i < len(vs.Values) {
					e.vars[n.Name] = m.expr(vs.Values[i], e)
				} else {
					e.vars[n.Name] = m.zero(vs.Type)
				}
			}
		}
	case *ast.AssignStmt:
		var vals []V
		if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
			t, ok := m.expr(s.Rhs[0], e).(Tuple)
			if !ok || len(t) != len(s.Lhs) {
				m.fail("results")
			}
			vals = t
		} else {
			for _, x := range s.Rhs {
				vals = append(vals, m.expr(x, e))
			}
		}
		if s.Tok == token.DEFINE {
			fresh := false
			for _, l := range s.Lhs {
				n := l.(*ast.Ident).Name
				if _, ok := e.vars[n]; !ok && n != "_" {
					fresh = true
				}
			}
			if !fresh {
				m.fail("no new variables left of :=")
			}
		}
		for i, l := range s.Lhs {
			switch l := l.(type) {
			case *ast.Ident:
				if l.Name == "_" {
					continue
				}
				at := e
				if s.Tok != token.DEFINE {
					if at = e.find(l.Name); at == nil {
						m.fail("undeclared " + l.Name)
					}
				}
				at.vars[l.Name] = vals[i]
			case *ast.SelectorExpr:
				o := m.obj(m.expr(l.X, e))
				o.Fields[l.Sel.Name] = vals[i]
			case *ast.IndexExpr:
				m.expr(l.X, e)
				k := m.expr(l.Index, e)
				if m.Store == nil {
					m.fail("assignment")
				}
				m.Store(k, vals[i])
			default:
				m.fail("assignment")
			}
		}
	case *ast.IfStmt:
		in := &env{up: e, vars: map[string]V{}}
		if s.Init != nil {
			m.stmt(s.Init, in)
		}
		c, ok := m.expr(s.Cond, in).(bool)
		if !ok {
			m.fail("condition")
		}
		if c {
			return m.block(s.Body.List, &env{up: in, vars: map[string]V{}})
		} else if s.Else != nil {
			return m.stmt(s.Else, in)
		}
	case *ast.RangeStmt:
		l, _ := m.expr(s.X, e).(*List)
		if l == nil {
			return nil, false
		}
		for i, x := range l.Elems {
			in := &env{up: e, vars: map[string]V{}}
			if k, ok := s.Key.(*ast.Ident); ok {
				in.vars[k.Name] = int64(i)
			}
			if k, ok := s.Value.(*ast.Ident); ok {
				in.vars[k.Name] = x
			}
			if r, done := m.block(s.Body.List, in); done {
				return r, true
			}
		}
	default:
		m.fail("statement")
	}
	return nil, false
}

func (m *Machine) zero(t ast.Expr) V {
	switch t := t.(type) {
	case *ast.Ident:
		switch t.Name {
		case "bool":
			return false
		case "string":
			return ""
		case "error":
			return nil
		case "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "int":
			return int64(0)
		case "float32", "float64":
			return float64(0)
		}
		return m.make(t.Name)
	case *ast.SelectorExpr:
		return m.make(t.Sel.Name)
	}
	return nil
}

func (m *Machine) make(typ string) *Obj {
	if m.New != nil {
		return m.New(typ)
	}
	return &Obj{Type: typ, Fields: map[string]V{}}
}

func (m *Machine) obj(v V) *Obj {
	if p, ok := v.(*Ptr); ok {
		v = m.load(p)
	}
	o, ok := v.(*Obj)
	if !ok || o == nil {
		m.fail("not a structure")
	}
	return o
}

func (m *Machine) load(p *Ptr) V {
	if p == nil {
		m.fail("nil pointer")
	}
	if p.Of == nil {
		return p.Elem
	}
	v := p.Of.Fields[p.Field]
	if p.Index >= 0 {
		return v.(*List).Elems[p.Index]
	}
	return v
}

func (m *Machine) call(f V, args []V) V {
	switch f := f.(type) {
	case Fn:
		return f(args)
	case func([]V) V:
		return f(args)
	}
	m.fail("not a function")
	return nil
}

func isNil(v V) bool {
	switch v := v.(type) {
	case nil:
		return true
	case *Ptr:
		return v == nil
	case *Obj:
		return v == nil
	case *List:
		return v == nil
	}
	return false
}

func (m *Machine) expr(x ast.Expr, e *env) V {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return m.expr(x.X, e)
	case *ast.BasicLit:
		if m.Lit != nil && (x.Kind == token.INT || x.Kind == token.FLOAT) {
			return m.Lit(x.Value)
		}
		switch x.Kind {
		case token.INT:
			n, err := strconv.ParseInt(x.Value, 0, 64)
			if err != nil {
				u, err := strconv.ParseUint(x.Value, 0, 64)
				if err != nil {
					m.fail("number")
				}
				return Big(u)
			}
			return n
		case token.FLOAT:
			n, err := strconv.ParseFloat(x.Value, 64)
			if err != nil {
				m.fail("number")
			}
			return n
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				m.fail("string")
			}
			return s
		}
	case *ast.Ident:
		switch x.Name {
		case "nil":
			return nil
		case "true":
			return true
		case "false":
			return false
		}
		if at := e.find(x.Name); at != nil {
			return at.vars[x.Name]
		}
		if v, ok := m.Globals[x.Name]; ok {
			return v
		}
		m.fail("undeclared " + x.Name)
	case *ast.StarExpr:
		v := m.expr(x.X, e)
		if p, ok := v.(*Ptr); ok {
			return m.load(p)
		}
		if isNil(v) {
			m.fail("nil pointer")
		}
		return v
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			b, ok := m.expr(x.X, e).(bool)
			if !ok {
				m.fail("condition")
			}
			return !b
		case token.SUB:
			switch v := m.expr(x.X, e).(type) {
			case int64:
				return -v
			case float64:
				return -v
			case Big:
				return int64(-v)
			case Ordered:
				return v.Negate()
			}
		case token.AND:
			switch y := x.X.(type) {
			case *ast.SelectorExpr:
				return &Ptr{Of: m.obj(m.expr(y.X, e)), Field: y.Sel.Name, Index: -1}
			case *ast.IndexExpr:
				if s, ok := y.X.(*ast.SelectorExpr); ok {
					return &Ptr{Of: m.obj(m.expr(s.X, e)), Field: s.Sel.Name, Index: int(m.expr(y.Index, e).(int64))}
				}
			case *ast.CompositeLit:
				return m.expr(y, e)
			case *ast.Ident:
				return &Ptr{Elem: m.expr(y, e), Index: -1}
			}
		}
		m.fail("operator")
	case *ast.BinaryExpr:
		return m.binary(x, e)
	case *ast.SelectorExpr:
		v := m.expr(x.X, e)
		o := m.obj(v)
		if f, ok := o.Methods[x.Sel.Name]; ok {
			return Fn(f)
		}
		if f, ok := o.Fields[x.Sel.Name]; ok {
			return f
		}
		m.fail("no member " + x.Sel.Name)
	case *ast.IndexExpr:
		v := m.expr(x.X, e)
		i, ok := m.expr(x.Index, e).(int64)
		l, _ := v.(*List)
		if !ok || l == nil || i < 0 || int(i) >= len(l.Elems) {
			m.fail("index")
		}
		return l.Elems[i]
	case *ast.FuncLit:
		return Fn(func(args []V) V { return m.run(x.Type, x.Body, e, args) })
	case *ast.CompositeLit:
		var o *Obj
		switch t := x.Type.(type) {
		case *ast.Ident:
			o = m.make(t.Name)
		case *ast.SelectorExpr:
			o = m.make(t.Sel.Name)
		case *ast.ArrayType:
			l := &List{}
			for _, y := range x.Elts {
				l.Elems = append(l.Elems, m.expr(y, e))
			}
			return l
		default:
			m.fail("literal")
		}
		for _, y := range x.Elts {
			kv, ok := y.(*ast.KeyValueExpr)
			if !ok {
				m.fail("literal")
			}
			o.Fields[kv.Key.(*ast.Ident).Name] = m.expr(kv.Value, e)
		}
		return o
	case *ast.CallExpr:
		if f, ok := x.Fun.(*ast.Ident); ok && e.find(f.Name) == nil {
			switch f.Name {
			case "len":
				switch v := m.expr(x.Args[0], e).(type) {
				case string:
					return int64(len(v))
				case *List:
					if v == nil {
						return int64(0)
					}
					return int64(len(v.Elems))
				case nil:
					return int64(0)
				}
				m.fail("len")
			case "int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string":
				return m.expr(x.Args[0], e)
			case "make":
				return &List{}
			case "append":
				l, _ := m.expr(x.Args[0], e).(*List)
				r := &List{}
				if l != nil {
					r.Elems = append(r.Elems, l.Elems...)
				}
				for _, y := range x.Args[1:] {
					r.Elems = append(r.Elems, m.expr(y, e))
				}
				return r
			}
		}
		f := m.expr(x.Fun, e)
		var args []V
		for i, y := range x.Args {
			if x.Ellipsis.IsValid() && i == len(x.Args)-1 {
				if l, _ := m.expr(y, e).(*List); l != nil {
					args = append(args, l.Elems...)
				}
				continue
			}
			args = append(args, m.expr(y, e))
		}
		return m.call(f, args)
	}
	m.fail("expression")
	return nil
}

// Big is a number above the greatest int64.
type Big uint64

// Ordered is a number of the harness.
type Ordered interface {
	Before(b interface{}) bool
	After(b interface{}) bool
	Negate() interface{}
}

func (m *Machine) ordered(op token.Token, a Ordered, b V) V {
	switch op {
	case token.LSS:
		return a.Before(b)
	case token.GTR:
		return a.After(b)
	case token.LEQ:
		return !a.After(b)
	case token.GEQ:
		return !a.Before(b)
	case token.EQL:
		return !a.Before(b) && !a.After(b)
	case token.NEQ:
		return a.Before(b) || a.After(b)
	}
	m.fail("operands")
	return nil
}

func (m *Machine) binary(x *ast.BinaryExpr, e *env) V {
	a := m.expr(x.X, e)
	switch x.Op {
	case token.LAND, token.LOR:
		p, ok := a.(bool)
		if !ok {
			m.fail("condition")
		}
		if p != (x.Op == token.LAND) {
			return p
		}
		q, ok := m.expr(x.Y, e).(bool)
		if !ok {
			m.fail("condition")
		}
		return q
	}
	b := m.expr(x.Y, e)
	if isNil(a) || isNil(b) {
		switch x.Op {
		case token.EQL:
			return isNil(a) && isNil(b)
		case token.NEQ:
			return !(isNil(a) && isNil(b))
		}
		m.fail("nil")
	}
	if p, ok := a.(Ordered); ok {
		return m.ordered(x.Op, p, b)
	}
	if p, ok := b.(Ordered); ok {
		op := x.Op
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
		return m.ordered(op, p, a)
	}
	switch p := a.(type) {
	case string:
		q, ok := b.(string)
		if !ok {
			m.fail("operands")
		}
		switch x.Op {
		case token.EQL:
			return p == q
		case token.NEQ:
			return p != q
		case token.ADD:
			return p + q
		}
	case bool:
		q, ok := b.(bool)
		if !ok {
			m.fail("operands")
		}
		switch x.Op {
		case token.EQL:
			return p == q
		case token.NEQ:
			return p != q
		}
	case int64:
		switch q := b.(type) {
		case int64:
			switch x.Op {
			case token.EQL:
				return p == q
			case token.NEQ:
				return p != q
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			case token.GEQ:
				return p >= q
			case token.ADD:
				return p + q
			case token.SUB:
				return p - q
			case token.MUL:
				return p * q
			}
		case float64:
			return m.floats(x.Op, float64(p), q)
		case Big:
			return m.bigs(x.Op, p < 0, Big(p), false, q)
		}
	case Big:
		switch q := b.(type) {
		case int64:
			return m.bigs(x.Op, false, p, q < 0, Big(q))
		case Big:
			return m.bigs(x.Op, false, p, false, q)
		case float64:
			return m.floats(x.Op, float64(p), q)
		}
	case float64:
		switch q := b.(type) {
		case float64:
			return m.floats(x.Op, p, q)
		case int64:
			return m.floats(x.Op, p, float64(q))
		case Big:
			return m.floats(x.Op, p, float64(q))
		}
	}
	m.fail("operands")
	return nil
}

func (m *Machine) floats(op token.Token, p, q float64) V {
	switch op {
	case token.EQL:
		return p == q
	case token.NEQ:
		return p != q
	case token.LSS:
		return p < q
	case token.LEQ:
		return p <= q
	case token.GTR:
		return p > q
	case token.GEQ:
		return p >= q
	case token.MUL:
		return p * q
	}
	m.fail("operands")
	return nil
}

func (m *Machine) bigs(op token.Token, pn bool, p Big, qn bool, q Big) V {
	less := pn && !qn || pn == qn && p < q
	same := pn == qn && p == q
	switch op {
	case token.EQL:
		return same
	case token.NEQ:
		return !same
	case token.LSS:
		return less
	case token.LEQ:
		return less || same
	case token.GTR:
		return !less && !same
	case token.GEQ:
		return !less
	}
	m.fail("operands")
	return nil
}
