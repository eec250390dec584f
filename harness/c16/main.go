// C16: generated SQL binds every column and keeps every declared condition.
package main

import (
	"hbuf/zz_verif/gen"
	"hbuf/zz_verif/goeval"
	"hbuf/zz_verif/rich"
	. "hbuf/zz_verif/schema"
	"hbuf/zz_verif/sym"
	"strconv"
	"strings"
)

func main() {
	sym.Main(map[string]func(){"H_columns": H_columns, "H_clauses": H_clauses, "H_text": H_text, "H_key": H_key, "H_up": H_up})
}

func pick(name string, xs []string) string { return xs[sym.Pick(name, len(xs))] }

// A fld is a field with a database tag. Clauses are texts in which ? stands
// for the value, ?{n} for that of the field n, $ and ${n} for the text of it.
type fld struct {
	name, typ           string // Go name is the name with a capital
	col                 string // name of the column, "" for that of the field
	opt, arr            bool
	json, key, force    bool
	where               []string
	group, order        string
	offset, limit       string
	set, get            string
	have                int // 0 nil, else 1 + length of the list
	val                 string
	selected, condition bool
}

func (f *fld) goName() string { return strings.ToUpper(f.name[:1]) + f.name[1:] }

func (f *fld) column() string {
	if f.col != "" {
		return f.col
	}
	return f.name
}

// clause reports whether the field stands for a clause, not a column to read.
func (f *fld) clause() bool {
	return len(f.where) > 0 || f.group != "" || f.order != "" || f.offset != "" || f.limit != ""
}

func (f *fld) text(id int) string {
	var kv []string
	add := func(k, v string) {
		if v != "" {
			kv = append(kv, k+"=\""+v+"\"")
		}
	}
	add("name", f.col)
	if f.json {
		add("converter", "json")
	}
	if f.key {
		add("key", "true")
	}
	if f.force {
		add("force", "true")
	}
	if len(f.where) > 0 {
		kv = append(kv, "where=\""+strings.Join(f.where, "\",\"")+"\"")
	}
	add("group", f.group)
	add("order", f.order)
	add("offset", f.offset)
	add("limit", f.limit)
	add("set", f.set)
	add("get", f.get)
	t := f.typ
	if f.arr {
		t += "[]"
	}
	if f.opt {
		t += "?"
	}
	return "[db:" + strings.Join(kv, ";") + "]\n" + t + " " + f.name + " = " + strconv.Itoa(id) + "\n"
}

func body(fs []*fld) string {
	s := ""
	for i, f := range fs {
		s += f.text(i)
	}
	return s
}

// value is what the field holds.
func (f *fld) value() goeval.V {
	if f.arr {
		if f.have == 0 {
			return (*goeval.List)(nil)
		}
		l := &goeval.List{}
		for i := 1; i < f.have; i++ {
			l.Elems = append(l.Elems, f.val+strconv.Itoa(i))
		}
		return l
	}
	if f.opt {
		if f.have == 0 {
			return nil
		}
		return &goeval.Ptr{Elem: f.val, Index: -1}
	}
	return f.val
}

// choose gives the field a value.
func (f *fld) choose() {
	f.have = 1
	f.val = "<" + f.name + ">"
	if f.order != "" {
		f.val = pick(f.name+" way", []string{"ASC", "DESC", "x"})
	}
	switch {
	case f.arr && f.opt:
		f.have = sym.Pick(f.name+" has", 4)
	case f.arr:
		f.have = 2 + sym.Pick(f.name+" has", 2)
		if len(f.where) > 1 {
			f.have = 3
		}
	case f.opt:
		f.have = sym.Pick(f.name+" has", 2)
	}
}

// show is the value a statement is given.
func (f *fld) show() string {
	v := f.val
	if f.arr {
		v = "["
		for i := 1; i < f.have; i++ {
			v += f.val + strconv.Itoa(i) + " "
		}
		v += "]"
		if f.have == 0 {
			v = "nil"
		}
	} else if f.have == 0 {
		v = "nil"
	}
	if f.json {
		v = "json " + v
	}
	return v
}

func shown(v goeval.V) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case string:
		return v
	case *goeval.Ptr:
		if v == nil {
			return "nil"
		}
		if v.Of == nil {
			return shown(v.Elem)
		}
		x := v.Of.Fields[v.Field]
		if v.Index >= 0 {
			x = x.(*goeval.List).Elems[v.Index]
		}
		return shown(x)
	case *goeval.List:
		if v == nil {
			return "nil"
		}
		s := "["
		for _, x := range v.Elems {
			s += shown(x) + " "
		}
		return s + "]"
	case *goeval.Obj:
		if v.Type == "json" {
			return "json " + shown(v.Fields["of"])
		}
	}
	return "?"
}

// A stmt is a statement: its text, the values bound and the fields read.
type stmt struct {
	text string
	args []string
	del  string
	ran  int
	rows []string // fields of the result that are read
	key  string   // of a row in a map
}

func (s *stmt) start(t string) string {
	if s.del != "" {
		t = strings.TrimPrefix(t, s.del)
		s.del = ""
	}
	return t
}

// sqlObj is db.Sql of the runtime library.
func sqlObj(s *stmt, read func(args []goeval.V) goeval.V) *goeval.Obj {
	o := &goeval.Obj{Type: "Sql"}
	bind := func(args []goeval.V) {
		for _, a := range args {
			s.args = append(s.args, shown(a))
		}
	}
	o.Methods = map[string]func(args []goeval.V) goeval.V{
		"T": func(args []goeval.V) goeval.V {
			t, ok := args[0].(string)
			sym.Assert(ok, "text of a statement is a text")
			s.text += s.start(strings.Trim(strings.Trim(t, " "), "\t")) + " "
			return o
		},
		"V": func(args []goeval.V) goeval.V { s.text += "? "; bind(args); return o },
		"P": func(args []goeval.V) goeval.V { bind(args); return o },
		"L": func(args []goeval.V) goeval.V {
			for i := range args[1:] {
				if i != 0 {
					s.text += s.start(args[0].(string))
				}
				s.text += "? "
			}
			bind(args[1:])
			return o
		},
		"Del":  func(args []goeval.V) goeval.V { s.del = args[0].(string); return o },
		"Exec": func(args []goeval.V) goeval.V { s.ran++; return goeval.Tuple{int64(1), int64(2), nil} },
		"Query": func(args []goeval.V) goeval.V {
			s.ran++
			rows := &goeval.Obj{Methods: map[string]func(args []goeval.V) goeval.V{"Scan": read}}
			args[1].(goeval.Fn)([]goeval.V{rows})
			return goeval.Tuple{int64(1), nil}
		},
	}
	return o
}

// run runs one of the functions that use the database. recv is the value of
// its receiver.
func run(f *goeval.File, typ, name string, recv []*fld, cols []*fld, list int) *stmt {
	fn := f.Find(typ, name)
	sym.Assert(fn != nil, "an operation has a function")
	s := &stmt{}
	obj := func(fs []*fld, mark string) *goeval.Obj {
		o := &goeval.Obj{Fields: map[string]goeval.V{}, Methods: map[string]func(args []goeval.V) goeval.V{}}
		for _, x := range fs {
			n := x.goName()
			if mark == "" {
				o.Fields[n] = x.value()
			} else {
				o.Fields[n] = mark + n
			}
			o.Methods["Get"+n] = func(args []goeval.V) goeval.V { return mark + n }
		}
		return o
	}
	pack := func(m map[string]func(args []goeval.V) goeval.V) *goeval.Obj { return &goeval.Obj{Methods: m} }
	type F = func(args []goeval.V) goeval.V
	m := &goeval.Machine{Steps: 2000, Globals: map[string]goeval.V{
		"db": pack(map[string]F{
			"GET": func(args []goeval.V) goeval.V {
				return pack(map[string]F{"Table": func(args []goeval.V) goeval.V { return args[0] }})
			},
			"NewSql": func(args []goeval.V) goeval.V {
				return sqlObj(s, func(args []goeval.V) goeval.V {
					for _, a := range args {
						t := ""
						if o, ok := a.(*goeval.Obj); ok && o.Type == "json" {
							t = "json "
							a = o.Fields["of"]
						}
						p, ok := a.(*goeval.Ptr)
						sym.Assert(ok, "a column is read into a field")
						s.rows = append(s.rows, t+p.Field)
					}
					return nil
				})
			},
			"NewJson": func(args []goeval.V) goeval.V {
				return &goeval.Obj{Type: "json", Fields: map[string]goeval.V{"of": args[0]}}
			},
		}),
		"cache": pack(map[string]F{
			"DbGet":    func(args []goeval.V) goeval.V { return goeval.Tuple{nil, "k", nil} },
			"DbSet":    func(args []goeval.V) goeval.V { return goeval.Tuple{nil, nil} },
			"DbDel":    func(args []goeval.V) goeval.V { return nil },
			"DbUnlock": func(args []goeval.V) goeval.V { return nil },
		}),
		"utl":  pack(map[string]F{"ToAnyList": func(args []goeval.V) goeval.V { return args[0] }}),
		"rand": pack(map[string]F{"Intn": func(args []goeval.V) goeval.V { return int64(1) }}),
		"time": &goeval.Obj{Fields: map[string]goeval.V{"Second": int64(1)}, Methods: map[string]F{"Duration": func(args []goeval.V) goeval.V { return args[0] }}},
	}}
	m.New = func(typ string) *goeval.Obj { return obj(cols, "row ") }
	m.Store = func(key, val goeval.V) { s.key, _ = key.(string) }
	g := obj(recv, "")
	args := []goeval.V{g, nil}
	if name == "DbInsertList" {
		l := &goeval.List{}
		for i := 0; i < list; i++ {
			l.Elems = append(l.Elems, obj(cols, "<"+strconv.Itoa(i)+">"))
		}
		args = append(args, l)
	}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(goeval.Err)
			if !ok {
				panic(r)
			}
			sym.Note("statement", s.text)
			sym.Note("code", f.Text)
			sym.Note("error", string(e))
			sym.Assert(false, "a generated function runs")
		}
	}()
	r := m.Call(fn, args...)
	if name == "DbScan" {
		t := r.(goeval.Tuple)
		s.text = t[0].(string)
		for _, a := range t[1].(*goeval.List).Elems {
			x := ""
			if o, ok := a.(*goeval.Obj); ok && o.Type == "json" {
				x = "json "
				a = o.Fields["of"]
			}
			s.rows = append(s.rows, x+a.(*goeval.Ptr).Field)
		}
	}
	return s
}

// tidy leaves white space only where it separates words.
func tidy(s string) string {
	r := ""
	for _, w := range strings.Fields(s) {
		if r != "" && !strings.ContainsAny(r[len(r)-1:], ",(=") && !strings.ContainsAny(w[:1], ",()=") {
			r += " "
		}
		r += w
	}
	return r
}

// A want is the statement that is expected.
type want struct {
	text string
	args []string
}

func (w *want) add(s string) { w.text += s }

// fill adds a clause of a field; elem is an element of its list, or -1.
func (w *want) fill(text string, f *fld, all []*fld, elem int) {
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c != '?' && c != '$' {
			w.text += text[i : i+1]
			continue
		}
		of, at := f, elem
		if i+1 < len(text) && text[i+1] == '{' {
			j := strings.IndexByte(text[i:], '}')
			n := text[i+2 : i+j]
			i += j
			of, at = nil, -1
			for _, x := range all {
				if x.name == n {
					of = x
				}
			}
		}
		switch {
		case c == '$':
			w.text += " " + of.val + " "
		case of.arr && at >= 0:
			w.text += " ? "
			w.args = append(w.args, of.val+strconv.Itoa(at+1))
		case of.arr && !of.json:
			for k := 1; k < of.have; k++ {
				if k > 1 {
					w.text += ","
				}
				w.text += " ? "
				w.args = append(w.args, of.val+strconv.Itoa(k))
			}
		default:
			w.text += " ? "
			w.args = append(w.args, of.show())
		}
	}
}

func (w *want) where(fs []*fld) {
	for _, f := range fs {
		for i, t := range f.where {
			switch {
			case f.arr && len(f.where) > 1:
				if i+1 < f.have {
					w.add(" ")
					w.fill(t, f, fs, i)
				}
			case f.arr && f.opt && f.have < 2, f.have == 0:
			default:
				w.add(" ")
				w.fill(t, f, fs, -1)
			}
		}
	}
}

func (w *want) list(clause string, fs []*fld, text func(f *fld) string, on func(f *fld) bool) {
	first := true
	for _, f := range fs {
		if t := text(f); t != "" && f.have > 0 && on(f) {
			if first {
				w.add(" " + clause + " ")
			} else {
				w.add(", ")
			}
			first = false
			w.fill(t, f, fs, -1)
		}
	}
}

func (w *want) groups(fs []*fld) {
	w.list("GROUP BY", fs, func(f *fld) string { return f.group }, func(f *fld) bool { return true })
}

func (w *want) orders(fs []*fld) {
	w.list("ORDER BY", fs, func(f *fld) string { return f.order }, func(f *fld) bool { return f.val == "ASC" || f.val == "DESC" })
}

func (w *want) page(fs []*fld) {
	var off, lim *fld
	for _, f := range fs {
		if f.offset != "" && off == nil {
			off = f
		}
		if f.limit != "" && lim == nil {
			lim = f
		}
	}
	if lim == nil {
		return
	}
	w.add(" LIMIT ")
	if off != nil {
		w.fill(off.offset, off, fs, -1)
		w.add(", ")
	}
	w.fill(lim.limit, lim, fs, -1)
}

// A table is a table, with a query on it.
type table struct {
	schema, name string
	fake         bool
	cols         []*fld // of the table
	query        []*fld // of the query, nil for operations of the table
	cache        bool
	base, own    []*fld // of the table or query if it has a parent
	split        bool   // the query, or the parent, is in another file
}

func (t *table) full() string {
	if t.schema != "" {
		return t.schema + "." + t.name
	}
	return t.name
}

var ops = []string{"list", "map", "count", "get", "del", "rm", "insert", "inserts", "update", "set"}
var funcs = map[string]string{"list": "DbList", "map": "DbMap", "count": "DbCount", "get": "DbGet", "del": "DbDel", "rm": "DbRemove", "insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet"}

// files are the files of the schema.
func (t *table) files(op, val string) []*File {
	v := val
	switch op {
	case "map":
		v = t.cols[0].name + ":" + val
	case "count", "del", "rm":
		v = "true"
	}
	cache := ""
	if t.cache {
		cache = "[cache:min=\"10\";max=\"20\"]\n"
	}
	use := op + "=\"" + v + "\""
	tag := "[db:name=\"" + t.name + "\""
	if t.schema != "" {
		tag += ";schema=\"" + t.schema + "\""
	}
	if !t.fake {
		tag += ";fake=\"false\""
	}
	if t.query == nil {
		tag += ";" + use
	}
	main, more := "", ""
	if t.query == nil {
		main = cache + tag + "]\ndata Tab" + t.members(t.cols)
	} else {
		main = cache + "[db:table=\"Tab\";" + use + "]\ndata Query" + t.members(t.query)
		more = tag + "]\ndata Tab {\n" + body(t.cols) + "}\n"
	}
	if t.base != nil {
		more += "data Base {\n" + body(t.base) + "}\n"
	}
	if t.split {
		return []*File{{Path: "in.hbuf", Raw: rich.Head + "import \"o.hbuf\"\n" + main}, {Path: "o.hbuf", Raw: rich.Head + more}}
	}
	return []*File{{Path: "in.hbuf", Raw: rich.Head + more + main}}
}

func (t *table) members(fs []*fld) string {
	if t.base == nil {
		return " {\n" + body(fs) + "}\n"
	}
	return " : Base = 0 {\n" + body(t.own) + "}\n"
}

// all are the fields of the parent and the own ones, which replace those of
// the same name.
func (t *table) all() []*fld {
	r := append([]*fld{}, t.base...)
	for _, f := range t.own {
		at := -1
		for i, x := range r {
			if x.name == f.name {
				at = i
			}
		}
		if at < 0 {
			r = append(r, f)
		} else {
			r[at] = f
		}
	}
	return r
}

func expect(cond bool, label string, s *stmt, w *want, f *goeval.File) {
	if !cond {
		sym.Note("statement", s.text+" | "+strings.Join(s.args, " ; ")+" | "+strings.Join(s.rows, " ; "))
		sym.Note("expected", w.text+" | "+strings.Join(w.args, " ; "))
		sym.Note("code", f.Text)
	}
	sym.Assert(cond, label)
}

// same says that the columns read are those of the fields, in order.
func same(s *stmt, list string, fs []*fld, f *goeval.File) {
	var names []string
	if strings.TrimSpace(list) != "" {
		names = strings.Split(list, ",")
	}
	w := &want{}
	expect(len(names) == len(s.rows), "each column is read into a field", s, w, f)
	read := map[string]bool{}
	for i, n := range names {
		var of *fld
		for _, x := range fs {
			c := x.goName()
			if x.json {
				c = "json " + c
			}
			if c == s.rows[i] {
				of = x
			}
		}
		expect(of != nil, "a column is read into the field of its name", s, w, f)
		c := of.column()
		if of.get != "" {
			c = strings.ReplaceAll(of.get, "?", c)
		}
		expect(strings.TrimSpace(n) == c, "a column is read into the field of its name", s, w, f)
		expect(!read[of.name], "a column is read once", s, w, f)
		read[of.name] = true
	}
	for _, x := range fs {
		if x.get != "" || !x.clause() {
			expect(read[x.name], "a column of the type is read", s, w, f)
		}
	}
}

// verify compiles the schema with an operation and looks at its statement.
func verify(t *table, op, val string) {
	outs, err := gen.Compile("go", t.files(op, val), "*.hbuf")
	if err != nil {
		sym.Note("error", err.Error())
	}
	sym.Assert(err == nil, "the schema compiles")
	f, err := goeval.Parse(gen.Find(outs, "in.database.go"))
	sym.Assert(err == nil, "the code is Go")
	fs, typ := t.cols, "Tab"
	own := t.query == nil
	if !own {
		fs, typ = t.query, "Query"
	}
	for _, x := range fs {
		x.choose()
	}
	rows := t.cols
	if val == "self" {
		rows = fs
	}
	key := []*fld{}
	if own {
		at := fs[0]
		for _, x := range fs {
			if x.key {
				at = x
			}
		}
		k := *at
		k.where = []string{"AND " + k.column() + " = ?"}
		key = []*fld{&k}
	} else {
		key = fs
	}
	recv := typ
	if op == "inserts" {
		recv = "Tab"
	}
	n := 0
	if op == "inserts" {
		n = sym.Pick("rows", 3)
	}
	if own {
		d := run(f, "Tab", "DbScan", fs, t.cols, 0)
		same(d, d.text, t.cols, f)
	}
	s := run(f, recv, funcs[op], fs, t.cols, n)
	text := tidy(s.text)
	w := &want{}
	alive := "1 = 1"
	if t.fake {
		alive = "delete_time IS NULL"
	}
	switch op {
	case "list", "map", "count", "get":
		expect(s.ran == 1, "a statement runs once", s, w, f)
		from := " FROM " + t.full() + " WHERE " + alive
		expect(strings.HasPrefix(text, "SELECT ") && strings.Contains(text, " FROM "), "rows are read by a select statement", s, w, f)
		i := strings.Index(text, " FROM ")
		cols := ""
		if i > len("SELECT ") {
			cols = text[len("SELECT "):i]
		}
		w.add(from[1:])
		switch op {
		case "list", "map":
			w.where(fs)
			w.groups(fs)
			w.orders(fs)
			w.page(fs)
		case "count":
			w.where(fs)
			w.groups(fs)
		case "get":
			w.where(key)
			w.groups(key)
			w.orders(key)
			w.add(" LIMIT 1")
		}
		text = text[i+1:]
		if op == "count" {
			expect(cols == "COUNT(1)", "rows are counted", s, w, f)
		} else {
			same(s, cols, rows, f)
			expect(op != "map" || s.key == "row "+t.cols[0].goName(), "rows are kept by their key", s, w, f)
		}
	case "del", "rm":
		if op == "del" && t.fake {
			w.add("UPDATE " + t.full() + " SET delete_time = NOW() WHERE 1 = 1")
		} else {
			w.add("DELETE FROM " + t.full() + " WHERE 1 = 1")
		}
		w.where(key)
		w.page(key)
	case "insert", "update", "set":
		if op == "insert" {
			w.add("INSERT INTO ")
		} else {
			w.add("UPDATE ")
		}
		w.add(t.full() + " SET ")
		first := true
		for _, x := range rows {
			set := x.set
			if set == "" {
				if !own {
					continue
				}
				set = "?"
			}
			if op == "update" && x.opt && x.have == 0 && !x.force {
				continue
			}
			if !first {
				w.add(", ")
			}
			first = false
			y := *x
			y.arr = false // a list is one value here
			y.val, y.have = x.show(), 1
			if x.json {
				y.json = false
			}
			w.add(x.column() + " = ")
			w.fill(set, &y, fs, -1)
		}
		if op != "insert" {
			w.add(" WHERE 1 = 1")
			w.where(key)
		}
	case "inserts":
		w.text = ""
		if n > 0 {
			w.add("INSERT INTO " + t.full() + " (")
			for i, x := range t.cols {
				if i > 0 {
					w.add(",")
				}
				w.add(x.column())
			}
			w.add(") VALUES")
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				w.add(",")
			}
			w.add("(")
			for j, x := range t.cols {
				if j > 0 {
					w.add(",")
				}
				w.add("?")
				v := "<" + strconv.Itoa(i) + ">" + x.goName()
				if x.json {
					v = "json " + v
				}
				w.args = append(w.args, v)
			}
			w.add(")")
		}
	}
	if op != "inserts" || n > 0 {
		expect(s.ran == 1, "a statement runs once", s, w, f)
	} else {
		expect(s.ran == 0, "nothing is inserted for an empty list", s, w, f)
	}
	expect(strings.Count(s.text, "?") == len(s.args), "each placeholder has a value", s, w, f)
	expect(text == tidy(w.text), "a statement has the declared columns and conditions", s, w, f)
	expect(strings.Join(s.args, "\n") == strings.Join(w.args, "\n"), "values are bound in order", s, w, f)
	sym.Cover("checked")
}

func id() *fld { return &fld{name: "id", typ: "int64", key: true} }

// way is how a query states the operation.
func way(op string) string {
	switch op {
	case "insert", "update", "set":
		return "self"
	}
	return "parent"
}

// H_columns: the columns of a statement.
//
// bounds: a table of three columns, the second of which has a name of 2 (thorough 1 to 3) characters of "aB_1" that the solver chooses, may be null and may be kept as JSON, the third of which is a list kept as JSON; soft deletion or not, with a schema or not, with a cache or not; each of ten operations, of the table, or of a query on it in the same file or another; values present or null, 0 to 2 rows
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=checked
func H_columns() {
	op := pick("op", ops)
	long := 2
	if sym.Thorough() {
		long = 3
	}
	if long > 2 {
		long = 1 + sym.Pick("length", long)
	}
	n := sym.StrOf("name", long, "aB_1")
	t := &table{name: "tab", cols: []*fld{id(),
		{name: "some", typ: "string", col: n, opt: sym.Pick("opt", 2) == 1, json: sym.Pick("json", 2) == 1},
		{name: "tags", typ: "string", arr: true, json: true}}}
	if t.cols[1].opt {
		t.cols[2].opt = true
		t.cols[1].force = sym.Pick("force", 2) == 1
	}
	switch sym.Pick("kind", 4) {
	case 0:
		t.fake, t.schema = true, "base"
	case 1:
		t.fake, t.cache = true, true
	case 2:
		t.cache = true
	}
	val := "self"
	switch sym.Pick("query", 3) {
	case 1:
		val = way(op)
		t.query = []*fld{{name: "id", typ: "int64", where: []string{"AND id = ?"}}, {name: "some", typ: "string", col: n, set: "?"}}
	case 2:
		val = way(op)
		t.split = op != "inserts" && op != "map"
		t.query = []*fld{{name: "id", typ: "int64", opt: true, where: []string{"AND id = ?"}}, {name: "other", typ: "string", opt: true, set: "other + ?"}}
	}
	verify(t, op, val)
}

// H_key: the key of a table.
//
// bounds: a table of three columns, one of which is the key by its mark, or the first without a mark, whose column has the name of the field or one of 1 or 2 characters of "aB_1" that the solver chooses; each of the five operations that go by the key; soft deletion or not
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=checked
func H_key() {
	op := pick("op", []string{"get", "del", "rm", "update", "set"})
	cols := []*fld{{name: "first", typ: "int64"}, {name: "second", typ: "string"}, {name: "third", typ: "date", opt: true}}
	at := sym.Pick("key", 4)
	if at < 3 {
		cols[at].key = true
	} else {
		at = 0
	}
	if at < 2 {
		if k := sym.Pick("length", 3); k > 0 {
			cols[at].col = sym.StrOf("name", k, "aB_1")
		}
	} else {
		cols[at].opt = false
	}
	verify(&table{name: "tab", fake: sym.Pick("fake", 2) == 1, cols: cols}, op, "self")
}

var kinds = []fld{
	{typ: "string", where: []string{"AND a = ?"}},
	{typ: "string", opt: true, where: []string{"AND a = ?"}},
	{typ: "int32", where: []string{"AND (a >= ?", "OR b < ?)"}},
	{typ: "int32", opt: true, where: []string{"AND (a >= ?", "OR b < ?)"}},
	{typ: "int64", arr: true, where: []string{"AND c in (?)"}},
	{typ: "int64", arr: true, opt: true, where: []string{"AND c in (?)"}},
	{typ: "date", arr: true, where: []string{"AND d >= ?", "AND d < ?"}},
	{typ: "date", arr: true, opt: true, where: []string{"AND d >= ?", "AND d < ?"}},
	{typ: "string", group: "a"},
	{typ: "string", opt: true, group: "a, b"},
	{typ: "string", order: "a $"},
	{typ: "string", opt: true, order: "b $"},
	{typ: "string", json: true, where: []string{"AND f = ?"}},
	{typ: "string", arr: true, opt: true, json: true, where: []string{"AND f = ?"}},
	{typ: "string", set: "?"},
	{typ: "string", opt: true, set: "concat(a, ?)"},
	{typ: "int32", limit: "?"},
	{typ: "string", get: "MAX(?)"},
	{typ: "int32", where: []string{"AND g = ?"}, get: "SUM(?)", set: "1 + ?"},
}

// H_clauses: the clauses of a query.
//
// bounds: a query with a clause of any of 20 kinds and one more, of any kind for a list or get, and of 8 kinds for six other operations (thorough: of any kind, and a third of the 8); values null or present, lists of 0 to 2 elements, orders by ASC, DESC or another text; soft deletion or not
//
//sym:steps=9000000 depth=4000 time=200 thorough.time=850 cover=checked
func H_clauses() {
	op := pick("op", []string{"list", "get", "count", "del", "rm", "insert", "update", "set"})
	var q []*fld
	add := func(k, i int) {
		if k == len(kinds) {
			q = append(q, &fld{name: "off" + strconv.Itoa(i), typ: "int32", offset: "?"}, &fld{name: "lim" + strconv.Itoa(i), typ: "int32", limit: "?"})
			return
		}
		f := kinds[k]
		f.name = []string{"one", "two", "six"}[i]
		q = append(q, &f)
	}
	add(sym.Pick("first clause", len(kinds)+1), 0)
	few := []int{1, 5, 9, 11, 15, 17, 18, 19}
	if op == "list" || op == "get" || sym.Thorough() {
		add(sym.Pick("second clause", len(kinds)+1), 1)
	} else {
		add(few[sym.Pick("second clause", len(few))], 1)
	}
	if sym.Thorough() {
		add(few[sym.Pick("third clause", len(few))], 2)
	}
	val := way(op)
	if op == "get" && sym.Pick("rows of", 2) == 1 {
		val = "self"
	}
	verify(&table{name: "tab", fake: op == "del" || op == "list", cols: []*fld{id(), {name: "name", typ: "string"}}, query: q}, op, val)
}

// H_text: the text of a condition.
//
// bounds: a condition of 3 (thorough 4) parts, each a letter the solver chooses, the value, the value of another field (null or not), or the text of it; on a field that is plain, null or a list with one or two such conditions; or the same in the order, group or set text
//
//sym:steps=9000000 depth=4000 time=100 thorough.time=600 cover=checked
func H_text() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	text := ""
	for i := 0; i < n; i++ {
		k := strconv.Itoa(i)
		switch sym.Pick("part "+k, 5) {
		case 0:
			text += " " + sym.StrOf("letter "+k, 1, "aZ_{}=") + " "
		case 1:
			text += "?"
		case 2:
			text += "?{other}"
		case 3:
			text += "${other}"
		case 4:
			text += "$"
		}
	}
	f := &fld{name: "self", typ: "string"}
	op := "list"
	switch sym.Pick("clause", 4) {
	case 0:
		f.where = []string{"AND " + text}
		f.arr = !strings.Contains(text, "$") && sym.Pick("list", 2) == 1
		if f.arr && sym.Pick("conditions", 2) == 1 {
			f.where = append(f.where, "OR "+text)
		}
	case 1:
		f.order = text
	case 2:
		f.group = text
	case 3:
		f.set = text
		op = "set"
	}
	f.opt = f.arr || !(op == "set" && strings.Contains(text, "$")) && sym.Pick("opt", 2) == 1
	o := &fld{name: "other", typ: "string", group: "x"}
	if !strings.Contains(text, "${") {
		o.opt = sym.Pick("other opt", 2) == 1
	}
	verify(&table{name: "tab", cols: []*fld{id()}, query: []*fld{f, o}}, op, way(op))
}

// H_up: inherited columns and conditions.
//
// bounds: a table whose columns, or a query whose conditions, are of a parent and its own, in one file or two, where those of the parent may be declared again in another way, in either order; ten operations of the table, six of the query
//
//sym:steps=9000000 depth=4000 time=100 cover=checked
func H_up() {
	t := &table{name: "tab", split: sym.Pick("split", 2) == 1, fake: sym.Pick("fake", 2) == 1}
	if sym.Pick("query", 2) == 0 {
		t.base = []*fld{id(), {name: "name", typ: "string", opt: true}}
		t.own = []*fld{{name: "last", typ: "string", json: true}}
		switch sym.Pick("again", 3) {
		case 1:
			t.own = append(t.own, &fld{name: "name", typ: "string", col: "named"})
		case 2:
			t.own = append([]*fld{{name: "id", typ: "int32", key: true, col: "no"}}, t.own...)
		}
		t.cols = t.all()
		verify(t, pick("op", ops), "self")
		return
	}
	t.base = []*fld{{name: "name", typ: "string", opt: true, where: []string{"AND name = ?"}}, {name: "way", typ: "string", order: "name $"}}
	t.own = []*fld{{name: "kind", typ: "string", where: []string{"AND kind = ?"}, set: "?"}}
	switch sym.Pick("again", 3) {
	case 1:
		t.own = append(t.own, &fld{name: "name", typ: "string", where: []string{"AND name > ?", "AND name > ?{kind}"}, set: "?"})
	case 2:
		t.own = append([]*fld{{name: "way", typ: "string", opt: true, order: "kind $"}}, t.own...)
	}
	t.cols = []*fld{id(), {name: "name", typ: "string"}}
	t.query = t.all()
	op := pick("op", []string{"list", "count", "get", "del", "update", "set"})
	verify(t, op, way(op))
}
