package codec

// module is an imported file; all are one here.
type module struct{ m *Machine }

// enums gives the items of an enum.
type enums struct {
	name  string
	items []int64
}

// AddEnum declares an enum.
func (m *Machine) AddEnum(name string, items ...int64) { m.Globals[name] = enums{name, items} }

type members map[string]V

func fn(f func(a V) V) Fn {
	return func(args []V, named map[string]V) V {
		if len(args) != 1 || len(named) != 0 {
			fail("a function of the runtime with other arguments")
		}
		return f(args[0])
	}
}

func none(f func() V) Fn {
	return func(args []V, named map[string]V) V {
		if len(args) != 0 || len(named) != 0 {
			fail("a function of the runtime with other arguments")
		}
		return f()
	}
}

func toInt(v V) int64 {
	n, ok := v.(Num)
	if !ok {
		throw("not an integer")
	}
	return n.N
}

// integer is what a text that is a number is.
func integer(v V) V {
	switch x := v.(type) {
	case NumText:
		return Num{int64(x.Bits)}
	case FltText:
		return Flt{x.ID}
	case Num, Flt:
		return x
	}
	return nil
}

func long(v V, unsigned bool) V {
	switch x := v.(type) {
	case NumText:
		return Long{x.Bits, unsigned}
	}
	throw("not the text of an integer")
	return nil
}

func decimal(v V) V {
	switch x := v.(type) {
	case DecText:
		return Dec{x.ID}
	case NumText:
		if x.Bits == 0 {
			return Dec{}
		}
	}
	return nil
}

func parsed(v V) V {
	d := decimal(v)
	if d == nil {
		throw("not a decimal")
	}
	return d
}

func each(l *List, f V) V {
	g, ok := f.(Fn)
	if !ok {
		fail("map with what is not a function")
	}
	r := &List{}
	for _, v := range l.Items {
		r.Items = append(r.Items, g([]V{v}, nil))
	}
	return r
}

// key is the text that a key of a TypeScript record is.
func key(v V) V {
	switch x := v.(type) {
	case string, NumText, DecText:
		return x
	case Num:
		return NumText{uint64(x.N), true}
	}
	throw("a key that is no text")
	return nil
}

func entries(m *Map, f V, text bool) V {
	g, ok := f.(Fn)
	if !ok {
		fail("map with what is not a function")
	}
	r := &Map{}
	for i := range m.Keys {
		e, ok := g([]V{m.Keys[i], m.Vals[i]}, nil).(entry)
		if !ok {
			fail("map with a function that gives no entry")
		}
		if text {
			e.key = key(e.key)
		}
		r.Keys = append(r.Keys, e.key)
		r.Vals = append(r.Vals, e.val)
	}
	return r
}

func newEntry(args []V, _ map[string]V) V {
	if len(args) != 2 {
		fail("an entry of two")
	}
	return entry{args[0], args[1]}
}

func runtime(m *Machine) map[string]V {
	if m.Lang == "dart" {
		return map[string]V{
			"identical": Fn(func(a []V, _ map[string]V) V {
				x, ok := a[0].(*Data)
				y, is := a[1].(*Data)
				return ok && is && x == y
			}),
			"num": members{"tryParse": fn(integer)},
			"int": members{"tryParse": fn(integer)},
			"Int64": members{
				"ZERO":     Long{},
				"parseInt": fn(func(v V) V { return long(v, false) }),
			},
			"Decimal": members{
				"zero":     Dec{},
				"tryParse": fn(decimal),
				"parse":    fn(parsed),
				"fromJson": fn(parsed),
			},
			"DateTime": members{"now": none(func() V { return Date{Now} }), "tryParse": fn(func(v V) V {
				if f, ok := v.(Formatted); ok && f.Format == "yyyy-MM-dd HH:mm:ss" {
					return Date{f.Ms}
				}
				return nil
			}), "fromMillisecondsSinceEpoch": Fn(func(a []V, named map[string]V) V {
				if len(a) != 1 {
					fail("a moment of one number")
				}
				return Date{toInt(a[0])}
			})},
			"MapEntry": Fn(newEntry),
		}
	}
	return map[string]V{
		"Number": fn(func(v V) V {
			if Null(v) {
				return Num{0}
			}
			n := integer(v)
			if n == nil {
				throw("NaN")
			}
			if x, ok := n.(Num); ok && (x.N > 1<<53 || x.N < -1<<53) {
				fail("a number that is not exact")
			}
			return n
		}),
		"Boolean": fn(func(v V) V {
			switch x := v.(type) {
			case bool:
				return x
			case string:
				return len(x) > 0
			case Num:
				return x.N != 0
			case NumText, DecText:
				return true
			}
			return !Null(v)
		}),
		"Long": members{
			"ZERO":  Long{},
			"UZERO": Long{Unsigned: true},
			"fromString": Fn(func(a []V, _ map[string]V) V {
				unsigned := false
				if len(a) > 1 {
					unsigned = truth(a[1])
				}
				return long(a[0], unsigned)
			}),
			"fromValue": Fn(func(a []V, _ map[string]V) V {
				unsigned := false
				if len(a) > 1 {
					unsigned = truth(a[1])
				}
				switch x := a[0].(type) {
				case Long:
					return x
				case NumText:
					return long(x, unsigned)
				}
				throw("Long.fromValue of another value")
				return nil
			}),
		},
		"Date": Fn(func(a []V, _ map[string]V) V {
			if len(a) == 0 {
				return Date{Now}
			}
			if v := moment(a); v != nil {
				return v
			}
			if d, ok := a[0].(Date); ok && len(a) == 1 {
				return d
			}
			if len(a) != 1 {
				fail("a moment of one number")
			}
			return Date{toInt(a[0])}
		}),
		"d": members{"Decimal": fn(func(v V) V {
			switch x := v.(type) {
			case Dec:
				return x
			case Num:
				if x.N == 0 {
					return Dec{}
				}
			}
			r := decimal(v)
			if r == nil {
				throw("not a decimal")
			}
			return r
		})},
		"h": members{
			"isArray":  fn(func(v V) V { _, ok := v.(*List); return ok }),
			"isRecord": fn(func(v V) V { _, ok := v.(*Map); return ok }),
			"convertArray": Fn(func(a []V, _ map[string]V) V {
				if Null(a[0]) {
					return nil
				}
				return each(a[0].(*List), a[1])
			}),
			"convertRecord": Fn(func(a []V, _ map[string]V) V {
				if Null(a[0]) {
					return nil
				}
				return entries(a[0].(*Map), a[1], true)
			}),
			"RecordEntry": Fn(newEntry),
		},
	}
}

// field is a member of a value that is not null.
func (m *Machine) field(v V, name string, call, set bool) V {
	dart := m.Lang == "dart"
	self := none(func() V { return v })
	switch x := v.(type) {
	case members:
		if w, ok := x[name]; ok {
			return w
		}
	case *Obj:
		if w, ok := x.Props[name]; ok {
			return w
		}
		if w := x.method(name); w != nil {
			return w
		}
		if set || m.Lang == "ts" {
			return Undef{}
		}
	case Fn:
		switch name {
		case "call":
			return x
		case "parseInt", "parseFloat": // of Number
			return fn(func(v V) V {
				n := integer(v)
				if n == nil {
					throw("NaN")
				}
				if f, ok := v.(Fixed); ok {
					return f
				}
				return n
			})
		case "parse": // of Date
			return fn(func(v V) V {
				if d, ok := v.(Formatted); ok {
					return Num{d.Ms}
				}
				throw("not the text of a moment")
				return nil
			})
		}
	case module:
		if w, ok := m.Globals[name]; ok {
			return w
		}
		if m.Else != nil {
			if w := m.Else(name); w != nil {
				return w
			}
		}
	case enums:
		switch name {
		case "valueOf":
			return fn(func(v V) V { return Enum{x.name, toInt(v)} })
		case "values":
			l := &List{}
			for _, n := range x.items {
				l.Items = append(l.Items, Enum{x.name, n})
			}
			return l
		}
	case *Class:
		if f, ok := x.methods[name]; ok && f.static {
			return Fn(func(a []V, n map[string]V) V { return x.Call(nil, name, a, n) })
		}
	case *Data:
		if w, ok := x.Fields[name]; ok {
			return w
		}
		if x.Class.Has(name) && call {
			return Fn(func(a []V, n map[string]V) V { return x.Class.Call(x, name, a, n) })
		}
		if name == "runtimeType" && dart {
			return x.Class
		}
		if set {
			return nil
		}
	case Num:
		switch name {
		case "toInt", "toDouble", "valueOf":
			if (name == "valueOf") != dart {
				return self
			}
		case "toString":
			return none(func() V { return NumText{uint64(x.N), true} })
		}
	case Flt:
		switch name {
		case "toDouble", "valueOf":
			if (name == "valueOf") != dart {
				return self
			}
		case "toInt":
			return none(func() V { fail("a float becomes an integer"); return nil })
		}
	case string, DecText, NumText:
		if name == "toString" {
			return self
		}
	case bool:
		if name == "toString" {
			return none(func() V {
				if x {
					return "true"
				}
				return "false"
			})
		}
	case Long:
		switch {
		case name == "toString":
			return none(func() V { return NumText{x.Bits, !x.Unsigned} })
		case name == "toStringUnsigned" && dart:
			return none(func() V { return NumText{x.Bits, false} })
		}
	case Dec:
		switch name {
		case "toString", "toJson":
			return none(func() V { return DecText{x.ID} })
		}
	case Date:
		switch {
		case name == "getTime" && !dart:
			return none(func() V { return Num{x.Ms} })
		case name == "millisecondsSinceEpoch" && dart:
			return Num{x.Ms}
		}
	case Enum:
		if name == "value" {
			return Num{x.N}
		}
	case *List:
		switch {
		case name == "map" && dart:
			return fn(func(f V) V { return each(x, f) })
		case name == "toList" && dart:
			return self
		}
	case *Map:
		if name == "map" && dart {
			return fn(func(f V) V { return entries(x, f, false) })
		}
	}
	if w := m.shown(v, name, call, set); w != nil {
		return w
	}
	if name == "hashCode" && dart {
		return Num{0}
	}
	fail("no member " + name + " of " + Show(v))
	return nil
}

// moment is what new Date makes of parts or ends of moments, or nil.
func moment(a []V) V {
	switch x := a[0].(type) {
	case Zoned, End:
		if len(a) == 1 {
			return x
		}
	case Formatted:
		if len(a) == 1 {
			return Date{x.Ms}
		}
	case Part:
		if len(a) != 7 {
			break
		}
		y, ok := a[1].(Part)
		if !ok || x.What != "getFullYear" || x.Plus != 0 || y.What != "getMonth" || x.Of != y.Of {
			throw("not the end of a month")
		}
		for k, n := range []int64{0, 23, 59, 59, 999} {
			if !Same(a[2+k], Num{n}) {
				throw("not the end of a month")
			}
		}
		if y.Plus != 1 {
			throw("not the end of this month")
		}
		return End{x.Of, "month"}
	}
	return nil
}
