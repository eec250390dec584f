// Package codec runs the classes of generated Dart and TypeScript data code: an
// interpreter of the classes, statements and expressions written there, and the
// types of their runtimes. What is meant by a class is in value.go, what the
// runtime libraries do is in runtime.go.
package codec

// V is nil, bool, string, or one of the types here.
type V interface{}

// Num is an integer: a number of JSON, a Dart int, a TypeScript number.
type Num struct{ N int64 }

// Flt is a number that need not be an integer; ID 0 is zero.
type Flt struct{ ID uint64 }

// NumText is the decimal text of an integer of 64 bits.
type NumText struct {
	Bits   uint64
	Signed bool
}

// Long is Int64 of Dart, Long of TypeScript.
type Long struct {
	Bits     uint64
	Unsigned bool
}

// Dec is a decimal, DecText its text. Zero is 0.
type Dec struct{ ID uint64 }
type DecText struct{ ID uint64 }

// Date is a moment in milliseconds.
type Date struct{ Ms int64 }

// Now is the present moment.
const Now = 1 << 62

// Enum is an item of an enum.
type Enum struct {
	Type string
	N    int64
}

// Undef is undefined.
type Undef struct{}

// List is an array, Map a map or record, Data an object of a generated class.
type List struct {
	Items []V
	Set   bool
}
type Map struct{ Keys, Vals []V }
type Data struct {
	Class  *Class
	Fields map[string]V
}

// Fn is a function; named are its named arguments.
type Fn func(args []V, named map[string]V) V

// entry of a map.
type entry struct{ key, val V }

// Err is what is wrong with the code.
type Err string

// Throw is an exception of the code.
type Throw struct{ Why string }

func fail(s string)  { panic(Err(s)) }
func throw(s string) { panic(Throw{s}) }

// Null reports whether v is null or undefined.
func Null(v V) bool {
	if v == nil {
		return true
	}
	_, ok := v.(Undef)
	return ok
}

// Get is the value of a key of a wire object.
func (m *Map) Get(key string) (V, bool) {
	for i, k := range m.Keys {
		if s, ok := k.(string); ok && s == key {
			return m.Vals[i], true
		}
	}
	return nil, false
}

// Same reports whether two values are the same.
func Same(a, b V) bool {
	if Null(a) || Null(b) {
		return Null(a) && Null(b)
	}
	switch x := a.(type) {
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case Num:
		if y, ok := b.(Flt); ok {
			return x.N == 0 && y.ID == 0
		}
		y, ok := b.(Num)
		return ok && x.N == y.N
	case Flt:
		if y, ok := b.(Num); ok {
			return x.ID == 0 && y.N == 0
		}
		y, ok := b.(Flt)
		return ok && x.ID == y.ID
	case NumText:
		y, ok := b.(NumText)
		return ok && x.Bits == y.Bits && (x.Signed == y.Signed || int64(x.Bits) >= 0)
	case Long:
		y, ok := b.(Long)
		return ok && x.Bits == y.Bits && (x.Unsigned == y.Unsigned || int64(x.Bits) >= 0)
	case Dec:
		y, ok := b.(Dec)
		return ok && x.ID == y.ID
	case DecText:
		y, ok := b.(DecText)
		return ok && x.ID == y.ID
	case Date:
		y, ok := b.(Date)
		return ok && x.Ms == y.Ms
	case Enum:
		y, ok := b.(Enum)
		return ok && x.Type == y.Type && x.N == y.N
	case FltText:
		y, ok := b.(FltText)
		return ok && x.ID == y.ID
	case Label:
		y, ok := b.(Label)
		return ok && x == y
	case Fixed:
		y, ok := b.(Fixed)
		return ok && x.Digit == y.Digit && Same(x.Of, y.Of)
	case Formatted:
		y, ok := b.(Formatted)
		return ok && x == y
	case Zoned:
		y, ok := b.(Zoned)
		return ok && x == y
	case Part:
		y, ok := b.(Part)
		return ok && x == y
	case End:
		y, ok := b.(End)
		return ok && x == y
	case Joined:
		y, ok := b.(Joined)
		if !ok || x.Sep != y.Sep || len(x.Items) != len(y.Items) {
			return false
		}
		for i := range x.Items {
			if !Same(x.Items[i], y.Items[i]) {
				return false
			}
		}
		return true
	case *Obj:
		y, ok := b.(*Obj)
		return ok && x == y
	case *List:
		y, ok := b.(*List)
		if !ok || len(x.Items) != len(y.Items) {
			return false
		}
		for i := range x.Items {
			if !Same(x.Items[i], y.Items[i]) {
				return false
			}
		}
		return true
	case *Map:
		y, ok := b.(*Map)
		if !ok || len(x.Keys) != len(y.Keys) {
			return false
		}
		// the order of the entries is kept by everything here
		for i := range x.Keys {
			if !Same(x.Keys[i], y.Keys[i]) || !Same(x.Vals[i], y.Vals[i]) {
				return false
			}
		}
		return true
	case *Data:
		y, ok := b.(*Data)
		if !ok || x.Class != y.Class || len(x.Fields) != len(y.Fields) {
			return false
		}
		for _, k := range x.Class.Names {
			if !Same(x.Fields[k], y.Fields[k]) {
				return false
			}
		}
		return true
	}
	return false
}

// Show is a short text of a value, for notes.
func Show(v V) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case Undef:
		return "undefined"
	case bool:
		if x {
			return "true"
		}
		return "false"
	case string:
		return "\"" + x + "\""
	case Num:
		return "number"
	case Flt:
		return "float"
	case NumText:
		return "text of an integer"
	case Long:
		return "Long"
	case Dec:
		return "Decimal"
	case DecText:
		return "text of a decimal"
	case Date:
		return "Date"
	case Enum:
		return x.Type
	case Label:
		return "label " + x.Of + "." + x.Name
	case Fixed:
		return "text of " + Show(x.Of)
	case Formatted:
		return "text of a date"
	case Joined:
		return "text of " + Show(&List{Items: x.Items})
	case FltText:
		return "text of a float"
	case Zoned:
		return "shown date"
	case Part:
		return x.What
	case End:
		return "end of the " + x.What
	case *Obj:
		return x.Kind
	case *Element:
		return "<" + x.Name + ">"
	case Fn:
		return "function"
	case Regex:
		return "/" + x.Text + "/"
	case *List:
		s := "["
		for i, e := range x.Items {
			if i > 0 {
				s += ", "
			}
			s += Show(e)
		}
		return s + "]"
	case *Map:
		s := "{"
		for i := range x.Keys {
			if i > 0 {
				s += ", "
			}
			s += Show(x.Keys[i]) + ": " + Show(x.Vals[i])
		}
		return s + "}"
	case *Data:
		s := x.Class.Name + "("
		for _, k := range x.Class.Names {
			s += " " + k + ": " + Show(x.Fields[k])
		}
		return s + ")"
	}
	return "?"
}
