// Package num has exact decimal numbers whose digits may be symbolic: up to
// 20 digits before the point and three after it.
package num

const base = 1000000000

// Num is Hi*10^9 + Lo + Frac/1000; the parts have the same sign.
type Num struct{ Hi, Lo, Frac int64 }

// Parse reads [-+]digits[.digits], leading zeros allowed.
func Parse(s string) (Num, bool) {
	neg := false
	i := 0
	if i < len(s) && (s[i] == '-' || s[i] == '+') {
		neg = s[i] == '-'
		i++
	}
	var n Num
	start := i
	for ; i < len(s) && s[i] != '.'; i++ {
		if s[i] < '0' || s[i] > '9' || i-start > 40 {
			return n, false
		}
	}
	if i == start {
		return n, false
	}
	whole := s[start:i]
	for k := 0; k < len(whole); k++ {
		d := int64(whole[k] - '0')
		if len(whole)-k > 9 {
			n.Hi = n.Hi*10 + d
		} else {
			n.Lo = n.Lo*10 + d
		}
	}
	if i < len(s) {
		i++
		if i == len(s) || len(s)-i > 3 {
			return n, false
		}
		for k := 0; k < 3; k++ {
			n.Frac *= 10
			if i+k < len(s) {
				c := s[i+k]
				if c < '0' || c > '9' {
					return n, false
				}
				n.Frac += int64(c - '0')
			}
		}
	}
	if neg {
		return n.Neg(), true
	}
	return n, true
}

// Int is a number from an int64.
func Int(v int64) Num { return Num{v / base, v % base, 0} }

// Must parses a constant.
func Must(s string) Num {
	n, ok := Parse(s)
	if !ok {
		panic("number " + s)
	}
	return n
}

func (a Num) Neg() Num { return Num{-a.Hi, -a.Lo, -a.Frac} }

// Of is v, which is a Num or an int64.
func Of(v interface{}) Num {
	if i, ok := v.(int64); ok {
		return Int(i)
	}
	return v.(Num)
}

// Before, After and Negate are for goeval.
func (a Num) Before(b interface{}) bool { return a.Less(Of(b)) }
func (a Num) After(b interface{}) bool  { return Of(b).Less(a) }
func (a Num) Negate() interface{}       { return a.Neg() }

func (a Num) Less(b Num) bool {
	hi, lo, frac := a.Hi < b.Hi, a.Lo < b.Lo, a.Frac < b.Frac
	sameHi, sameLo := a.Hi == b.Hi, a.Lo == b.Lo
	r := frac
	if !sameLo {
		r = lo
	}
	if !sameHi {
		r = hi
	}
	return r
}

func (a Num) Equal(b Num) bool {
	r := a.Frac == b.Frac
	if a.Lo != b.Lo {
		r = false
	}
	if a.Hi != b.Hi {
		r = false
	}
	return r
}
