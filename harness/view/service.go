package view

import "hbuf/zz_verif/src"

// Method is a method as declared, called by a client, or registered by a
// router. Types are given without the package or alias they are taken from; a
// void result is "".
type Method struct {
	Name, Param, Arg, Result string

	// of a client or router
	Route  string
	Passed string // what is sent
	Decode string // the type the answer (client) or question (router) becomes
	ID     string
	Form   bool // Go: has a function to encode what is sent
}

type Service struct {
	Name    string
	Ext     []string
	Methods []Method // of the interface
	Client  []Method
	Names   []Method // registered by route
	IDs     []Method // registered by number

	ClientName, RouterName string // the names the two give for the service
}

// Base is the last name of a possibly qualified type.
func Base(toks []src.Tok) string {
	if len(toks) > 0 && toks[0].Text == "*" {
		toks = toks[1:]
	}
	if len(toks) == 3 && toks[1].Text == "." {
		toks = toks[2:]
	}
	if len(toks) != 1 {
		return "?" + src.Join(toks)
	}
	return toks[0].Text
}

func bases(toks []src.Tok) (r []string) {
	for _, t := range Split(toks, ",") {
		r = append(r, Base(t))
	}
	return
}

func void(s string) string {
	if s == "void" || s == "Void" {
		return ""
	}
	return s
}

// angle returns the index of the ">" that closes toks[i].
func angle(toks []src.Tok, i int) int {
	d := 0
	for ; i < len(toks); i++ {
		switch toks[i].Text {
		case "<":
			d++
		case ">":
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(toks) - 1
}

// Services returns the services declared in text.
func Services(lang, text string) (r []*Service) {
	all, _ := src.Lex(lang, text)
	toks := src.Code(all)
	get := func(n string) *Service {
		for _, s := range r {
			if s.Name == n {
				return s
			}
		}
		r = append(r, &Service{Name: n})
		return r[len(r)-1]
	}
	for i := 0; i < len(toks); i++ {
		if lang == "go" {
			goService(toks, i, get)
			continue
		}
		if toks[i].Kind != src.Ident || !(toks[i].Text == "class" || toks[i].Text == "interface") || i+1 >= len(toks) {
			continue
		}
		o := src.Open(toks, i)
		end := src.End(toks, o)
		head, body := toks[i+1:o], toks[o+1:end]
		n := head[0].Text
		if len(head) == 1 && src.Find(body, 0, "interface") >= 0 { // the file's own class of Java
			continue
		}
		x := src.Find(head, 0, "extends")
		switch {
		case x > 0 && src.Find(head[x:], 0, "ServerClient") >= 0 || x > 0 && src.Find(head[x:], 0, "ClientRouter") >= 0:
			s := get(cut(n, "Client"))
			s.Client = append(s.Client, methods(lang, body)...)
			s.ClientName = name(body)
		case src.Find(head, 0, "ServerRouter") >= 0:
			s := get(cut(n, "Router"))
			s.RouterName = name(body)
			if lang == "ts" {
				s.Names = append(s.Names, table(lang, body, "this", ".", "invoke")...)
			} else {
				s.Names = append(s.Names, table(lang, body, "_invokeNames")...)
			}
			s.IDs = append(s.IDs, table(lang, body, "_invokeIds")...)
		default:
			s := get(n)
			for k, t := range head {
				if t.Text == "extends" || t.Text == "implements" {
					s.Ext = append(s.Ext, bases(head[k+1:])...)
				}
			}
			s.Methods = append(s.Methods, methods(lang, body)...)
		}
		i = end
	}
	return
}

// name is the text that is returned as the name of a service.
func name(body []src.Tok) string {
	for i := range body {
		if src.Is(body, i, "get", "name") || src.Is(body, i, "getName", "(") {
			for _, t := range body[i:] {
				if t.Text == "}" || t.Text == ";" {
					break
				}
				if t.Kind == src.String {
					return t.Text
				}
			}
		}
	}
	return ""
}

func cut(s, suffix string) string {
	if len(s) > len(suffix) && s[len(s)-len(suffix):] == suffix {
		return s[:len(s)-len(suffix)]
	}
	return s + " without " + suffix
}

// methods returns the methods that return a future.
func methods(lang string, toks []src.Tok) (r []Method) {
	for i := range toks {
		var m Method
		e := 0
		switch {
		case lang == "ts" && src.Is(toks, i, "*", "(") && toks[i].Kind == src.Ident && src.Is(toks, src.End(toks, i+1)+1, ":", "Promise", "<"):
			p := src.End(toks, i+1)
			m.Name = toks[i].Text
			args := Split(toks[i+2:p], ",")
			if len(args) != 2 || len(args[0]) < 3 || args[0][1].Text != ":" || !src.Is(args[1], 0, "ctx", "?", ":") {
				m.Arg = "?" + src.Join(toks[i+2:p])
			} else {
				m.Arg, m.Param = args[0][0].Text, Base(args[0][2:])
			}
			e = angle(toks, p+3)
			m.Result = Base(toks[p+4 : e])
		case lang != "ts" && (src.Is(toks, i, "Future", "<") || src.Is(toks, i, "CompletableFuture", "<")):
			a := angle(toks, i+1)
			if !src.Is(toks, a+1, "*", "(") {
				continue
			}
			m.Result = Base(toks[i+2 : a])
			m.Name = toks[a+1].Text
			e = src.End(toks, a+2)
			args := Split(toks[a+3:e], ",")
			if len(args) != 2 || len(args[0]) < 2 || src.Find(args[1], 0, "ctx") < 0 {
				m.Arg = "?" + src.Join(toks[a+3:e])
			} else {
				n := len(args[0]) - 1
				m.Arg, m.Param = args[0][n].Text, Base(args[0][:n])
			}
			if src.Is(toks, e+1, "throws", "Exception") {
				e += 2
			}
		default:
			continue
		}
		m.Result = void(m.Result)
		if src.Is(toks, e+1, "{") {
			invoke(lang, toks[e+2:src.End(toks, e+1)], &m)
		}
		r = append(r, m)
	}
	return
}

// invoke reads the call a client makes.
func invoke(lang string, toks []src.Tok, m *Method) {
	i := src.Find(toks, 0, "invoke")
	if i < 0 {
		return
	}
	o := i + 1
	if lang != "java" {
		if !src.Is(toks, o, "<") {
			return
		}
		o = angle(toks, i+1) + 1
		if void(Base(toks[i+2:o-1])) != m.Result {
			m.Route = "the answer of another type"
			return
		}
	}
	if !src.Is(toks, o, "(") {
		return
	}
	args := Split(toks[o+1:src.End(toks, o)], ",")
	if len(args) != 5 || len(args[0]) != 1 || args[0][0].Kind != src.String {
		m.Route = "not a call: " + src.Join(toks)
		return
	}
	m.Route = args[0][0].Text
	m.ID = src.Join(args[1])
	m.Passed = src.Join(args[2])
	a, b := src.Join(args[3]), src.Join(args[4])
	var d []src.Tok
	switch lang {
	case "dart", "ts":
		suffix := ".fromMap"
		if lang == "ts" {
			suffix = ".fromJson"
		}
		switch {
		case lang == "dart" && a == "(_){}" && b == a, lang == "ts" && a == "null" && b == a:
		case len(args[3]) > 2 && len(args[4]) > 2 && a == src.Join(args[3][:len(args[3])-2])+suffix && b == src.Join(args[3][:len(args[3])-2])+".fromData":
			d = args[3][:len(args[3])-2]
		default:
			m.Decode = a + " or " + b
			return
		}
	case "java":
		const l = "(data)->Data.formJson.invoke(new String(data)"
		switch {
		case a == "(data)->null" && b == a:
		case src.Is(args[3], 0, "(", "data", ")", "-", ">", "Data", ".", "formJson", ".", "invoke", "(", "new", "String", "(", "data", ")", ",", "*", ".", "class", ")") &&
			b == "(data)->new "+args[3][17].Text+"().formData(data)":
			m.Decode = cut(args[3][17].Text, "Impl")
			return
		default:
			m.Decode = a + " or " + b
			return
		}
	}
	if d != nil {
		m.Decode = Base(d)
	}
}

// table reads what a router registers in the map assigned to name.
func table(lang string, toks []src.Tok, name ...string) (r []Method) {
	i := src.Find(toks, 0, append(append([]string{}, name...), "=", "{")...)
	for i >= 0 && src.Is(toks, i+len(name)+1, "{", "}") {
		i = src.Find(toks, i+1, append(append([]string{}, name...), "=", "{")...)
	}
	if i < 0 {
		return nil
	}
	o := i + len(name) + 1
	for _, e := range Split(toks[o+1:src.End(toks, o)], ",") {
		var m Method
		c := src.Find(e, 0, ":")
		if c == 1 && e[0].Kind == src.String {
			m.Route = e[0].Text
		} else if c > 0 {
			m.ID = src.Join(e[:c])
		} else {
			m.Route = "not an entry: " + src.Join(e)
			r = append(r, m)
			continue
		}
		v := e[c+1:]
		if k := src.Find(v, 0, "server", "."); k >= 0 && src.Is(v, k+2, "*", "(") {
			m.Name = v[k+2].Text
			args := Split(v[k+4:src.End(v, k+3)], ",")
			if len(args) == 2 && src.Is(args[0], 0, "data", "as") && src.Join(args[1]) == "ctx" {
				m.Param = Base(args[0][2:])
			}
		}
		for k := range v {
			if src.Is(v, k, "return") && k > 0 && v[k-1].Text == "{" {
				f := k + 1
				for f+1 < len(v) && v[f+1].Text == "." {
					f += 2
				}
				if t := v[f].Text; f > k+1 && (t == "fromMap" || t == "fromJson" || t == "fromData") {
					m.Decode = Base(v[k+1 : f-1])
				}
			}
		}
		r = append(r, m)
	}
	return
}

// goService reads the declaration at toks[i], if it is one of a service.
func goService(toks []src.Tok, i int, get func(string) *Service) {
	switch {
	case src.Is(toks, i, "type", "*", "interface", "{"):
		s := get(toks[i+1].Text)
		end := src.End(toks, i+3)
		for k := i + 4; k < end; k++ {
			if !src.Is(toks, k+1, "(") {
				n := 1
				if src.Is(toks, k+1, ".") {
					n = 3
				}
				s.Ext = append(s.Ext, Base(toks[k:k+n]))
				k += n - 1
				continue
			}
			m, e := goMethod(toks, k)
			if m.Name != "Init" {
				s.Methods = append(s.Methods, m)
			}
			k = e
		}
	case src.Is(toks, i, "func", "(", "*", "*", "*", ")") && toks[i+3].Text == "*":
		n := toks[i+4].Text
		m, e := goMethod(toks, i+6)
		if src.Is(toks, e+1, "string", "{", "return") && m.Name == "GetName" && len(n) > 6 && toks[e+4].Kind == src.String {
			if n[len(n)-6:] == "Client" {
				get(cut(n, "Client")).ClientName = toks[e+4].Text
			} else {
				get(cut(n, "Router")).RouterName = toks[e+4].Text
			}
		}
		if !src.Is(toks, e+1, "{") || len(n) < 7 || n[len(n)-6:] != "Client" || m.Param == "" {
			return
		}
		body := toks[e+2 : src.End(toks, e+1)]
		s := get(cut(n, "Client"))
		k := src.Find(body, 0, toks[i+2].Text, ".", "client", ".", "Invoke", "(")
		if k >= 0 {
			args := Split(body[k+6:src.End(body, k+5)], ",")
			if len(args) > 3 && len(args[2]) == 1 && args[2][0].Kind == src.String && src.Join(args[0]) == "ctx" {
				m.Passed = src.Join(args[1])
				m.Route = args[2][0].Text
				m.Decode = goDecode(args[3])
				m.Form = src.Find(args[3], 0, "FormData", ":") > 0
			}
		}
		if m.Result != "" {
			if src.Find(body, 0, "return", "ret", ".", "(", "*") < 0 {
				m.Decode = "not returned"
			}
			for k := range body {
				if src.Is(body, k, "ret", ".", "(", "*") && body[k+3].Text == "*" {
					if c := src.End(body, k+2); Base(body[k+3:c]) != m.Result {
						m.Decode = "returned as another type"
					}
				}
			}
		}
		s.Client = append(s.Client, m)
	case src.Is(toks, i, "func", "*", "(") && len(toks[i+1].Text) > 9 && toks[i+1].Text[:3] == "New" && toks[i+1].Text[len(toks[i+1].Text)-6:] == "Router":
		s := get(cut(toks[i+1].Text[3:], "Router"))
		k := src.Find(toks, i, "names", ":", "map")
		if k < 0 {
			return
		}
		o := src.Open(toks, k)
		for _, e := range Split(toks[o+1:src.End(toks, o)], ",") {
			var m Method
			if len(e) < 3 || e[0].Kind != src.String {
				m.Route = "not an entry: " + src.Join(e)
				s.Names = append(s.Names, m)
				continue
			}
			m.Route = e[0].Text
			m.Decode = goDecode(e)
			m.Form = src.Find(e, 0, "FormData", ":") > 0
			if k := src.Find(e, 0, "server", "."); k >= 0 && src.Is(e, k+2, "*", "(") {
				m.Name = e[k+2].Text
				args := Split(e[k+4:src.End(e, k+3)], ",")
				if len(args) == 2 && src.Join(args[0]) == "ctx" && src.Is(args[1], 0, "data", ".", "(") {
					m.Param = Base(args[1][3 : len(args[1])-1])
				}
				if src.Is(e, k-3, "return", "nil", ",") {
					m.Result = "void"
				}
			}
			s.Names = append(s.Names, m)
		}
	}
}

func goDecode(toks []src.Tok) string {
	k := src.Find(toks, 0, "ToData", ":")
	if k < 0 {
		return ""
	}
	o := src.Open(toks, k)
	b := toks[o+1 : src.End(toks, o)]
	if !src.Is(b, 0, "var") || len(b) < 4 {
		return "?"
	}
	n := b[1].Text
	r := src.Find(b, 0, "return")
	if r < 3 || src.Join(b[r:]) != "return&"+n+",json.Unmarshal(buf,&"+n+")" {
		return "?"
	}
	return Base(b[2:r])
}

// goMethod reads the method that starts with its name at toks[i]; it ends at
// toks[e].
func goMethod(toks []src.Tok, i int) (m Method, e int) {
	m.Name = toks[i].Text
	e = src.End(toks, i+1)
	args := Split(toks[i+2:e], ",")
	if len(args) == 2 && src.Join(args[0]) == "ctx context.Context" && len(args[1]) > 2 && args[1][1].Text == "*" {
		m.Arg, m.Param = args[1][0].Text, Base(args[1][1:])
	} else if len(args) > 1 {
		m.Arg = "?" + src.Join(toks[i+2:e])
	}
	switch {
	case src.Is(toks, e+1, "("):
		c := src.End(toks, e+1)
		rs := Split(toks[e+2:c], ",")
		m.Result = "?" + src.Join(toks[e+2:c])
		if len(rs) == 2 && src.Join(rs[1]) == "error" {
			m.Result = Base(rs[0])
		}
		e = c
	case src.Is(toks, e+1, "error"):
		e++
	}
	return
}
