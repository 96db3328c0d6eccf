package main

// A Kotlin front end for the subset that generated code uses. There is no
// Kotlin compiler in the sandbox: the code generated for that target is
// interpreted (kt_run.go). A construct outside the subset gives ktUnsup, which
// makes the caller leave the piece out instead of judging it.

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
)

type ktUnsup struct{ msg string }

type ktSyntax struct{ msg string }

func unsup(f string, a ...any) { panic(ktUnsup{fmt.Sprintf(f, a...)}) }

type ktTok struct {
	k  byte // 'i' identifier, 'n' number, 's' string, 'p' punctuation, 'c' char, 'e' end
	s  string
	nl bool // a line break precedes
	ln int
	l  []*nd // string template pieces
}

type ktType struct {
	name string
	args []*ktType
	null bool
}

type nd struct {
	k    string
	s    string
	v    kv
	l    []*nd
	t    *ktType
	args []string
	b    bool
	ln   int
	d    any
}

var ktPunct = []string{"===", "!==", "..<", "..", "?.", "?:", "!!", "::", "->", "++", "--", "+=", "-=", "*=", "/=", "%=", "==", "!=", "<=", ">=", "&&", "||",
	"{", "}", "(", ")", "[", "]", "<", ">", ",", ";", ":", ".", "=", "+", "-", "*", "/", "%", "!", "?", "@", "&", "|"}

func isIdS(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isIdC(c byte) bool { return isIdS(c) || c >= '0' && c <= '9' }

func ktLex(src string) []ktTok {
	var out []ktTok
	nl, ln := false, 1
	for i := 0; i < len(src); {
		c := src[i]
		add := func(k byte, s string, n int) {
			out = append(out, ktTok{k: k, s: s, nl: nl, ln: ln})
			nl = false
			i += n
		}
		switch {
		case c == '\n':
			nl = true
			ln++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			d := 0
			for i < len(src) {
				if strings.HasPrefix(src[i:], "/*") {
					d++
					i += 2
				} else if strings.HasPrefix(src[i:], "*/") {
					d--
					i += 2
					if d == 0 {
						break
					}
				} else {
					if src[i] == '\n' {
						nl = true
						ln++
					}
					i++
				}
			}
			if d != 0 {
				panic(ktSyntax{fmt.Sprintf("line %d: comment without an end", ln)})
			}
		case isIdS(c):
			j := i
			for j < len(src) && isIdC(src[j]) {
				j++
			}
			add('i', src[i:j], j-i)
		case c == '`':
			j := strings.IndexByte(src[i+1:], '`')
			if j < 0 {
				panic(ktSyntax{"unclosed `"})
			}
			add('i', src[i+1:i+1+j], j+2)
		case c >= '0' && c <= '9' || c == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			if strings.HasPrefix(src[i:], "0x") || strings.HasPrefix(src[i:], "0X") || strings.HasPrefix(src[i:], "0b") || strings.HasPrefix(src[i:], "0B") {
				j += 2
				for j < len(src) && isIdC(src[j]) {
					j++
				}
			} else {
				for j < len(src) {
					d := src[j]
					if isIdC(d) {
						j++
						if (d == 'e' || d == 'E') && j < len(src) && (src[j] == '+' || src[j] == '-') {
							j++
						}
					} else if d == '.' && j+1 < len(src) && src[j+1] >= '0' && src[j+1] <= '9' {
						j++
					} else {
						break
					}
				}
			}
			add('n', src[i:j], j-i)
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				panic(ktSyntax{"unclosed '"})
			}
			add('c', src[i+1:j], j+1-i)
		case strings.HasPrefix(src[i:], `"""`):
			unsup("raw string")
		case c == '"':
			t := ktTok{k: 's', nl: nl, ln: ln}
			nl = false
			j := i + 1
			lit := ""
			for {
				if j >= len(src) || src[j] == '\n' {
					panic(ktSyntax{fmt.Sprintf("line %d: unclosed string", ln)})
				}
				if src[j] == '"' {
					break
				}
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						lit += "\n"
					case 't':
						lit += "\t"
					case 'r':
						lit += "\r"
					case 'b':
						lit += "\b"
					case '\\', '"', '\'', '$':
						lit += string(src[j])
					case 'u':
						u, err := strconv.ParseUint(src[j+1:min(j+5, len(src))], 16, 32)
						if err != nil {
							panic(ktSyntax{fmt.Sprintf("line %d: bad escape", ln)})
						}
						lit += string(rune(u))
						j += 4
					default:
						panic(ktSyntax{fmt.Sprintf("line %d: bad escape", ln)})
					}
					j++
					continue
				}
				if src[j] == '$' && j+1 < len(src) && (src[j+1] == '{' || isIdS(src[j+1])) {
					t.l = append(t.l, &nd{k: "lit", v: kStr(lit)})
					lit = ""
					if src[j+1] == '{' {
						d, q := 1, j+2
						for q < len(src) && d > 0 {
							if src[q] == '{' {
								d++
							} else if src[q] == '}' {
								d--
							}
							q++
						}
						p := &ktParser{t: ktLex(src[j+2 : q-1])}
						t.l = append(t.l, p.expr())
						j = q
					} else {
						q := j + 1
						for q < len(src) && isIdC(src[q]) {
							q++
						}
						t.l = append(t.l, &nd{k: "name", s: src[j+1 : q]})
						j = q
					}
					continue
				}
				lit += string(src[j])
				j++
			}
			if len(t.l) > 0 {
				t.l = append(t.l, &nd{k: "lit", v: kStr(lit)})
			}
			t.s = lit
			out = append(out, t)
			i = j + 1
		default:
			ok := false
			for _, p := range ktPunct {
				if strings.HasPrefix(src[i:], p) {
					add('p', p, len(p))
					ok = true
					break
				}
			}
			if !ok {
				panic(ktSyntax{fmt.Sprintf("line %d: character %q", ln, c)})
			}
		}
	}
	return append(out, ktTok{k: 'e', nl: true, ln: ln})
}

type ktParser struct {
	t     []ktTok
	i     int
	paren int // > 0: line breaks do not end expressions
}

func (p *ktParser) cur() *ktTok { return &p.t[p.i] }
func (p *ktParser) is(s string) bool {
	t := p.cur()
	return t.s == s && (t.k == 'p' || t.k == 'i')
}
func (p *ktParser) peekIs(n int, s string) bool {
	return p.i+n < len(p.t) && p.t[p.i+n].s == s && p.t[p.i+n].k != 's' && p.t[p.i+n].k != 'c'
}
func (p *ktParser) nlb() bool { return p.paren == 0 && p.cur().nl }
func (p *ktParser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *ktParser) fail(f string, a ...any) {
	panic(ktSyntax{fmt.Sprintf("line %d: ", p.cur().ln) + fmt.Sprintf(f, a...)})
}
func (p *ktParser) need(s string) {
	if !p.acc(s) {
		p.fail("%q where %q is expected", p.cur().s, s)
	}
}
func (p *ktParser) id() string {
	if p.cur().k != 'i' {
		p.fail("%q where a name is expected", p.cur().s)
	}
	p.i++
	return p.t[p.i-1].s
}

func (p *ktParser) typ() *ktType {
	if p.is("(") {
		unsup("function type")
	}
	t := &ktType{name: p.id()}
	for p.is(".") {
		p.i++
		t.name = p.id() // a qualified name: the last part identifies the type
	}
	if p.acc("<") {
		for {
			if p.acc("*") {
				t.args = append(t.args, &ktType{name: "*"})
			} else {
				if p.is("out") || p.is("in") {
					p.i++
				}
				t.args = append(t.args, p.typ())
			}
			if !p.acc(",") {
				break
			}
		}
		p.need(">")
	}
	if p.is("?") && !p.cur().nl {
		p.i++
		t.null = true
	}
	return t
}

type ktFn struct {
	name   string
	params []ktParam
	ret    *ktType
	body   *nd // block, or expression with expr set
	expr   bool
	cls    *ktClass
	static bool
	c      *ktCode
	recv   *ktType
}

type ktParam struct {
	name string
	t    *ktType
	def  *nd
}

type ktProp struct {
	name     string
	t        *ktType
	init     *nd
	get, set *ktFn
	mut      bool
	ln       int
}

type ktClass struct {
	name    string
	file    string
	pkg     string
	imports []string
	params  []ktParam // primary constructor, all of them properties or plain
	pprop   []bool
	props   []*ktProp
	pidx    map[string]*ktProp
	fns     map[string][]*ktFn
	inits   []*nd
	order   []any // *ktProp or *nd in source order
	comp    *ktClass
	enum    bool
	entries []*ktEntry
	object  bool
	outer   *ktClass
	nested  map[string]*ktClass
	self    kv // object, companion
	initn   int
	data    bool
	super   []*ktType
	initc   []func(fr *frame)
}

type ktEntry struct {
	name string
	args []*nd
	obj  *ktObj
}

type ktFile struct {
	path    string
	pkg     string
	imports []string
	classes []*ktClass
	fns     []*ktFn
	props   []*ktProp
}

func (p *ktParser) annots() {
	for p.is("@") {
		p.i++
		p.id()
		if p.acc(":") {
			if p.acc("[") {
				unsup("annotation list")
			}
			p.id()
		}
		for p.acc(".") {
			p.id()
		}
		if p.is("(") && !p.cur().nl {
			d := 0
			for {
				if p.is("(") {
					d++
				}
				if p.is(")") {
					d--
				}
				if p.cur().k == 'e' {
					p.fail("annotation")
				}
				p.i++
				if d == 0 {
					break
				}
			}
		}
	}
}

var ktMods = map[string]bool{"private": true, "public": true, "internal": true, "protected": true, "override": true, "open": true, "final": true, "inline": true, "const": true, "lateinit": true, "data": true, "enum": true, "companion": true, "operator": true, "infix": true, "tailrec": true, "sealed": true, "abstract": true}

func (p *ktParser) mods() map[string]bool {
	m := map[string]bool{}
	for {
		p.annots()
		t := p.cur()
		if t.k == 'i' && ktMods[t.s] && p.t[p.i+1].k == 'i' {
			m[t.s] = true
			p.i++
			continue
		}
		return m
	}
}

func ktParse(path, src string) (f *ktFile) {
	f = &ktFile{path: path}
	p := &ktParser{t: ktLex(src)}
	p.annots()
	if p.acc("package") {
		f.pkg = p.qname()
	}
	for p.cur().k != 'e' {
		p.annots()
		if p.acc(";") {
			continue
		}
		if p.acc("import") {
			n := p.id()
			for p.acc(".") {
				if p.acc("*") {
					n += ".*"
				} else {
					n += "." + p.id()
				}
			}
			if p.acc("as") {
				unsup("import alias")
			}
			f.imports = append(f.imports, n)
			continue
		}
		m := p.mods()
		switch {
		case p.is("class") || p.is("object") || p.is("interface"):
			f.classes = append(f.classes, p.class(m, nil))
		case p.is("fun"):
			fn := p.fun(nil)
			fn.static = true
			f.fns = append(f.fns, fn)
		case p.is("val") || p.is("var"):
			f.props = append(f.props, p.prop(nil))
		default:
			p.fail("%q at the top of a file", p.cur().s)
		}
	}
	for i := 2; i < len(p.t); i++ { // pow is an extension function of kotlin.math
		if p.t[i-2].s == "." && p.t[i-1].s == "pow" && p.t[i].s == "(" && p.t[i-1].k == 'i' &&
			!slices.Contains(f.imports, "kotlin.math.pow") && !slices.Contains(f.imports, "kotlin.math.*") {
			p.fail("unresolved reference: pow is not imported")
		}
	}
	for _, c := range f.classes {
		c.setFile(f)
	}
	return f
}

func (c *ktClass) setFile(f *ktFile) {
	c.file, c.pkg, c.imports = f.path, f.pkg, f.imports
	if c.comp != nil {
		c.comp.setFile(f)
	}
	for _, n := range c.nested {
		n.setFile(f)
	}
}

func (p *ktParser) qname() string {
	s := p.id()
	for p.acc(".") {
		s += "." + p.id()
	}
	return s
}

func (p *ktParser) params() []ktParam {
	var out []ktParam
	p.need("(")
	for !p.is(")") {
		p.mods()
		if p.is("vararg") {
			unsup("vararg")
		}
		a := ktParam{name: p.id()}
		p.need(":")
		a.t = p.typ()
		if p.acc("=") {
			p.paren++
			a.def = p.expr()
			p.paren--
		}
		out = append(out, a)
		if !p.acc(",") {
			break
		}
	}
	p.need(")")
	return out
}

func (p *ktParser) class(m map[string]bool, outer *ktClass) *ktClass {
	c := &ktClass{enum: m["enum"], outer: outer, pidx: map[string]*ktProp{}, fns: map[string][]*ktFn{}, nested: map[string]*ktClass{}, data: m["data"]}
	if p.is("interface") || m["sealed"] || m["abstract"] {
		unsup("interface")
	}
	if p.acc("object") {
		c.object = true
		if p.cur().k == 'i' && !p.cur().nl {
			c.name = p.id()
		} else {
			c.name = "Companion"
		}
	} else {
		p.need("class")
		c.name = p.id()
		if p.is("<") {
			unsup("generic class")
		}
		for p.is("private") || p.is("internal") || p.is("constructor") {
			p.i++
		}
		if p.is("(") && !p.cur().nl {
			p.i++
			for !p.is(")") {
				p.mods()
				isP := p.is("val") || p.is("var")
				mut := p.is("var")
				if isP {
					p.i++
				}
				a := ktParam{name: p.id()}
				p.need(":")
				a.t = p.typ()
				if p.acc("=") {
					p.paren++
					a.def = p.expr()
					p.paren--
				}
				c.params = append(c.params, a)
				c.pprop = append(c.pprop, isP)
				if isP {
					c.addProp(&ktProp{name: a.name, t: a.t, mut: mut}, p)
				}
				if !p.acc(",") {
					break
				}
			}
			p.need(")")
		}
	}
	if p.acc(":") {
		for {
			t := p.typ()
			c.super = append(c.super, t)
			if p.is("(") {
				unsup("superclass")
			}
			if !p.acc(",") {
				break
			}
		}
	}
	if !p.is("{") {
		return c
	}
	p.i++
	if c.enum {
		for p.cur().k == 'i' && !p.is("companion") {
			p.annots()
			e := &ktEntry{name: p.id()}
			if p.is("(") {
				e.args, _ = p.args()
			}
			if p.is("{") {
				unsup("enum entry body")
			}
			for _, o := range c.entries {
				if o.name == e.name {
					p.fail("enum entry %s twice", e.name)
				}
			}
			c.entries = append(c.entries, e)
			if !p.acc(",") {
				break
			}
		}
		if !p.is("}") {
			p.need(";")
		}
	}
	for !p.acc("}") {
		if p.acc(";") {
			continue
		}
		m := p.mods()
		switch {
		case p.is("class") || p.is("object"):
			n := p.class(m, c)
			if m["companion"] {
				if c.comp != nil {
					p.fail("second companion object")
				}
				c.comp = n
			} else {
				c.nested[n.name] = n
			}
		case p.is("fun"):
			fn := p.fun(c)
			for _, o := range c.fns[fn.name] {
				same := len(o.params) == len(fn.params)
				for i := range o.params {
					same = same && o.params[i].t.String() == fn.params[i].t.String()
				}
				if same {
					p.fail("conflicting overloads of %s", fn.name)
				}
			}
			c.fns[fn.name] = append(c.fns[fn.name], fn)
		case p.is("val") || p.is("var"):
			pr := p.prop(c)
			c.addProp(pr, p)
			c.order = append(c.order, pr)
		case p.is("init") && p.peekIs(1, "{"):
			p.i++
			c.order = append(c.order, p.block())
		case p.is("constructor"):
			unsup("secondary constructor")
		default:
			p.fail("%q in a class body", p.cur().s)
		}
	}
	return c
}

func (t *ktType) String() string {
	if t == nil {
		return ""
	}
	s := t.name
	if len(t.args) > 0 {
		s += "<"
		for i, a := range t.args {
			if i > 0 {
				s += ","
			}
			s += a.String()
		}
		s += ">"
	}
	if t.null {
		s += "?"
	}
	return s
}

func (c *ktClass) addProp(pr *ktProp, p *ktParser) {
	if c.pidx[pr.name] != nil {
		p.fail("property %s twice", pr.name)
	}
	c.pidx[pr.name] = pr
	c.props = append(c.props, pr)
}

func (p *ktParser) prop(c *ktClass) *ktProp {
	pr := &ktProp{mut: p.is("var"), ln: p.cur().ln}
	p.i++
	pr.name = p.id()
	if p.is(".") {
		unsup("extension property")
	}
	if p.acc(":") {
		pr.t = p.typ()
	}
	if p.acc("=") {
		pr.init = p.expr()
	} else if p.is("by") {
		unsup("delegated property")
	}
	p.acc(";")
	for {
		save := p.i
		p.mods()
		if p.is("get") && p.peekIs(1, "(") {
			p.i++
			fn := &ktFn{name: "get", ret: pr.t, cls: c}
			p.need("(")
			p.need(")")
			if p.acc(":") {
				fn.ret = p.typ()
			}
			p.fnBody(fn)
			pr.get = fn
		} else if p.is("set") {
			p.i++
			fn := &ktFn{name: "set", cls: c, ret: &ktType{name: "Unit"}}
			if p.is("(") {
				p.i++
				fn.params = []ktParam{{name: p.id(), t: pr.t}}
				if p.acc(":") {
					fn.params[0].t = p.typ()
				}
				p.need(")")
				p.fnBody(fn)
				pr.set = fn
			}
		} else {
			p.i = save
			break
		}
	}
	if !pr.mut && pr.set != nil {
		p.fail("a val cannot have a setter")
	}
	return pr
}

func (p *ktParser) fnBody(fn *ktFn) {
	if p.acc("=") {
		fn.expr = true
		fn.body = p.expr()
	} else {
		fn.body = p.block()
		if fn.ret == nil {
			fn.ret = &ktType{name: "Unit"}
		}
	}
}

func (p *ktParser) fun(c *ktClass) *ktFn {
	p.need("fun")
	if p.is("<") {
		unsup("generic function")
	}
	fn := &ktFn{cls: c}
	t := p.cur()
	fn.name = p.id()
	if p.is("<") || p.is(".") { // extension function
		p.i--
		_ = t
		parts := []string{p.id()}
		for p.acc(".") {
			parts = append(parts, p.id())
		}
		fn.name = parts[len(parts)-1]
		fn.recv = &ktType{name: parts[len(parts)-2]}
	}
	fn.params = p.params()
	if p.acc(":") {
		fn.ret = p.typ()
	}
	p.fnBody(fn)
	return fn
}

// ---- statements ----

func (p *ktParser) block() *nd {
	ln := p.cur().ln
	p.need("{")
	sv := p.paren
	p.paren = 0
	b := &nd{k: "block", ln: ln}
	for !p.acc("}") {
		if p.acc(";") {
			continue
		}
		if p.cur().k == 'e' {
			p.fail("missing }")
		}
		b.l = append(b.l, p.stmt())
		if !p.is("}") && !p.is(";") && !p.cur().nl {
			if p.is("by") {
				unsup("delegate")
			}
			p.fail("%q after a statement", p.cur().s)
		}
	}
	p.paren = sv
	return b
}

func (p *ktParser) blockOrStmt() *nd {
	if p.is("{") {
		return p.block()
	}
	if p.is(";") {
		return &nd{k: "block"}
	}
	s := p.stmt()
	return &nd{k: "block", l: []*nd{s}, ln: s.ln}
}

func (p *ktParser) stmt() *nd {
	ln := p.cur().ln
	p.annots()
	switch {
	case p.is("val") || p.is("var"):
		n := &nd{k: "local", b: p.is("var"), ln: ln}
		p.i++
		if p.is("(") {
			unsup("destructuring")
		}
		n.s = p.id()
		if p.acc(":") {
			n.t = p.typ()
		}
		if p.acc("=") {
			n.l = []*nd{p.expr()}
		}
		return n
	case p.is("while"):
		p.i++
		n := &nd{k: "while", ln: ln}
		c := p.cond()
		n.l = []*nd{c, p.blockOrStmt()}
		return n
	case p.is("do"):
		p.i++
		b := p.blockOrStmt()
		p.need("while")
		return &nd{k: "dowhile", l: []*nd{p.cond(), b}, ln: ln}
	case p.is("for"):
		p.i++
		p.need("(")
		p.paren++
		n := &nd{k: "for", ln: ln}
		if p.is("(") {
			unsup("destructuring")
		}
		n.s = p.id()
		if p.acc(":") {
			p.typ()
		}
		p.need("in")
		e := p.expr()
		p.paren--
		p.need(")")
		n.l = []*nd{e, p.blockOrStmt()}
		return n
	case p.is("fun") || p.is("class") || p.is("object"),
		p.cur().k == 'i' && ktLocalMods[p.cur().s] && p.t[p.i+1].k == 'i' && !p.t[p.i+1].nl:
		unsup("local declaration")
	}
	e := p.expr()
	for _, op := range []string{"=", "+=", "-=", "*=", "/=", "%="} {
		if p.is(op) && !p.nlb() {
			p.i++
			return &nd{k: "assign", s: op, l: []*nd{e, p.expr()}, ln: ln}
		}
	}
	return e
}

func (p *ktParser) cond() *nd {
	p.need("(")
	p.paren++
	e := p.expr()
	p.paren--
	p.need(")")
	return e
}

// ---- expressions ----

func (p *ktParser) expr() *nd { return p.orE() }

func (p *ktParser) binL(ops []string, next func() *nd, nlOK bool) *nd {
	l := next()
	for {
		hit := ""
		for _, o := range ops {
			if p.cur().k == 'p' && p.cur().s == o && (nlOK || !p.nlb()) {
				hit = o
			}
		}
		if hit == "" {
			return l
		}
		ln := p.cur().ln
		p.i++
		l = &nd{k: "bin", s: hit, l: []*nd{l, next()}, ln: ln}
	}
}
func (p *ktParser) orE() *nd  { return p.binL([]string{"||"}, p.andE, true) }
func (p *ktParser) andE() *nd { return p.binL([]string{"&&"}, p.eqE, true) }
func (p *ktParser) eqE() *nd {
	return p.binL([]string{"==", "!=", "===", "!=="}, p.cmpE, false)
}
func (p *ktParser) cmpE() *nd {
	return p.binL([]string{"<", ">", "<=", ">="}, p.namedE, false)
}
func (p *ktParser) namedE() *nd {
	l := p.elvisE()
	for !p.nlb() {
		ln := p.cur().ln
		switch {
		case p.is("is"):
			p.i++
			l = &nd{k: "is", l: []*nd{l}, t: p.typ(), ln: ln}
		case p.is("!") && p.peekIs(1, "is"):
			p.i += 2
			l = &nd{k: "is", b: true, l: []*nd{l}, t: p.typ(), ln: ln}
		case p.is("in"):
			p.i++
			l = &nd{k: "in", l: []*nd{l, p.elvisE()}, ln: ln}
		case p.is("!") && p.peekIs(1, "in"):
			p.i += 2
			l = &nd{k: "in", b: true, l: []*nd{l, p.elvisE()}, ln: ln}
		default:
			return l
		}
	}
	return l
}
func (p *ktParser) elvisE() *nd { return p.binL([]string{"?:"}, p.infixE, true) }

var ktNoInfix = map[string]bool{"is": true, "in": true, "as": true, "else": true, "while": true, "get": true, "set": true}

func (p *ktParser) infixE() *nd {
	l := p.rangeE()
	for p.cur().k == 'i' && !p.nlb() && !ktNoInfix[p.cur().s] {
		op := p.id()
		ln := p.cur().ln
		r := p.rangeE()
		l = &nd{k: "infix", s: op, l: []*nd{l, r}, ln: ln}
	}
	return l
}
func (p *ktParser) rangeE() *nd { return p.binL([]string{"..", "..<"}, p.addE, false) }
func (p *ktParser) addE() *nd   { return p.binL([]string{"+", "-"}, p.mulE, false) }
func (p *ktParser) mulE() *nd   { return p.binL([]string{"*", "/", "%"}, p.asE, false) }
func (p *ktParser) asE() *nd {
	l := p.preE()
	for p.is("as") && !p.nlb() {
		ln := p.cur().ln
		p.i++
		n := &nd{k: "as", l: []*nd{l}, ln: ln}
		if p.acc("?") {
			n.b = true
		}
		n.t = p.typ()
		l = n
	}
	return l
}
func (p *ktParser) preE() *nd {
	ln := p.cur().ln
	for _, o := range []string{"++", "--", "-", "+", "!"} {
		if p.cur().k == 'p' && p.cur().s == o {
			p.i++
			return &nd{k: "un", s: o, l: []*nd{p.preE()}, ln: ln}
		}
	}
	return p.postE()
}

func (p *ktParser) args() (l []*nd, names []string) {
	p.need("(")
	sv := p.paren
	p.paren++
	for !p.is(")") {
		nm := ""
		if p.cur().k == 'i' && p.peekIs(1, "=") {
			nm = p.id()
			p.i++
		}
		if p.is("*") {
			unsup("spread")
		}
		l = append(l, p.expr())
		names = append(names, nm)
		if !p.acc(",") {
			break
		}
	}
	p.paren = sv
	p.need(")")
	return
}

func (p *ktParser) postE() *nd {
	e := p.primE()
	for {
		ln := p.cur().ln
		switch {
		case (p.is(".") || p.is("?.")) && p.t[p.i+1].k == 'i':
			k := "member"
			if p.is("?.") {
				k = "smember"
			}
			p.i++
			e = &nd{k: k, s: p.id(), l: []*nd{e}, ln: ln}
		case p.nlb():
			return e
		case p.is("("):
			a, n := p.args()
			e = &nd{k: "call", l: append([]*nd{e}, a...), args: n, ln: ln}
			if p.is("{") && !p.nlb() {
				e.l = append(e.l, p.lambda())
				e.args = append(e.args, "")
			}
		case p.is("{") && (e.k == "name" || e.k == "member" || e.k == "smember") && p.lambdaOK(e):
			e = &nd{k: "call", l: []*nd{e, p.lambda()}, args: []string{""}, ln: ln}
		case p.is("["):
			p.i++
			sv := p.paren
			p.paren++
			n := &nd{k: "index", l: []*nd{e}, ln: ln}
			for {
				n.l = append(n.l, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.paren = sv
			p.need("]")
			e = n
		case p.is("!!"):
			p.i++
			e = &nd{k: "nn", l: []*nd{e}, ln: ln}
		case p.is("++") || p.is("--"):
			e = &nd{k: "post", s: p.cur().s, l: []*nd{e}, ln: ln}
			p.i++
		case p.is("<") && (e.k == "name" || e.k == "member"):
			save := p.i
			ok := func() (ok bool) {
				defer func() {
					if r := recover(); r != nil {
						if _, k := r.(ktSyntax); !k {
							if _, k := r.(ktUnsup); !k {
								panic(r)
							}
						}
						ok = false
					}
				}()
				p.i++
				for {
					p.typ()
					if !p.acc(",") {
						break
					}
				}
				p.need(">")
				return p.is("(") || p.is("{")
			}()
			if !ok {
				p.i = save
				return e
			}
			q := p.i
			p.i = save + 1
			c := *e
			c.t = p.typ()
			e = &c
			p.i = q
		case p.is("::"):
			if p.peekIs(1, "class") {
				p.i += 2
				e = &nd{k: "member", s: "javaClass", l: []*nd{e}, ln: ln}
				if p.is(".") && (p.peekIs(1, "java") || p.peekIs(1, "javaObjectType")) {
					p.i += 2
				}
				continue
			}
			unsup("reference")
		default:
			return e
		}
	}
}

// lambdaOK: a { after a name is a trailing lambda (not the body of if, while, ...:
// those are parsed before a name can be followed by a brace).
func (p *ktParser) lambdaOK(e *nd) bool { return true }

func (p *ktParser) lambda() *nd {
	n := &nd{k: "lambda", ln: p.cur().ln}
	p.need("{")
	sv := p.paren
	p.paren = 0
	// parameters
	save := p.i
	ok := false
	if p.is("->") {
		p.i++
		ok = true
	} else if p.cur().k == 'i' {
		for p.cur().k == 'i' {
			nm := p.id()
			if p.acc(":") {
				p.typ()
			}
			n.args = append(n.args, nm)
			if p.acc("->") {
				ok = true
				break
			}
			if !p.acc(",") {
				break
			}
		}
	}
	if !ok {
		p.i = save
		n.args = nil
		n.b = true // implicit it
	}
	b := &nd{k: "block"}
	for !p.acc("}") {
		if p.acc(";") {
			continue
		}
		if p.cur().k == 'e' {
			p.fail("missing }")
		}
		b.l = append(b.l, p.stmt())
		if !p.is("}") && !p.is(";") && !p.cur().nl {
			if p.is("by") {
				unsup("delegate")
			}
			p.fail("%q after a statement", p.cur().s)
		}
	}
	p.paren = sv
	n.l = []*nd{b}
	return n
}

func (p *ktParser) primE() *nd {
	t := p.cur()
	ln := t.ln
	switch t.k {
	case 'n':
		p.i++
		return &nd{k: "lit", v: ktNumber(p, t.s), ln: ln}
	case 's':
		p.i++
		if len(t.l) > 0 {
			return &nd{k: "tpl", l: t.l, ln: ln}
		}
		return &nd{k: "lit", v: kStr(t.s), ln: ln}
	case 'c':
		p.i++
		r := []rune(t.s)
		c := rune(0)
		if len(r) == 1 {
			c = r[0]
		} else if len(r) == 2 && r[0] == '\\' {
			c = map[rune]rune{'n': '\n', 't': '\t', 'r': '\r', '0': 0, '\\': '\\', '\'': '\'', '"': '"', '$': '$', 'b': '\b'}[r[1]]
		} else if len(r) == 6 && r[1] == 'u' {
			u, _ := strconv.ParseUint(string(r[2:]), 16, 32)
			c = rune(u)
		} else {
			p.fail("character literal")
		}
		return &nd{k: "lit", v: kv{k: kChar, i: uint64(c)}, ln: ln}
	case 'p':
		switch t.s {
		case "(":
			p.i++
			sv := p.paren
			p.paren++
			e := p.expr()
			p.paren = sv
			p.need(")")
			return &nd{k: "paren", l: []*nd{e}, ln: ln}
		case "{":
			return p.lambda()
		}
	case 'i':
		switch t.s {
		case "true", "false":
			p.i++
			return &nd{k: "lit", v: kBo(t.s == "true"), ln: ln}
		case "null":
			p.i++
			return &nd{k: "lit", v: kv{k: kNull}, ln: ln}
		case "this":
			p.i++
			if p.is("@") && !p.cur().nl {
				p.i++
				return &nd{k: "this", s: p.id(), ln: ln}
			}
			return &nd{k: "this", ln: ln}
		case "super":
			p.i++
			return &nd{k: "super", ln: ln}
		case "if":
			p.i++
			n := &nd{k: "if", ln: ln}
			c := p.cond()
			sv := p.paren
			p.paren = 0
			th := p.blockOrStmt()
			n.l = []*nd{c, th}
			save := p.i
			p.acc(";")
			if p.acc("else") {
				n.l = append(n.l, p.blockOrStmt())
			} else {
				p.i = save
			}
			p.paren = sv
			return n
		case "when":
			p.i++
			n := &nd{k: "when", ln: ln}
			if p.is("(") {
				p.i++
				p.paren++
				if p.is("val") {
					unsup("when subject")
				}
				n.l = []*nd{p.expr()}
				p.paren--
				p.need(")")
			} else {
				n.l = []*nd{nil}
			}
			sv := p.paren
			p.paren = 0
			p.need("{")
			for !p.acc("}") {
				if p.acc(";") {
					continue
				}
				br := &nd{k: "branch", ln: p.cur().ln}
				if p.acc("else") {
					br.b = true
				} else {
					for {
						c := &nd{}
						switch {
						case p.is("is"):
							p.i++
							c = &nd{k: "wis", t: p.typ()}
						case p.is("!") && p.peekIs(1, "is"):
							p.i += 2
							c = &nd{k: "wis", t: p.typ(), b: true}
						case p.is("in"):
							p.i++
							c = &nd{k: "win", l: []*nd{p.expr()}}
						case p.is("!") && p.peekIs(1, "in"):
							p.i += 2
							c = &nd{k: "win", l: []*nd{p.expr()}, b: true}
						default:
							c = &nd{k: "weq", l: []*nd{p.expr()}}
						}
						br.l = append(br.l, c)
						if !p.acc(",") {
							break
						}
						if p.is("->") {
							break
						}
					}
				}
				p.need("->")
				br.d = p.blockOrStmt()
				n.l = append(n.l, br)
				p.acc(";")
			}
			p.paren = sv
			return n
		case "return":
			p.i++
			n := &nd{k: "return", ln: ln}
			if p.is("@") && !p.cur().nl {
				p.i++
				n.s = p.id()
			}
			if !p.cur().nl && !p.is("}") && !p.is(";") && !p.is(")") && p.cur().k != 'e' && !p.is("else") {
				n.l = []*nd{p.expr()}
			}
			return n
		case "break", "continue":
			p.i++
			if p.is("@") && !p.cur().nl {
				unsup("label")
			}
			return &nd{k: t.s, ln: ln}
		case "throw":
			p.i++
			return &nd{k: "throw", l: []*nd{p.expr()}, ln: ln}
		case "try", "object", "fun":
			unsup("%s expression", t.s)
		}
		p.i++
		if p.is("@") && !p.cur().nl && p.t[p.i+1].k == 'i' {
			unsup("label")
		}
		return &nd{k: "name", s: t.s, ln: ln}
	}
	p.fail("%q where an expression is expected", t.s)
	return nil
}

func ktNumber(p *ktParser, s string) kv {
	orig := s
	s = strings.ReplaceAll(s, "_", "")
	base, hexy := 10, false
	if len(s) > 2 && (s[1] == 'x' || s[1] == 'X') {
		base, hexy = 16, true
		s = s[2:]
	} else if len(s) > 2 && (s[1] == 'b' || s[1] == 'B') {
		base = 2
		s = s[2:]
	}
	uns, long := false, false
	if strings.HasSuffix(s, "L") {
		long = true
		s = s[:len(s)-1]
	}
	if strings.HasSuffix(s, "u") || strings.HasSuffix(s, "U") {
		uns = true
		s = s[:len(s)-1]
	}
	if base == 10 && !uns && !long && !hexy && (strings.ContainsAny(s, ".eE") || strings.HasSuffix(s, "f") || strings.HasSuffix(s, "F")) {
		if strings.HasSuffix(s, "f") || strings.HasSuffix(s, "F") {
			f, err := strconv.ParseFloat(s[:len(s)-1], 32)
			if err != nil && math.IsInf(f, 0) {
				p.fail("float literal %s", orig)
			}
			return kF32(float32(f))
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil && (math.IsInf(f, 0) || f == 0 && !strings.Contains(err.Error(), "range")) {
			p.fail("float literal %s", orig)
		}
		return kF64(f)
	}
	if base == 10 && len(s) > 1 && s[0] == '0' {
		p.fail("literal %s with a leading zero", orig)
	}
	u, err := strconv.ParseUint(s, base, 64)
	if err != nil {
		p.fail("the value %s is out of range or malformed", orig)
	}
	switch {
	case uns && long:
		return kv{k: kULong, i: u, lit: true}
	case uns:
		if u > math.MaxUint32 {
			return kv{k: kULong, i: u, lit: true}
		}
		return kv{k: kUInt, i: u, lit: true}
	case long:
		if u > 1<<63-1 {
			p.fail("the value %s is out of range", orig)
		}
		return kv{k: kLong, i: u, lit: true}
	}
	if u > 1<<63-1 {
		p.fail("the value %s is out of range", orig)
	}
	if u > math.MaxInt32 {
		return kv{k: kLong, i: u, lit: true}
	}
	return kv{k: kInt, i: u, lit: true}
}

var ktLocalMods = map[string]bool{"lateinit": true, "tailrec": true, "inline": true, "suspend": true, "infix": true, "operator": true, "const": true, "data": true, "annotation": true, "typealias": true}
