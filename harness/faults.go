package main

// C14: valid schemas are accepted, and a schema with exactly one rule broken is
// rejected at that place. Every fault comes with a twin that stays just inside
// the rule and must be accepted.

import (
	"fmt"
	"strconv"
	"strings"
)

// A fault is text for the body of a struct (or the top level), once breaking a rule and once not.
type fault struct {
	rule string
	bad  []string
	good []string
	off  int // line of bad that is at fault; -1: the header of the struct
	span int // further lines the message may name (syntax errors)
	end  bool
	top  bool
	hdr  [2]string // replaces the size of the struct's header in bad / good
	pre  bool      // top level: before everything else
	nop  bool      // no line expected, only the file
}

type faultGen struct {
	r     *Rng
	f     *File
	s     *Struct   // host
	enums []*Enum   // of the file, before s
	strs  []*Struct // of the file, before s
	n     int
	seen  map[string]bool
}

// fresh gives a short name not given before.
func (g *faultGen) fresh(prefix string) string {
	if g.seen == nil {
		g.seen = map[string]bool{}
	}
	for {
		g.n++
		if s := prefix + b26(g.n+g.r.N(600), 2); !g.seen[s] {
			g.seen[s] = true
			return s
		}
	}
}

func (g *faultGen) nm() string { return g.fresh("zq") }
func (g *faultGen) tn() string { return g.fresh("Zq") }

func (g *faultGen) basic() *Type { return (&Gen{r: g.r}).basic() }

func sz(bits int) string {
	if bits%8 == 0 && bits > 0 {
		return fmt.Sprintf("[%d]", bits/8)
	}
	return fmt.Sprintf("[#%d]", bits)
}

func voidTo8(bits int) []string {
	if k := (8 - bits%8) % 8; k > 0 {
		return []string{fmt.Sprintf("void [#%d];", k)}
	}
	return nil
}

func (g *faultGen) fixedStruct() *Struct {
	var c []*Struct
	for _, s := range g.strs {
		if !s.Dynamic() && s.FixedBits() >= 16 && s.FixedBits() < 4000 {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return pick(g.r, c)
}

func (g *faultGen) dynStruct() *Struct {
	var c []*Struct
	for _, s := range g.strs {
		if s.Dynamic() {
			c = append(c, s)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return pick(g.r, c)
}

type faultFn func(g *faultGen) *fault

var faults = []faultFn{
	func(g *faultGen) *fault { // wider than its type
		t := g.basic()
		w := t.TypeBits()
		k := pick(g.r, []int{1, 1, 7, 8, 64})
		n := g.nm()
		return &fault{rule: "field wider than its type", bad: append([]string{fmt.Sprintf("%s %s[#%d];", t.Name(), n, w+k)}, voidTo8(w+k)...),
			good: append([]string{fmt.Sprintf("%s %s[#%d];", t.Name(), n, w)}, voidTo8(w)...)}
	},
	func(g *faultGen) *fault {
		t := g.basic()
		n, k := g.nm(), g.r.Range(2, 9)
		w := k * t.TypeBits()
		return &fault{rule: "array wider than its type", bad: append([]string{fmt.Sprintf("%s<%d> %s[#%d];", t.Name(), k, n, w+k)}, voidTo8(w+k)...),
			good: append([]string{fmt.Sprintf("%s<%d> %s[#%d];", t.Name(), k, n, w)}, voidTo8(w)...)}
	},
	func(g *faultGen) *fault {
		t := g.basic()
		if t.K == KBool {
			t = &Type{K: KInt, W: 16}
		}
		n, k := g.nm(), g.r.Range(2, 9)
		e := g.r.Range(2, t.TypeBits())
		bad := k*e - g.r.Range(1, k-1)
		return &fault{rule: "array width is no multiple of its length", bad: append([]string{fmt.Sprintf("%s<%d> %s[#%d];", t.Name(), k, n, bad)}, voidTo8(bad)...),
			good: append([]string{fmt.Sprintf("%s<%d> %s[#%d];", t.Name(), k, n, k*e)}, voidTo8(k*e)...)}
	},
	func(g *faultGen) *fault {
		if len(g.enums) == 0 {
			return nil
		}
		e := pick(g.r, g.enums)
		n := g.nm()
		return &fault{rule: "field wider than its enum", bad: append([]string{fmt.Sprintf("%s %s[#%d];", e.Name, n, e.Bits+1)}, voidTo8(e.Bits+1)...),
			good: append([]string{fmt.Sprintf("%s %s[#%d];", e.Name, n, e.Bits)}, voidTo8(e.Bits)...)}
	},
	func(g *faultGen) *fault { // zero sizes
		t, n := g.basic(), g.nm()
		z := pick(g.r, []string{"[0]", "[#0]", "[0#0]"})
		switch g.r.N(3) {
		case 0:
			return &fault{rule: "zero width", bad: []string{t.Name() + " " + n + z + ";"}, good: append([]string{t.Name() + " " + n + ";"}, voidTo8(t.TypeBits())...)}
		case 1:
			return &fault{rule: "zero-width void", bad: []string{"void " + z + ";"}, good: []string{"void [0#8];"}}
		}
		return &fault{rule: "zero-length array", bad: []string{fmt.Sprintf("%s<0> %s;", t.Name(), n)}, good: append([]string{fmt.Sprintf("%s<1> %s;", t.Name(), n)}, voidTo8(t.TypeBits())...)}
	},
	func(g *faultGen) *fault { // unknown types
		n := g.nm()
		ty := pick(g.r, []string{"Zqqx", "struct Zqqx", "enum Zqqx"})
		b := ty + pick(g.r, []string{"", "<2>"}) + " " + n + ";"
		if g.r.Pct(20) {
			b = "Zqqx;"
		}
		return &fault{rule: "unknown type", bad: []string{b}, good: []string{"uint8 " + n + ";"}}
	},
	func(g *faultGen) *fault { // a later definition
		n, t := g.nm(), g.tn()
		return &fault{rule: "type used before its definition", top: true, pre: true,
			bad:  []string{"struct " + t + " {", t + "b " + n + ";", "}", "struct " + t + "b {", "uint8 a;", "}"},
			good: []string{"struct " + t + "b {", "uint8 a;", "}", "struct " + t + " {", t + "b " + n + ";", "}"}, off: 1}
	},
	func(g *faultGen) *fault {
		n, t := g.nm(), g.tn()
		return &fault{rule: "struct inside itself", top: true,
			bad:  []string{"struct " + t + " {", "uint8 a;", t + pick(g.r, []string{" " + n, "<2> " + n, ""}) + ";", "}"},
			good: []string{"struct " + t + " {", "uint8 a;", "uint8 " + n + ";", "}"}, off: 2}
	},
	func(g *faultGen) *fault { // duplicate field
		var names []string
		for _, f := range g.s.Flat() {
			if f.Name != "" {
				names = append(names, f.Name)
			}
			for _, m := range f.Methods {
				names = append(names, m.Name)
			}
		}
		if len(names) == 0 {
			return nil
		}
		d := pick(g.r, names)
		n := g.nm()
		b := pick(g.r, []string{"uint8 %s;", "uint8<2> %s;", "uint8 %s = 1;", "string %s;", "struct " + g.tn() + " { uint8 %s; };", "uint8 " + n + " { get %s(uint8): value; };"})
		return &fault{rule: "duplicate field name", end: true, bad: []string{fmt.Sprintf(b, d)}, good: []string{fmt.Sprintf(b, g.nm())}}
	},
	func(g *faultGen) *fault { // wrong keyword
		n := g.nm()
		if st := g.fixedStruct(); st != nil && g.r.Pct(50) {
			return &fault{rule: "struct used as enum", bad: []string{"enum " + st.Name + " " + n + ";"}, good: []string{"struct " + st.Name + " " + n + ";"}}
		}
		if len(g.enums) == 0 {
			return nil
		}
		e := pick(g.r, g.enums)
		return &fault{rule: "enum used as struct", bad: append([]string{"struct " + e.Name + " " + n + ";"}, voidTo8(e.Bits)...), good: append([]string{"enum " + e.Name + " " + n + ";"}, voidTo8(e.Bits)...)}
	},
	func(g *faultGen) *fault { // embedding something else
		b := pick(g.r, []string{"uint16;", "string;", "bytes;", "uint8<3>;", "bool;"})
		if len(g.enums) > 0 && g.r.Pct(40) {
			b = pick(g.r, g.enums).Name + ";"
		}
		return &fault{rule: "embedded field is no struct", bad: []string{b}, good: []string{"struct " + g.tn() + " { uint8 " + g.nm() + "; };"}}
	},
	func(g *faultGen) *fault { // misaligned
		k := g.r.Range(1, 7)
		ty := pick(g.r, []string{"string", "bytes", "string<2>", "bytes<3>"})
		if st := g.fixedStruct(); st != nil && g.r.Pct(40) {
			ty = st.Name + pick(g.r, []string{"", "<2>"})
		} else if st := g.dynStruct(); st != nil && g.r.Pct(40) {
			ty = st.Name + pick(g.r, []string{"", "<2>"})
		}
		a, n := g.nm(), g.nm()
		first := fmt.Sprintf("uint8 %s[#%d];", a, k)
		if g.r.Pct(30) {
			first = fmt.Sprintf("void [#%d];", k)
		}
		return &fault{rule: "misaligned field", bad: []string{first, ty + " " + n + ";", fmt.Sprintf("void [#%d];", 8-k)},
			good: []string{first, fmt.Sprintf("void [#%d];", 8-k), ty + " " + n + ";"}, off: 1}
	},
	func(g *faultGen) *fault { // struct of broken bytes
		k := g.r.Range(1, 7)
		b := fmt.Sprintf("uint8 %s[#%d];", g.nm(), k)
		return &fault{rule: "struct of broken bytes", bad: []string{b}, good: []string{b, fmt.Sprintf("void [#%d];", 8-k)}, off: -1}
	},
	func(g *faultGen) *fault { // declared size
		n := g.s.FixedBits() + 8
		if g.s.Dynamic() {
			return &fault{rule: "declared size of a variable-size struct", bad: []string{"void [1];"}, good: []string{"void [1];"}, off: -1, hdr: [2]string{sz(n), " "}}
		}
		d := pick(g.r, []int{n + 8, n - 8, n + 1, n - 1, n * 8, 8})
		if d == n || d <= 0 {
			d = n + 16
		}
		return &fault{rule: "wrong declared size", bad: []string{"void [1];"}, good: []string{"void [1];"}, off: -1, hdr: [2]string{sz(d), sz(n)}}
	},
	func(g *faultGen) *fault { // size on variable-size types
		ty := pick(g.r, []string{"string", "bytes", "string<2>", "bytes<2>"})
		if st := g.dynStruct(); st != nil && g.r.Pct(40) {
			ty = st.Name + pick(g.r, []string{"", "<2>"})
		}
		n := g.nm()
		return &fault{rule: "width of a variable-size field", bad: []string{ty + " " + n + sz(8*g.r.Range(1, 9)) + ";"}, good: []string{ty + " " + n + ";"}}
	},
	func(g *faultGen) *fault { // width of struct fields
		st := g.fixedStruct()
		if st == nil {
			return nil
		}
		n := g.nm()
		w := st.FixedBits()
		if g.r.Pct(40) {
			k := g.r.Range(2, 3)
			d := pick(g.r, []int{k * (w - 8), k * (w + 8), k * w / 2 / k * k, k})
			if d == k*w || d <= 0 {
				d = k * (w - 8)
			}
			return &fault{rule: "width of an array of structs", bad: append([]string{fmt.Sprintf("%s<%d> %s%s;", st.Name, k, n, sz(d))}, voidTo8(d)...), good: []string{fmt.Sprintf("%s<%d> %s%s;", st.Name, k, n, sz(k*w))}}
		}
		d := pick(g.r, []int{w - 8, w + 8, w - 1, w / 2, 1})
		if d == w || d <= 0 {
			d = w - 8
		}
		return &fault{rule: "width of a struct field", bad: append([]string{st.Name + " " + n + sz(d) + ";"}, voidTo8(d)...), good: []string{st.Name + " " + n + sz(w) + ";"}}
	},
	func(g *faultGen) *fault { // constants of the wrong kind
		t := g.basic()
		n := ""
		if g.r.Pct(50) {
			n = " " + g.nm()
		}
		var bad []string
		good := ""
		switch {
		case t.K == KBool:
			bad, good = []string{"1", "0", "1.5", "\"true\"", "0x1"}, pick(g.r, []string{"true", "false"})
		case t.K == KFloat:
			bad, good = []string{"1", "true", "\"1.5\"", "0x10", "-3"}, pick(g.r, []string{"1.0", "-2.5", "0.0"})
		default:
			bad, good = []string{"1.5", "true", "\"1\"", "-0.5"}, pick(g.r, []string{"1", "0x7", "0"})
			if !t.Signed {
				bad = append(bad, "-1", "-128")
			}
		}
		b := pick(g.r, bad)
		if len(g.enums) > 0 && (t.K == KBool || t.K == KFloat) && g.r.Pct(25) {
			b = pick(g.r, g.enums).Members[0].Name
		}
		return &fault{rule: "constant of another kind", bad: append([]string{t.Name() + n + " = " + b + ";"}, voidTo8(t.TypeBits())...),
			good: append([]string{t.Name() + n + " = " + good + ";"}, voidTo8(t.TypeBits())...)}
	},
	func(g *faultGen) *fault { // constants by name
		t := &Type{K: KInt, W: pick(g.r, []int{8, 16, 32, 64}), Signed: g.r.Pct(50)}
		b := "ZQQX"
		if len(g.strs) > 0 && g.r.Pct(40) {
			b = pick(g.r, g.strs).Name
		} else if len(g.enums) > 0 && g.r.Pct(40) {
			b = pick(g.r, g.enums).Name
		}
		return &fault{rule: "constant by a name that is none", bad: []string{t.Name() + " = " + b + ";"}, good: []string{t.Name() + " = 1;"}}
	},
	func(g *faultGen) *fault { // wide constant
		t := g.basic()
		if t.K != KInt {
			t = &Type{K: KInt, W: 8}
		}
		k := g.r.Range(1, 9)
		return &fault{rule: "constant wider than its type", bad: append([]string{fmt.Sprintf("%s %s[#%d] = 1;", t.Name(), g.nm(), t.W+k)}, voidTo8(k)...),
			good: []string{fmt.Sprintf("%s %s[#%d] = 1;", t.Name(), g.nm(), t.W)}}
	},
	func(g *faultGen) *fault { // order
		o := pick(g.r, []string{`order = "middle"`, `order = "Big"`, `order = 1`, `order = true`, `order = ""`, `order = "big", order = "big"`, `order = "little", order = "big"`})
		n := g.nm()
		return &fault{rule: "bad byte order", bad: []string{"uint16 " + n + " [" + o + "];"}, good: []string{"uint16 " + n + ` [order = "` + pick(g.r, []string{"big", "little"}) + `"];`}}
	},
	func(g *faultGen) *fault { // accessors on other types
		n, m := g.nm(), g.nm()
		ty := pick(g.r, []string{"string", "bytes", "uint8<2>", "string<2>"})
		if st := g.fixedStruct(); st != nil && g.r.Pct(30) {
			ty = st.Name
		}
		return &fault{rule: "accessor of a type that has none", bad: []string{ty + " " + n + " { get " + m + "(uint8): value; };"}, good: []string{ty + " " + n + ";"}}
	},
	func(g *faultGen) *fault { // accessor names and types
		n, m, q := g.nm(), g.nm(), g.nm()
		w := []string{"get " + m + "(uint8): value; ", "get " + q + "(uint8): value; "}
		switch g.r.N(6) {
		case 0:
			k := pick(g.r, []string{"get", "set"})
			return &fault{rule: "accessor twice", bad: []string{"uint8 " + n + " { " + k + " " + m + "(uint8): value; " + k + " " + m + "(uint8): value; };"},
				good: []string{"uint8 " + n + " { get " + m + "(uint8): value; set " + m + "(uint8): value; };"}}
		case 1:
			return &fault{rule: "getter and setter of different types", bad: []string{"uint8 " + n + " { get " + m + "(uint8): value; set " + m + "(uint16): value; };"},
				good: []string{"uint8 " + n + " { get " + m + "(uint16): value; set " + m + "(uint16): value; };"}}
		case 2:
			return &fault{rule: "accessor without a name", bad: []string{"uint8 " + n + " { get (uint8): value; };"}, good: []string{"uint8 " + n + " { " + w[0] + "};"}}
		case 3:
			return &fault{rule: "capitalised accessor", bad: []string{"uint8 " + n + " { get Z" + m + "(uint8): value; };"}, good: []string{"uint8 " + n + " { " + w[0] + "};"}}
		case 4:
			return &fault{rule: "accessor named as a field", bad: []string{"uint8 " + n + " { get " + n + "(uint8): value; };"}, good: []string{"uint8 " + n + " { " + w[0] + "};"}}
		}
		return &fault{rule: "accessor type", span: 1, bad: []string{"uint8 " + n + " { get " + m + "(" + pick(g.r, []string{"string", "bytes", "Zqqx", "uint8<2>", ""}) + "): value; };"}, good: []string{"uint8 " + n + " { " + w[0] + "};"}}
	},
	func(g *faultGen) *fault {
		n := g.nm()
		return &fault{rule: "capitalised field", bad: []string{"uint8 Z" + n + pick(g.r, []string{";", " = 1;"})}, good: []string{"uint8 " + n + ";"}}
	},
	func(g *faultGen) *fault { // literals out of range
		n := g.nm()
		h := pick(g.r, []string{"99999999999999999999", "0x10000000000000000", "18446744073709551616"})
		b := pick(g.r, []string{"uint64 %s = " + h + ";", "uint8 %s[" + h + "];", "uint8<" + h + "> %s;", "void [" + h + "];//%s"})
		return &fault{rule: "literal out of range", bad: []string{fmt.Sprintf(b, n)}, good: []string{"uint64 " + n + " = 0x7fffffffffffffff;"}}
	},
	func(g *faultGen) *fault { // syntax
		n := g.nm()
		b := pick(g.r, []string{"uint8 " + n, "uint8;;" + n, "uint8 " + n + "[;", "uint8 " + n + "];", "uint8 value;", "uint8 struct;", "uint8 1" + n + ";", "uint8 " + n + " =;", "uint8 @" + n + ";", "uint8< " + n + ";",
			"uint8<" + n + "> " + n + ";", "uint8 " + n + " [order];", "uint8 " + n + " [order = ];", "void;", "void " + n + "[1];", "uint8 " + n + " [order = \"big];", "uint8 " + n + " { get };", "uint8 " + n + " { get " + n + "x(uint8) value; };",
			"uint8 " + n + " { get " + n + "x(uint8): value + ; };", "uint8 " + n + " { get " + n + "x(uint8): other; };", "import \"x.bb\";", "package x;", "uint8 " + n + "[#];", "uint8 " + n + "[];", "uint8 " + n + "[1#];", "uint8 " + n + " 5;", "unit8 " + n + ".x;"})
		return &fault{rule: "syntax error", span: 1, bad: []string{b}, good: []string{"uint8 " + n + ";"}}
	},
	// ---- top level ----
	func(g *faultGen) *fault { // duplicate global names
		var names []string
		for _, d := range g.f.Defs {
			if d.En != nil {
				names = append(names, d.En.Name, d.En.Members[g.r.N(len(d.En.Members))].Name)
			} else {
				for _, s := range nestedStructs(d.St) {
					names = append(names, s.Name)
				}
			}
		}
		d, n := pick(g.r, names), g.tn()
		switch g.r.N(4) {
		case 0:
			return &fault{rule: "duplicate global name", top: true, bad: []string{"enum " + d + "[1] { " + n + "x; }"}, good: []string{"enum " + n + "[1] { " + n + "x; }"}}
		case 1:
			return &fault{rule: "duplicate global name", top: true, bad: []string{"enum " + n + "[1] {", n + "x;", d + ";", "}"}, off: 2, good: []string{"enum " + n + "[1] {", n + "x;", n + "y;", "}"}}
		case 2:
			return &fault{rule: "duplicate global name", top: true, bad: []string{"struct " + n + " {", "struct " + d + " { uint8 a; } b;", "}"}, off: 1, good: []string{"struct " + n + " {", "struct " + n + "x { uint8 a; } b;", "}"}}
		}
		return &fault{rule: "duplicate global name", top: true, bad: []string{"struct " + d + " { uint8 a; }"}, good: []string{"struct " + n + " { uint8 a; }"}}
	},
	func(g *faultGen) *fault {
		n := g.tn()
		if g.r.Pct(50) {
			return &fault{rule: "empty enum", top: true, bad: []string{"enum " + n + "[1] {" + pick(g.r, []string{"", ";", " ; ; "}) + "}"}, good: []string{"enum " + n + "[1] { ;" + n + "x; ; }"}}
		}
		return &fault{rule: "empty struct", top: true, bad: []string{"struct " + n + " {" + pick(g.r, []string{"", ";", " ; ; "}) + "}"}, good: []string{"struct " + n + " {; uint8 a; ; }"}}
	},
	func(g *faultGen) *fault {
		n, l := g.tn(), g.nm()
		switch g.r.N(4) {
		case 0:
			return &fault{rule: "uncapitalised enum", top: true, bad: []string{"enum " + l + "[1] { " + n + "x; }"}, good: []string{"enum " + n + "[1] { " + n + "x; }"}}
		case 1:
			return &fault{rule: "uncapitalised enum value", top: true, off: 1, bad: []string{"enum " + n + "[1] {", l + ";", "}"}, good: []string{"enum " + n + "[1] {", n + "x;", "}"}}
		case 2:
			return &fault{rule: "uncapitalised inner struct", top: true, off: 1, bad: []string{"struct " + n + " {", "struct " + l + " { uint8 a; } b;", "}"}, good: []string{"struct " + n + " {", "struct " + n + "x { uint8 a; } b;", "}"}}
		}
		return &fault{rule: "uncapitalised struct", top: true, bad: []string{"struct " + l + " { uint8 a; }"}, good: []string{"struct " + n + " { uint8 a; }"}}
	},
	func(g *faultGen) *fault {
		n := g.tn()
		h := pick(g.r, []string{"[0]", "[#0]", "[]", "", "[1#]", "[x]"})
		return &fault{rule: "bad enum width", top: true, bad: []string{"enum " + n + h + " { " + n + "x; }"}, span: 1, good: []string{"enum " + n + "[#1] { " + n + "x; }"}}
	},
	func(g *faultGen) *fault {
		n := g.tn()
		v := pick(g.r, []string{"1.5", "\"a\"", "true", "-1", "-5", "-200", "ZQQX", n, n + "x", "99999999999999999999"})
		if len(g.strs) > 0 && g.r.Pct(20) {
			v = pick(g.r, g.strs).Name
		}
		gv := "1"
		if len(g.enums) > 0 {
			gv = pick(g.r, pick(g.r, g.enums).Members).Name
		}
		return &fault{rule: "bad enum value", top: true, off: 2, bad: []string{"enum " + n + "[4] {", n + "x;", n + "y = " + v + ",", "}"}, good: []string{"enum " + n + "[4] {", n + "x;", n + "y = " + gv + ",", "}"}}
	},
	func(g *faultGen) *fault { // options
		if len(g.f.Options) > 0 && g.r.Pct(40) {
			o := pick(g.r, g.f.Options)
			return &fault{rule: "duplicate option", top: true, bad: []string{"option " + o[0] + " = " + o[1] + ";"}, good: []string{"option zq_unknown = 1;"}}
		}
		var have = map[string]bool{}
		for _, o := range g.f.Options {
			have[o[0]] = true
		}
		var free []string
		for _, o := range []string{"go_package", "cpp_namespace", "csharp_namespace", "java_package", "kotlin_package", "omit_empty"} {
			if !have[o] {
				free = append(free, o)
			}
		}
		o := pick(g.r, free)
		bad, good := pick(g.r, []string{"1", "true", "1.5"}), `"zq.zqa"`
		if o == "omit_empty" {
			bad, good = pick(g.r, []string{"1", `"true"`, "1.5"}), pick(g.r, []string{"true", "false"})
		}
		if o == "cpp_namespace" {
			good = `"zq::a"`
		}
		return &fault{rule: "option of another type", top: true, bad: []string{"option " + o + " = " + bad + ";"}, good: []string{"option " + o + " = " + good + ";"}}
	},
	func(g *faultGen) *fault {
		return &fault{rule: "second package statement", top: true, bad: []string{"package " + pick(g.r, []string{g.f.Pkg, "zq.other"}) + ";"}, good: []string{";"}}
	},
	func(g *faultGen) *fault {
		n := g.tn()
		b := pick(g.r, []string{"struct " + n + " { uint8 a; ", "struct " + n + " uint8 a; }", "struct { uint8 a; }", "enum " + n + "[1] { " + n + "x }", "uint8 a;", "struct " + n + "[2 { uint16 a; }", "import x;", "option x;", "option x = ;", "enum " + n + "[1] " + n + "x; }", "}", "struct " + n + " { uint8 a; }}", "xyz", "struct " + n + " < { uint8 a; }"})
		return &fault{rule: "syntax error at top level", top: true, span: 400, bad: []string{b}, good: []string{"struct " + n + "{uint8 a;}"}}
	},
	func(g *faultGen) *fault { // one name twice in a struct, however it gets there
		// intro gives definitions and the element through which a struct gets the name x
		var intro func(x string, depth int) (defs []string, elem string)
		intro = func(x string, depth int) ([]string, string) {
			k := g.r.N(7)
			if depth == 0 {
				k = g.r.N(5)
			}
			switch k {
			case 0:
				return nil, pick(g.r, []string{"uint8", "string", "bytes", "float64", "bool", "int16<3>"}) + " " + x + ";"
			case 1:
				return nil, "uint8 " + x + " = 1;"
			case 2, 3, 4:
				m := pick(g.r, []string{"get %s(uint8): value;", "set %s(uint8): value;", "get %s(uint16): value; set %s(uint16): value;"})
				m = strings.ReplaceAll(m, "%s", x)
				if g.r.Pct(30) {
					m = "get " + g.nm() + "(bool): value > 1; " + m
				}
				return nil, "uint8 " + g.nm() + " { " + m + " };"
			case 5: // embed by name
				d, e := intro(x, depth-1)
				t := g.tn()
				return append(d, "struct "+t+" { "+pick(g.r, []string{"", "uint8 " + g.nm() + "; "})+e+" }"), t + ";"
			}
			d, e := intro(x, depth-1)
			return d, "struct " + g.tn() + " { " + pick(g.r, []string{"", "uint8 " + g.nm() + "; "}) + e + " };"
		}
		x, y := g.nm(), g.nm()
		d1, e1 := intro(x, 2)
		d2, e2 := intro(x, 2)
		if strings.Contains(e2, y) || strings.Contains(strings.Join(d2, ""), y) {
			return nil
		}
		defs := append(d1, d2...)
		h := g.tn()
		bad := append(append([]string{}, defs...), "struct "+h+" {", e1, e2, "}")
		var good []string
		for i, l := range bad {
			if i >= len(d1) && i < len(defs) || i == len(defs)+2 {
				l = strings.ReplaceAll(l, x, y)
			}
			good = append(good, l)
		}
		return &fault{rule: "one name twice in a struct", top: true, bad: bad, good: good, off: len(defs) + 2}
	},
	func(g *faultGen) *fault { // one struct embedded twice
		t, u, h := g.tn(), g.tn(), g.tn()
		e := pick(g.r, []string{t + ";", u + ";"})
		bad := []string{"struct " + t + " { void [1]; }", "struct " + u + " { " + t + "; void [1]; }", "struct " + h + " {", t + ";", "uint8 " + g.nm() + ";", e, "}"}
		good := append([]string{}, bad...)
		good[5] = "void [1];"
		return &fault{rule: "struct embedded twice", top: true, bad: bad, good: good, off: 5}
	},
	func(g *faultGen) *fault {
		return &fault{rule: "no package statement", top: true, nop: true}
	},
}

func nestedStructs(s *Struct) []*Struct {
	out := []*Struct{s}
	for _, f := range s.Fields {
		if f.K == FEmbedDef {
			out = append(out, nestedStructs(f.Emb)...)
		}
		if f.Inline {
			out = append(out, nestedStructs(baseType(f.T).St)...)
		}
	}
	return out
}

// used reports the structs other definitions refer to.
func usedStructs(p *Program) map[*Struct]bool {
	u := map[*Struct]bool{}
	var walk func(s *Struct)
	walk = func(s *Struct) {
		for _, f := range s.Fields {
			if f.Emb != nil {
				if f.K == FEmbedRef {
					u[f.Emb] = true
				} else {
					walk(f.Emb)
				}
			}
			if f.T != nil {
				if st := baseType(f.T).St; st != nil {
					if f.Inline {
						walk(st)
					} else {
						u[st] = true
					}
				}
			}
		}
	}
	for _, f := range p.Files {
		for _, d := range f.Defs {
			if d.St != nil {
				walk(d.St)
			}
		}
	}
	return u
}

// genFault plants one fault in a copy of the program's text.
func genFault(r *Rng, p *Program) (bad, good *CliCase) {
	used := usedStructs(p)
	type host struct {
		f *File
		i int
	}
	var hs []host
	for _, f := range p.Files {
		for i, d := range f.Defs {
			if d.St != nil && !used[d.St] {
				hs = append(hs, host{f, i})
			}
		}
	}
	if len(hs) == 0 {
		return nil, nil
	}
	h := pick(r, hs)
	g := &faultGen{r: r, f: h.f, s: h.f.Defs[h.i].St}
	for _, d := range h.f.Defs[:h.i] {
		if d.En != nil {
			g.enums = append(g.enums, d.En)
		} else {
			g.strs = append(g.strs, d.St)
		}
	}
	var ft *fault
	for ft == nil {
		ft = pick(r, faults)(g)
	}
	fs := filesOf(p, "in")
	path := "in/" + h.f.Path
	text := strings.Split(strings.TrimRight(fs[path], "\n"), "\n")
	hdr := -1
	for i, l := range text {
		if strings.HasPrefix(l, "struct "+g.s.Name) && strings.HasPrefix(strings.TrimPrefix(l, "struct "+g.s.Name), g.s.DeclSize+" {") {
			hdr = i
		}
	}
	if hdr < 0 {
		return nil, nil
	}
	end := hdr + 1
	for text[end] != "}" {
		end++
	}
	mk := func(ins []string, isBad bool) *CliCase {
		var out []string
		at := 0 // line of the first inserted line, from 1
		line := 0
		switch {
		case ft.nop:
			for _, l := range text {
				if isBad && strings.HasPrefix(l, "package ") {
					continue
				}
				out = append(out, l)
			}
		case ft.top:
			i := len(text)
			if ft.pre {
				i = 1 + len(h.f.Options) + len(h.f.ImpText)
			} else if r.Pct(30) {
				i = end + 1
			}
			out = append(out, text[:i]...)
			at = i + 1
			out = append(out, ins...)
			out = append(out, text[i:]...)
		default:
			i := hdr + 1
			if ft.end || r.Pct(50) {
				i = end
			}
			out = append(out, text[:i]...)
			size := ft.hdr[0]
			if !isBad {
				size = ft.hdr[1]
			}
			out[hdr] = "struct " + g.s.Name + size + " {"
			pre, post := []string(nil), []string(nil)
			if ft.hdr[0] == "" && !ft.end && r.Pct(25) {
				pre, post = []string{"struct " + g.tn() + " {"}, []string{"} " + pick(r, []string{g.nm(), ""}) + ";"}
				if ft.off == -1 {
					line = i + 1
				}
			}
			at = i + 1 + len(pre)
			out = append(out, pre...)
			for _, l := range ins {
				out = append(out, "    "+l)
			}
			out = append(out, post...)
			out = append(out, text[i:]...)
		}
		if line == 0 {
			line = at + ft.off
			if ft.off == -1 {
				line = hdr + 1
			}
		}
		nf := map[string]string{}
		for k, v := range fs {
			nf[k] = v
		}
		nf[path] = strings.Join(out, "\n") + "\n"
		c := &CliCase{Files: nf, Want: "accept", Rule: "inside the rule: " + ft.rule}
		if isBad {
			c.Want, c.Rule = "reject", ft.rule
			if ft.nop || ft.off == -1 && ft.hdr[0] == "" { // the latter: any field moved by it, those of embedded structs included
				c.Where = []string{path}
				c.NoPos = true
			} else {
				span := ft.span
				for k := 0; k <= span && line+k <= len(out)+1; k++ {
					c.Where = append(c.Where, path+":"+strconv.Itoa(line+k))
				}
			}
		}
		t := pick(r, targetsFor(p))
		if t == "kt" && strings.Contains(strings.Join(ins, " "), "set ") { // no setter without a getter there
			t = "java"
		}
		c.Args = append([]string{"-t", t, "-o", "out"}, randOpts(r, t, true)...)
		c.Args = append(dropOpt(c.Args, "-single"), "in/"+p.Files[0].Path)
		return c
	}
	return mk(ft.bad, true), mk(ft.good, false)
}

var kotlinToo = append(append([]string{}, allTargets...), "kt")

// targetsFor leaves Kotlin out where its documented limit applies: no accessor may be written only.
func targetsFor(p *Program) []string {
	var all []*Struct
	for _, s := range p.Structs() {
		all = append(all, nestedStructs(s)...)
	}
	for _, s := range all {
		for _, f := range s.Fields {
			has := map[string]bool{}
			for _, m := range f.Methods {
				if m.Get {
					has[m.Name] = true
				}
			}
			for _, m := range f.Methods {
				if !has[m.Name] {
					return allTargets
				}
			}
		}
	}
	return kotlinToo
}

func init() {
	checks["C14"] = func(c *Ctx) {
		c.Rule = "a case is a generated schema (one file or several) given to the command: as it is (must be accepted and written), with one rule broken at a known line (must be rejected naming that file and line, with nothing written), or with a change that stays just inside the rule (must be accepted); distinct by text and arguments"
		n := c.n(60, 1500)
		var cs []*CliCase
		for i := 0; i < n; i++ {
			r := c.R.Sub(uint64(i))
			g := cfgFor(r)
			g.Structs = r.Range(3, 9)
			g.Methods = r.Pct(40)
			g.Enums = r.Pct(20)
			var p *Program
			if r.Pct(30) {
				p = SplitProgram(r, GenProgram(r, g), SplitCfg{Files: r.Range(2, 5)})
			} else {
				p = GenProgram(r, g)
			}
			c.classify(p)
			for _, t := range targetsFor(p) {
				if r.Pct(25) {
					args := append([]string{"-t", t, "-o", "out"}, dropOpt(randOpts(r, t, true), "-single")...)
					cs = append(cs, &CliCase{Files: filesOf(p, "in"), Args: append(args, "in/"+p.Files[0].Path), Want: "accept", Rule: "valid schema"})
				}
			}
			for k := 0; k < 22; k++ {
				if b, g := genFault(r, p); b != nil {
					cs = append(cs, b, g)
				}
			}
		}
		c.runCliCases(cs)
	}
}
