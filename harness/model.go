package main

// The schema model: what a .bb file says, independent of the code under test.

import (
	"fmt"
	"strings"
)

type TK int

const (
	KBool TK = iota
	KInt
	KFloat
	KString
	KBytes
	KEnum
	KStruct
	KArray
)

type Type struct {
	K      TK
	W      int  // host width in bits (ints, floats)
	Signed bool // ints
	En     *Enum
	St     *Struct
	Elem   *Type
	N      int
}

func (t *Type) Basic() bool { return t.K == KBool || t.K == KInt || t.K == KFloat }

func (t *Type) Name() string {
	switch t.K {
	case KBool:
		return "bool"
	case KInt:
		if t.Signed {
			return fmt.Sprintf("int%d", t.W)
		}
		return fmt.Sprintf("uint%d", t.W)
	case KFloat:
		return fmt.Sprintf("float%d", t.W)
	case KString:
		return "string"
	case KBytes:
		return "bytes"
	case KEnum:
		return t.En.Name
	case KStruct:
		return t.St.Name
	case KArray:
		return fmt.Sprintf("%s<%d>", t.Elem.Name(), t.N)
	}
	return "?"
}

// TypeBits is the natural wire width of a fixed-size type.
func (t *Type) TypeBits() int {
	switch t.K {
	case KBool:
		return 8
	case KInt, KFloat:
		return t.W
	case KEnum:
		return t.En.Bits
	case KStruct:
		return t.St.FixedBits()
	case KArray:
		return t.N * t.Elem.TypeBits()
	}
	return 0
}

func (t *Type) Dynamic() bool {
	switch t.K {
	case KString, KBytes:
		return true
	case KStruct:
		return t.St.Dynamic()
	case KArray:
		return t.Elem.Dynamic()
	}
	return false
}

// needsAlign: struct, string and bytes fields (and arrays of them) start on a byte.
func (t *Type) needsAlign() bool {
	switch t.K {
	case KString, KBytes, KStruct:
		return true
	case KArray:
		return t.Elem.needsAlign()
	}
	return false
}

type EnumMember struct {
	Name string
	Val  int64
	Spec string // text after the name: "", " = 3", " = OTHER"
}

type Enum struct {
	Name     string
	Bits     int
	SizeText string
	Members  []EnumMember
	File     *File
}

type FK int

const (
	FNormal FK = iota
	FConst
	FVoid
	FEmbedRef
	FEmbedDef
)

type ConstVal struct {
	Text string // as written
	Raw  uint64 // bits at host width
	Enum bool   // written as an enum member
}

type Method struct {
	Get  bool
	Name string
	W    []string // words of the name
	Ret  *Type
	E    *Expr
}

type Field struct {
	K        FK
	Name     string   // as spelled; "" for unnamed
	Words    []string // lower-case words of the name
	T        *Type
	Inline   bool // struct definition written inline as the field's type
	Bits     int  // wire width; 0 for dynamic
	SizeText string
	Order    string // "", "big", "little"
	Const    *ConstVal
	Emb      *Struct
	Methods  []*Method
}

func (f *Field) Big() bool { return f.Order == "big" }

type Struct struct {
	Name     string
	Fields   []*Field
	DeclSize string // "" or "[n]"
	File     *File
	Nested   bool // defined inside another struct (not referable elsewhere)
}

// Flat is the field list with embedded structs expanded, as promoted.
func (s *Struct) Flat() []*Field {
	var out []*Field
	for _, f := range s.Fields {
		if f.K == FEmbedRef || f.K == FEmbedDef {
			out = append(out, f.Emb.Flat()...)
		} else {
			out = append(out, f)
		}
	}
	return out
}

// Vals is the list of fields that carry values.
func (s *Struct) Vals() []*Field {
	var out []*Field
	for _, f := range s.Flat() {
		if f.K == FNormal {
			out = append(out, f)
		}
	}
	return out
}

func (s *Struct) FixedBits() int {
	n := 0
	for _, f := range s.Flat() {
		n += f.FixedBits()
	}
	return n
}

func (f *Field) FixedBits() int {
	if f.K == FEmbedRef || f.K == FEmbedDef {
		return f.Emb.FixedBits()
	}
	if f.T != nil && f.T.Dynamic() {
		return f.T.dynFixedBits()
	}
	return f.Bits
}

// dynFixedBits: the fixed part contributed by a dynamic type.
func (t *Type) dynFixedBits() int {
	switch t.K {
	case KString, KBytes:
		return 0
	case KStruct:
		return 0
	case KArray:
		return 0
	}
	return 0
}

func (s *Struct) Dynamic() bool {
	for _, f := range s.Flat() {
		if f.K == FNormal && f.T.Dynamic() {
			return true
		}
	}
	return false
}

// MinSize is the least encoded size in bytes.
func (s *Struct) MinSize() int {
	n := 0
	bits := 0
	for _, f := range s.Flat() {
		if f.K == FNormal && f.T.Dynamic() {
			n += f.T.minSize()
		} else {
			bits += f.Bits
		}
	}
	return n + bits/8
}

func (t *Type) minSize() int {
	switch t.K {
	case KString, KBytes:
		return 1
	case KStruct:
		return t.St.MinSize()
	case KArray:
		return t.N * t.Elem.minSize()
	}
	return t.TypeBits() / 8
}

// Direct struct dependencies (by reference, not inline).
func (s *Struct) allFields() []*Field {
	var out []*Field
	for _, f := range s.Fields {
		out = append(out, f)
		if f.K == FEmbedDef {
			out = append(out, f.Emb.allFields()...)
		}
		if f.K == FNormal && f.Inline {
			out = append(out, baseType(f.T).St.allFields()...)
		}
	}
	return out
}

func baseType(t *Type) *Type {
	for t.K == KArray {
		t = t.Elem
	}
	return t
}

type Def struct {
	En *Enum
	St *Struct
}

type File struct {
	Path    string // relative to the schema root, e.g. "sub/x.bb"
	Pkg     string
	Options [][2]string
	Imports []*File
	ImpText []string
	Defs    []Def
}

type Program struct {
	Files []*File // Files[0] is the one compiled
}

func (p *Program) Structs() []*Struct {
	var out []*Struct
	for i := len(p.Files) - 1; i >= 0; i-- {
		for _, d := range p.Files[i].Defs {
			if d.St != nil {
				out = append(out, d.St)
			}
		}
	}
	return out
}

// AllStructs includes structs defined inline.
func (p *Program) AllStructs() []*Struct {
	var out []*Struct
	var walk func(s *Struct, emb bool)
	walk = func(s *Struct, emb bool) {
		for _, f := range s.Fields {
			if f.K == FEmbedDef {
				walk(f.Emb, true)
			}
			if f.K == FNormal && f.Inline {
				walk(baseType(f.T).St, false)
			}
		}
		if !emb { // a struct embedded by definition has no type of its own
			out = append(out, s)
		}
	}
	for _, s := range p.Structs() {
		walk(s, false)
	}
	return out
}

func (p *Program) Enums() []*Enum {
	var out []*Enum
	for i := len(p.Files) - 1; i >= 0; i-- {
		for _, d := range p.Files[i].Defs {
			if d.En != nil {
				out = append(out, d.En)
			}
		}
	}
	return out
}

// ---- emission ----

func (e *Enum) Emit(sb *strings.Builder) {
	fmt.Fprintf(sb, "enum %s%s {\n", e.Name, e.SizeText)
	for _, m := range e.Members {
		fmt.Fprintf(sb, "    %s%s,\n", m.Name, m.Spec)
	}
	sb.WriteString("}\n")
}

func (s *Struct) EmitBody(sb *strings.Builder, ind string) {
	fmt.Fprintf(sb, "struct %s%s {\n", s.Name, s.DeclSize)
	for _, f := range s.Fields {
		sb.WriteString(ind + "    ")
		f.Emit(sb, ind+"    ")
		sb.WriteString("\n")
	}
	sb.WriteString(ind + "}")
}

func (f *Field) Emit(sb *strings.Builder, ind string) {
	switch f.K {
	case FVoid:
		fmt.Fprintf(sb, "void %s;", f.SizeText)
		return
	case FEmbedRef:
		fmt.Fprintf(sb, "%s;", f.Emb.Name)
		return
	case FEmbedDef:
		f.Emb.EmitBody(sb, ind)
		sb.WriteString(";")
		return
	}
	if f.Inline {
		bt := baseType(f.T)
		bt.St.EmitBody(sb, ind)
		if f.T.K == KArray {
			fmt.Fprintf(sb, "<%d>", f.T.N)
		}
	} else {
		sb.WriteString(f.T.Name())
	}
	if f.Name != "" {
		sb.WriteString(" " + f.Name)
	}
	if f.SizeText != "" {
		sb.WriteString(f.SizeText)
	}
	if f.K == FConst {
		sb.WriteString(" = " + f.Const.Text)
	}
	if f.Order != "" {
		fmt.Fprintf(sb, " [order = \"%s\"]", f.Order)
	}
	if len(f.Methods) > 0 {
		sb.WriteString(" {")
		for _, m := range f.Methods {
			k := "set"
			if m.Get {
				k = "get"
			}
			fmt.Fprintf(sb, " %s %s(%s): %s;", k, m.Name, m.Ret.Name(), m.E.Text())
		}
		sb.WriteString(" }")
	}
	sb.WriteString(";")
}

func (fl *File) Emit() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s;\n", fl.Pkg)
	for _, o := range fl.Options {
		fmt.Fprintf(&sb, "option %s = %s;\n", o[0], o[1])
	}
	for i := range fl.ImpText {
		fmt.Fprintf(&sb, "import \"%s\";\n", fl.ImpText[i])
	}
	for _, d := range fl.Defs {
		if d.En != nil {
			d.En.Emit(&sb)
		} else {
			d.St.EmitBody(&sb, "")
			sb.WriteString("\n")
		}
	}
	return sb.String()
}

func sizeText(bits int, r *Rng) string {
	if bits%8 == 0 {
		switch {
		case r != nil && r.Pct(20):
			return fmt.Sprintf("[#%d]", bits)
		case r != nil && r.Pct(10) && bits >= 16:
			return fmt.Sprintf("[%d#8]", bits/8-1)
		}
		return fmt.Sprintf("[%d]", bits/8)
	}
	if bits > 8 && (r == nil || r.Pct(60)) {
		return fmt.Sprintf("[%d#%d]", bits/8, bits%8)
	}
	return fmt.Sprintf("[#%d]", bits)
}

// ---- names ----

func snake(w []string) string { return strings.Join(w, "_") }
func camel(w []string) string {
	s := w[0]
	for _, x := range w[1:] {
		s += strings.ToUpper(x[:1]) + x[1:]
	}
	return s
}
func pascal(w []string) string {
	s := ""
	for _, x := range w {
		s += strings.ToUpper(x[:1]) + x[1:]
	}
	return s
}
