package main

// Random generators for schemas and values.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// GenCfg steers the schema generator.
type GenCfg struct {
	Structs   int
	Methods   bool // custom accessors
	Dyn       int  // percent of structs allowed to have dynamic fields
	Const     int  // weight of constants
	Embed     int  // weight of embedded structs
	NestW     int  // weight of struct-typed fields
	MaxFields int
	Simple    bool // no odd name spellings
	Common    int  // percent of field names taken from commonNames
	Enums     bool // mostly enums: more members, shared and wide values
	Pkg       string
}

func DefaultCfg() GenCfg {
	return GenCfg{Structs: 30, Dyn: 55, Const: 10, Embed: 7, NestW: 14, MaxFields: 8, Common: 12, Pkg: "vp.gen"}
}

type Gen struct {
	r    *Rng
	cfg  GenCfg
	ctr  int
	tctr int
	// referable so far
	enums   []*Enum
	structs []*Struct
	members []memberRef
	file    *File
	common  []string // names not used yet
	commonT []string
}

type memberRef struct {
	e *Enum
	m EnumMember
}

func b26(n, l int) string {
	b := make([]byte, l)
	for i := l - 1; i >= 0; i-- {
		b[i] = byte('a' + n%26)
		n /= 26
	}
	return string(b)
}

// commonNames are field names that messages really have and that generated
// code is likely to use for its own variables, parameters and helpers. They are
// no keywords of any target and do not collide with the generated methods
// (size, encode, decode, dynamic, ...), which the compiler does not guard
// against.
var commonNames = strings.Fields(`data length offset start buf buffer ptr other
 result index name type id key count flags version temp shift part obj hash ret
 len span src dst begin end props properties json str list width mask i j v n e
 x s t stream text values input output num tmp val bits idx elem item read write
 sub sub_size dyn_size msg message parent field body header payload checksum
 reserved timestamp level source target start_offset end_offset ok err error
 items map filter slice push min max abs copy clone merge clear reset init run
 call apply bind constructor prototype arguments param root next prev node left
 right top bottom first last pow str_len byte_len bit sign sig exp raw low high
 word half memory_data method a b c d`)

func (g *Gen) fieldName() (string, []string) {
	g.ctr++
	if g.r.Pct(g.cfg.Common) && !g.cfg.Simple {
		if g.common == nil {
			g.common = append([]string{}, commonNames...)
		}
		if n := len(g.common); n > 0 {
			k := g.r.N(n)
			w := g.common[k]
			g.common[k] = g.common[n-1]
			g.common = g.common[:n-1]
			return w, strings.Split(w, "_")
		}
	}
	id := b26(g.ctr, 3)
	if g.cfg.Simple {
		w := []string{"f" + id}
		if g.r.Pct(45) {
			w = append(w, pick(g.r, nameTails)...)
		}
		return snake(w), w
	}
	return g.spell("f" + id)
}

var nameTails = [][]string{{"len"}, {"pos"}, {"raw"}, {"xx"}, {"low"}}

// oddTails: single letters, digits and acronyms.
var oddTails = [][]string{{"x"}, {"2"}, {"x1"}, {"x", "y"}, {"h", "t", "t", "p"}, {"i", "d", "len"}, {"1", "2"}, {"ms"}, {"16", "b"}, {"a", "2", "z"}}

// spell makes up a name that begins with the word id and one of the spellings
// the schema language allows for it: words joined by underscores or written in
// camel case, or by a mixture of both.
func (g *Gen) spell(id string) (string, []string) {
	r := g.r
	if r.Pct(8) {
		id += strconv.Itoa(r.N(30))
	}
	w := []string{id}
	switch r.W(50, 32, 18) {
	case 1:
		w = append(w, pick(r, nameTails)...)
	case 2:
		w = append(w, pick(r, oddTails)...)
	}
	mode := r.W(55, 25, 20)
	s := w[0]
	for _, x := range w[1:] {
		up := strings.ToUpper(x[:1]) + x[1:]
		digit := x[0] >= '0' && x[0] <= '9'
		sep := mode == 0 || mode == 2 && r.Pct(50) || digit
		switch {
		case sep && mode == 2 && r.Pct(30):
			s += "__" + x
		case sep && mode == 2 && r.Pct(30):
			s += "_" + up
		case sep:
			s += "_" + x
		default:
			s += up
		}
	}
	if r.Pct(3) {
		s += "_"
		w[len(w)-1] += "_"
	}
	return s, w
}

// commonTypes are names messages really have, none of them a type of a
// target's standard library or, but for its case, one of commonNames (C# does
// not allow a member to be called like its class).
var commonTypes = strings.Fields(`Point Color Status Packet Config Entry Event Value Frame Request Response Session Channel Vector
 Matrix Info Kind Mode State Codec Helper Heartbeat Telemetry Pose Motor Sensor
 Battery Gps Imu Log Command Ack Chunk Segment Device User Address`)

func (g *Gen) typeName(p string) string {
	g.tctr++
	if g.r.Pct(g.cfg.Common) && !g.cfg.Simple {
		if g.commonT == nil {
			g.commonT = append([]string{}, commonTypes...)
		}
		if n := len(g.commonT); n > 0 {
			k := g.r.N(n)
			w := g.commonT[k]
			g.commonT[k] = g.commonT[n-1]
			g.commonT = g.commonT[:n-1]
			return w
		}
	}
	n := p + b26(g.tctr, 2)
	if !g.cfg.Simple && g.r.Pct(15) {
		n += pick(g.r, []string{"2", "X", "XYZ", "_T", "Ex1", "_v2", "64Bit"})
	}
	return n
}

var intW = []int{8, 16, 32, 64}

func (g *Gen) basic() *Type {
	switch g.r.W(16, 60, 14) {
	case 0:
		return &Type{K: KBool}
	case 1:
		return &Type{K: KInt, W: pick(g.r, intW), Signed: g.r.Pct(50)}
	default:
		return &Type{K: KFloat, W: pick(g.r, []int{32, 64})}
	}
}

// width picks a wire width for a basic or enum type of natural width w.
func (g *Gen) width(t *Type) int {
	w := t.TypeBits()
	switch g.r.W(40, 30, 20, 10) {
	case 0:
		return w
	case 1:
		return g.r.Range(1, w)
	case 2: // whole bytes, narrower
		if w > 8 {
			return 8 * g.r.Range(1, w/8)
		}
		return g.r.Range(1, w)
	default: // near the ends
		return pick(g.r, []int{1, max(1, w-1), min(w, 9), min(w, 7)})
	}
}

func (g *Gen) size(f *Field, nat int) {
	if f.Bits != nat || g.r.Pct(15) {
		f.SizeText = sizeText(f.Bits, g.r)
	}
}

func (g *Gen) order(f *Field) {
	switch g.r.W(62, 33, 5) {
	case 1:
		f.Order = "big"
	case 2:
		f.Order = "little"
	}
}

func (g *Gen) Enum() *Enum {
	e := &Enum{Name: g.typeName("E"), File: g.file}
	lim := 31
	if g.cfg.Enums {
		lim = 32
	}
	switch g.r.W(40, 40, 20) {
	case 0:
		e.Bits = 8 * g.r.Range(1, min(3, lim/8))
	case 1:
		e.Bits = g.r.Range(2, min(16, lim))
	default:
		e.Bits = g.r.Range(1, lim)
	}
	e.SizeText = sizeText(e.Bits, g.r)
	n := g.r.Range(1, 5)
	if e.Bits < 3 {
		n = g.r.Range(1, 1<<uint(e.Bits))
	} else if g.cfg.Enums {
		n = g.r.Range(1, min(14, 1<<uint(e.Bits)))
	}
	dup := g.cfg.Enums && g.r.Pct(25)
	used := map[int64]bool{}
	next := int64(0)
	for i := 0; i < n; i++ {
		m := EnumMember{Name: strings.ToUpper(fmt.Sprintf("%s_M%s", e.Name, b26(i, 1)))}
		if dup && g.r.Pct(40) {
			used = map[int64]bool{}
		}
		auto := !used[next] && uint64(next) <= mask(e.Bits)
		// a reference to an earlier enum member (of another enum)
		var refs []memberRef
		for _, mr := range g.members {
			if uint64(mr.m.Val) <= mask(e.Bits) && !used[mr.m.Val] {
				refs = append(refs, mr)
			}
		}
		switch {
		case auto && g.r.Pct(45):
			m.Val = next
		case len(refs) > 0 && g.r.Pct(20):
			mr := pick(g.r, refs)
			m.Val = mr.m.Val
			m.Spec = " = " + mr.m.Name
		default:
			for {
				var v uint64
				if g.r.Pct(30) {
					v = mask(e.Bits) - uint64(g.r.N(2))
				} else {
					v = g.r.U64() & mask(min(e.Bits, g.r.Range(1, 31)))
				}
				v &= mask(e.Bits)
				if !used[int64(v)] {
					m.Val = int64(v)
					break
				}
			}
			m.Spec = " = " + g.intText(uint64(m.Val), false)
		}
		used[m.Val] = true
		next = m.Val + 1
		e.Members = append(e.Members, m)
	}
	return e
}

func (g *Gen) intText(u uint64, neg bool) string {
	s := ""
	switch g.r.W(50, 40, 10) {
	case 0:
		s = strconv.FormatUint(u, 10)
	case 1:
		s = "0x" + strings.ToUpper(strconv.FormatUint(u, 16))
		if g.r.Pct(30) {
			s = strings.ToLower(s)
		}
	default:
		s = "0" + strconv.FormatUint(u, 8)
	}
	if neg {
		return "-" + s
	}
	if g.r.Pct(4) {
		return "+" + s
	}
	return s
}

// floatText writes a finite float constant in one of the forms the language has.
func (g *Gen) floatText(w int) string {
	r := g.r
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.N(10))
		}
		return string(b)
	}
	for {
		var s string
		switch r.W(25, 20, 30, 15, 10) {
		case 0:
			s = pick(r, []string{"0.0", "1.0", "1.5", "-2.25", "3.25", "0.5", "1024.0", "-0.125", "123456.75", "1.5e3", "2.0E2", "-0.0"})
		case 1:
			s = pick(r, []string{"0.1", "3.141592653589793", "2.718281828", "1e-7", ".5", "5.", "0.30000000000000004", "1e21", "1e22", "123456789012345680.0", "1e15", "1e16", "1e17", "1e6", "1e7", "0.0001", "0.00001", "16777217.0", "9007199254740993.0", "1.e-3", "00.5", "007.25", "3.4028234663852886e38", "1.17549435e-38", "1e-45", "65504.0"})
		case 2: // a decimal
			s = digits(r.N(8)) + "." + digits(r.Range(1, 12))
		case 3: // with exponent
			s = digits(r.Range(1, 5))
			switch r.N(3) {
			case 0:
				s += "." + digits(r.N(9))
			case 1:
				s = "." + s
			}
			s += pick(r, []string{"e", "E"}) + pick(r, []string{"", "+", "-"}) + strconv.Itoa(r.N(45))
		default: // any value
			u := r.U64()
			f := math.Float64frombits(u)
			if w == 32 {
				f = float64(math.Float32frombits(uint32(u)))
			}
			if f != f || math.IsInf(f, 0) {
				continue
			}
			s = strings.TrimPrefix(strconv.FormatFloat(f, pick(r, []byte{'e', 'E'}), -1, 64), "-")
		}
		if s[0] != '-' && r.Pct(25) {
			s = pick(r, []string{"-", "-", "-", "+"}) + s
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || w == 32 && math.IsInf(float64(float32(f)), 0) {
			continue
		}
		return s
	}
}

// constant of type t in bits wire bits
func (g *Gen) constVal(t *Type, bits int) *ConstVal {
	r := g.r
	switch t.K {
	case KBool:
		if r.Pct(50) {
			return &ConstVal{Text: "true", Raw: 1}
		}
		return &ConstVal{Text: "false", Raw: 0}
	case KFloat:
		s := g.floatText(t.W)
		f, _ := strconv.ParseFloat(s, 64)
		if t.W == 32 {
			return &ConstVal{Text: s, Raw: uint64(math.Float32bits(float32(f)))}
		}
		return &ConstVal{Text: s, Raw: math.Float64bits(f)}
	}
	// ints: keep the value representable in the wire width
	if len(g.members) > 0 && (r.Pct(20) || g.cfg.Enums && r.Pct(70)) {
		mr := pick(r, g.members)
		lim := bits
		if t.Signed {
			lim--
		}
		if uint64(mr.m.Val) <= mask(lim) {
			return &ConstVal{Text: mr.m.Name, Raw: uint64(mr.m.Val), Enum: true}
		}
	}
	var u uint64
	switch r.W(40, 30, 30) {
	case 0:
		u = r.U64() & mask(bits)
	case 1:
		u = r.U64() & mask(min(bits, 7))
	default:
		u = pick(r, []uint64{0, 1, mask(bits), mask(bits) - 1, 1 << uint(bits-1), mask(bits) >> 1}) & mask(bits)
	}
	if t.Signed {
		s := sext(u, bits)
		if s == math.MinInt64 {
			s++
		}
		if s < 0 {
			return &ConstVal{Text: g.intText(uint64(-s), true), Raw: uint64(s) & mask(t.W)}
		}
		return &ConstVal{Text: g.intText(uint64(s), false), Raw: uint64(s)}
	}
	if u > math.MaxInt64 {
		u >>= 1
	}
	return &ConstVal{Text: g.intText(u, false), Raw: u}
}

func (g *Gen) constField(t *Type, bits int) *Field {
	f := &Field{K: FConst, T: t, Bits: bits}
	if g.r.Pct(50) {
		f.Name, f.Words = g.fieldName()
	}
	f.Const = g.constVal(t, bits)
	g.size(f, t.TypeBits())
	g.order(f)
	return f
}

// filler emits exactly n bits of void / constants / small ints.
func (g *Gen) filler(n int) []*Field {
	var out []*Field
	for n > 0 {
		k := n
		if n > 1 && g.r.Pct(30) {
			k = g.r.Range(1, n)
		}
		if k > 64 {
			k = 64
		}
		switch g.r.W(45, g.cfg.Const, 45) {
		case 0:
			out = append(out, &Field{K: FVoid, Bits: k, SizeText: sizeText(k, g.r)})
		case 1:
			t := g.intFor(k)
			out = append(out, g.constField(t, k))
		default:
			t := g.intFor(k)
			f := &Field{K: FNormal, T: t, Bits: k}
			f.Name, f.Words = g.fieldName()
			g.size(f, t.TypeBits())
			g.order(f)
			out = append(out, f)
		}
		n -= k
	}
	return out
}

func (g *Gen) intFor(bits int) *Type {
	var ws []int
	for _, w := range intW {
		if w >= bits {
			ws = append(ws, w)
		}
	}
	return &Type{K: KInt, W: pick(g.r, ws), Signed: g.r.Pct(50)}
}

func (g *Gen) elemCount() int {
	switch g.r.W(60, 25, 10, 5) {
	case 0:
		return g.r.Range(1, 5)
	case 1:
		return g.r.Range(4, 10)
	case 2:
		return g.r.Range(8, 20)
	default:
		return pick(g.r, []int{31, 32, 33, 40})
	}
}

// small structs usable as field types
func (g *Gen) structRefs(dyn bool, maxBits int) []*Struct {
	var out []*Struct
	for _, s := range g.structs {
		if (!s.Dynamic() || dyn) && s.MinSize()*8 <= maxBits {
			out = append(out, s)
		}
	}
	return out
}

func (g *Gen) Struct(depth int) *Struct {
	s := &Struct{Name: g.typeName("S"), File: g.file, Nested: depth > 0}
	r := g.r
	dynOK := r.Pct(g.cfg.Dyn)
	if depth > 0 {
		dynOK = r.Pct(20)
	}
	nf := r.Range(1, g.cfg.MaxFields)
	if depth > 0 {
		nf = r.Range(1, 3)
	}
	if r.Pct(3) { // padding and constants alone
		pos := 0
		for n := r.Range(1, 3); n > 0 || pos%8 != 0; n-- {
			f := &Field{K: FVoid, Bits: r.Range(1, 12)}
			if n <= 0 {
				f.Bits = 8 - pos%8
			}
			f.SizeText = sizeText(f.Bits, r)
			if n > 0 && r.Pct(55) {
				t := g.basic()
				f = g.constField(t, t.TypeBits())
				f.SizeText = ""
			}
			s.Fields = append(s.Fields, f)
			pos += f.Bits
		}
		return s
	}
	embedded := map[string]bool{}
	pos := 0
	budget := 1800 // bits
	add := func(f *Field) {
		s.Fields = append(s.Fields, f)
		if f.K == FEmbedRef || f.K == FEmbedDef {
			pos += f.Emb.FixedBits()
		} else {
			pos += f.Bits
		}
	}
	align := func() {
		if pos%8 != 0 {
			for _, f := range g.filler(8 - pos%8) {
				add(f)
			}
		}
	}
	hasDyn := false
	for i := 0; i < nf; i++ {
		if pos > budget {
			break
		}
		wDyn := 0
		if dynOK {
			wDyn = 16
			if i == nf-1 && !hasDyn {
				wDyn = 60
			}
		}
		wNest, wEmb := g.cfg.NestW, g.cfg.Embed
		if depth >= 2 {
			wNest, wEmb = 0, 0
		}
		wEnum := 10
		if len(g.enums) == 0 {
			wEnum = 0
		}
		wScalar := 42
		if g.cfg.Enums {
			wScalar, wEnum, wDyn = 6, 50, wDyn/3
		}
		switch r.W(wScalar, wEnum, 18, wDyn, wNest, wEmb, g.cfg.Const, 5) {
		case 0: // scalar
			t := g.basic()
			f := &Field{K: FNormal, T: t, Bits: g.width(t)}
			f.Name, f.Words = g.fieldName()
			g.size(f, t.TypeBits())
			g.order(f)
			if g.cfg.Methods && r.Pct(60) {
				g.methods(f)
			}
			add(f)
		case 1: // enum
			e := pick(r, g.enums)
			t := &Type{K: KEnum, En: e}
			f := &Field{K: FNormal, T: t, Bits: e.Bits}
			f.Name, f.Words = g.fieldName()
			g.size(f, e.Bits)
			g.order(f)
			add(f)
		case 2: // array of basic/enum
			var el *Type
			if len(g.enums) > 0 && (r.Pct(15) || g.cfg.Enums) {
				el = &Type{K: KEnum, En: pick(r, g.enums)}
			} else {
				el = g.basic()
			}
			n := g.elemCount()
			eb := el.TypeBits()
			if el.K != KEnum {
				eb = g.width(el)
			}
			lim := 900
			if depth == 0 && r.Pct(4) { // offsets beyond 255 bytes
				n, lim = r.Range(60, 300), 5000
			}
			if n*eb > lim {
				n = max(1, lim/eb)
			}
			t := &Type{K: KArray, Elem: el, N: n}
			f := &Field{K: FNormal, T: t, Bits: n * eb}
			f.Name, f.Words = g.fieldName()
			g.size(f, t.TypeBits())
			g.order(f)
			add(f)
		case 3: // string / bytes / arrays of them
			align()
			el := &Type{K: KString}
			if r.Pct(50) {
				el = &Type{K: KBytes}
			}
			t := el
			if r.Pct(25) {
				t = &Type{K: KArray, Elem: el, N: r.Range(1, 7)}
			}
			f := &Field{K: FNormal, T: t}
			f.Name, f.Words = g.fieldName()
			add(f)
			hasDyn = true
		case 4: // struct / array of struct / inline struct
			align()
			var st *Struct
			inline := false
			refs := g.structRefs(dynOK, 500)
			if len(refs) == 0 || r.Pct(15) {
				st = g.Struct(depth + 1)
				inline = true
			} else {
				st = refs[len(refs)-1-r.N(min(len(refs), 8))]
			}
			if st.Dynamic() {
				hasDyn = true
			}
			t := &Type{K: KStruct, St: st}
			if r.Pct(45) {
				n := r.Range(1, 4)
				if r.Pct(30) {
					n = r.Range(4, 9)
				}
				lim := 150
				if depth == 0 && r.Pct(5) {
					n, lim = r.Range(9, 40), 500
				}
				if m := st.MinSize(); m*n > lim {
					n = max(1, lim/m)
				}
				t = &Type{K: KArray, Elem: t, N: n}
			}
			f := &Field{K: FNormal, T: t, Inline: inline}
			if !t.Dynamic() {
				f.Bits = t.TypeBits()
				if r.Pct(10) {
					f.SizeText = sizeText(f.Bits, r)
				}
			}
			f.Name, f.Words = g.fieldName()
			add(f)
		case 5: // embed
			align()
			var f *Field
			refs := g.structRefs(dynOK, 300)
			if len(refs) == 0 || r.Pct(45) {
				f = &Field{K: FEmbedDef, Emb: g.Struct(depth + 1)}
				if clash(s, f.Emb) {
					continue
				}
			} else {
				st := refs[len(refs)-1-r.N(min(len(refs), 6))]
				if clash(s, st) || embedded[st.Name] {
					continue
				}
				f = &Field{K: FEmbedRef, Emb: st}
				embedded[st.Name] = true
			}
			if f.Emb.Dynamic() {
				hasDyn = true
			}
			add(f)
		case 6: // constant
			t := g.basic()
			if t.K == KFloat {
				f := g.constField(t, t.W)
				f.Bits = t.W
				f.SizeText = ""
				add(f)
				break
			}
			add(g.constField(t, g.width(t)))
		case 7:
			k := r.Range(1, 20)
			add(&Field{K: FVoid, Bits: k, SizeText: sizeText(k, r)})
		}
	}
	align()
	if len(s.Vals()) == 0 && r.Pct(80) { // give most structs a value field
		t := &Type{K: KInt, W: 8}
		f := &Field{K: FNormal, T: t, Bits: 8}
		f.Name, f.Words = g.fieldName()
		add(f)
	}
	if !s.Dynamic() && r.Pct(25) {
		s.DeclSize = sizeText(s.FixedBits(), r)
	}
	return s
}

func clash(s, e *Struct) bool {
	names := map[string]bool{}
	for _, f := range s.Flat() {
		names[f.Name] = true
	}
	for _, f := range e.Flat() {
		if f.Name != "" && names[f.Name] {
			return true
		}
	}
	return false
}

// Program generates a single-file program.
func GenProgram(r *Rng, cfg GenCfg) *Program {
	f := &File{Path: "schema.bb", Pkg: cfg.Pkg}
	f.Options = append(f.Options, [2]string{"go_package", strconv.Quote(strings.ReplaceAll(cfg.Pkg, ".", "/"))})
	g := &Gen{r: r, cfg: cfg, file: f}
	g.fill(f, cfg.Structs)
	return &Program{Files: []*File{f}}
}

func (g *Gen) fill(f *File, n int) {
	for i := 0; i < n; i++ {
		if i%6 == 0 || g.r.Pct(8) || g.cfg.Enums && g.r.Pct(60) {
			e := g.Enum()
			g.enums = append(g.enums, e)
			for _, m := range e.Members {
				g.members = append(g.members, memberRef{e, m})
			}
			f.Defs = append(f.Defs, Def{En: e})
		}
		s := g.Struct(0)
		g.structs = append(g.structs, s)
		f.Defs = append(f.Defs, Def{St: s})
	}
}

// GenMatrix is a program that has every kind of number at every class of width,
// as a scalar and as an array below and above the usual unroll limit, in both
// byte orders, at and between byte boundaries, some behind dynamic fields.
//
// With consts it is one of constants of every kind instead.
func GenMatrix(r *Rng, cfg GenCfg, consts bool) *Program {
	f := &File{Path: "schema.bb", Pkg: cfg.Pkg}
	f.Options = append(f.Options, [2]string{"go_package", strconv.Quote(strings.ReplaceAll(cfg.Pkg, ".", "/"))})
	g := &Gen{r: r, cfg: cfg, file: f}
	types := []*Type{{K: KBool}, {K: KFloat, W: 32}, {K: KFloat, W: 64}}
	for _, w := range intW {
		types = append(types, &Type{K: KInt, W: w}, &Type{K: KInt, W: w, Signed: true})
	}
	for i := 0; i < 4; i++ {
		e := g.Enum()
		for _, m := range e.Members {
			g.members = append(g.members, memberRef{e, m})
		}
		f.Defs = append(f.Defs, Def{En: e})
		if !consts { // a constant has a basic type
			types = append(types, &Type{K: KEnum, En: e})
		}
	}
	for _, t := range types {
		w := t.TypeBits()
		ws := []int{w}
		if t.K != KEnum {
			ws = append(ws, r.Range(1, 7))
			for lo := 8; lo < w; lo *= 2 { // between the machine's widths
				ws = append(ws, r.Range(lo+1, 2*lo-1), r.Range(lo+1, 2*lo-1))
			}
			for b := 16; b < w; b += 8 { // whole bytes
				if b&(b-1) != 0 || r.Pct(30) {
					ws = append(ws, b)
				}
			}
		}
		var fs []*Field
		for _, b := range ws {
			for kind := 0; kind < 6; kind++ {
				if consts {
					fs = append(fs, g.constField(t, b))
					if kind == 3 {
						break
					}
					continue
				}
				f := &Field{K: FNormal, T: t, Bits: b}
				switch {
				case kind == 2 || kind == 3:
					f.T = &Type{K: KArray, Elem: t, N: r.Range(2, 4)}
				case kind > 3:
					f.T = &Type{K: KArray, Elem: t, N: r.Range(5, 7)}
				}
				if f.T != t {
					f.Bits = f.T.N * b
				}
				if kind%2 == 1 {
					f.Order = "big"
				}
				g.size(f, f.T.TypeBits())
				fs = append(fs, f)
			}
		}
		for i := len(fs) - 1; i > 0; i-- {
			j := r.N(i + 1)
			fs[i], fs[j] = fs[j], fs[i]
		}
		for len(fs) > 0 {
			n := min(len(fs), r.Range(5, 9))
			s := &Struct{Name: g.typeName("S"), File: f}
			if r.Pct(25) {
				d := &Field{K: FNormal, T: &Type{K: pick(r, []TK{KString, KBytes})}}
				d.Name, d.Words = g.fieldName()
				s.Fields = append(s.Fields, d)
			}
			pos := 0
			for _, x := range fs[:n] {
				k := 0
				switch {
				case pos%8 != 0 && r.Pct(50):
					k = 8 - pos%8
				case pos%8 == 0 && r.Pct(30):
					k = r.Range(1, 7)
				}
				s.Fields = append(s.Fields, g.filler(k)...)
				if !consts {
					x.Name, x.Words = g.fieldName()
				}
				s.Fields = append(s.Fields, x)
				pos += k + x.Bits
			}
			fs = fs[n:]
			if pos%8 != 0 {
				s.Fields = append(s.Fields, g.filler(8-pos%8)...)
			}
			g.structs = append(g.structs, s)
			f.Defs = append(f.Defs, Def{St: s})
		}
	}
	return &Program{Files: []*File{f}}
}

// GenDynMatrix has a struct for every shape a string or byte field takes:
// alone, in short and long arrays, inside structs and arrays of structs.
func GenDynMatrix(r *Rng, cfg GenCfg) *Program {
	f := &File{Path: "schema.bb", Pkg: cfg.Pkg}
	f.Options = append(f.Options, [2]string{"go_package", strconv.Quote(strings.ReplaceAll(cfg.Pkg, ".", "/"))})
	g := &Gen{r: r, cfg: cfg, file: f}
	num := func() *Field {
		w := pick(r, []int{8, 16, 32, 64})
		x := &Field{K: FNormal, T: &Type{K: KInt, W: w, Signed: r.Pct(50)}, Bits: w}
		x.Name, x.Words = g.fieldName()
		if r.Pct(40) {
			x.Order = "big"
		}
		g.size(x, w)
		return x
	}
	add := func(ts ...*Type) *Struct {
		s := &Struct{Name: g.typeName("S"), File: f}
		for _, t := range ts {
			if r.Pct(60) {
				s.Fields = append(s.Fields, num())
			}
			x := &Field{K: FNormal, T: t}
			x.Name, x.Words = g.fieldName()
			s.Fields = append(s.Fields, x)
		}
		if r.Pct(50) {
			s.Fields = append(s.Fields, num())
		}
		g.structs = append(g.structs, s)
		f.Defs = append(f.Defs, Def{St: s})
		return s
	}
	arr := func(t *Type, n int) *Type { return &Type{K: KArray, Elem: t, N: n} }
	for _, k := range []TK{KString, KBytes} {
		t := &Type{K: k}
		s := add(t)
		add(arr(t, r.Range(1, 4)))
		add(arr(t, r.Range(5, 8)))
		u := &Type{K: KStruct, St: s}
		add(u)
		add(arr(u, r.Range(1, 4)), t)
		add(arr(u, r.Range(5, 7)), arr(t, r.Range(5, 6)))
	}
	add(&Type{K: KString}, &Type{K: KBytes}, &Type{K: KString})
	return &Program{Files: []*File{f}}
}

// ---- values ----

type ValCfg struct {
	Wide    bool // allow values wider than the wire width
	LongDyn bool // occasionally long strings / bytes
}

var strPool = []string{"", "a", "hello", "é", "日本", "😀", "ab😀cé", "\x01\x7f", "߿ࠀ", "￿", "\U00010000z"}

func (g *Gen) String(r *Rng, long bool) []byte {
	switch r.W(50, 40, 10) {
	case 0:
		return []byte(pick(r, strPool))
	case 1:
		n := r.N(10)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(randRune(r))
		}
		return []byte(sb.String())
	}
	n := r.N(40)
	if long {
		n = r.N(300)
		if r.Pct(40) { // the edges of the length prefix
			n = pick(r, []int{126, 127, 128, 129, 130, 255, 256})
			if r.Pct(5) {
				n = pick(r, []int{16382, 16383, 16384, 16385, 16386})
			}
		}
	}
	// n bytes, with one character of several bytes somewhere
	c := pick(r, []string{"x", "x", "\u00e9", "\u4e2d", "\U0001F600"})
	if n < len(c) {
		return []byte(strings.Repeat("x", n))
	}
	if r.Pct(30) && n%len(c) == 0 {
		return []byte(strings.Repeat(c, n/len(c)))
	}
	k := r.N(n - len(c) + 1)
	return []byte(strings.Repeat("x", k) + c + strings.Repeat("y", n-len(c)-k))
}

func randRune(r *Rng) rune {
	for {
		var c rune
		switch r.W(45, 15, 15, 10, 15) {
		case 4: // the edges of the encoding lengths, and the byte order mark
			c = pick(r, []rune{1, 0x7e, 0x7f, 0x80, 0x7fe, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10001, 0xfffff, 0x100000, 0x10ffff})
		case 0:
			c = rune(r.Range(1, 0x7f))
		case 1:
			c = rune(r.Range(0x80, 0x7ff))
		case 2:
			c = rune(r.Range(0x800, 0xffff))
		default:
			c = rune(r.Range(0x10000, 0x10ffff))
		}
		if c < 0xd800 || c > 0xdfff {
			return c
		}
	}
}

func GenBytes(r *Rng, long bool) []byte {
	n := 0
	switch r.W(20, 50, 20, 10) {
	case 1:
		n = r.N(12)
	case 2:
		n = r.N(40)
	case 3:
		if long {
			n = pick(r, []int{126, 127, 128, 129, 255, 256, 300})
			if r.Pct(4) {
				n = pick(r, []int{16383, 16384, 16385})
			}
		} else {
			n = r.N(140)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

func GenVal(r *Rng, t *Type, bits int, vc ValCfg) V {
	switch t.K {
	case KBool:
		return V{U: r.U64() & 1}
	case KInt:
		n := bits
		if vc.Wide && bits < t.W && r.Pct(50) {
			n = t.W
		}
		var u uint64
		switch r.W(50, 35, 15) {
		case 0:
			u = r.U64()
		case 1:
			u = pick(r, []uint64{0, 1, mask(n), mask(n) - 1, mask(n) >> 1, 1 << uint(n-1), 0x5555555555555555, 0xaaaaaaaaaaaaaaaa})
		default:
			u = r.U64() & mask(r.Range(1, n))
		}
		if n == t.W {
			return V{U: u & mask(t.W)}
		}
		return V{U: extend(t, n, u)}
	case KFloat:
		if bits < t.W && !(vc.Wide && r.Pct(50)) {
			// low bits only
			for {
				u := r.U64() & mask(bits)
				if !isNaN(t.W, u) {
					return V{U: u}
				}
			}
		}
		for {
			var u uint64
			if r.Pct(35) {
				fs := []float64{0, math.Copysign(0, -1), 1, -1, 1.5, math.Inf(1), math.Inf(-1), math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi}
				f := pick(r, fs)
				if t.W == 32 {
					u = uint64(math.Float32bits(float32(f)))
				} else {
					u = math.Float64bits(f)
				}
				if bits == t.W && r.Pct(8) {
					u = 0x7fc00000
					if t.W == 64 {
						u = 0x7ff8000000000000
					}
					return V{U: u}
				}
			} else {
				u = r.U64() & mask(t.W)
			}
			if !isNaN(t.W, u) {
				return V{U: u}
			}
		}
	case KEnum:
		return V{U: uint64(pick(r, t.En.Members).Val) & mask(t.En.Bits)}
	case KString:
		return V{S: (&Gen{}).String(r, vc.LongDyn)}
	case KBytes:
		return V{S: GenBytes(r, vc.LongDyn)}
	case KStruct:
		return GenStructVal(r, t.St, vc)
	case KArray:
		var o V
		for i := 0; i < t.N; i++ {
			o.L = append(o.L, GenVal(r, t.Elem, bits/t.N, vc))
		}
		return o
	}
	return V{}
}

func isNaN(w int, u uint64) bool {
	if w == 32 {
		f := math.Float32frombits(uint32(u))
		return f != f
	}
	f := math.Float64frombits(u)
	return f != f
}

func GenStructVal(r *Rng, s *Struct, vc ValCfg) V {
	var o V
	for _, f := range s.Vals() {
		o.L = append(o.L, GenVal(r, f.T, f.Bits, vc))
	}
	return o
}
