package main

// Test cases over generated code: a case is data (so that it can be moved to a
// smaller schema while shrinking), rendered as a driver command and judged
// against the reference codec.

import (
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

type YOp struct {
	C   byte // 'f' whole, 'i' item, 'p' the first Idx items, 'c' custom setter
	F   string
	M   string // custom method name
	Idx int
	V   V
}

type Case struct {
	Kind  string // enc dec pre reuse own eq acc trans stat
	St    string // struct name
	A, B  V
	Start int
	Pad   int
	Fill  int
	Noise uint64 // padding-bit noise in messages made from A
	// Corrupt: constant occurrence index and xor mask (message from A)
	CIdx int
	CXor uint64
	Ops  []YOp
	Raw  []byte // junk: the bytes to decode
	Eq   bool   // eq: expected
	Zero bool   // eq: the objects differ in the sign of a zero; equal or not, consistently
}

func (p *Program) find(name string) *Struct {
	for _, s := range p.AllStructs() {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func (p *Program) index(name string) int {
	for i, s := range p.AllStructs() {
		if s.Name == name {
			return i
		}
	}
	return -1
}

func setBit(b []byte, i int, v bool) {
	if v {
		b[i/8] |= 1 << uint(i%8)
	} else {
		b[i/8] &^= 1 << uint(i%8)
	}
}
func getBit(b []byte, i int) bool { return b[i/8]>>uint(i%8)&1 != 0 }

// msg is the message for A with padding noise and constant corruption applied.
// ok is false when the corruption names no constant.
func (c *Case) msg(s *Struct) (b []byte, corrupted bool) {
	b = Encode(s, c.A)
	if c.Noise == 0 && c.CXor == 0 {
		return b, false
	}
	r := NewRng(c.Noise)
	k := 0
	for _, sp := range Spans(s, c.A) {
		switch sp.kind {
		case 'p':
			if c.Noise != 0 {
				for i := 0; i < sp.n; i++ {
					setBit(b, sp.from+i, r.U64()&1 != 0)
				}
			}
		case 'c':
			if c.CXor != 0 && k == c.CIdx {
				for i := 0; i < sp.n; i++ {
					if c.CXor>>uint(i%64)&1 != 0 && i < 64 {
						setBit(b, sp.from+i, !getBit(b, sp.from+i))
						corrupted = true
					}
				}
			}
			k++
		}
	}
	return b, corrupted
}

func (s *Struct) valIndex(name string) int {
	for i, f := range s.Vals() {
		if f.Name == name {
			return i
		}
	}
	return -1
}

func (c *Case) cmd(p *Program, v Variant) (string, bool) {
	s := p.find(c.St)
	if s == nil {
		return "", false
	}
	i := p.index(c.St)
	hx := func(b []byte) string { return tokBytes(b) }
	if !v.canSet() && c.Kind != "trans" && c.Kind != "stat" && c.Kind != "pre" {
		return "", false // the fields are private in this form of the code
	}
	switch c.Kind {
	case "enc", "rt", "fill", "isoe":
		return fmt.Sprintf("E %d %d %d %d %s", i, c.Start, c.Pad, c.Fill, Toks(s, c.A)), true
	case "dec", "isod":
		m, _ := c.msg(s)
		return fmt.Sprintf("D %d %d %d %d %s", i, c.Start, c.Pad, c.Fill, hx(m)), true
	case "junk":
		return fmt.Sprintf("D %d %d 0 %d %s", i, c.Start, c.Fill, hx(c.Raw)), true
	case "pre":
		m, _ := c.msg(s)
		return fmt.Sprintf("P %d %s", i, hx(m)), true
	case "reuse":
		m1 := Encode(s, c.B)
		m2, _ := c.msg(s)
		return fmt.Sprintf("R %d %s %s", i, hx(m1), hx(m2)), true
	case "own":
		m, _ := c.msg(s)
		return fmt.Sprintf("X %d %s %d", i, hx(m), c.Fill), true
	case "trans":
		m, _ := c.msg(s)
		return fmt.Sprintf("T %d %s", i, hx(m)), true
	case "eq":
		return fmt.Sprintf("Q %d %s %s", i, Toks(s, c.A), Toks(s, c.B)), true
	case "stat":
		return fmt.Sprintf("Z %d", i), true
	case "mem":
		if len(enumsOf(s)) == 0 {
			return "", false
		}
		return fmt.Sprintf("Y %d %s 1 n 0", i, Toks(s, c.A)), true
	case "acc":
		sb := fmt.Sprintf("Y %d %s", i, Toks(s, c.A))
		n := 0
		ops := ""
		hasItem := v.Target == "c" || v.Target == "cpp"
		for oi, o := range c.Ops {
			k := s.valIndex(o.F)
			if k < 0 {
				continue
			}
			f := s.Vals()[k]
			if o.C != 'c' && v.Feat().Minimal {
				return "", false // no plain setters
			}
			switch o.C {
			case 'f':
				var t []string
				tokVal(f.T, o.V, &t)
				ops += fmt.Sprintf(" f %d %s", k, strings.Join(t, " "))
			case 'i':
				if f.T.K != KArray {
					continue
				}
				var t []string
				if !hasItem { // no item setters in this target: the whole array is assigned
					b := *c
					b.Ops = c.Ops[:oi+1]
					m, _ := b.accModel(s)
					tokVal(f.T, m.L[k], &t)
					ops += fmt.Sprintf(" f %d %s", k, strings.Join(t, " "))
					break
				}
				tokVal(f.T.Elem, o.V, &t)
				ops += fmt.Sprintf(" i %d %d %s", k, o.Idx%f.T.N, strings.Join(t, " "))
			case 'p':
				if f.T.K != KArray {
					continue
				}
				var t []string
				if !hasItem { // no length in this target: the whole array is assigned
					b := *c
					b.Ops = c.Ops[:oi+1]
					m, _ := b.accModel(s)
					tokVal(f.T, m.L[k], &t)
					ops += fmt.Sprintf(" f %d %s", k, strings.Join(t, " "))
					break
				}
				tokVal(f.T, o.V, &t)
				ops += fmt.Sprintf(" p %d %d %s", k, o.Idx, strings.Join(t, " "))
			case 'c':
				j := -1
				for x, m := range f.Methods {
					if !m.Get && m.Name == o.M {
						j = x
					}
				}
				if j < 0 {
					continue
				}
				ops += fmt.Sprintf(" c %d %s", k*100+j, tokScalar(f.Methods[j].Ret, o.V.U))
			}
			n++
		}
		return fmt.Sprintf("%s %d%s", sb, n, ops), true
	}
	return "", false
}

// second is the decode command for the message the target encoded in a round trip.
func (c *Case) second(p *Program, out string) (string, bool) {
	switch s := p.find(c.St); c.Kind {
	case "isoe":
		return fmt.Sprintf("E %d %d %d %d %s", p.index(c.St), c.Start, c.Pad, c.Fill, Toks(s, c.B)), true
	case "isod":
		m, _ := c.isoMsg(s)
		return fmt.Sprintf("D %d %d %d %d %s", p.index(c.St), c.Start, c.Pad, c.Fill, tokBytes(m)), true
	}
	fs := strings.Fields(out)
	if len(fs) < 3 || fs[0] == "EXC" || fs[0] == "CRASH" {
		return "", false
	}
	if c.Kind == "fill" { // the same again over the complementary buffer
		s := p.find(c.St)
		return fmt.Sprintf("E %d %d %d %d %s", p.index(c.St), c.Start, c.Pad, 255^c.Fill, Toks(s, c.A)), true
	}
	b, err := hex.DecodeString(strings.TrimPrefix(fs[2], "-"))
	n, err2 := strconv.Atoi(fs[1])
	if err != nil || err2 != nil || n < 0 || c.Start+n > len(b) {
		return "", false
	}
	return fmt.Sprintf("D %d %d %d %d %s", p.index(c.St), c.Start, c.Pad, c.Fill, tokBytes(b[c.Start:c.Start+n])), true
}

// problem: one way an answer is wrong.
type problem struct {
	Aspect string // bytes ret es alloc dirty obj ds dret vals src const pre ...
	Msg    string
}

func fields(s string) []string { return strings.Fields(s) }

// diffToks compares value tokens; "?" in want means any.
func diffToks(want, got []string) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d value tokens, want %d", len(got), len(want))
	}
	for i := range want {
		if want[i] != got[i] && want[i] != "?" {
			return fmt.Sprintf("value token %d is %s, want %s", i, clip(got[i]), clip(want[i]))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func (c *Case) verify(p *Program, v Variant, out string) []problem {
	s := p.find(c.St)
	var ps []problem
	bad := func(a, f string, x ...any) { ps = append(ps, problem{a, fmt.Sprintf(f, x...)}) }
	if c.Kind == "junk" && strings.HasPrefix(out, "EXC") && strings.Contains(out, "UnicodeDecodeError") && !viewJunk(s, c.Raw).text {
		return ps // Python reports text that is not UTF-8 its own way
	}
	if strings.HasPrefix(out, "EXC") || strings.HasPrefix(out, "CRASH") {
		bad("crash", "%s", clip2(out, 400))
		return ps
	}
	fs := fields(out)
	atoi := func(i int) int {
		if i >= len(fs) {
			return -1 << 30
		}
		n, err := strconv.Atoi(fs[i])
		if err != nil {
			return -1 << 30
		}
		return n
	}
	get := func(i int) string {
		if i < len(fs) {
			return fs[i]
		}
		return "<missing>"
	}
	rest := func(i int) []string {
		if i > len(fs) {
			return nil
		}
		return fs[i:]
	}
	set := v.canSet()
	switch c.Kind {
	case "junk":
		c.verifyJunk(s, set, fs, bad)
	case "enc":
		want := Encode(s, c.A)
		if n := atoi(0); n != len(want) {
			bad("es", "encode_size is %s, the message has %d bytes", get(0), len(want))
		}
		if n := atoi(1); n != len(want) {
			bad("ret", "encode returned %s, the message has %d bytes", get(1), len(want))
		}
		got := get(2)
		if got == "-" {
			got = ""
		}
		gb, err := hex.DecodeString(got)
		if err != nil {
			bad("bytes", "unreadable buffer %q", clip(get(2)))
			return ps
		}
		total := c.Start + len(want) + c.Pad
		if atoi(0) == len(want) {
			if len(gb) != total {
				bad("bytes", "buffer of %d bytes, want %d", len(gb), total)
				return ps
			}
			for i := range gb {
				if i < c.Start || i >= c.Start+len(want) {
					if int(gb[i]) != c.Fill {
						bad("dirty", "byte %d outside the message changed from %02x to %02x", i-c.Start, c.Fill, gb[i])
						break
					}
				}
			}
			for i := range want {
				if gb[c.Start+i] != want[i] {
					for _, sp := range Spans(s, c.A) {
						for k := sp.from; sp.kind == 'c' && k < sp.from+sp.n; k++ {
							if getBit(gb[c.Start:], k) != getBit(want, k) {
								bad("cbytes", "bit %d belongs to a constant of %d bits at bit %d and is %v", k, sp.n, sp.from, getBit(gb[c.Start:], k))
								break
							}
						}
					}
					bad("bytes", "byte %d of the message is %02x, want %02x (got %s, want %s)", i, gb[c.Start+i], want[i], clip(hex.EncodeToString(gb[c.Start:c.Start+len(want)])), clip(hex.EncodeToString(want)))
					break
				}
			}
		}
		if get(3) != "~" && get(3) != tokBytes(want) {
			bad("alloc", "self-allocated encode gives %s, want %s", clip(get(3)), clip(tokBytes(want)))
		}
		if d := diffToks(fields(Toks(s, c.A)), rest(4)); d != "" {
			bad("obj", "object changed by encode: %s", d)
		}
	case "dec":
		m, corrupt := c.msg(s)
		if n := atoi(0); n != len(m) {
			bad("ds", "decode_size is %s, the message has %d bytes", get(0), len(m))
		}
		if corrupt {
			if n := atoi(1); n >= 0 {
				bad("const", "decode accepted (returned %s) a message with a wrong constant", get(1))
			}
			if get(2) != "1" {
				bad("src", "decode changed the source buffer")
			}
			return ps
		}
		if n := atoi(1); n != len(m) {
			bad("dret", "decode returned %s, want %d", get(1), len(m))
			return ps
		}
		if get(2) != "1" {
			bad("src", "decode changed the source buffer")
		}
		if set {
			if d := diffToks(fields(Toks(s, Norm(s, c.A))), rest(3)); d != "" {
				bad("vals", "decoded %s", d)
			}
		}
	case "isoe":
		k := strings.Index(out, " ; ")
		if k < 0 {
			bad("iso", "unreadable answer")
			return ps
		}
		e, g := fields(out[:k]), fields(out[k+3:])
		if len(e) < 3 || len(g) < 3 || g[0] == "EXC" || g[0] == "CRASH" {
			bad("crash", "%s", clip2(out[k+3:], 400))
			return ps
		}
		a, err1 := hex.DecodeString(strings.TrimPrefix(e[2], "-"))
		b, err2 := hex.DecodeString(strings.TrimPrefix(g[2], "-"))
		w1, w2 := Encode(s, c.A), Encode(s, c.B)
		if err1 != nil || err2 != nil || len(a) != len(b) || len(w1) != len(w2) {
			bad("iso", "changing one fixed-size field changes the size of the encoding: %s, %s", clip(e[2]), clip(g[2]))
			return ps
		}
		if len(a) != c.Start+len(w1)+c.Pad {
			return ps // a wrong size is not this property
		}
		for i, sp := range Spans(s, c.A) {
			own := c.CIdx == i
			for k := sp.from; k < sp.from+sp.n; k++ {
				x, y := getBit(a[c.Start:], k), getBit(b[c.Start:], k)
				if !own && x != y {
					bad("iso", "assigning %s changes bit %d, which belongs to %s", c.leafName(s), k, spanName(sp))
					return ps
				}
				if own && y != getBit(w2, k) {
					bad("iso", "bit %d of %s is %v after assigning it", k, c.leafName(s), y)
					return ps
				}
			}
		}
	case "isod":
		k := strings.Index(out, " ; ")
		if k < 0 {
			bad("iso", "unreadable answer")
			return ps
		}
		e, g := fields(out[:k]), fields(out[k+3:])
		if len(e) < 3 || len(g) < 3 || g[0] == "EXC" || g[0] == "CRASH" {
			bad("crash", "%s", clip2(out[k+3:], 400))
			return ps
		}
		if e[1] != g[1] {
			bad("iso", "decode returns %s, and %s after a change in %s and padding", e[1], g[1], c.leafName(s))
			return ps
		}
		if set {
			w1, w2 := fields(Toks(s, Norm(s, c.A))), fields(Toks(s, Norm(s, c.B)))
			e, g = e[3:], g[3:]
			if len(e) != len(g) || len(e) != len(w1) {
				bad("iso", "%d values, and %d after a change in %s and padding", len(e), len(g), c.leafName(s))
				return ps
			}
			for i := range e {
				if w1[i] == w2[i] && e[i] != g[i] {
					bad("iso", "value %d changes from %s to %s with a change in %s and padding", i, clip(e[i]), clip(g[i]), c.leafName(s))
					return ps
				}
				if w1[i] != w2[i] && e[i] == g[i] {
					bad("iso", "value %d stays %s although the bits of %s changed", i, clip(e[i]), c.leafName(s))
					return ps
				}
			}
		}
	case "fill":
		k := strings.Index(out, " ; ")
		if k < 0 {
			bad("fill", "encode did not deliver a message: %s", clip(out))
			return ps
		}
		e, g := fields(out[:k]), fields(out[k+3:])
		if len(e) < 3 || len(g) < 3 {
			bad("crash", "%s", clip2(out[k+3:], 400))
			return ps
		}
		a, err1 := hex.DecodeString(strings.TrimPrefix(e[2], "-"))
		b, err2 := hex.DecodeString(strings.TrimPrefix(g[2], "-"))
		if err1 != nil || err2 != nil || len(a) != len(b) || e[1] != g[1] {
			bad("fill", "over a buffer of %02x: %s; over %02x: %s", c.Fill, clip(out[:k]), 255^c.Fill, clip(out[k+3:]))
			return ps
		}
		for i := range a {
			if i >= c.Start && i < len(a)-c.Pad {
				if a[i] != b[i] {
					bad("fill", "byte %d of the message is %02x in a buffer of %02x and %02x in a buffer of %02x", i-c.Start, a[i], c.Fill, b[i], 255^c.Fill)
					break
				}
			} else if int(a[i]) != c.Fill || int(b[i]) != 255^c.Fill {
				bad("fill", "byte %d outside the message was changed (%02x over %02x, %02x over %02x)", i-c.Start, a[i], c.Fill, b[i], 255^c.Fill)
				break
			}
		}
	case "rt":
		k := strings.Index(out, " ; ")
		if k < 0 {
			bad("rt", "encode did not deliver a message: %s", clip(out))
			return ps
		}
		e := fields(out[:k])
		fs = fields(out[k+3:])
		if get(0) == "EXC" || get(0) == "CRASH" {
			bad("crash", "%s", clip2(out[k+3:], 400))
			return ps
		}
		if get(1) != e[1] {
			bad("rt", "decode returned %s for a message of %s bytes it encoded itself", get(1), e[1])
			return ps
		}
		if set {
			if d := diffToks(fields(Toks(s, c.A)), rest(3)); d != "" {
				bad("rt", "decoding its own encoding: %s", d)
			}
		}
	case "pre":
		m, _ := c.msg(s)
		if len(fs) != len(m)+1 {
			bad("pre", "%d answers for %d prefixes", len(fs), len(m)+1)
			return ps
		}
		for k := 0; k <= len(m); k++ {
			i := strings.IndexByte(fs[k], ':')
			if i < 0 {
				bad("pre", "unreadable %q", fs[k])
				return ps
			}
			n, err := strconv.Atoi(fs[k][:i])
			if err != nil {
				bad("pre", "unreadable %q", fs[k])
				return ps
			}
			d := fs[k][i+1:]
			if k == len(m) {
				if n != k {
					bad("ds", "decode_size of the whole message is %d, want %d", n, k)
				}
				if d != "x" && d != strconv.Itoa(k) {
					bad("dret", "decode of the whole message returned %s, want %d", d, k)
				}
				continue
			}
			if n >= 0 {
				bad("pre", "decode_size says %d for a prefix of %d bytes of a %d byte message", n, k, len(m))
				return ps
			}
			if -n <= k || -n > len(m) {
				bad("pre", "decode_size asks for %d bytes with %d bytes of a %d byte message", -n, k, len(m))
				return ps
			}
			if d != "x" && !strings.HasPrefix(d, "-") {
				bad("predec", "decode returned %s for a prefix of %d bytes of a %d byte message", d, k, len(m))
				return ps
			}
		}
	case "reuse":
		m, corrupt := c.msg(s)
		if n := atoi(0); n != len(Encode(s, c.B)) {
			bad("dret", "first decode returned %s", get(0))
			return ps
		}
		if corrupt {
			return ps
		}
		if n := atoi(1); n != len(m) {
			bad("dret", "second decode returned %s, want %d", get(1), len(m))
			return ps
		}
		if set {
			if d := diffToks(fields(Toks(s, Norm(s, c.A))), rest(2)); d != "" {
				bad("reuse", "decoding into a used object: %s", d)
			}
		}
	case "own":
		m, _ := c.msg(s)
		if n := atoi(0); n != len(m) {
			bad("dret", "decode returned %s, want %d", get(0), len(m))
			return ps
		}
		if set {
			if d := diffToks(fields(Toks(s, Norm(s, c.A))), rest(1)); d != "" {
				bad("own", "after overwriting the source buffer: %s", d)
			}
		}
	case "trans":
		m, _ := c.msg(s)
		if n := atoi(0); n != len(m) {
			bad("dret", "decode returned %s, want %d", get(0), len(m))
			return ps
		}
		want := tokBytes(Encode(s, Norm(s, c.A)))
		if get(1) != want {
			bad("trans", "decode and encode gives %s, want %s", clip(get(1)), clip(want))
		}
	case "eq":
		e := "0"
		if c.Eq {
			e = "1"
		}
		if c.Zero { // the host language decides, but not against itself
			if e = get(0); e == "1" && get(3) != "1" {
				bad("hash", "objects that differ in the sign of a zero are equal but have different hash codes")
			}
		}
		if get(0) != e {
			bad("eq", "a.equals(b) is %s, want %s", get(0), e)
		}
		if get(1) != e {
			bad("eq", "b.equals(a) is %s, want %s", get(1), e)
		}
		if get(2) != "1" {
			bad("eq", "a.equals(a) is false")
		}
		if c.Eq && get(3) != "1" {
			bad("hash", "equal objects have different hash codes")
		}
		if get(4) != "0" {
			bad("eq", "a.equals(null) is true")
		}
		if get(5) != "0" {
			bad("eq", "equal to an object of another type")
		}
	case "stat":
		e := "0"
		if s.Dynamic() {
			e = "1"
		}
		if get(0) != e {
			bad("stat", "dynamic is %s, want %s", get(0), e)
		}
		if get(1) != strconv.Itoa(s.FixedBits()/8) {
			bad("stat", "size is %s, want %d", get(1), s.FixedBits()/8)
		}
	case "mem":
		k := 0
		for _, en := range enumsOf(s) {
			for _, m := range en.Members {
				want := strconv.FormatUint(uint64(m.Val), 10)
				if get(k) != want {
					bad("enum", "%s.%s is %s, want %s", en.Name, m.Name, get(k), want)
				}
				if get(k+1) != want {
					bad("enum", "looking up the number of %s.%s gives %s, want %s", en.Name, m.Name, get(k+1), want)
				}
				k += 2
			}
		}
	case "acc":
		c.verifyAcc(p, s, v, fs, bad)
	}
	return ps
}

func clip2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// run the accessor history on the model: final object, "?" where a custom
// expression left the portable domain.
func (c *Case) accModel(s *Struct) (V, map[int]bool) {
	o := clone(c.A)
	unk := map[int]bool{}
	for _, op := range c.Ops {
		k := s.valIndex(op.F)
		if k < 0 {
			continue
		}
		f := s.Vals()[k]
		switch op.C {
		case 'f':
			o.L[k] = clone(op.V)
			delete(unk, k)
		case 'i':
			if f.T.K == KArray {
				o.L[k].L[op.Idx%f.T.N] = clone(op.V)
			}
		case 'p':
			for i := 0; f.T.K == KArray && i < op.Idx && i < f.T.N; i++ {
				o.L[k].L[i] = clone(op.V.L[i])
			}
		case 'c':
			for _, m := range f.Methods {
				if !m.Get && m.Name == op.M {
					u, err := m.E.EvalTo(f.T, m.Ret, op.V.U)
					if err != nil {
						unk[k] = true
					} else {
						o.L[k] = V{U: u}
						delete(unk, k)
					}
				}
			}
		}
	}
	return o, unk
}

func (c *Case) verifyAcc(p *Program, s *Struct, v Variant, fs []string, bad func(string, string, ...any)) {
	var secs [3][]string
	k := 0
	for _, f := range fs {
		if f == "~" {
			k++
			if k > 2 {
				bad("acc", "unreadable answer")
				return
			}
			continue
		}
		secs[k] = append(secs[k], f)
	}
	if k != 2 {
		bad("acc", "unreadable answer %s", clip(strings.Join(fs, " ")))
		return
	}
	o, unk := c.accModel(s)
	var want, getters, custom []string
	for i, f := range s.Vals() {
		var t []string
		tokVal(f.T, o.L[i], &t)
		if unk[i] {
			for j := range t {
				t[j] = "?"
			}
		}
		want = append(want, t...)
		if f.T.K == KArray && (v.Target == "c" || v.Target == "cpp") {
			getters = append(getters, strconv.Itoa(f.T.N))
			getters = append(getters, t...)
			getters = append(getters, t...)
		} else {
			getters = append(getters, t...)
		}
		for _, m := range f.Methods {
			if !m.Get {
				continue
			}
			u, err := m.E.EvalTo(m.Ret, f.T, o.L[i].U)
			if err != nil || unk[i] {
				custom = append(custom, "?")
			} else {
				custom = append(custom, tokScalar(m.Ret, u))
			}
		}
	}
	cust := len(c.Ops) > 0 && hasCustom(c.Ops)
	asp := "acc"
	if cust {
		asp = "cset"
	}
	if v.canSet() {
		if d := diffToks(want, secs[0]); d != "" {
			bad(asp, "object after the setter calls: %s (%s)", d, fieldOfTok(s, o, want, secs[0]))
		}
	}
	if !v.Feat().Minimal {
		if d := diffToks(getters, secs[1]); d != "" {
			bad("get", "getters: %s", d)
		}
	}
	if v.canSet() {
		if d := diffToks(custom, secs[2]); d != "" {
			bad("cget", "custom getters: %s", d)
		}
	}
}

func hasCustom(ops []YOp) bool {
	for _, o := range ops {
		if o.C == 'c' {
			return true
		}
	}
	return false
}

func fieldOfTok(s *Struct, o V, want, got []string) string {
	n := 0
	for i, f := range s.Vals() {
		var t []string
		tokVal(f.T, o.L[i], &t)
		for range t {
			if n < len(want) && n < len(got) && want[n] != got[n] && want[n] != "?" {
				return "field " + f.Name
			}
			n++
		}
	}
	return ""
}

// nontrivial: the case exercises more than a single zero byte-aligned field.
func (c *Case) nontrivial(p *Program) bool {
	s := p.find(c.St)
	if s == nil || len(s.Flat()) < 2 {
		return false
	}
	if c.Kind == "junk" {
		return len(c.Raw) > 0
	}
	for _, b := range Encode(s, c.A) {
		if b != 0 {
			return true
		}
	}
	return c.Kind == "stat" && s.FixedBits() > 8
}

// key identifies the case's struct by its text.
func (c *Case) key(p *Program) string {
	var sb strings.Builder
	p.find(c.St).EmitBody(&sb, "")
	return sb.String()
}

// isoMsg is the message for B with other padding bits.
func (c *Case) isoMsg(s *Struct) ([]byte, bool) {
	n := *c
	n.A = c.B
	if n.Noise != 0 {
		n.Noise = n.Noise*3 + 7
	}
	return n.msg(s)
}

func (c *Case) leafName(s *Struct) string {
	sps := Spans(s, c.A)
	if c.CIdx < len(sps) {
		return spanName(sps[c.CIdx])
	}
	return "nothing"
}

func spanName(sp span) string {
	n := "an unnamed field"
	if sp.f != nil && sp.f.Name != "" {
		n = sp.f.Name
	}
	switch sp.kind {
	case 'p':
		return "padding"
	case 'c':
		return "constant " + n
	}
	if len(sp.path) > 1 {
		return fmt.Sprintf("%s%v", n, sp.path[1:])
	}
	return n
}
