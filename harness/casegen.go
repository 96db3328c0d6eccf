package main

import "math"

// Generation of cases for a schema.

// CaseCfg says how many cases of each kind a struct gets.
type CaseCfg struct {
	Enc, Dec, Pre, Reuse, Own, Acc, Trans, Eq, Corrupt, RT, Fill, Iso, Junk int
	Stat, Mem                                                               bool
	Wide                                                                    bool // values wider than the field
	Noise                                                                   bool // random padding bits in messages
	Custom                                                                  bool // custom setters in histories
	Long                                                                    bool
	Edges                                                                   bool // every edge of the length prefix, in a random field
	Huge                                                                    bool // and the edge of a fourth byte, in one field
	PreMax                                                                  int  // longest message for truncation cases
	CleanFill                                                               bool
}

func hasPad(s *Struct) bool {
	for _, f := range s.Flat() {
		if f.K == FVoid {
			return true
		}
		if f.T != nil {
			if b := baseType(f.T); b.K == KStruct && hasPad(b.St) {
				return true
			}
		}
	}
	return false
}

// GenCases draws cases for every struct of the program.
func GenCases(r *Rng, p *Program, cc CaseCfg) []*Case {
	var out []*Case
	huge := r.N(len(p.AllStructs()))
	for i, s := range p.AllStructs() {
		out = append(out, genStructCases(r, p, s, cc)...)
		if cc.Edges && s.Dynamic() {
			out = append(out, genEdges(r, s, cc, cc.Huge && i == huge)...)
		}
	}
	return out
}

func startPad(r *Rng, c *Case, clean bool) {
	if r.Pct(50) {
		c.Start = pick(r, []int{1, 2, 3, 5, 7, 8, 16})
	}
	if r.Pct(60) {
		c.Pad = r.Range(1, 12)
	}
	c.Fill = int(r.U64() & 255)
	if r.Pct(30) {
		c.Fill = 255
	}
	if clean {
		c.Fill = 0
	}
}

func genStructCases(r *Rng, p *Program, s *Struct, cc CaseCfg) []*Case {
	var out []*Case
	vc := ValCfg{Wide: cc.Wide, LongDyn: cc.Long}
	nv := ValCfg{LongDyn: cc.Long}
	mk := func(kind string) *Case {
		c := &Case{Kind: kind, St: s.Name, A: GenStructVal(r, s, nv)}
		if cc.Noise && r.Pct(70) && hasPad(s) {
			c.Noise = r.U64() | 1
		}
		return c
	}
	for i := 0; i < cc.Enc; i++ {
		c := &Case{Kind: "enc", St: s.Name, A: GenStructVal(r, s, vc)}
		startPad(r, c, cc.CleanFill)
		out = append(out, c)
	}
	for i := 0; i < cc.RT; i++ {
		c := &Case{Kind: "rt", St: s.Name, A: GenStructVal(r, s, nv)}
		startPad(r, c, cc.CleanFill)
		out = append(out, c)
	}
	for i := 0; i < cc.Fill; i++ {
		c := &Case{Kind: "fill", St: s.Name, A: GenStructVal(r, s, vc)}
		startPad(r, c, false)
		out = append(out, c)
	}
	for i := 0; i < cc.Iso; i++ {
		if c := genIso(r, s, mk("isod"), i%2 == 0); c != nil {
			out = append(out, c)
		}
	}
	for i := 0; i < cc.Dec; i++ {
		c := mk("dec")
		startPad(r, c, false)
		out = append(out, c)
	}
	pm := cc.PreMax
	if pm == 0 {
		pm = 90
	}
	for i := 0; i < cc.Pre; i++ {
		c := mk("pre")
		if r.Pct(30) && s.Dynamic() { // lengths of several bytes, cut anywhere
			lengthen(r, s, &c.A)
			if len(Encode(s, c.A)) <= 8*pm {
				out = append(out, c)
				continue
			}
		}
		for k := 0; k < 6 && len(Encode(s, c.A)) > pm; k++ {
			c.A = GenStructVal(r, s, ValCfg{})
		}
		if len(Encode(s, c.A)) <= 4*pm {
			out = append(out, c)
		}
	}
	for i := 0; i < cc.Reuse; i++ {
		c := mk("reuse")
		c.B = GenStructVal(r, s, nv)
		out = append(out, c)
	}
	for i := 0; i < cc.Own; i++ {
		if !s.Dynamic() && r.Pct(80) {
			continue
		}
		c := mk("own")
		c.Fill = int(r.U64() & 255)
		out = append(out, c)
	}
	for i := 0; i < cc.Junk; i++ {
		c := mk("junk")
		if r.Pct(10) && s.Dynamic() {
			lengthen(r, s, &c.A)
		}
		startPad(r, c, false)
		c.Raw, c.Pad = genJunk(r, s, c.A), 0
		out = append(out, c)
	}
	for i := 0; i < cc.Trans; i++ {
		out = append(out, mk("trans"))
	}
	if cc.Mem {
		out = append(out, &Case{Kind: "mem", St: s.Name, A: GenStructVal(r, s, nv)})
	}
	if cc.Stat {
		out = append(out, &Case{Kind: "stat", St: s.Name, A: GenStructVal(r, s, nv)})
	}
	for i := 0; i < cc.Eq; i++ {
		out = append(out, genEq(r, s, nv)...)
	}
	for i := 0; i < cc.Corrupt; i++ {
		if c := genCorrupt(r, s, mk("dec")); c != nil {
			out = append(out, c)
		}
	}
	for i := 0; i < cc.Acc; i++ {
		if c := genAcc(r, s, cc.Custom); c != nil {
			out = append(out, c)
		}
	}
	return out
}

// genCorrupt turns a decode case into one whose message has one constant wrong.
func genCorrupt(r *Rng, s *Struct, c *Case) *Case {
	var ks []int
	n := 0
	sps := Spans(s, c.A)
	var ns []int
	for _, sp := range sps {
		if sp.kind == 'c' {
			ks = append(ks, n)
			ns = append(ns, sp.n)
			n++
		}
	}
	if n == 0 {
		return nil
	}
	c.CIdx = r.N(n)
	w := ns[c.CIdx]
	switch r.W(50, 30, 20) {
	case 0:
		c.CXor = 1 << uint(r.N(min(w, 64)))
	case 1:
		c.CXor = r.U64() & mask(w)
	default:
		c.CXor = 1 << uint(min(w, 64)-1)
	}
	if c.CXor == 0 {
		c.CXor = 1
	}
	return c
}

// genEq makes an equal pair and an unequal pair differing in one leaf.
func genEq(r *Rng, s *Struct, vc ValCfg) []*Case {
	a := GenStructVal(r, s, vc)
	for i, f := range s.Vals() { // the equality of NaN is left to the host language
		stripNaN(f.T, &a.L[i])
	}
	out := []*Case{{Kind: "eq", St: s.Name, A: a, B: clone(a), Eq: true}}
	b := clone(a)
	if mutateLeaf(r, s, &b) {
		out = append(out, &Case{Kind: "eq", St: s.Name, A: a, B: b, Eq: false})
	}
	x, y := clone(a), clone(a)
	if zeroLeaf(r, s, &x, &y) {
		out = append(out, &Case{Kind: "eq", St: s.Name, A: x, B: y, Zero: true})
	}
	return out
}

func stripNaN(t *Type, v *V) {
	switch t.K {
	case KFloat:
		if isNaN(t.W, v.U) {
			v.U = 0
		}
	case KStruct:
		for i, f := range t.St.Vals() {
			stripNaN(f.T, &v.L[i])
		}
	case KArray:
		for i := range v.L {
			stripNaN(t.Elem, &v.L[i])
		}
	}
}

// zeroLeaf makes some float leaf of the two equal values zeros of different sign.
func zeroLeaf(r *Rng, s *Struct, x, y *V) bool {
	var at func(t *Type, x, y *V) bool
	at = func(t *Type, x, y *V) bool {
		switch t.K {
		case KFloat:
			x.U, y.U = 0, 1<<uint(t.W-1)
			if r.Pct(50) {
				x.U, y.U = y.U, x.U
			}
			return true
		case KArray:
			i := r.N(t.N)
			return at(t.Elem, &x.L[i], &y.L[i])
		case KStruct:
			return zeroLeaf(r, t.St, x, y)
		}
		return false
	}
	fs := s.Vals()
	o := r.N(len(fs) + 1)
	for k := range fs {
		i := (k + o) % len(fs)
		if at(fs[i].T, &x.L[i], &y.L[i]) {
			return true
		}
	}
	return false
}

// mutateLeaf changes one leaf so that its host value differs.
func mutateLeaf(r *Rng, s *Struct, v *V) bool {
	fs := s.Vals()
	for try := 0; try < 12 && len(fs) > 0; try++ {
		i := r.N(len(fs))
		if mutVal(r, fs[i].T, fs[i].Bits, &v.L[i]) {
			return true
		}
	}
	return false
}

func mutVal(r *Rng, t *Type, bits int, v *V) bool {
	switch t.K {
	case KArray:
		i := r.N(t.N)
		if r.Pct(30) {
			i = t.N - 1
		}
		return mutVal(r, t.Elem, bits/t.N, &v.L[i])
	case KStruct:
		return mutateLeaf(r, t.St, v)
	case KString, KBytes:
		old := v.S
		if len(old) > 0 && r.Pct(40) && t.K == KBytes {
			n := append([]byte{}, old...)
			n[r.N(len(n))] ^= byte(r.Range(1, 255))
			v.S = n
			return true
		}
		if len(old) > 0 && t.K == KString && r.Pct(30) && old[len(old)-1] < 0x80 {
			n := append([]byte{}, old...)
			if n[len(n)-1] == 'z' {
				n[len(n)-1] = 'y'
			} else {
				n[len(n)-1] = 'z'
			}
			v.S = n
			return true
		}
		if r.Pct(50) {
			v.S = append(append([]byte{}, old...), 'q')
			return true
		}
		if len(old) == 0 || t.K == KString {
			return false
		}
		v.S = append([]byte{}, old[:len(old)-1]...)
		return true
	}
	n := GenVal(r, t, bits, ValCfg{})
	if n.U == v.U {
		return false
	}
	if t.K == KFloat && (isNaN(t.W, n.U) || isNaN(t.W, v.U) || n.U<<1 == 0 && v.U<<1 == 0 || floatZero(t.W, n.U) && floatZero(t.W, v.U)) {
		return false
	}
	*v = n
	return true
}

func floatZero(w int, u uint64) bool { return u&(mask(w)>>1) == 0 }

func genAcc(r *Rng, s *Struct, custom bool) *Case {
	c := &Case{Kind: "acc", St: s.Name, A: GenStructVal(r, s, ValCfg{Wide: r.Pct(50)})}
	fs := s.Vals()
	n := r.N(7)
	if custom {
		n = r.Range(1, 5)
	}
	// values of fields with custom getters stay where the expressions are defined
	for i, f := range fs {
		if v, ok := tameVal(r, f, c.A.L[i]); ok {
			c.A.L[i] = v
		} else {
			return nil
		}
	}
	for i := 0; i < n && len(fs) > 0; i++ {
		f := pick(r, fs)
		var cs []string
		for _, m := range f.Methods {
			if !m.Get {
				cs = append(cs, m.Name)
			}
		}
		if custom && len(cs) == 0 && r.Pct(70) {
			continue
		}
		if custom && len(cs) > 0 && r.Pct(75) {
			nm := pick(r, cs)
			for _, m := range f.Methods {
				if !m.Get && m.Name == nm {
					if v, ok := tameArg(r, f, m); ok {
						c.Ops = append(c.Ops, YOp{C: 'c', F: f.Name, M: nm, V: v})
					}
				}
			}
			continue
		}
		if f.T.K == KArray && r.Pct(60) {
			c.Ops = append(c.Ops, YOp{C: 'i', F: f.Name, Idx: r.N(f.T.N), V: GenVal(r, f.T.Elem, max(f.Bits/f.T.N, 1), ValCfg{Wide: r.Pct(50)})})
			continue
		}
		if v, ok := tameVal(r, f, GenVal(r, f.T, max(f.Bits, 1), ValCfg{Wide: r.Pct(50)})); ok {
			if f.T.K == KArray && r.Pct(50) {
				c.Ops = append(c.Ops, YOp{C: 'p', F: f.Name, Idx: r.N(f.T.N + 3), V: v})
				continue
			}
			c.Ops = append(c.Ops, YOp{C: 'f', F: f.Name, V: v})
		}
	}
	return c
}

// smallVal is a value of moderate size.
func smallVal(r *Rng, t *Type) V {
	switch t.K {
	case KBool:
		return V{U: r.U64() & 1}
	case KFloat:
		f := float64(r.Range(-1<<r.Range(0, 14), 1<<r.Range(0, 14))) / float64(int(1)<<r.Range(0, 4))
		if t.W == 32 {
			return V{U: uint64(math.Float32bits(float32(f)))}
		}
		return V{U: math.Float64bits(f)}
	}
	n := r.Range(1, min(t.W, 16))
	return V{U: extend(t, n, r.U64())}
}

// getsOK: every custom getter of the field has a value for u.
func getsOK(f *Field, u uint64) bool {
	for _, m := range f.Methods {
		if m.Get {
			if _, err := m.E.EvalTo(m.Ret, f.T, u); err != nil {
				return false
			}
		}
	}
	return true
}

func tameVal(r *Rng, f *Field, v V) (V, bool) {
	if len(f.Methods) == 0 {
		return v, true
	}
	for k := 0; k < 40; k++ {
		if getsOK(f, v.U) {
			return v, true
		}
		if k < 8 {
			v = GenVal(r, f.T, max(f.Bits, 1), ValCfg{})
		} else {
			v = smallVal(r, f.T)
		}
	}
	return v, false
}

func tameArg(r *Rng, f *Field, m *Method) (V, bool) {
	for k := 0; k < 40; k++ {
		var v V
		if k < 8 {
			v = GenVal(r, m.Ret, m.Ret.TypeBits(), ValCfg{})
		} else {
			v = smallVal(r, m.Ret)
		}
		if u, err := m.E.EvalTo(f.T, m.Ret, v.U); err == nil && getsOK(f, u) {
			return v, true
		}
	}
	return V{}, false
}

// genIso picks one fixed-size leaf and a second value for it: any host value
// when encoding, any wire value when decoding.
func genIso(r *Rng, s *Struct, c *Case, enc bool) *Case {
	var ks []int
	sps := Spans(s, c.A)
	for i, sp := range sps {
		if sp.kind == 'v' {
			ks = append(ks, i)
		}
	}
	if len(ks) == 0 {
		return nil
	}
	c.CIdx = pick(r, ks)
	sp := sps[c.CIdx]
	c.B = clone(c.A)
	v := &c.B
	for _, i := range sp.path {
		v = &v.L[i]
	}
	if enc {
		c.Kind = "isoe"
		c.Noise = 0
		*v = GenVal(r, sp.t, sp.n, ValCfg{Wide: true})
		if sp.t.K == KInt && r.Pct(60) {
			v.U = r.U64() & mask(sp.t.W)
		}
	} else {
		*v = GenVal(r, sp.t, sp.n, ValCfg{})
	}
	startPad(r, c, false)
	return c
}

// lengthen makes one bytes field of the object long enough for a length of two bytes.
func lengthen(r *Rng, s *Struct, v *V) {
	n := pick(r, []int{127, 128, 129, 130, 200, 255, 256, 257, 300})
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	if at, _ := dynLeaves(s, v); len(at) > 0 {
		at[r.N(len(at))].S = b
	}
}

// genEdges has cases with one string or byte field of every length at which
// the length prefix grows.
func genEdges(r *Rng, s *Struct, cc CaseCfg, huge bool) []*Case {
	var kinds []string
	for _, k := range []struct {
		n int
		s string
	}{{cc.Enc, "enc"}, {cc.RT, "rt"}, {cc.Dec, "dec"}, {cc.Own, "own"}, {cc.Fill, "fill"}, {cc.Reuse, "reuse"}} {
		if k.n > 0 {
			kinds = append(kinds, k.s)
		}
	}
	var out []*Case
	if len(kinds) == 0 {
		return out
	}
	ls := []int{127, 128, 16383, 16384, 16385}
	if huge {
		ls = append(ls, 2097151, 2097152)
	}
	for _, n := range ls {
		c := &Case{Kind: pick(r, kinds), St: s.Name, A: GenStructVal(r, s, ValCfg{})}
		if c.Kind == "reuse" {
			c.B = GenStructVal(r, s, ValCfg{})
		}
		at, str := dynLeaves(s, &c.A)
		at = append(at, str...)
		i := r.N(len(at))
		x := make([]byte, n)
		for j := range x {
			x[j] = byte(r.U64())
		}
		if i >= len(at)-len(str) {
			for j := range x {
				x[j] = 'a' + x[j]%26
			}
			if r.Pct(50) {
				k := r.N(n - 4)
				copy(x[k:], "\u65e5")
			}
		}
		at[i].S = x
		startPad(r, c, cc.CleanFill)
		out = append(out, c)
	}
	return out
}

// dynLeaves are the byte fields and the strings of a value.
func dynLeaves(s *Struct, v *V) (at, str []*V) {
	var walk func(t *Type, v *V)
	walk = func(t *Type, v *V) {
		switch t.K {
		case KBytes:
			at = append(at, v)
		case KString:
			str = append(str, v)
		case KStruct:
			for i, f := range t.St.Vals() {
				walk(f.T, &v.L[i])
			}
		case KArray:
			for i := range v.L {
				walk(t.Elem, &v.L[i])
			}
		}
	}
	walk(&Type{K: KStruct, St: s}, v)
	return
}
