package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Failure is one discrepancy between generated code and the reference.
type Failure struct {
	P     *Program
	V     Variant
	C     *Case // nil for build failures
	Prob  problem
	Cmd   string
	Got   string
	Build *Fail
	Pair  string // compared with another form of the schema: "inline" or "join"

	noShrink *Replay // already minimal
}

func (f *Failure) String() string {
	s := f.V.String() + ": "
	if f.Build != nil {
		return s + f.Build.Stage + " failed: " + clip2(f.Build.Msg, 1000)
	}
	return s + "struct " + f.C.St + ": " + f.Prob.Aspect + ": " + f.Prob.Msg
}

// Stats counts what a check covered.
type Stats struct {
	mu         sync.Mutex
	Generated  int
	Nontrivial int
	Schemas    int
	Structs    int
	ByVariant  map[string]int
	ByKind     map[string]int
	Samples    []string
	seen       map[[12]byte]bool
}

func NewStats() *Stats {
	return &Stats{ByVariant: map[string]int{}, ByKind: map[string]int{}, seen: map[[12]byte]bool{}}
}

func (st *Stats) add(v string, kind string, nontriv bool, key string) {
	h := sha256.Sum256([]byte(key))
	st.mu.Lock()
	defer st.mu.Unlock()
	st.Generated++
	if nontriv {
		st.Nontrivial++
		st.seen[[12]byte(h[:12])] = true
	}
	st.ByVariant[v]++
	st.ByKind[kind]++
}

func (st *Stats) sample(s string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	if len(st.Samples) < 12 {
		st.Samples = append(st.Samples, clip2(s, 500))
	}
}

// Job: one program under several variants, with the cases of each.
type Job struct {
	P     *Program
	Vars  []Variant
	Cases func(v Variant) []*Case
}

// runVariant builds and runs the cases of one variant and returns failures whose
// aspect passes the filter.
func runVariant(p *Program, v Variant, cases []*Case, keep func(asp string) bool, st *Stats) []*Failure {
	p = forTarget(p, v)
	s, fail := Build(p, v)
	if fail != nil {
		s, fail = Build(p, v) // once more: rules out a disturbed environment
	}
	if fail != nil {
		return []*Failure{{P: p, V: v, Build: fail}}
	}
	defer s.Close()
	outs, lines := s.Exec(cases)
	var fails []*Failure
	for i, c := range cases {
		if lines[i] == "" || ktUnsupported(outs[i]) {
			continue
		}
		if st != nil {
			st.add(v.Target+" "+strings.Join(v.Opts, " "), c.Kind, c.nontrivial(p), v.String()+c.key(p)+lines[i])
		}
		for _, pr := range c.verify(p, v, outs[i]) {
			if pr.Aspect == "crash" || keep(pr.Aspect) {
				fails = append(fails, &Failure{P: p, V: v, C: c, Prob: pr, Cmd: lines[i], Got: outs[i]})
				break
			}
		}
	}
	return fails
}

// Exec renders and runs the cases; a case that has no command for the program
// gets an empty one. Round trips feed each encoded message back in a second run.
func (s *Session) Exec(cases []*Case) (outs, cmds []string) {
	outs = make([]string, len(cases))
	cmds = make([]string, len(cases))
	var lines []string
	var idx []int
	for i, c := range cases {
		if l, ok := c.cmd(s.P, s.V); ok {
			cmds[i] = l
			lines = append(lines, l)
			idx = append(idx, i)
		}
	}
	if len(lines) == 0 {
		return
	}
	for k, o := range s.Run(lines) {
		outs[idx[k]] = o
	}
	lines, idx = nil, nil
	for i, c := range cases {
		if (c.Kind == "rt" || c.Kind == "fill" || c.Kind == "isoe" || c.Kind == "isod") && cmds[i] != "" {
			if l, ok := c.second(s.P, outs[i]); ok {
				lines = append(lines, l)
				idx = append(idx, i)
			}
		}
	}
	if len(lines) > 0 {
		for k, o := range s.Run(lines) {
			cmds[idx[k]] += " ; " + lines[k]
			outs[idx[k]] += " ; " + o
		}
	}
	return
}

// deadline after which no new work is started
var deadline time.Time

func runJobs(jobs []Job, keep func(string) bool, st *Stats) []*Failure {
	type unit struct {
		j *Job
		v Variant
	}
	var us []unit
	for i := range jobs {
		st.Schemas++
		st.Structs += len(jobs[i].P.AllStructs())
		for _, v := range jobs[i].Vars {
			us = append(us, unit{&jobs[i], v})
		}
	}
	res := make([][]*Failure, len(us))
	cas := make([][]*Case, len(us))
	for i, u := range us {
		cas[i] = u.j.Cases(u.v)
		if len(cas[i]) > 0 && i%7 == 0 {
			c := cas[i][len(cas[i])/2]
			if l, ok := c.cmd(u.j.P, u.v); ok {
				st.sample(fmt.Sprintf("[%s] struct %s %s: %s", u.v, c.St, c.Kind, l))
			}
		}
	}
	skipped := 0
	var mu sync.Mutex
	nfail := 0
	par(len(us), func(i int) {
		mu.Lock()
		stop := nfail > 40 || (!deadline.IsZero() && time.Now().After(deadline))
		mu.Unlock()
		if stop {
			mu.Lock()
			skipped++
			mu.Unlock()
			return
		}
		res[i] = runVariant(us[i].j.P, us[i].v, cas[i], keep, st)
		mu.Lock()
		nfail += len(res[i])
		mu.Unlock()
	})
	if skipped > 0 && nfail == 0 {
		fmt.Printf("note: %d of %d units not started within the time limit\n", skipped, len(us))
	}
	var out []*Failure
	for _, r := range res {
		out = append(out, r...)
	}
	return out
}

// ---- cloning and shrinking ----

type cloner struct {
	e map[*Enum]*Enum
	s map[*Struct]*Struct
	f map[*File]*File
}

func CloneProgram(p *Program) *Program {
	c := &cloner{map[*Enum]*Enum{}, map[*Struct]*Struct{}, map[*File]*File{}}
	q := &Program{}
	for _, f := range p.Files {
		q.Files = append(q.Files, c.file(f))
	}
	return q
}
func (c *cloner) file(f *File) *File {
	if f == nil {
		return nil
	}
	if n, ok := c.f[f]; ok {
		return n
	}
	n := &File{Path: f.Path, Pkg: f.Pkg, Options: append([][2]string{}, f.Options...), ImpText: append([]string{}, f.ImpText...)}
	c.f[f] = n
	for _, i := range f.Imports {
		n.Imports = append(n.Imports, c.file(i))
	}
	for _, d := range f.Defs {
		if d.En != nil {
			n.Defs = append(n.Defs, Def{En: c.enum(d.En)})
		} else {
			n.Defs = append(n.Defs, Def{St: c.strct(d.St)})
		}
	}
	return n
}
func (c *cloner) enum(e *Enum) *Enum {
	if n, ok := c.e[e]; ok {
		return n
	}
	n := *e
	n.Members = append([]EnumMember{}, e.Members...)
	c.e[e] = &n
	n.File = c.file(e.File)
	return c.e[e]
}
func (c *cloner) strct(s *Struct) *Struct {
	if n, ok := c.s[s]; ok {
		return n
	}
	n := &Struct{Name: s.Name, DeclSize: s.DeclSize, Nested: s.Nested}
	c.s[s] = n
	n.File = c.file(s.File)
	for _, f := range s.Fields {
		g := *f
		g.T = c.typ(f.T)
		if f.Emb != nil {
			g.Emb = c.strct(f.Emb)
		}
		g.Methods = append([]*Method{}, f.Methods...)
		n.Fields = append(n.Fields, &g)
	}
	return n
}
func (c *cloner) typ(t *Type) *Type {
	if t == nil {
		return nil
	}
	n := *t
	if t.En != nil {
		n.En = c.enum(t.En)
	}
	if t.St != nil {
		n.St = c.strct(t.St)
	}
	n.Elem = c.typ(t.Elem)
	return &n
}

// remap carries a value of old struct s to new struct t (fields by name).
func remap(s, t *Struct, v V) V {
	byName := map[string]int{}
	for i, f := range s.Vals() {
		byName[f.Name] = i
	}
	old := s.Vals()
	var o V
	for _, f := range t.Vals() {
		i, ok := byName[f.Name]
		if !ok || i >= len(v.L) {
			o.L = append(o.L, zeroV(f.T))
			continue
		}
		o.L = append(o.L, remapT(old[i].T, f.T, v.L[i]))
	}
	return o
}

func remapT(a, b *Type, v V) V {
	if a.K != b.K {
		return zeroV(b)
	}
	switch a.K {
	case KArray:
		var o V
		for i := 0; i < b.N; i++ {
			if i < len(v.L) {
				o.L = append(o.L, remapT(a.Elem, b.Elem, v.L[i]))
			} else {
				o.L = append(o.L, zeroV(b.Elem))
			}
		}
		return o
	case KStruct:
		return remap(a.St, b.St, v)
	}
	return v
}

func zeroV(t *Type) V {
	switch t.K {
	case KArray:
		var o V
		for i := 0; i < t.N; i++ {
			o.L = append(o.L, zeroV(t.Elem))
		}
		return o
	case KStruct:
		var o V
		for _, f := range t.St.Vals() {
			o.L = append(o.L, zeroV(f.T))
		}
		return o
	case KEnum:
		return V{U: uint64(t.En.Members[0].Val) & mask(t.En.Bits)}
	}
	return V{}
}

func (c *Case) moved(p, q *Program) *Case {
	s, t := p.find(c.St), q.find(c.St)
	if s == nil || t == nil {
		return nil
	}
	n := *c
	n.A = remap(s, t, c.A)
	if c.B.L != nil {
		n.B = remap(s, t, c.B)
	}
	n.Ops = nil
	for _, o := range c.Ops {
		i, j := s.valIndex(o.F), t.valIndex(o.F)
		if i < 0 || j < 0 {
			continue
		}
		a, b := s.Vals()[i].T, t.Vals()[j].T
		if o.C == 'i' {
			if b.K != KArray || o.Idx >= b.N {
				continue
			}
			o.V = remapT(a.Elem, b.Elem, o.V)
		} else if o.C == 'f' {
			o.V = remapT(a, b, o.V)
		} else if o.C == 'p' {
			if b.K != KArray {
				continue
			}
			if a.N != b.N {
				o.Idx = min(o.Idx, b.N)
			}
			o.V = remapT(a, b, o.V)
		}
		n.Ops = append(n.Ops, o)
	}
	return &n
}

// reach drops definitions that struct st does not need.
func reach(p *Program, st string) *Program {
	q := CloneProgram(p)
	need := map[any]bool{}
	var ws func(s *Struct)
	var wt func(t *Type)
	wt = func(t *Type) {
		if t == nil {
			return
		}
		if t.En != nil {
			need[t.En] = true
		}
		if t.St != nil {
			ws(t.St)
		}
		wt(t.Elem)
	}
	ws = func(s *Struct) {
		need[s] = true
		for _, f := range s.Fields {
			wt(f.T)
			if f.Emb != nil {
				ws(f.Emb)
			}
		}
	}
	// a nested struct drags its owner in
	var owns func(s *Struct, name string) bool
	owns = func(s *Struct, name string) bool {
		if s.Name == name {
			return true
		}
		for _, f := range s.Fields {
			if f.Emb != nil && f.K == FEmbedDef && owns(f.Emb, name) {
				return true
			}
			if f.Inline && owns(baseType(f.T).St, name) {
				return true
			}
		}
		return false
	}
	for _, s := range q.Structs() {
		if owns(s, st) {
			ws(s)
		}
	}
	// enum constants referenced by name
	txt := ""
	for _, f := range q.Files {
		for _, d := range f.Defs {
			if d.St != nil && need[d.St] {
				var sb strings.Builder
				d.St.EmitBody(&sb, "")
				txt += sb.String()
			}
		}
	}
	for again := true; again; {
		again = false
		for _, e := range q.Enums() {
			if need[e] {
				continue
			}
			for _, m := range e.Members {
				if strings.Contains(txt, m.Name) {
					need[e] = true
				}
				for _, e2 := range q.Enums() {
					if need[e2] {
						for _, m2 := range e2.Members {
							if m2.Spec == " = "+m.Name {
								need[e] = true
							}
						}
					}
				}
			}
			again = again || need[e]
		}
	}
	for _, f := range q.Files {
		var ds []Def
		for _, d := range f.Defs {
			if d.En != nil && need[d.En] || d.St != nil && need[d.St] {
				ds = append(ds, d)
			}
		}
		f.Defs = ds
	}
	return q
}

type cand struct {
	p *Program
	c *Case
}

// candidates lists smaller variants of a failing case, smallest first.
func candidates(p *Program, c *Case) []cand {
	var out []cand
	add := func(q *Program) {
		if n := c.moved(p, q); n != nil {
			out = append(out, cand{q, n})
		}
	}
	count := len(allDefsStructs(p))
	for si := 0; si < count; si++ {
		nf := len(allDefsStructs(p)[si].Fields)
		edit := func(fn func(s *Struct) bool) {
			q := CloneProgram(p)
			s := allDefsStructs(q)[si]
			if fn(s) {
				fixSizes(q)
				add(q)
			}
		}
		if nf > 3 { // halves
			h := nf / 2
			edit(func(s *Struct) bool { s.Fields = s.Fields[:h]; return true })
			edit(func(s *Struct) bool { s.Fields = s.Fields[h:]; return true })
		}
		for k := 0; k < nf; k++ {
			k := k
			edit(func(s *Struct) bool {
				s.Fields = append(append([]*Field{}, s.Fields[:k]...), s.Fields[k+1:]...)
				return len(s.Fields) > 0
			})
		}
		for k := 0; k < nf; k++ {
			k := k
			edit(func(s *Struct) bool { // same room, no content
				f := s.Fields[k]
				b := f.FixedBits()
				if f.K == FVoid || b == 0 || b > 64 || (f.T != nil && f.T.Dynamic()) {
					return false
				}
				s.Fields[k] = &Field{K: FVoid, Bits: b, SizeText: sizeText(b, nil)}
				return true
			})
			edit(func(s *Struct) bool {
				f := s.Fields[k]
				if f.T == nil || f.T.K != KArray || f.T.N <= 1 {
					return false
				}
				eb := 0
				if f.Bits > 0 {
					eb = f.Bits / f.T.N
				}
				f.T.N = 1
				f.Bits = eb
				return true
			})
			edit(func(s *Struct) bool {
				f := s.Fields[k]
				if f.T == nil || f.T.K != KArray || f.T.N <= 2 {
					return false
				}
				if f.Bits > 0 {
					f.Bits = f.Bits / f.T.N * (f.T.N - 1)
				}
				f.T.N--
				return true
			})
			edit(func(s *Struct) bool {
				f := s.Fields[k]
				if f.Order == "" {
					return false
				}
				f.Order = ""
				return true
			})
			edit(func(s *Struct) bool {
				f := s.Fields[k]
				if len(f.Methods) == 0 {
					return false
				}
				f.Methods = nil
				return true
			})
			for m := 0; m < len(allDefsStructs(p)[si].Fields[k].Methods); m++ {
				m := m
				edit(func(s *Struct) bool {
					f := s.Fields[k]
					f.Methods = append(append([]*Method{}, f.Methods[:m]...), f.Methods[m+1:]...)
					return true
				})
			}
		}
	}
	// values
	s := p.find(c.St)
	for i := range c.A.L {
		n := *c
		n.A = clone(c.A)
		z := zeroV(s.Vals()[i].T)
		if !eqV(n.A.L[i], z) {
			n.A.L[i] = z
			out = append(out, cand{p, &n})
		}
	}
	for i := range c.Ops {
		n := *c
		n.Ops = append(append([]YOp{}, c.Ops[:i]...), c.Ops[i+1:]...)
		out = append(out, cand{p, &n})
	}
	simp := func(f func(n *Case)) {
		n := *c
		f(&n)
		out = append(out, cand{p, &n})
	}
	if c.Start != 0 {
		simp(func(n *Case) { n.Start = 0 })
	}
	if c.Pad != 0 {
		simp(func(n *Case) { n.Pad = 0 })
	}
	for _, b := range smallerJunk(c.Raw) {
		simp(func(n *Case) { n.Raw = b })
	}
	if c.Noise != 0 {
		simp(func(n *Case) { n.Noise = 0 })
	}
	return out
}

// every struct with a body, embedded definitions included
func allDefsStructs(p *Program) []*Struct {
	var out []*Struct
	var walk func(s *Struct)
	walk = func(s *Struct) {
		out = append(out, s)
		for _, f := range s.Fields {
			if f.K == FEmbedDef {
				walk(f.Emb)
			}
			if f.K == FNormal && f.Inline {
				walk(baseType(f.T).St)
			}
		}
	}
	for _, s := range p.Structs() {
		walk(s)
	}
	return out
}

// fixSizes rewrites size annotations after an edit.
func fixSizes(p *Program) {
	for _, s := range allDefsStructs(p) {
		s.DeclSize = ""
	}
	for pass := 0; pass < 4; pass++ {
		for _, s := range allDefsStructs(p) {
			for _, f := range s.Fields {
				if f.K == FVoid {
					f.SizeText = sizeText(f.Bits, nil)
					continue
				}
				if f.T == nil {
					continue
				}
				if f.T.Dynamic() {
					f.Bits = 0
					f.SizeText = ""
					continue
				}
				bt := baseType(f.T)
				if bt.K == KStruct {
					f.Bits = f.T.TypeBits()
					f.SizeText = ""
				} else if f.Bits != f.T.TypeBits() {
					f.SizeText = sizeText(f.Bits, nil)
				} else {
					f.SizeText = ""
				}
			}
		}
	}
}

func valid(p *Program) bool {
	for _, s := range allDefsStructs(p) {
		if len(s.Vals()) == 0 || !layoutOK(s) {
			return false
		}
	}
	return true
}

// layoutOK: dynamic and struct fields byte aligned, whole bytes in total.
func layoutOK(s *Struct) bool {
	pos := 0
	for _, f := range s.Fields {
		switch f.K {
		case FEmbedRef, FEmbedDef:
			if pos%8 != 0 {
				return false
			}
			pos += f.Emb.FixedBits()
			continue
		}
		if f.T != nil && f.T.needsAlign() && pos%8 != 0 {
			return false
		}
		pos += f.FixedBits()
	}
	return pos%8 == 0
}

func size(p *Program, c *Case) int {
	n := 0
	for _, f := range p.Files {
		n += len(f.Emit())
	}
	if l, ok := c.cmd(p, Variant{Target: "c"}); ok {
		n += len(l)
	}
	return n
}

// Shrink reduces a failure while the same kind of problem remains.
func Shrink(f *Failure, keep func(string) bool, limit time.Duration) *Failure {
	if os.Getenv("VH_FAST") != "" {
		return f
	}
	if f.C == nil {
		return shrinkBuild(f, limit)
	}
	end := time.Now().Add(limit)
	best := f
	try := func(cs []cand) *Failure {
		res := make([]*Failure, len(cs))
		par(len(cs), func(i int) {
			if !valid(cs[i].p) || time.Now().After(end) {
				return
			}
			fs := runVariantOnce(cs[i].p, f.V, cs[i].c, f.Pair, keep)
			if fs != nil && fs.Build == nil && (fs.Prob.Aspect == f.Prob.Aspect) {
				res[i] = fs
			}
		})
		for _, r := range res {
			if r != nil {
				return r
			}
		}
		return nil
	}
	q := reach(f.P, f.C.St)
	if n := f.C.moved(f.P, q); n != nil {
		if r := try([]cand{{q, n}}); r != nil {
			best = r
		}
	}
	for time.Now().Before(end) {
		cs := candidates(best.P, best.C)
		sort.SliceStable(cs, func(i, j int) bool { return size(cs[i].p, cs[i].c) < size(cs[j].p, cs[j].c) })
		found := false
		for i := 0; i < len(cs) && !found && time.Now().Before(end); i += 8 {
			if r := try(cs[i:min(i+8, len(cs))]); r != nil {
				best = r
				found = true
			}
		}
		if !found {
			break
		}
	}
	return best
}

func runVariantOnce(p *Program, v Variant, c *Case, pair string, keep func(string) bool) *Failure {
	if pair != "" {
		fs, _ := runPair(p, v, []*Case{c}, pair, nil)
		for _, f := range fs {
			return f
		}
		return nil
	}
	p = forTarget(p, v)
	s, fail := Build(p, v)
	if fail != nil {
		return &Failure{P: p, V: v, Build: fail}
	}
	defer s.Close()
	o, l := s.Exec([]*Case{c})
	if l[0] == "" || ktUnsupported(o[0]) {
		return nil
	}
	for _, pr := range c.verify(p, v, o[0]) {
		if pr.Aspect == "crash" || keep(pr.Aspect) {
			return &Failure{P: p, V: v, C: c, Prob: pr, Cmd: l[0], Got: o[0]}
		}
	}
	return nil
}

// shrinkBuild reduces a schema whose generated code does not build.
func shrinkBuild(f *Failure, limit time.Duration) *Failure {
	if os.Getenv("VH_FAST") != "" {
		return f
	}
	end := time.Now().Add(limit)
	best := f
	try := func(ps []*Program) *Failure {
		res := make([]*Failure, len(ps))
		par(len(ps), func(i int) {
			if !valid(ps[i]) || time.Now().After(end) {
				return
			}
			s, fail := Build(ps[i], f.V)
			if fail == nil {
				s.Close()
				return
			}
			if fail.Stage == f.Build.Stage && errSig(fail.Msg) == errSig(f.Build.Msg) {
				if f.Pair != "" {
					q, fail2 := Build(pairOf(f.Pair, ps[i]), f.V)
					if fail2 != nil {
						return
					}
					q.Close()
				}
				res[i] = &Failure{P: ps[i], V: f.V, Build: fail, Pair: f.Pair}
			}
		})
		for _, r := range res {
			if r != nil {
				return r
			}
		}
		return nil
	}
	var ps []*Program
	for _, s := range f.P.AllStructs() {
		ps = append(ps, reach(f.P, s.Name))
	}
	sort.SliceStable(ps, func(i, j int) bool { return psize(ps[i]) < psize(ps[j]) })
	for i := 0; i < len(ps); i += 8 {
		if r := try(ps[i:min(i+8, len(ps))]); r != nil {
			best = r
			break
		}
	}
	for time.Now().Before(end) {
		var cs []*Program
		for _, s := range best.P.AllStructs() {
			for _, c := range candidates(best.P, &Case{Kind: "stat", St: s.Name}) {
				if c.p != best.P {
					cs = append(cs, c.p)
				}
			}
			cs = append(cs, reach(best.P, s.Name))
		}
		sort.SliceStable(cs, func(i, j int) bool { return psize(cs[i]) < psize(cs[j]) })
		found := false
		for i := 0; i < len(cs) && !found && time.Now().Before(end); i += 8 {
			if r := try(cs[i:min(i+8, len(cs))]); r != nil && psize(r.P) < psize(best.P) {
				best = r
				found = true
			}
		}
		if !found {
			break
		}
	}
	return best
}

func psize(p *Program) int {
	n := 0
	for _, f := range p.Files {
		n += len(f.Emit())
	}
	return n
}

// ---- replay files ----

type Replay struct {
	Property string            `json:"property"`
	Target   string            `json:"target,omitempty"`
	Options  []string          `json:"options,omitempty"`
	San      bool              `json:"asan,omitempty"`
	Files    map[string]string `json:"files"`
	Main     string            `json:"main"`
	Structs  []string          `json:"structs,omitempty"`
	Command  string            `json:"command,omitempty"`
	Answer   string            `json:"answer,omitempty"`
	Problem  string            `json:"problem"`
	Args     []string          `json:"args,omitempty"`
	Kind     string            `json:"kind"`            // "case", "build", "pair" or "cli"
	Prog     json.RawMessage   `json:"prog,omitempty"`  // the schema as a graph
	Prog2    json.RawMessage   `json:"prog2,omitempty"` // the schema compared with
	Case     json.RawMessage   `json:"case,omitempty"`
	Aspect   string            `json:"aspect,omitempty"`
	Seed     uint64            `json:"seed,omitempty"`
	Extra    map[string]string `json:"extra,omitempty"`
}

func writeReplay(prop string, rp *Replay) string {
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	rp.Property = prop
	p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, replaySeq))
	replaySeq++
	b, _ := json.MarshalIndent(rp, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

var replaySeq int

func (f *Failure) replay() *Replay {
	rp := &Replay{Target: f.V.Target, Options: f.V.Opts, San: f.V.San, Files: map[string]string{}, Main: f.P.Files[0].Path, Command: f.Cmd, Answer: f.Got, Problem: f.String()}
	for _, fl := range f.P.Files {
		rp.Files[fl.Path] = fl.Emit()
	}
	for _, s := range f.P.AllStructs() {
		rp.Structs = append(rp.Structs, s.Name)
	}
	rp.Kind = "build"
	rp.Prog = dumpGraph(f.P)
	if f.C != nil {
		rp.Kind = "case"
		rp.Case = dumpGraph(f.C)
		rp.Aspect = f.Prob.Aspect
	}
	if f.Pair != "" {
		rp.Kind = "pair"
		rp.Extra = map[string]string{"compared_with": f.Pair}
		for _, fl := range pairOf(f.Pair, f.P).Files {
			rp.Extra[fl.Path+" ("+f.Pair+")"] = fl.Emit()
		}
	}
	return rp
}

var sigRe = regexp.MustCompile(`"[^"]*"|'[^']*'|‘[^’]*’|\x60[^\x60]*'|/[^ :]*|[0-9]+|\b[a-zA-Z0-9_.]*\b[ESf][a-z]{2}\w*|\b[EeSs][a-z]{2}[A-Za-z_]*`)

// errSig is the first error line without names and numbers.
func errSig(m string) string {
	for _, l := range strings.Split(m, "\n") {
		if strings.Contains(strings.ToLower(l), "error") || strings.Contains(l, "undefined") || strings.Contains(l, "cannot") {
			return sigRe.ReplaceAllString(l, "")
		}
	}
	return sigRe.ReplaceAllString(strings.SplitN(m, "\n", 2)[0], "")
}
