package main

// Metamorphic checks: a schema and another form of the same schema must behave
// alike (C12: embedded structs written inline; C16: several files joined).

import (
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func pairOf(mode string, p *Program) *Program {
	switch mode {
	case "inline":
		return InlineProgram(p)
	case "join":
		return JoinProgram(p)
	}
	panic(mode)
}

// runPair runs the cases under p and under its other form.
func runPair(p *Program, v Variant, cases []*Case, mode string, st *Stats) ([]*Failure, string) {
	p = forTarget(p, v)
	q := pairOf(mode, p)
	vq := v
	sq, fail := Build(q, vq)
	if fail != nil {
		return nil, "the other form does not build: " + clip2(fail.Msg, 300)
	}
	defer sq.Close()
	sp, fail := Build(p, v)
	if fail != nil {
		sp, fail = Build(p, v)
	}
	if fail != nil {
		return []*Failure{{P: p, V: v, Build: fail, Pair: mode}}, ""
	}
	defer sp.Close()
	var cp, cq []*Case
	for _, c := range cases {
		m := c.moved(p, q)
		if m == nil {
			continue
		}
		cp = append(cp, c)
		cq = append(cq, m)
	}
	op, lp := sp.Exec(cp)
	oq, lq := sq.Exec(cq)
	var fails []*Failure
	for i, c := range cp {
		if lp[i] == "" || lq[i] == "" {
			continue
		}
		if st != nil {
			st.add(v.Target+" "+strings.Join(v.Opts, " "), c.Kind, c.nontrivial(p), v.String()+c.key(p)+lp[i])
		}
		if ktUnsupported(op[i]) || ktUnsupported(oq[i]) {
			continue
		}
		a, b := normOut(op[i]), normOut(oq[i])
		if a != b {
			fails = append(fails, &Failure{P: p, V: v, C: c, Pair: mode, Cmd: lp[i], Got: op[i],
				Prob: problem{"pair", fmt.Sprintf("answers %s, the %s form answers %s to %s", clip2(op[i], 300), mode, clip2(oq[i], 300), clip2(lq[i], 300))}})
		}
	}
	return fails, ""
}

// normOut: crashes and exceptions are alike whatever their text.
func normOut(o string) string {
	if strings.HasPrefix(o, "CRASH") {
		return "CRASH"
	}
	if strings.HasPrefix(o, "EXC") {
		return strings.Join(strings.Fields(o)[:min(2, len(strings.Fields(o)))], " ")
	}
	return o
}

type pairUnit struct {
	p     *Program
	v     Variant
	cases []*Case
}

func (c *Ctx) pairs(mode string, us []pairUnit) {
	res := make([][]*Failure, len(us))
	par(len(us), func(i int) {
		u := us[i]
		if !deadline.IsZero() && time.Now().After(deadline) {
			return
		}
		fs, note := runPair(u.p, u.v, u.cases, mode, c.St)
		if note != "" {
			c.class("other forms that did not build (left to C14/C19)", 1)
		}
		res[i] = fs
		if i%7 == 0 && len(u.cases) > 0 {
			cs := u.cases[len(u.cases)/2]
			if l, ok := cs.cmd(u.p, u.v); ok {
				c.St.sample(fmt.Sprintf("[%s] struct %s %s: %s", u.v, cs.St, cs.Kind, l))
			}
		}
	})
	for _, fs := range res {
		c.fails = append(c.fails, fs...)
	}
}

func hasEmbed(s *Struct) bool {
	for _, f := range s.Fields {
		if f.K == FEmbedRef || f.K == FEmbedDef {
			return true
		}
	}
	return false
}

// usesEmbed: the struct embeds something at some level.
func usesEmbed(s *Struct) bool {
	if hasEmbed(s) {
		return true
	}
	for _, f := range s.Fields {
		if f.T != nil {
			if b := baseType(f.T); b.K == KStruct && usesEmbed(b.St) {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C12"] = func(c *Ctx) {
		c.Rule = codecRule + "; each case runs on a struct that embeds others and on the same struct with the embedded fields written in place, and the answers are compared literally"
		var us []pairUnit
		for i := 0; i < c.n(7, 120); i++ {
			r := c.R.Sub(uint64(i))
			g := cfgFor(r)
			g.Embed = 60
			g.Methods = r.Pct(50)
			g.Dyn = pick(r, []int{0, 20, 60})
			p := GenProgram(r, g)
			c.classify(p)
			c.St.Schemas++
			emb := map[string]bool{}
			for _, s := range p.AllStructs() {
				if usesEmbed(s) {
					emb[s.Name] = true
					c.St.Structs++
				}
			}
			for _, t := range runTargets {
				v := optVariant(r, t, false, 50)
				cc := CaseCfg{Enc: 3, Dec: 3, Pre: 1, Reuse: 1, Acc: 2, Custom: g.Methods, Stat: true, Wide: true, Noise: true, Corrupt: 1, Trans: 1}
				if t == "java" || t == "cs" || t == "kt" {
					cc.Eq = 1
				}
				var cs []*Case
				for _, k := range GenCases(NewRng(r.U64()), p, cc) {
					if emb[k.St] {
						cs = append(cs, k)
					}
				}
				us = append(us, pairUnit{p, v, cs})
			}
		}
		c.pairs("inline", us)
	}
	checks["C16"] = func(c *Ctx) {
		c.Rule = codecRule + "; each case runs on a schema split over 2-5 files and on the same schema in one file, and the answers are compared literally"
		var us []pairUnit
		for i := 0; i < c.n(8, 120); i++ {
			r := c.R.Sub(uint64(i))
			g := cfgFor(r)
			g.NestW += 8
			p := GenProgram(r, g)
			sc := SplitCfg{Files: r.Range(2, 5), SameLast: r.Pct(35), Transitive: r.Pct(40), PkgOpts: r.Pct(35), OmitEmpty: r.Pct(25)}
			p = SplitProgram(r, p, sc)
			c.classify(p)
			c.class("schema files", len(p.Files))
			c.St.Schemas++
			c.St.Structs += len(p.AllStructs())
			for _, t := range runTargets {
				v := Variant{Target: t, San: r.Pct(50)}
				if r.Pct(50) {
					v.Opts = randOpts(r, t, true)
				}
				cc := CaseCfg{Enc: 2, Dec: 2, Pre: 1, Acc: 1, Stat: true, Noise: true, Corrupt: 1, Trans: 1}
				us = append(us, pairUnit{p, v, GenCases(NewRng(r.U64()), p, cc)})
			}
		}
		c.pairs("join", us)
		c.importFaults()
	}
}

// importFaults: import graphs that must be rejected, nothing being written.
func (c *Ctx) importFaults() {
	var cs []*CliCase
	for i := 0; i < c.n(40, 600); i++ {
		r := c.R.Sub(uint64(100000 + i))
		g := cfgFor(r)
		g.Structs = r.Range(4, 12)
		p := SplitProgram(r, GenProgram(r, g), SplitCfg{Files: r.Range(2, 5), Transitive: r.Pct(50)})
		t := pick(r, append([]string{"kotlin"}, allTargets...))
		add := func(rule string, fs map[string]string) {
			cs = append(cs, &CliCase{Files: fs, Args: []string{"-t", t, "-o", "out", p.Files[0].Path}, Want: "reject", Rule: rule})
		}
		rel := func(from, to *File) string {
			x, _ := filepath.Rel(filepath.Dir("/"+from.Path), "/"+to.Path)
			return x
		}
		insert := func(f *File, line string) map[string]string {
			fs := filesOf(p, "")
			ls := strings.SplitAfterN(fs[f.Path], "\n", 2)
			fs[f.Path] = ls[0] + line + "\n" + ls[1]
			return fs
		}
		f := pick(r, p.Files)
		// every file is reached from the first: an import of it closes a cycle
		if f != p.Files[0] {
			add("import cycle", insert(f, fmt.Sprintf("import %q;", rel(f, p.Files[0]))))
		}
		add("self import", insert(f, fmt.Sprintf("import %q;", filepath.Base(f.Path))))
		add("missing file", insert(f, fmt.Sprintf("import %q;", "nowhere/none.bb")))
		if len(p.Files) > 1 {
			a, b := p.Files[0], p.Files[0]
			for a == b {
				a, b = pick(r, p.Files), pick(r, p.Files)
			}
			q := CloneProgram(p)
			for k := range p.Files {
				if p.Files[k] == a {
					q.Files[k].Pkg = b.Pkg
				}
			}
			add("duplicate package", filesOf(q, ""))
			if len(b.Defs) > 0 {
				var names []string // types, nested types, members
				for _, d := range b.Defs {
					if d.En != nil {
						names = append(names, d.En.Name, pick(r, d.En.Members).Name)
						continue
					}
					for _, s := range nestedStructs(d.St) {
						names = append(names, s.Name)
					}
				}
				nm := pick(r, names)
				def := pick(r, []string{"struct " + nm + " { int8 dup_field; }\n", "enum " + nm + "[1] { DUP_MEMBER, }\n", "enum DupEnum[1] { DUP_MEMBER, " + nm + ", }\n",
					"struct DupStruct { struct " + nm + " { uint8 q; } dup_field; }\n", "struct DupStruct { struct " + nm + " { uint8 q; }; }\n"})
				fs := filesOf(p, "")
				if r.Pct(60) { // the same line, and often column, of the other file
					was := regexp.MustCompile(`\b` + nm + `\b`).FindStringIndex(fs[b.Path])
					if was != nil {
						for _, k := range []string{"struct ", "enum "} {
							if strings.HasSuffix(fs[b.Path][:was[0]], "\n"+k) {
								def = k + strings.SplitN(map[string]string{"struct ": "struct " + nm + " { int8 dup_field; }\n", "enum ": "enum " + nm + "[1] { DUP_MEMBER, }\n"}[k], k, 2)[1]
							}
						}
						lb := strings.Count(fs[b.Path][:was[0]], "\n")
						la := strings.Count(fs[a.Path], "\n")
						if la <= lb {
							fs[a.Path] += strings.Repeat("\n", lb-la)
						} else {
							ls := strings.SplitAfterN(fs[b.Path], "\n", 2)
							fs[b.Path] = ls[0] + strings.Repeat("\n", la-lb) + ls[1]
						}
					}
				}
				fs[a.Path] += def
				add("name defined in two files", fs)
			}
			// a file uses a type of a file that it does not reach
			reach := map[*File]bool{}
			var w func(x *File)
			w = func(x *File) {
				if !reach[x] {
					reach[x] = true
					for _, y := range x.Imports {
						w(y)
					}
				}
			}
			w(a)
			if !reach[b] {
				for _, d := range b.Defs {
					if d.St != nil {
						fs := filesOf(p, "")
						fs[a.Path] += "struct Szzz { " + d.St.Name + " unseen; }\n"
						add("type of a file that is not imported", fs)
						break
					}
				}
			}
		}
	}
	c.runCliCases(cs)
}
