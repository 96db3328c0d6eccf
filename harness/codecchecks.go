package main

// The properties decided by running generated codecs against the reference
// codec (C01-C12, C20, C21).

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

func keepOnly(as ...string) func(string) bool {
	m := map[string]bool{}
	for _, a := range as {
		m[a] = true
	}
	return func(a string) bool { return m[a] }
}

// cfgFor varies the shape of schemas from program to program.
func cfgFor(r *Rng) GenCfg {
	g := DefaultCfg()
	g.Structs = r.Range(16, 30)
	switch r.N(6) {
	case 0:
		g.Dyn = 90
	case 1:
		g.Dyn = 0
		g.Embed = 0
	case 2:
		g.NestW, g.Embed = 30, 15
		g.MaxFields = 5
	case 3:
		g.MaxFields = 14
	}
	return g
}

// optVariant draws default options or random ones.
func optVariant(r *Rng, t string, multi bool, pct int) Variant {
	v := Variant{Target: t, San: r.Pct(60)}
	if r.Pct(pct) {
		v.Opts = randOpts(r, t, multi)
	}
	return v
}

type codecSpec struct {
	progs   int
	cfg     func(r *Rng) GenCfg
	targets []string
	opts    int // percent of variants with random options
	noMin   bool
	force   map[string]string // an option every variant of a target has
	cc      CaseCfg
	vary    func(v Variant, cc *CaseCfg)
	keep    func(string) bool
	matrix  bool                      // the first program has every kind of number field
	dynmat  bool                      // two programs have strings and bytes of every shape and length
	builds  func(p *Program) *Program // a build failure counts if this form of the schema builds
}

func dropOpt(os []string, o string) []string {
	var out []string
	for _, x := range os {
		if x != o {
			out = append(out, x)
		}
	}
	return out
}

func (c *Ctx) codec(sp codecSpec) {
	if sp.targets == nil || os.Getenv("VH_TARGETS") != "" {
		sp.targets = runTargets
	}
	if sp.cfg == nil {
		sp.cfg = cfgFor
	}
	var jobs []Job
	for i := 0; i < sp.progs; i++ {
		r := c.R.Sub(uint64(i))
		cfg := sp.cfg(r)
		p := GenProgram(r, cfg)
		if i == 0 && sp.matrix {
			p = GenMatrix(r, cfg, cfg.Const >= 40)
		}
		dm := sp.dynmat && (i == 1 || i == 2)
		if dm {
			p = GenDynMatrix(r, cfg)
		}
		multi := i%4 == 3
		if multi {
			p = SplitProgram(r.Sub(99), p, SplitCfg{Files: 2 + i/4%3, SameLast: i%8 == 3, Transitive: true, PkgOpts: true})
			c.class("schemas of several packages", 1)
		}
		c.classify(p)
		var vs []Variant
		for _, t := range sp.targets {
			v := optVariant(r, t, multi, sp.opts)
			if i == 0 && sp.matrix || i == 1 && dm {
				v.Opts = nil // C06 has it with options
			}
			if sp.noMin {
				v.Opts = dropOpt(v.Opts, "-minimal")
			}
			if o := sp.force[t]; o != "" {
				v.Opts = append(dropOpt(v.Opts, o), o)
			}
			vs = append(vs, v)
		}
		seed := r.U64()
		jobs = append(jobs, Job{P: p, Vars: vs, Cases: func(v Variant) []*Case {
			cc := sp.cc
			cc.Edges, cc.Huge = dm, dm && i == 1
			if sp.vary != nil {
				sp.vary(v, &cc)
			}
			return GenCases(NewRng(seed), p, cc)
		}})
	}
	for _, f := range runJobs(jobs, sp.keep, c.St) {
		if f.Build != nil && sp.builds != nil {
			if s, fail := Build(sp.builds(f.P), f.V); fail == nil {
				s.Close()
				c.fails = append(c.fails, f)
				continue
			}
		}
		if f.Build != nil { // C19 and C14 decide whether code is generated and builds
			if os.Getenv("VH_DEBUG") != "" {
				if d := os.Getenv("VH_KEEP"); d != "" {
					WriteSchema(f.P, fmt.Sprint(d, "/", len(c.fails), f.V.Target))
				}
				for _, l := range strings.Split(f.Build.Msg, "\n") {
					if !strings.Contains(l, "warning") {
						fmt.Fprintln(os.Stderr, "no build:", f.V, l)
					}
				}
			}
			c.class("variants that did not build (left to C14/C19)", 1)
			continue
		}
		c.fails = append(c.fails, f)
	}
}

// stripMethods is the program without custom accessors.
func stripMethods(p *Program) *Program {
	q := CloneProgram(p)
	for _, s := range allDefsStructs(q) {
		for _, f := range s.Fields {
			f.Methods = nil
		}
	}
	return q
}

// classify counts the shapes that matter.
func (c *Ctx) classify(p *Program) {
	for _, s := range p.AllStructs() {
		c.class("structs", 1)
		if s.Dynamic() {
			c.class("structs with dynamic fields", 1)
		}
		pos := 0
		aligned := true
		for _, f := range s.Fields {
			if f.K == FEmbedRef || f.K == FEmbedDef {
				c.class("embedded structs", 1)
				pos += f.Emb.FixedBits()
				continue
			}
			if f.K == FConst {
				c.class("constant fields", 1)
			}
			if f.K == FVoid {
				c.class("void fields", 1)
			}
			if f.T != nil {
				bt := baseType(f.T)
				if f.Order == "big" && (f.Bits > 8 || f.T.K == KArray) {
					c.class("big-endian fields", 1)
				}
				if f.T.K == KArray {
					c.class("array fields", 1)
					if f.T.N > 4 {
						c.class("arrays longer than the default unroll threshold", 1)
					}
				}
				switch {
				case bt.K == KStruct:
					c.class("struct-typed fields", 1)
				case bt.K == KInt && bt.Signed && f.Bits > 0 && f.Bits < f.T.TypeBits():
					c.class("narrow signed fields", 1)
				case bt.K == KFloat && f.Bits > 0 && f.Bits < f.T.TypeBits():
					c.class("narrow float fields", 1)
				}
			}
			if pos%8 != 0 {
				aligned = false
				c.class("fields starting inside a byte", 1)
			}
			pos += f.Bits
		}
		if !aligned {
			c.class("structs with unaligned fields", 1)
		}
	}
}

const codecRule = "a case is one struct of a generated schema, one object or message and one command to the code generated for one target and option set; it is non-trivial when the struct has at least two members and the message has a non-zero byte; distinct by (variant, struct text, command)"

func init() {
	checks["C01"] = func(c *Ctx) {
		c.Rule = codecRule
		c.codec(codecSpec{matrix: true, dynmat: true, progs: c.n(14, 200), opts: 50, noMin: true, cc: CaseCfg{Enc: 7, Long: true}, keep: keepOnly("bytes", "alloc", "ret", "cbytes")})
	}
	checks["C02"] = func(c *Ctx) {
		c.Rule = codecRule
		c.codec(codecSpec{matrix: true, dynmat: true, progs: c.n(13, 180), opts: 50, noMin: true, cc: CaseCfg{RT: 7, Long: true}, keep: keepOnly("rt")})
	}
	checks["C03"] = func(c *Ctx) {
		c.Rule = codecRule
		c.codec(codecSpec{matrix: true, dynmat: true, progs: c.n(14, 200), opts: 50, noMin: true, cc: CaseCfg{Dec: 8, Noise: true, Long: true}, keep: keepOnly("vals", "dret")})
	}
	checks["C04"] = func(c *Ctx) {
		c.Rule = codecRule
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			if g.Dyn > 0 {
				g.Dyn = 85
			}
			return g
		}
		c.codec(codecSpec{matrix: true, dynmat: true, progs: c.n(13, 180), cfg: cfg, opts: 50, cc: CaseCfg{Enc: 4, Dec: 4, Stat: true, Long: true, Noise: true, Wide: true}, keep: keepOnly("es", "ret", "ds", "stat", "dret")})
	}
	checks["C05"] = func(c *Ctx) {
		c.Rule = codecRule + "; a truncation case queries every proper prefix of its message, each from a buffer of exactly that many bytes (AddressSanitizer watches C and C++)"
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			g.Dyn = 85
			return g
		}
		c.codec(codecSpec{progs: c.n(13, 180), cfg: cfg, opts: 50, cc: CaseCfg{Pre: 3, Noise: true, PreMax: 120},
			vary: func(v Variant, cc *CaseCfg) {}, keep: keepOnly("pre", "predec", "ds")})
	}
	checks["C13"] = func(c *Ctx) {
		c.Rule = codecRule + "; an enum case prints every member of the enums of the struct by name"
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			g.Enums = true
			g.Dyn = 20
			g.Const = 15
			return g
		}
		c.codec(codecSpec{progs: c.n(18, 240), cfg: cfg, opts: 40, noMin: true, cc: CaseCfg{Mem: true, Enc: 3, Dec: 3, RT: 2}, keep: keepOnly("enum", "bytes", "vals", "rt")})
	}
	checks["C22"] = func(c *Ctx) {
		c.Rule = codecRule + "; the bytes are messages with lengths in unusual forms, edited messages or random bytes, non-trivial when not empty"
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			if g.Dyn > 0 || r.Pct(60) {
				g.Dyn = 85
			}
			g.Const = 12
			return g
		}
		c.codec(codecSpec{progs: c.n(13, 180), cfg: cfg, opts: 50, noMin: true, cc: CaseCfg{Junk: 14}, keep: keepOnly("junk", "crash", "src")})
	}
	checks["C06"] = checkC06
	checks["C07"] = func(c *Ctx) {
		c.Rule = codecRule + "; a case is a history of setter calls (custom ones mostly) followed by every raw and custom getter; expressions are evaluated by the model"
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			g.Methods = true
			g.Dyn = min(g.Dyn, 20)
			g.Const = 0
			return g
		}
		c.codec(codecSpec{progs: c.n(14, 200), cfg: cfg, opts: 50, cc: CaseCfg{Acc: 8, Custom: true}, keep: keepOnly("cset", "cget"), builds: stripMethods})
	}
	checks["C08"] = func(c *Ctx) {
		c.Rule = codecRule + "; corruption flips one bit, the top bit or a random mask of one constant's bits"
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			g.Const = 40
			g.Dyn = 40
			return g
		}
		c.codec(codecSpec{matrix: true, progs: c.n(13, 180), cfg: cfg, opts: 50, noMin: true, cc: CaseCfg{Corrupt: 8, Enc: 2, Dec: 2, Noise: true}, keep: keepOnly("const", "cbytes", "dret")})
	}
	checks["C09"] = func(c *Ctx) {
		c.Rule = codecRule + "; objects hold values wider than their fields, messages have random bits in padding"
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			g.Dyn = 25
			return g
		}
		c.codec(codecSpec{matrix: true, progs: c.n(13, 180), cfg: cfg, opts: 50, noMin: true, cc: CaseCfg{Iso: 12, Noise: true}, keep: keepOnly("iso")})
	}
	checks["C10"] = func(c *Ctx) {
		c.Rule = codecRule
		c.codec(codecSpec{matrix: true, dynmat: true, progs: c.n(13, 180), opts: 50, noMin: true, cc: CaseCfg{Fill: 5, Enc: 1, Reuse: 3, Dec: 1, Corrupt: 1, Wide: true, Noise: true}, keep: keepOnly("fill", "dirty", "obj", "src", "reuse")})
	}
	checks["C11"] = func(c *Ctx) {
		c.Rule = codecRule
		cfg := func(r *Rng) GenCfg {
			g := cfgFor(r)
			g.Dyn = 100
			return g
		}
		c.codec(codecSpec{dynmat: true, progs: c.n(14, 180), cfg: cfg, opts: 50, noMin: true, cc: CaseCfg{Own: 5, Noise: true, Long: true}, keep: keepOnly("own", "dret"),
			force: map[string]string{"c": "-memcpy", "cpp": "-memcpy", "go": "-memcpy", "cs": "-memcpy"}})
	}
	checks["C20"] = func(c *Ctx) {
		c.Rule = codecRule + "; pairs are equal copies or differ in exactly one leaf"
		c.codec(codecSpec{matrix: true, progs: c.n(26, 260), opts: 50, noMin: true, targets: []string{"java", "cs", "kt"}, cc: CaseCfg{Eq: 8}, keep: keepOnly("eq", "hash")})
	}
	checks["C21"] = func(c *Ctx) {
		c.Rule = codecRule + "; a case is a history of 0-6 setter calls (whole fields, array items) followed by every getter"
		c.codec(codecSpec{matrix: true, progs: c.n(14, 200), opts: 50, noMin: true, cc: CaseCfg{Acc: 7}, keep: keepOnly("acc", "get")})
	}
}

// checkC06: every option combination behaves like the default.
func checkC06(c *Ctx) {
	c.Rule = codecRule + "; each case runs under the default options and under a random combination, a difference is a violation"
	progs := c.n(11, 150)
	type unit struct {
		p     *Program
		v     Variant
		cases []*Case
		def   Variant
	}
	var us []unit
	for i := 0; i < progs; i++ {
		r := c.R.Sub(uint64(i))
		p := GenProgram(r, cfgFor(r))
		if i == 0 {
			p = GenMatrix(r, cfgFor(r), false)
		}
		c.classify(p)
		c.St.Schemas++
		for _, t := range runTargets {
			seed := r.U64()
			san := r.Pct(50)
			cc := CaseCfg{Enc: 2, Dec: 2, Pre: 1, Reuse: 1, Acc: 2, Stat: true, Trans: 1, Corrupt: 1, Wide: true, Noise: true}
			cases := GenCases(NewRng(seed), p, cc)
			for k := 0; k < 2; k++ {
				us = append(us, unit{p, Variant{Target: t, Opts: randOpts(r, t, false), San: san}, cases, Variant{Target: t, San: san}})
			}
		}
	}
	res := make([][]*Failure, len(us))
	par(len(us), func(i int) {
		u := us[i]
		fs := runVariant(u.p, u.v, u.cases, func(string) bool { return true }, c.St)
		if len(fs) == 0 {
			return
		}
		base := runVariant(u.p, u.def, u.cases, func(string) bool { return true }, c.St)
		bad := map[*Case]bool{}
		for _, b := range base {
			if b.Build != nil {
				c.class("programs that did not build by default", 1)
				return
			}
			bad[b.C] = true
		}
		for _, f := range fs {
			if f.C == nil || !bad[f.C] {
				res[i] = append(res[i], f)
			}
		}
	})
	for _, fs := range res {
		c.fails = append(c.fails, fs...)
	}
	for i := 0; i < len(us); i += 9 {
		if l, ok := us[i].cases[0].cmd(us[i].p, us[i].v); ok {
			c.St.sample(fmt.Sprintf("[%s] %s", us[i].v, l))
		}
	}
	combos := map[string]bool{}
	for _, u := range us {
		combos[u.v.Target+" "+strings.Join(u.v.Opts, " ")] = true
	}
	var l []string
	for k := range combos {
		l = append(l, k)
	}
	sort.Strings(l)
	c.Extra["option_combinations"] = len(l)
}
