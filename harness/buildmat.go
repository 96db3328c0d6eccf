package main

// C19: generated code is accepted by the target's compiler or interpreter.
//
// A strict variant asks more than the driver of the codec checks does: every C
// and C++ header must be usable on its own and twice, every source compiles by
// itself, two translation units that use all headers link into one program, a
// second compiler (clang) accepts them too, all Go packages build, and every
// Python and JavaScript module loads by itself in a fresh interpreter.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func (s *Session) strict() *Fail {
	const tmo = 3 * time.Minute
	v, out := s.V, s.Out
	ft := v.Feat()
	d := filepath.Join(s.Dir, "strict")
	os.MkdirAll(d, 0o755)
	rel := func(f string) string { r, _ := filepath.Rel(out, f); return r }
	bad := func(what string, r ExecRes) *Fail {
		if r.Code == 0 {
			return nil
		}
		m := append(append([]byte{}, r.Out...), r.Err...)
		return &Fail{"strict: " + what, fmt.Sprintf("exit %d: %s", r.Code, tail(m, 1500))}
	}
	switch v.Target {
	case "c", "cpp":
		hx, sx, sfx := ".bb.h", ".bb.c", ".c"
		comps := [][]string{{"gcc", "-std=c11"}, {"clang", "-std=c11"}}
		if v.Target == "cpp" {
			hx, sx, sfx = ".bb.hpp", ".bb.cpp", ".cpp"
			std := "-std=c++20"
			if ft.Compat {
				std = "-std=c++17"
			}
			comps = [][]string{{"g++", std}, {"clang++", std}}
		}
		hs, ss := globExt(out, hx), globExt(out, sx)
		// Each header alone, included twice. Headers of a run differ little, so
		// one of the two compilers each.
		all := ""
		var alone []string
		for i, h := range hs {
			text := fmt.Sprintf("#include %q\n", rel(h))
			if !ft.Single { // a -single file is not meant as a header and has no guard
				text += text
			}
			all += fmt.Sprintf("#include %q\n", rel(h))
			f := filepath.Join(d, fmt.Sprintf("h%d%s", i, sfx))
			os.WriteFile(f, []byte(text), 0o644)
			alone = append(alone, f)
		}
		for i, c := range comps {
			var fs []string
			for k, f := range alone {
				if k%len(comps) == i {
					fs = append(fs, f)
				}
			}
			if i == 1 || len(ss) == 0 {
				fs = append(fs, ss...)
			}
			if len(fs) == 0 {
				continue
			}
			// several sources in one command are still separate units
			a := append(append([]string{}, c...), "-w", "-fsyntax-only", "-I", out)
			if f := bad("header or source alone", run(d, nil, nil, tmo, append(a, fs...)...)); f != nil {
				return f
			}
		}
		// two units using everything link into one program
		t1, t2 := filepath.Join(d, "t1"+sfx), filepath.Join(d, "t2"+sfx)
		os.WriteFile(t1, []byte(all+"int vh_other(void);\nint main(void){return vh_other();}\n"), 0o644)
		os.WriteFile(t2, []byte(all+"int vh_other(void);\nint vh_other(void){return 0;}\n"), 0o644)
		a := append(append([]string{}, comps[0]...), "-w", "-O0", "-I", out, "-o", filepath.Join(d, "two"), t1, t2)
		if f := bad("two units", run(d, nil, nil, tmo, append(append(a, ss...), "-lm")...)); f != nil {
			return f
		}
	case "go":
		root := filepath.Join(out, strings.SplitN(goPkg(s.P.Files[0]), "/", 2)[0])
		os.RemoveAll(filepath.Join(root, "drv"))
		if f := bad("all packages", run(root, []string{"GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off"}, nil, tmo, "go", "build", "./...")); f != nil {
			return f
		}
	case "py":
		pyRoot, pyPre := pyPlace(s.P, s.V, out)
		for _, f := range globExt(out, ".py") {
			m := pyPre + strings.ReplaceAll(strings.TrimSuffix(rel(f), ".py"), "/", ".")
			src := "import sys,importlib\nsys.path.insert(0,sys.argv[1])\nimportlib.import_module(sys.argv[2])"
			if f := bad("module alone", run(d, nil, nil, tmo, "python3", "-B", "-c", src, pyRoot, m)); f != nil {
				return f
			}
		}
	case "cjs":
		for _, f := range globExt(out, ".js") {
			if f := bad("module alone", run(d, nil, nil, tmo, "node", f)); f != nil {
				return f
			}
		}
	case "esm":
		for _, f := range globExt(out, ".js", ".mjs") {
			if f := bad("module alone", run(d, nil, nil, tmo, "node", f)); f != nil {
				return f
			}
		}
	}
	return nil
}

// buildCfg draws schemas with everything in them.
func buildCfg(r *Rng) GenCfg {
	g := cfgFor(r)
	g.Structs = r.Range(6, 18)
	g.Common = pick(r, []int{0, 15, 50})
	g.Methods = r.Pct(55)
	if r.Pct(20) {
		g.Enums = true
	}
	if r.Pct(30) {
		g.Const = 30
	}
	return g
}

func checkC19(c *Ctx) {
	c.Rule = "a case is one generated schema (one to five packages) under one target and option set, generated, compiled or loaded together with a program using every type, and then piece by piece (each header, source, package or module alone; two units linked); it is non-trivial when the schema has at least three structs; distinct by (variant, schema text)"
	progs := c.n(16, 260)
	type unit struct {
		p *Program
		v Variant
	}
	var us []unit
	for i := 0; i < progs; i++ {
		r := c.R.Sub(uint64(i))
		p := GenProgram(r, buildCfg(r))
		multi := r.Pct(60)
		if multi {
			p = SplitProgram(r, p, SplitCfg{Files: r.Range(2, 5), SameLast: r.Pct(50), Transitive: r.Pct(50), PkgOpts: r.Pct(60), OmitEmpty: r.Pct(50)})
			c.class("schemas of several packages", 1)
		}
		c.classify(p)
		c.St.Schemas++
		c.St.Structs += len(p.AllStructs())
		for _, t := range runTargets {
			v := Variant{Target: t, Strict: true}
			if r.Pct(80) {
				v.Opts = randOpts(r, t, multi)
			}
			us = append(us, unit{p, v})
		}
	}
	for round := 0; round < c.n(1, 6); round++ { // every feature as the only one of its file
		r := c.R.Sub(uint64(1<<40 + round))
		for i, p := range GenSolo(r, buildCfg(r), 4) {
			c.class("schemas of files with one feature each", 1)
			c.classify(p)
			c.St.Schemas++
			c.St.Structs += len(p.AllStructs())
			for k, t := range runTargets {
				v := Variant{Target: t, Strict: true}
				if (i+k+round)%2 == 0 {
					for _, o := range randOpts(r, t, true) {
						if o != "-single" {
							v.Opts = append(v.Opts, o)
						}
					}
				}
				us = append(us, unit{p, v})
			}
		}
	}
	res := make([]*Failure, len(us))
	par(len(us), func(i int) {
		u := us[i]
		if !deadline.IsZero() && time.Now().After(deadline) {
			c.class("units not started within the time limit", 1)
			return
		}
		text := ""
		for _, f := range u.p.Files {
			text += f.Emit()
		}
		c.St.add(u.v.Target+" "+strings.Join(u.v.Opts, " "), "build", len(u.p.AllStructs()) >= 3, u.v.String()+text)
		s, fail := Build(u.p, u.v)
		if fail != nil {
			s, fail = Build(u.p, u.v)
		}
		if fail != nil {
			res[i] = &Failure{P: u.p, V: u.v, Build: fail}
			return
		}
		if i%17 == 0 {
			c.St.sample(fmt.Sprintf("[%s] %d files, %d structs: %s", u.v, len(u.p.Files), len(u.p.AllStructs()), clip2(u.p.Files[0].Emit(), 300)))
		}
		s.Close()
	})
	for _, f := range res {
		if f != nil {
			c.fails = append(c.fails, f)
		}
	}
}

func init() { checks["C19"] = checkC19 }
