package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

func main() {
	var err error
	scratch, err = os.MkdirTemp("", "vh")
	if err != nil {
		panic(err)
	}
	code := realMain()
	os.RemoveAll(scratch)
	os.Exit(code)
}

func realMain() int {
	if err := buildCompiler(); err != nil {
		fmt.Println(err)
		return 3
	}
	if os.Args[1] == "explore" {
		explore(os.Args[2:])
	}
	if os.Args[1] == "check" {
		seed := uint64(1)
		if e := os.Getenv("VERIF_SEED"); e != "" {
			fmt.Sscan(e, &seed)
		}
		return runCheck(os.Args[2], os.Args[3], seed)
	}
	if os.Args[1] == "emit" { // a corpus for comparing compilers: seed dir
		seed := uint64(1)
		fmt.Sscan(os.Args[2], &seed)
		for i := 0; i < 16; i++ {
			r := NewRng(seed).Sub(uint64(i))
			g := buildCfg(r)
			g.Structs = 12
			p := GenProgram(r, g)
			if i%3 == 2 {
				p = SplitProgram(r, p, SplitCfg{Files: 3, PkgOpts: true, Transitive: true, OmitEmpty: true, SameLast: true})
			}
			d := fmt.Sprintf("%s/%d", os.Args[3], i)
			WriteSchema(p, d)
			os.WriteFile(d+"/MAIN", []byte(p.Files[0].Path), 0o644)
			for k := 0; k < 6; k++ {
				if b, _ := genFault(r, GenProgram(r, g)); b != nil {
					for f, t := range b.Files {
						os.MkdirAll(fmt.Sprintf("%s/f%d_%d", os.Args[3], i, k)+"/"+filepath.Dir(f), 0o755)
						os.WriteFile(fmt.Sprintf("%s/f%d_%d", os.Args[3], i, k)+"/"+f, []byte(t), 0o644)
						os.WriteFile(fmt.Sprintf("%s/f%d_%d/MAIN", os.Args[3], i, k), []byte(f), 0o644)
					}
				}
			}
		}
		return 0
	}
	if os.Args[1] == "kt" { // development: the interpreter's opinion of Kotlin files
		for _, f := range os.Args[2:] {
			b, _ := os.ReadFile(f)
			un, exc, bad := ktSafe(func() {
				in := ktLoad(map[string]string{f: string(b)})
				for _, cs := range in.pkgs {
					for _, c := range cs {
						if c.comp != nil && len(c.comp.fns["main"]) > 0 {
							fmt.Println(in.toStr(in.callM(nil, in.object(c.comp), "main", nil, nil, 0, nil)))
						}
					}
				}
			})
			fmt.Println(f, "unsup:", un, "exc:", exc, "bad:", bad)
		}
		return 0
	}
	if os.Args[1] == "replay" {
		return replayFile(os.Args[2])
	}
	return 0
}

// explore runs every kind of case with every aspect and prints grouped failures.
// args: seed rounds const methods targets...
func explore(a []string) {
	var seed uint64 = 1
	rounds, cw, me := 1, 0, 0
	fmt.Sscan(a[0], &seed)
	fmt.Sscan(a[1], &rounds)
	fmt.Sscan(a[2], &cw)
	fmt.Sscan(a[3], &me)
	tg := allTargets
	if len(a) > 4 {
		tg = strings.Split(a[4], ",")
	}
	var opts []string
	if len(a) > 5 {
		opts = strings.Fields(a[5])
	}
	groups := map[string][]*Failure{}
	st := NewStats()
	for i := 0; i < rounds; i++ {
		r := NewRng(seed + uint64(i)*1000)
		cfg := DefaultCfg()
		cfg.Const = cw
		cfg.Methods = me > 0
		cfg.Structs = 25
		p := GenProgram(r, cfg)
		if m := os.Getenv("MULTI"); m != "" {
			p = SplitProgram(r, p, SplitCfg{Files: r.Range(2, 5), SameLast: strings.Contains(m, "s"), Transitive: strings.Contains(m, "t"), PkgOpts: strings.Contains(m, "o"), OmitEmpty: strings.Contains(m, "e")})
		}
		var vs []Variant
		for _, t := range tg {
			o := opts
			if len(a) > 5 && a[5] == "rand" {
				o = randOpts(r, t, os.Getenv("MULTI") != "")
			}
			vs = append(vs, Variant{Target: t, San: true, Opts: o})
		}
		jobs := []Job{{P: p, Vars: vs, Cases: func(v Variant) []*Case {
			cc := CaseCfg{Enc: 4, Dec: 4, Pre: 1, Reuse: 2, Acc: 2, Stat: true, Wide: true, Noise: true, Custom: me > 0, Corrupt: 2, Trans: 1}
			if v.Target == "java" || v.Target == "cs" || v.Target == "kt" {
				cc.Eq = 2
			}
			if v.Feat().MemCpy || v.Target == "py" || v.Target == "java" || strings.HasSuffix(v.Target, "js") || v.Target == "esm" {
				cc.Own = 2
			}
			return GenCases(NewRng(seed*77+uint64(i)), p, cc)
		}}}
		for _, f := range runJobs(jobs, func(string) bool { return true }, st) {
			k := f.V.Target + "/"
			if f.Build != nil {
				k += "build"
			} else {
				k += f.Prob.Aspect
			}
			groups[k] = append(groups[k], f)
		}
	}
	fmt.Println("cases", st.Generated, "nontrivial", st.Nontrivial, st.ByKind)
	var ks []string
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fs := groups[k]
		sort.Slice(fs, func(i, j int) bool { return psize(fs[i].P) < psize(fs[j].P) })
		fmt.Printf("=== %s: %d failures\n", k, len(fs))
		f := Shrink(fs[0], func(string) bool { return true }, 25*time.Second)
		fmt.Println(f)
		for _, fl := range f.P.Files {
			fmt.Printf("---- %s\n%s", fl.Path, fl.Emit())
		}
		fmt.Println(f.Cmd)
		fmt.Println(f.Got)
		fmt.Println(writeReplay("X", f.replay()))
	}
}
