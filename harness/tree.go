package main

// C18: a run writes exactly the documented files. The schema bodies are tiny;
// what varies is packages, package options, imports, options and locations.

import (
	"fmt"
	"path"
	"strings"
)

type tUnit struct {
	path  string
	pkg   []string
	opts  map[string]string
	omit  string
	types []string // top-level names in order
	inner map[string]string
	imps  []int
}

// aliases of each target.
var aliases = map[string][]string{
	"c": {"c"}, "cpp": {"cpp"}, "cs": {"cs", "csharp"}, "cjs": {"cjs", "commonjs"},
	"esm": {"esm", "mjs", "js", "javascript", "esmodule"}, "go": {"go"}, "java": {"java"}, "kt": {"kt", "kotlin"}, "py": {"py", "python"},
}

func (u *tUnit) empty() bool { return len(u.types) == 0 }

// outputs is where the documentation puts the unit's files, each with the names it holds.
func (u *tUnit) outputs(target string) map[string][]string {
	o := map[string][]string{}
	if u.empty() && u.omit == "true" {
		return o
	}
	var all []string
	for _, t := range u.types {
		all = append(all, t)
		if u.inner[t] != "" {
			all = append(all, u.inner[t])
		}
	}
	p := strings.Join(u.pkg, "/")
	jvm := func(opt, ext string) {
		d := p
		if u.opts[opt] != "" {
			d = strings.ReplaceAll(u.opts[opt], ".", "/")
		}
		for _, t := range u.types {
			o[d+"/"+t+ext] = []string{t}
			if n := u.inner[t]; n != "" {
				o[d+"/"+n+ext] = []string{n}
			}
		}
	}
	switch target {
	case "c":
		o[p+".bb.h"], o[p+".bb.c"] = all, nil
		for _, t := range all {
			if !strings.HasPrefix(t, "En") {
				o[p+".bb.c"] = append(o[p+".bb.c"], t)
			}
		}
	case "cpp":
		o[p+".bb.hpp"], o[p+".bb.cpp"] = all, nil
		for _, t := range all {
			if !strings.HasPrefix(t, "En") {
				o[p+".bb.cpp"] = append(o[p+".bb.cpp"], t)
			}
		}
	case "cs":
		o[p+".bb.cs"] = all
	case "cjs", "esm":
		o[p+".bb.js"] = all
	case "py":
		o[p+"_bb.py"] = all
	case "go":
		d := p
		if u.opts["go_package"] != "" {
			d = u.opts["go_package"]
		}
		o[d+"/"+path.Base(d)+".bb.go"] = all
	case "java":
		jvm("java_package", ".java")
	case "kt":
		jvm("kotlin_package", ".kt")
	}
	return o
}

func (u *tUnit) text(r *Rng, all []*tUnit) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s;\n", strings.Join(u.pkg, "."))
	for _, k := range keysOf(u.opts) {
		fmt.Fprintf(&b, "option %s = \"%s\";\n", k, u.opts[k])
	}
	if u.omit != "" {
		fmt.Fprintf(&b, "option omit_empty = %s;\n", u.omit)
	}
	for _, k := range u.imps {
		rel := relPath(path.Dir(u.path), all[k].path)
		fmt.Fprintf(&b, "import %q;\n", rel)
	}
	for _, t := range u.types {
		if strings.HasPrefix(t, "En") {
			fmt.Fprintf(&b, "enum %s[1] { %sONE; %sTWO = %d; };\n", t, strings.ToUpper(t), strings.ToUpper(t), r.Range(1, 255))
			continue
		}
		fmt.Fprintf(&b, "struct %s {\n", t)
		if n := u.inner[t]; n != "" {
			fmt.Fprintf(&b, "    struct %s { uint8 a; } in;\n", n)
		}
		fmt.Fprintf(&b, "    %s v;\n", pick(r, []string{"uint8", "int32", "string", "bytes", "bool", "uint16<3>"}))
		if len(u.imps) > 0 && r.Pct(60) {
			d := all[pick(r, u.imps)]
			for _, s := range d.types {
				if strings.HasPrefix(s, "St") {
					fmt.Fprintf(&b, "    %s other;\n", s)
					break
				}
			}
		}
		b.WriteString("};\n")
	}
	return b.String()
}

// relPath of to (a file) seen from the directory from, both below the same root.
func relPath(from, to string) string {
	f := strings.Split(path.Clean("/"+from), "/")[1:]
	t := strings.Split(path.Clean("/"+to), "/")[1:]
	if len(f) == 1 && f[0] == "" {
		f = nil
	}
	i := 0
	for i < len(f) && i < len(t)-1 && f[i] == t[i] {
		i++
	}
	return strings.Repeat("../", len(f)-i) + strings.Join(t[i:], "/")
}

var pkgWords = []string{"com", "example", "a", "b", "core", "io", "net2", "my_pkg", "proto", "x", "util", "bb", "src", "data9", "v1"}

func genUnits(r *Rng) []*tUnit {
	n := pick(r, []int{1, 1, 2, 2, 3, 4, 5})
	used := map[string]bool{}
	fresh := func(kind, sep string, words []string, lo, hi int) string {
		for {
			var c []string
			for k := r.Range(lo, hi); k > 0; k-- {
				c = append(c, pick(r, words))
			}
			s := strings.Join(c, sep)
			if !used[kind+s] {
				used[kind+s] = true
				return s
			}
		}
	}
	var us []*tUnit
	typ := 0
	for i := 0; i < n; i++ {
		u := &tUnit{opts: map[string]string{}, inner: map[string]string{}}
		for {
			u.pkg = strings.Split(fresh("pkg", ".", pkgWords, 1, 4), ".")
			// what the languages derive from packages must not clash
			g := "go" + strings.Join(u.pkg, "/")
			if !used[g] && !used["java_package"+strings.Join(u.pkg, ".")] && !used["kotlin_package"+strings.Join(u.pkg, ".")] {
				used[g] = true
				break
			}
		}
		u.path = path.Join(pick(r, []string{"", "", "sub", "sub/deep", "lib.d"}), fmt.Sprintf("%s%c.bb", pick(r, []string{"f", "file_", "x.y"}), 'a'+i))
		if r.Pct(45) {
			for {
				s := fresh("go", "/", append([]string{"github.com", "ex.org", "my-mod", "v2"}, pkgWords...), 1, 4)
				if path.Base(s) == "my-mod" || strings.Contains(path.Base(s), ".") || used["pkg"+strings.ReplaceAll(s, "/", ".")] {
					continue
				}
				u.opts["go_package"] = s
				break
			}
		}
		for _, o := range []string{"java_package", "kotlin_package"} {
			if r.Pct(45) {
				for {
					s := fresh(o, ".", append([]string{"org", "jvm"}, pkgWords...), 1, 4)
					if !used["pkg"+s] {
						u.opts[o] = s
						break
					}
				}
			}
		}
		if r.Pct(35) {
			u.opts["cpp_namespace"] = fresh("cpp", "::", pkgWords, 1, 3)
		}
		if r.Pct(35) {
			u.opts["csharp_namespace"] = fresh("cs", ".", []string{"Ex", "Core", "Net", "Lib"}, 1, 4)
		}
		if r.Pct(35) {
			u.omit = pick(r, []string{"true", "true", "false"})
		}
		k := r.Range(0, 3)
		if i == 0 && n == 1 {
			k = max(k, r.N(2))
		}
		for ; k > 0; k-- {
			typ++
			if r.Pct(30) {
				u.types = append(u.types, "En"+b26(typ, 2))
				continue
			}
			t := "St" + b26(typ, 2)
			u.types = append(u.types, t)
			if r.Pct(25) {
				u.inner[t] = "In" + b26(typ, 2)
			}
		}
		for k := 0; k < i; k++ {
			if r.Pct(40) {
				u.imps = append(u.imps, k)
			}
		}
		us = append(us, u)
	}
	// the last one is compiled and reaches all
	last := us[n-1]
	seen := map[int]bool{}
	var w func(i int)
	w = func(i int) {
		for _, k := range us[i].imps {
			if !seen[k] {
				seen[k] = true
				w(k)
			}
		}
	}
	w(n - 1)
	for k := n - 2; k >= 0; k-- {
		if !seen[k] {
			last.imps = append(last.imps, k)
			seen[k] = true
			w(k)
		}
	}
	return us
}

// treeCase draws an invocation and works out what it must write.
func treeCase(r *Rng) []*CliCase {
	us := genUnits(r)
	t := pick(r, kotlinToo)
	c := &CliCase{Files: map[string]string{}, Want: "tree", Rule: t, Holds: map[string][]string{}, Left: map[string]string{}}
	for _, u := range us {
		c.Files["in/"+u.path] = u.text(r, us)
	}
	if r.Pct(40) {
		c.Files["in/unused.bb"] = "package unused.file;\nstruct Nope { uint8 x; };\n"
	}
	base := "" // the output location, below the directory
	oarg := ""
	c.Cwd = pick(r, []string{"", "", "in", "w/d"})
	switch r.N(6) {
	case 0:
		base, oarg = "out", "{D}/out"
	case 1:
		base, oarg = "out/deep/er", "{D}/out/deep/er/"
	case 2:
		base, oarg = path.Join(c.Cwd, "gen"), "gen"
	case 3:
		base, oarg = path.Join(c.Cwd, "gen/x.y"), "./gen//x.y/"
	case 4:
		base, oarg = path.Join(c.Cwd, "o"), "p/../o"
	case 5:
		base, oarg = c.Cwd, "."
	}
	opts := dropOpt(randOpts(r, t, true), "-single")
	single := r.Pct(25)
	if single {
		opts = append(opts, "-single")
	}
	file := single && t != "java" && t != "kt"
	if file && r.Pct(60) {
		n := pick(r, []string{"all.x", "gen.hpp", "noext", "a.b.c"})
		base = path.Join(base, n)
		oarg = strings.TrimRight(oarg, "/") + "/" + n
	} else if file && base == c.Cwd {
		base, oarg = path.Join(c.Cwd, "one"), "one"
	}
	docs := map[string][]string{}
	var dirs []string
	for _, u := range us {
		for f, n := range u.outputs(t) {
			docs[f] = n
			for d := path.Dir(f); d != "."; d = path.Dir(d) {
				dirs = append(dirs, d)
			}
		}
	}
	dirs = uniq(dirs)
	var rm []string
	if r.Pct(45) && len(dirs) > 0 {
		for k := r.Range(1, 3); k > 0; k-- {
			d := pick(r, dirs)
			if r.Pct(20) {
				d = pick(r, []string{"nowhere", "zz/yy", "qq"})
			}
			rm = append(rm, d)
		}
		var spelled []string
		for _, d := range rm {
			spelled = append(spelled, d+pick(r, []string{"", "", "/"}))
		}
		opts = append(opts, "-rmpath", strings.Join(spelled, ","))
	}
	moved := map[string]bool{}
	if file {
		any := false
		for _, u := range us {
			any = any || !(u.empty() && u.omit == "true")
		}
		if !any { // what one file of nothing is, is not documented
			return nil
		}
		{
			c.Expect = []string{base}
			for _, n := range docs {
				c.Holds[base] = append(c.Holds[base], n...)
			}
		}
	} else {
		for _, f := range keysOf2(docs) {
			n := docs[f]
			for _, d := range rm {
				if strings.HasPrefix(f, d+"/") {
					f = f[len(d)+1:]
					break
				}
				if strings.HasPrefix(f, d) { // half a component: not documented
					return nil
				}
			}
			f = path.Join(base, f)
			if moved[f] {
				return nil // two files end up in one place
			}
			moved[f] = true
			c.Expect = append(c.Expect, f)
			c.Holds[f] = n
		}
	}
	for i, f := range c.Expect { // a file where a directory is needed
		if _, ok := c.Files[f]; ok {
			return nil
		}
		for j, g := range c.Expect {
			if i != j && strings.HasPrefix(g, f+"/") {
				return nil
			}
		}
	}
	in := "{D}/in/" + us[len(us)-1].path
	switch {
	case r.Pct(50):
	case c.Cwd == "":
		in = "in/" + us[len(us)-1].path
	case c.Cwd == "in":
		in = "./" + us[len(us)-1].path
	default:
		in = "../../in/" + us[len(us)-1].path
	}
	rest := append([]string{}, opts...)
	rest = append(rest, "-t", pick(r, aliases[t]))
	with := func(o ...string) []string {
		a := append([]string{}, o...)
		a = append(a, rest...)
		if r.Pct(15) {
			a = append(a, "-v")
		}
		return append(a, in)
	}
	c.Args = with("-o", oarg)
	if r.Pct(40) { // what was there before
		old := strings.Repeat("old text\n", r.Range(1, 20000))
		for _, f := range c.Expect {
			if r.Pct(50) {
				c.Left[f] = old
			}
		}
		if !file && len(c.Expect) > 0 {
			c.Left[path.Join(path.Dir(c.Expect[0]), "keep.me")] = "mine\n"
		}
		for f := range c.Left {
			if _, ok := c.Files[f]; ok {
				delete(c.Left, f)
			}
		}
	}
	out := []*CliCase{c}
	// without -o everything goes to standard output and nothing is written
	if r.Pct(20) {
		out = append(out, &CliCase{Files: c.Files, Args: append(append([]string{}, rest...), in), Cwd: c.Cwd, Want: "stdout", Rule: t + " to standard output"})
	}
	// other names of the target, an old tree: the same
	if r.Pct(30) && len(aliases[t]) > 1 {
		a, b := pick(r, aliases[t]), pick(r, aliases[t])
		x := dropOpt(opts, "-t")
		out = append(out, &CliCase{Files: c.Files, Cwd: c.Cwd, Want: "same", Rule: t + ": target names",
			Args: append(append([]string{"-t", a, "-o", oarg}, x...), in), Args2: append(append([]string{"-o", oarg, "-t", b}, x...), in)})
	}
	if len(c.Left) > 0 {
		l := map[string]string{}
		for _, f := range c.Expect {
			if t, ok := c.Left[f]; ok {
				l[f] = t
			}
		}
		out = append(out, &CliCase{Files: c.Files, Cwd: c.Cwd, Want: "same", Rule: t + ": over an old tree", Args: c.Args, Left: l})
	}
	// a run that fails leaves everything as it was
	if r.Pct(45) {
		f := &CliCase{Files: map[string]string{}, Left: map[string]string{}, Cwd: c.Cwd, Args: c.Args, Want: "reject", NoPos: true}
		for k, v := range c.Files {
			f.Files[k] = v
		}
		for _, k := range c.Expect {
			if r.Pct(50) {
				f.Left[k] = "old\n"
			}
		}
		mainF := "in/" + us[len(us)-1].path
		u := us[r.N(len(us))]
		switch w := r.N(9); {
		case w == 0:
			f.Rule = "type error in some file"
			f.Files["in/"+u.path] += "struct Wrong { Missing m; };\n"
		case w == 1:
			f.Rule = "syntax error in some file"
			f.Files["in/"+u.path] += "struct Wrong { uint8 ; ; ;\n"
		case w == 2:
			f.Rule = "missing import"
			f.Files["in/"+u.path] = strings.Replace(f.Files["in/"+u.path], ";\n", ";\nimport \"gone.bb\";\n", 1)
		case w == 3:
			f.Rule = "unknown target"
			f.Args = append([]string{"-t", pick(r, []string{"rust", "C", "", "c++", "golang", "ts"}), "-o", oarg}, append(opts, in)...)
		case w == 4:
			f.Rule = "bad option value"
			f.Args = append(append([]string{}, pick(r, [][]string{{"-signext=none"}, {"-signext", "arithm"}, {"-unroll=-2"}, {"-unroll=x"}, {"-nosuch"}, {"-single=maybe"}, {"-unroll", "-100"}})...), with("-o", oarg)...)
			if strings.Contains(strings.Join(rest, " "), "-signext") && strings.HasPrefix(f.Args[0], "-signext") || strings.Contains(strings.Join(rest, " "), "-unroll") && strings.HasPrefix(f.Args[0], "-unroll=-") || f.Args[0] == "-unroll" {
				return out
			}
		case w == 5:
			f.Rule = "no input or two"
			f.Args = with("-o", oarg)
			if r.Pct(50) {
				f.Args = append(f.Args, in)
			} else {
				f.Args = f.Args[:len(f.Args)-1]
			}
		case w == 6:
			f.Rule = "input does not exist"
			f.Args = append(with("-o", oarg)[:0:0], with("-o", oarg)...)
			f.Args[len(f.Args)-1] += "x"
		case w == 7 && len(us) > 1 && (t == "go" || t == "java"):
			f.Rule = t + ": two files of one package"
			k := t + "_package"
			delete(f.Files, "in/unused.bb")
			a, b := us[0], us[len(us)-1]
			if a.empty() || b.empty() || a.omit != "" || b.omit != "" || file {
				return out
			}
			for _, x := range []*tUnit{a, b} {
				ls := strings.SplitN(f.Files["in/"+x.path], "\n", 2)
				var keep []string
				for _, l := range strings.Split(ls[1], "\n") {
					if !strings.HasPrefix(l, "option "+k) {
						keep = append(keep, l)
					}
				}
				f.Files["in/"+x.path] = ls[0] + "\noption " + k + " = \"one\";\n" + strings.Join(keep, "\n")
			}
		default:
			if t != "kt" {
				return out
			}
			f.Rule = "kt: accessor that can only be set"
			f.Files["in/"+u.path] += "struct Wo { uint8 x { set y(uint8): value; }; };\n"
		}
		_ = mainF
		out = append(out, f)
	}
	return out
}

func keysOf2(m map[string][]string) []string {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return keysOf(x)
}

func uniq(xs []string) []string {
	seen := map[string]string{}
	for _, x := range xs {
		seen[x] = ""
	}
	return keysOf(seen)
}

func init() {
	checks["C18"] = func(c *Ctx) {
		c.Rule = "a case is one invocation of the command in a fresh directory on generated files (packages, package options, imports, omit_empty), with generated options and locations: the set of files it writes, compared with a model of the documented paths; that the files hold their types; that other names of the target and an existing tree change nothing; that without -o nothing is written; and that a failing invocation leaves everything as it was. Distinct by files, arguments and directory"
		var cs []*CliCase
		for i := 0; i < c.n(900, 20000); i++ {
			cs = append(cs, treeCase(c.R.Sub(uint64(i)))...)
		}
		c.runCliCases(cs)
	}
}
