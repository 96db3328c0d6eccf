package main

// C17: the generated code depends on what the schema says and on nothing else.

import (
	"fmt"
	"path"
	"regexp"
	"strconv"
	"strings"
)

var tokRe = regexp.MustCompile(`(?s)^(?:[ \t\r\n\f]+|//[^\r\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|0[xX][0-9A-Fa-f]+|[0-9]+\.[0-9]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+|[0-9]+|[A-Za-z_][A-Za-z_0-9]*|\*\*|<<|>>|<=|>=|==|!=|&&|\|\||.)`)

type token struct {
	t     string
	space bool // blank space or a comment before it
}

func lex(s string) []token {
	var out []token
	sp := false
	for s != "" {
		m := tokRe.FindString(s)
		s = s[len(m):]
		if strings.TrimLeft(m, " \t\r\n\f") == "" || strings.HasPrefix(m, "//") || strings.HasPrefix(m, "/*") {
			sp = true
			continue
		}
		out = append(out, token{m, sp})
		sp = false
	}
	return out
}

var intRe = regexp.MustCompile(`^(0[xX][0-9A-Fa-f]+|[0-9]+)$`)

func notations(r *Rng, lit string) string {
	v, err := strconv.ParseUint(lit, 0, 64)
	if err != nil || v > 1<<62 {
		return lit
	}
	switch r.N(5) {
	case 0:
		return strconv.FormatUint(v, 10)
	case 1:
		return "0x" + strings.ToUpper(strconv.FormatUint(v, 16))
	case 2:
		return "0X" + strconv.FormatUint(v, 16)
	case 3:
		return "0x00" + strconv.FormatUint(v, 16)
	}
	return "0" + strings.Repeat("0", r.N(2)) + strconv.FormatUint(v, 8)
}

func blank(r *Rng, need bool) string {
	var b strings.Builder
	n := r.W(60, 25, 10, 5)
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0, 1:
			b.WriteString(strings.Repeat(" ", r.Range(1, 5)))
		case 2:
			b.WriteString("\t")
		case 3:
			b.WriteString(pick(r, []string{"\n", "\r\n", "\n\n\n", "\f"}))
		case 4, 5:
			b.WriteString("/*" + pick(r, []string{"", "*", " a comment ", " } ; { ", "\n * lines\n ", " // ", " \"q ", " struct X { uint8 x; }; ", "\u00e9\u4e2d\U0001F600", "/*", " ' "}) + "*/")
		case 6, 7:
			b.WriteString("//" + pick(r, []string{"", " a comment", " }; struct Y {", " */", " /*", " \"", " import \"x.bb\";", "\u4e2d", "\\"}) + pick(r, []string{"\n", "\r\n"}))
		}
	}
	if need && b.Len() == 0 {
		return " "
	}
	return b.String()
}

// retext writes the same schema differently. lits: also with other notations for
// numbers (bits 1: sizes and lengths, which no generated code shows as written).
func retext(r *Rng, s string, lits bool) string {
	toks := lex(s)
	var st []byte // open braces: e enum body, s struct body, m accessors
	seps := r.Pct(60)
	sq := r.Pct(40)
	var b strings.Builder
	b.WriteString(blank(r, false))
	depthB := 0
	for i, t := range toks {
		switch t.t {
		case "{":
			k := i - 1
			if k >= 0 && toks[k].t == "]" {
				for k >= 0 && toks[k].t != "[" {
					k--
				}
				k--
			}
			kind := byte('m')
			if k >= 1 && toks[k-1].t == "enum" {
				kind = 'e'
			} else if k >= 1 && toks[k-1].t == "struct" {
				kind = 's'
			}
			st = append(st, kind)
		case "}":
			st = st[:len(st)-1]
		case "[":
			depthB++
		case "]":
			depthB--
		}
		cur := byte('t')
		if len(st) > 0 {
			cur = st[len(st)-1]
		}
		out := t.t
		switch {
		case cur == 'e' && depthB == 0 && (out == "," || out == ";") && seps:
			out = pick(r, []string{",", ";"})
		case intRe.MatchString(out) && (lits && cur != 'm' || depthB > 0 || i > 0 && toks[i-1].t == "<" && i+1 < len(toks) && toks[i+1].t == ">" && i > 1 && !intRe.MatchString(toks[i-2].t) && cur == 's') && r.Pct(50):
			out = notations(r, out)
		case len(out) > 1 && out[0] == '"' && !strings.ContainsAny(out, `\'`) && sq:
			out = "'" + out[1:len(out)-1] + "'"
		}
		b.WriteString(out)
		if seps && (t.t == ";" || t.t == "," && cur == 'e' && depthB == 0) && (cur == 't' || cur == 's' || cur == 'e') && r.Pct(15) {
			b.WriteString(blank(r, false) + strings.Repeat(";", r.Range(1, 3)))
		}
		if out == "/" { // no comment may begin here
			b.WriteString(" ")
		}
		need := false
		if i+1 < len(toks) {
			need = toks[i+1].space && !strings.ContainsAny(t.t, ";{}()[],#") && !strings.ContainsAny(toks[i+1].t, ";{}()[],#")
		}
		b.WriteString(blank(r, need))
	}
	if r.Pct(30) {
		b.WriteString("// the end")
	}
	return b.String()
}

// withOptions adds options that mean nothing: ones the compiler does not know, and
// the byte order that holds anyway.
func withOptions(r *Rng, s string) string {
	toks := lex(s)
	var st []byte
	var out []token
	ctr := 0
	opt := func() []token {
		ctr++
		v := pick(r, []string{"1", "true", `"x"`, "-3", "1.5", "'y'", `"big"`})
		return []token{{fmt.Sprintf("vhz_%d", ctr), true}, {"=", true}, {v, true}}
	}
	depthB := 0
	for i, t := range toks {
		cur := byte('t')
		if len(st) > 0 {
			cur = st[len(st)-1]
		}
		prev := ""
		if len(out) > 0 {
			prev = out[len(out)-1].t
		}
		kind := byte(0)
		switch t.t {
		case "{":
			k := i - 1
			if k >= 0 && toks[k].t == "]" {
				for k >= 0 && toks[k].t != "[" {
					k--
				}
				k--
			}
			kind = 'm'
			if k >= 1 && toks[k-1].t == "enum" {
				kind = 'e'
			} else if k >= 1 && toks[k-1].t == "struct" {
				kind = 's'
			}
		case "[":
			depthB++
		case "]":
			depthB--
		}
		ends := cur == 's' && t.t == ";" || cur == 's' && kind == 'm' || cur == 'e' && depthB == 0 && (t.t == ";" || t.t == ",")
		if ends && prev != "{" && prev != ";" && prev != "," && prev != "}" && r.Pct(35) {
			a := len(out) - 1
			has := false
			if prev == "]" {
				for a >= 0 && out[a].t != "[" {
					a--
				}
				has = a+2 < len(out) && out[a+2].t == "="
			}
			switch {
			case has && r.Pct(50): // last
				out = append(append(out[:len(out)-1], token{",", false}), append(opt(), token{"]", false})...)
			case has: // first
				rest := append([]token{}, out[a+1:]...)
				out = append(append(append(out[:a+1], opt()...), token{",", false}), rest...)
			default:
				o := opt()
				if cur == 's' && r.Pct(30) {
					o = append([]token{{"order", true}, {"=", true}, {`"little"`, true}, {",", false}}, o...)
					if r.Pct(50) {
						o = o[:3]
					}
				}
				out = append(append(append(out, token{"[", true}), o...), token{"]", false})
			}
		}
		switch t.t {
		case "{":
			st = append(st, kind)
		case "}":
			st = st[:len(st)-1]
		}
		out = append(out, t)
		if cur == 't' && t.t == ";" && prev != "}" && r.Pct(40) {
			out = append(append(append(out, token{"option", true}), opt()...), token{";", false})
		}
	}
	return untok(out)
}

// respell writes the path of a file differently.
func respell(r *Rng, p string) string {
	for k := r.Range(1, 2); k > 0; k-- {
		switch r.N(4) {
		case 0:
			p = "./" + p
		case 1:
			d, f := path.Split(p)
			p = d + "./" + f
		case 2:
			d, f := path.Split(p)
			if b := path.Base(d); d == "" || b == "." || b == ".." || b == "/" {
				continue
			}
			p = d + "../" + path.Base(d) + "/" + f
		case 3:
			p = strings.Replace(p, "/", "//", 1)
		}
	}
	return p
}

var importRe = regexp.MustCompile(`(?m)^import "([^"]*)";`)

// strLit writes q as a string literal in one of its spellings.
func strLit(r *Rng, q string) string {
	qt := pick(r, []string{"\"", "\"", "'"})
	if r.Pct(25) {
		if i := strings.LastIndexByte(q, '/') + 1; i < len(q) && q[i] != '.' && q[i] != '{' {
			q = q[:i] + fmt.Sprintf(pick(r, []string{"\\x%02x", "\\%03o"}), q[i]) + q[i+1:]
		}
	}
	return qt + q + qt
}

func sameCases(r *Rng, p *Program, t string) []*CliCase {
	base := filesOf(p, "in")
	opts := dropOpt(randOpts(r, t, true), "-single")
	if r.Pct(25) {
		opts = append(opts, "-single")
	}
	o := "{D}/out"
	if r.Pct(15) {
		o = ""
	}
	args := func(in string, extra ...string) []string {
		a := append([]string{"-t", t}, opts...)
		a = append(a, extra...)
		if o != "" {
			a = append(a, "-o", o)
		}
		return append(a, in)
	}
	main := "in/" + p.Files[0].Path
	var cs []*CliCase
	add := func(rule string, files2 map[string]string, a, a2 []string, cwd, cwd2 string) {
		cs = append(cs, &CliCase{Files: base, Files2: files2, Args: a, Args2: a2, Cwd: cwd, Cwd2: cwd2, Want: "same", Stdout: true, Rule: rule})
	}
	add("again", nil, args(main), nil, "", "")
	// elsewhere
	wd := pick(r, []string{"w", "w/x y", "in", "w/.hid"})
	up := strings.Repeat("../", strings.Count(wd, "/")+1) + main
	add("from another directory", nil, args(main), args(up), "", wd)
	add("absolute path", nil, args(main), args("{D}/"+main), "", pick(r, []string{"", "w"}))
	add("path spelled differently", nil, args(main), args(respell(r, main)), "", "")
	if len(p.Files) > 1 {
		f2 := map[string]string{}
		for _, k := range keysOf(base) {
			v := base[k]
			f2[k] = importRe.ReplaceAllStringFunc(v, func(m string) string {
				if r.Pct(30) {
					return m
				}
				q := importRe.FindStringSubmatch(m)[1]
				if r.Pct(30) { // an absolute path
					q = "{D}/" + path.Dir(k) + "/" + q
					if r.Pct(50) {
						q = "{D}/" + respell(r, q[4:])
					}
				} else {
					q = respell(r, q)
				}
				return "import " + strLit(r, q) + ";"
			})
		}
		add("imports spelled differently", f2, args(main), nil, "", "")
		f3 := map[string]string{}
		for _, k := range keysOf(base) {
			v := base[k] // files have other names and places
			f3[strings.Replace(k, "in/", "other/place/", 1)] = v
		}
		add("files elsewhere", f3, args(main), args(strings.Replace(main, "in/", "other/place/", 1)), "", "")
	}
	f4 := map[string]string{}
	for _, f := range keysOf(base) {
		f4[f] = withOptions(r, base[f])
	}
	add("options without meaning", f4, args(main), nil, "", "")
	for k := 0; k < 3; k++ {
		f2 := map[string]string{}
		for _, f := range keysOf(base) {
			v := base[f]
			f2[f] = retext(r, v, false)
		}
		add("comments, blank space, separators, notation of sizes", f2, args(main), nil, "", "")
		f2 = map[string]string{}
		for _, f := range keysOf(base) {
			v := base[f]
			f2[f] = retext(r, v, true)
		}
		add("notation of all numbers outside accessors under -decnum", f2, args(main, "-decnum"), nil, "", "")
	}
	return cs
}

func init() {
	checks["C17"] = func(c *Ctx) {
		c.Rule = "a case is two runs of the command whose output trees and standard output are compared byte for byte: the same run again; another working directory or spelling of the paths; the same schema with other comments, blank space, separators and numerals. Distinct by files, arguments and directories"
		var cs []*CliCase
		for i := 0; i < c.n(26, 700); i++ {
			r := c.R.Sub(uint64(i))
			g := cfgFor(r)
			g.Structs = r.Range(2, 8)
			g.Methods = r.Pct(50)
			g.Enums = r.Pct(40)
			p := GenProgram(r, g)
			if r.Pct(50) {
				p = SplitProgram(r, p, SplitCfg{Files: r.Range(2, 5), SameLast: r.Pct(35), Transitive: r.Pct(40), PkgOpts: r.Pct(40), OmitEmpty: r.Pct(25)})
			}
			c.classify(p)
			c.St.Schemas++
			for _, t := range targetsFor(p) {
				if r.Pct(45) {
					cs = append(cs, sameCases(r, p, t)...)
				}
			}
		}
		c.runCliCases(cs)
	}
}
