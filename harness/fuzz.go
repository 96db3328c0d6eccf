package main

// C15: the command ends, with a status and a message, whatever it is given.

import (
	"encoding/base64"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// fileText: texts that are not UTF-8 are kept in base64 (replays are JSON).
func fileText(t string) string {
	if s, ok := strings.CutPrefix(t, "b64:"); ok {
		if b, err := base64.StdEncoding.DecodeString(s); err == nil {
			return string(b)
		}
	}
	return t
}

func asText(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, "b64:") {
		return s
	}
	return "b64:" + base64.StdEncoding.EncodeToString([]byte(s))
}

var fuzzTokens = strings.Fields(`import get set value package option void int8 int16 int32 int64 uint8 uint16
 uint32 uint64 float32 float64 bool string bytes enum struct syntax # ; = ? ( ) [ ] { } < <= > >= == != . , :
 + - * / % ** << >> & | ^ ~ && || ! true false 0 1 7 8 9 0x1F 0b101 017 08 1.5 1e3 1e400 .5 5. -0 2147483648
 4294967296 9223372036854775807 9223372036854775808 18446744073709551615 18446744073709551616 0xFFFFFFFFFFFFFFFF
 0x10000000000000000 "x" 'y' "" '' "\n" "\x41" "\777" "unterminated 'unterminated // /* */ order "big" "little"
 offset size go_package java_package cpp_namespace csharp_namespace kotlin_package omit_empty order = "big" inf nan
 _ __ a A aB A_B x1 é 中 $ @ \ "\u00e9"`)

var classTokens = map[string][]string{
	"type": strings.Fields("int8 int16 int32 int64 uint8 uint16 uint32 uint64 float32 float64 bool string bytes"),
	"op":   strings.Fields("+ - * / % ** << >> & | ^ && || < <= > >= == !="),
	"int":  strings.Fields("0 1 2 3 4 7 8 9 12 15 16 31 32 33 63 64 65 127 128 255 256 4096 65535 0x7F 0xFFFFFFFF 2147483648 4294967296 9223372036854775807 9223372036854775808 18446744073709551615 0.0 1.5 1e30 1e308 true \"x\""),
	"str":  {`"big"`, `"little"`, `"x"`, `""`, `'big'`, `"middle"`, `"a/b"`, `"a.b"`, `"\n"`, `"1"`, "true", "1",
		`"_"`, `"_._"`, `"a."`, `".a"`, `"::"`, `"a::"`, `"::a"`, `"a;b"`, `"é"`, `"."`, `"a//b"`, `"a/"`, `"a b"`, `"A.B"`, `"__a.b__"`, "\"" + strings.Repeat("a.", 200) + "a\""},
	"word": strings.Fields("get set = + - ~ ! . , : value void enum struct option import package order offset a B"),
}

var oddNames = strings.Fields(`_ __ ___ _x X_ x_ __x__ x__y X__Y _9 __9 a A aA AA a9 A9 A_ _A_ x_1_y X1Y2 class int self
 None def default func type this std null true__ package_ length size encode decode xY9z ` + strings.Repeat("Ab", 400))

func classOf(t string) string {
	for _, k := range []string{"type", "op"} {
		for _, x := range classTokens[k] {
			if x == t {
				return k
			}
		}
	}
	switch {
	case numRe.MatchString(t):
		return "int"
	case t[0] == '"' || t[0] == '\'':
		return "str"
	case t == "import" || t == "package" || t == "option" || t == "void" || t == "enum" || t == "struct" || t == "get" || t == "set" || t == "value" || t == "true" || t == "false":
		return ""
	case t[0] == '_' || t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z':
		return "id"
	}
	return ""
}

func untok(ts []token) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && t.t != ";" {
			b.WriteByte(' ')
		}
		b.WriteString(t.t)
		if t.t == ";" || t.t == "{" || t.t == "}" {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

// stmtAt: the statement (up to its ; or closing brace) that holds token i.
func stmtAt(ts []token, i int) (int, int) {
	a := i
	for a > 0 && ts[a-1].t != ";" && ts[a-1].t != "{" && ts[a-1].t != "}" {
		a--
	}
	d := 0
	for b := a; b < len(ts); b++ {
		switch ts[b].t {
		case "{":
			d++
		case "}":
			d--
			if d < 0 {
				return a, b
			}
			if d == 0 {
				b++
				if b < len(ts) && ts[b].t == ";" {
					b++
				}
				return a, b
			}
		case ";":
			if d == 0 {
				return a, b + 1
			}
		}
	}
	return a, len(ts)
}

// reshape applies edits that mostly keep the text well-formed.
func reshape(r *Rng, s, other string) string {
	ts, ot := lex(s), lex(other)
	for n := r.Range(1, 4); n > 0 && len(ts) > 1; n-- {
		i := r.N(len(ts))
		switch r.W(40, 15, 8, 8, 8, 8, 8) {
		case 6: // a name, wherever it is
			for k := 0; k < 50 && classOf(ts[i].t) != "id"; k++ {
				i = r.N(len(ts))
			}
			if was := ts[i].t; classOf(was) == "id" {
				to := pick(r, oddNames)
				if r.Pct(50) { // as capitalized as before
					to = pick(r, []string{was + "_", "_" + was, "__" + was + "__", was + "__" + was, was + "_9", was + strings.Repeat("9", 300), was + "_" + strings.ToUpper(was)})
				}
				for k := range ts {
					if ts[k].t == was {
						ts[k] = token{to, true}
					}
				}
			}
		case 0: // one token by one of its class
			for k := 0; k < 50 && classOf(ts[i].t) == ""; k++ {
				i = r.N(len(ts))
			}
			c := classOf(ts[i].t)
			switch {
			case c == "":
			case c == "id" || r.Pct(25):
				src := ts
				if len(ot) > 0 && r.Pct(30) {
					src = ot
				}
				for k := 0; k < 60; k++ {
					if x := pick(r, src); classOf(x.t) == c {
						ts[i] = x
						break
					}
				}
			default:
				ts[i] = token{pick(r, classTokens[c]), true}
			}
		case 1: // a statement goes, appears twice, or moves
			a, b := stmtAt(ts, i)
			st := append([]token{}, ts[a:b]...)
			if len(st) == 0 {
				break
			}
			k := r.N(3)
			if k != 1 {
				ts = append(ts[:a:a], ts[b:]...)
			}
			if k != 0 && len(ts) > 0 {
				c, _ := stmtAt(ts, r.N(len(ts)))
				ts = append(ts[:c:c], append(st, ts[c:]...)...)
			}
		case 2: // a statement of another file
			if len(ot) > 0 {
				a, b := stmtAt(ot, r.N(len(ot)))
				c, _ := stmtAt(ts, i)
				ts = append(ts[:c:c], append(append([]token{}, ot[a:b]...), ts[c:]...)...)
			}
		case 3: // a size, order, length or accessor more or less
			ins := pick(r, []string{"[ 1 ]", "[ # 9 ]", "[ 2 # 3 ]", "[ order = \"big\" ]", "[ order = \"big\" , order = \"little\" ]", "[ offset = 1 ]", "< 3 >", "< 0 >", "{ get zz ( uint8 ) : value ; }", "{ set ( int32 ) : value == 1 ; }", "= 1", "= true", "= A", "( )", "value", "-", "- -", "~", "!", "( int64 )", "struct", "enum"})
			ts = append(ts[:i:i], append(lex(ins), ts[i:]...)...)
		case 4: // an expression grows
			for k := 0; k < 60 && ts[i].t != "value"; k++ {
				i = r.N(len(ts))
			}
			if ts[i].t == "value" {
				e := pick(r, []string{"( value )", "- value", "! value", "~ value", "value + value", "( bool ) value", "( float32 ) ( value % 2 )", "value ** - 1", "value << 70", "value / 0", "value % 0", "- - - value", "value && 1", "value == value == value", "1 < 2", "( uint8 ) ( int64 ) - 1", "true", "\"s\"", "value . x", "zz", "0x10 ** 0.5"})
				ts = append(ts[:i:i], append(lex(e), ts[i+1:]...)...)
			}
		case 5: // the numbers of a statement
			a, b := stmtAt(ts, i)
			for k := a; k < b; k++ {
				if classOf(ts[k].t) == "int" && r.Pct(50) {
					ts[k] = token{pick(r, classTokens["int"]), true}
				}
			}
		}
	}
	return untok(ts)
}

// mutate applies a few token or byte edits.
func mutate(r *Rng, s, other string) string {
	if r.Pct(65) {
		return reshape(r, s, other)
	}
	for k := r.Range(1, 4); k > 0; k-- {
		switch r.W(30, 6, 5, 4, 5, 3) {
		case 0: // tokens
			ts := lex(s)
			if len(ts) == 0 {
				break
			}
			ot := lex(other)
			for n := r.W(60, 25, 15) + 1; n > 0 && len(ts) > 1; n-- {
				i := r.N(len(ts))
				switch r.N(8) {
				case 0: // drop some
					j := min(len(ts), i+r.W(70, 15, 10, 5)+1)
					ts = append(ts[:i:i], ts[j:]...)
				case 1: // repeat some
					j := min(len(ts), i+r.Range(1, 12))
					ts = append(ts[:j:j], append(append([]token{}, ts[i:j]...), ts[j:]...)...)
				case 2: // swap
					j := r.N(len(ts))
					ts[i], ts[j] = ts[j], ts[i]
				case 3: // another token of the same file
					ts[i] = ts[r.N(len(ts))]
				case 4: // a token of another file
					if len(ot) > 0 {
						ts[i] = ot[r.N(len(ot))]
					}
				case 5: // a run of tokens of another file
					if len(ot) > 0 {
						a := r.N(len(ot))
						b := min(len(ot), a+r.Range(1, 25))
						ts = append(ts[:i:i], append(append([]token{}, ot[a:b]...), ts[i:]...)...)
					}
				case 6:
					ts[i] = token{pick(r, fuzzTokens), true}
				case 7:
					ts = append(ts[:i:i], append([]token{{pick(r, fuzzTokens), true}}, ts[i:]...)...)
				}
			}
			var b strings.Builder
			for i, t := range ts {
				if i > 0 {
					if t.t == "}" || t.t == ";" || r.Pct(70) {
						b.WriteByte(' ')
					} else {
						b.WriteByte('\n')
					}
				}
				b.WriteString(t.t)
				if t.t == ";" || t.t == "{" {
					b.WriteByte('\n')
				}
			}
			s = b.String()
		case 1: // cut
			if len(s) > 0 {
				s = s[:r.N(len(s))]
			}
		case 2: // bytes
			b := []byte(s)
			for n := r.Range(1, 4); n > 0 && len(b) > 0; n-- {
				b[r.N(len(b))] = byte(r.N(256))
			}
			s = string(b)
		case 3: // insert bytes
			i := r.N(len(s) + 1)
			s = s[:i] + pick(r, []string{"\x00", "\ufeff", "\xff\xfe", "\xc3", "\r", "\u2028", "\x1a", "/*", "\"", "'", "*/", "//", "\\", "\U0001F600", strings.Repeat("A", 3000), strings.Repeat("(", 40), strings.Repeat("-", 60), strings.Repeat("}", 30), strings.Repeat(";", 50), strings.Repeat("\n", 200)}) + s[i:]
		case 4: // another number
			locs := numRe.FindAllStringIndex(s, -1)
			if len(locs) > 0 {
				l := pick(r, locs)
				s = s[:l[0]] + pick(r, []string{"0", "1", "2", "3", "7", "8", "9", "63", "64", "65", "255", "256", "4096", "-1", "00", "0x", "1.0", "1e2", "0x0", "2147483647", "2147483648", "4294967295", "9223372036854775807", "9223372036854775808", "18446744073709551615", "99999999999999999999999"}) + s[l[1]:]
			}
		case 5: // splice
			if len(s) > 0 && len(other) > 0 {
				s = s[:r.N(len(s))] + other[r.N(len(other)):]
			}
		}
	}
	return s
}

var numRe = regexp.MustCompile(`\b(0[xX][0-9A-Fa-f]+|[0-9]+)\b`)
var importStmt = regexp.MustCompile(`import\s*("[^"\n]*"|'[^'\n]*')`)

// tame bounds what legitimately takes long: array lengths and the widths of
// voids and enums (code is generated per element and per byte), and how deep definitions
// nest (listed as a known finding).
func tame(s string) (string, bool) {
	ts := lex(s)
	depth, deepest := 0, 0
	void := false
	for i, t := range ts {
		switch t.t {
		case "{":
			depth++
			deepest = max(deepest, depth)
			void = false
		case "}":
			depth--
		case "void", "enum":
			void = true
		case ";":
			void = false
		}
		if v, err := strconv.ParseUint(t.t, 0, 64); (err == nil && v > 4096) && (void || i > 0 && ts[i-1].t == "<") {
			return s, false
		}
	}
	return s, deepest <= 6
}

// escapes: generated files might be written outside the output directory.
func escapes(s string) bool {
	s = importStmt.ReplaceAllString(s, "")
	return strings.Contains(s, "..") || strings.Contains(s, "\"/") || strings.Contains(s, "'/") || strings.Contains(s, "\\")
}

func fuzzArgs(r *Rng, main string, out bool) []string {
	t := pick(r, append(allTargets, "kt", "kotlin", "csharp", "commonjs", "python"))
	a := []string{"-t", t}
	if r.Pct(70) {
		a = append(a, randOpts(r, t, true)...)
	}
	if out {
		o := pick(r, []string{"out", "out", "out", "out/deep/er", "one.txt", "in", ".", "in/schema.bb/x", "exists/file.txt", "exists/file.txt/x"})
		a = append(a, "-o", o)
	}
	if r.Pct(12) { // odd command lines
		odd := []string{"-t", "-t=", "-t=zz", "-unroll=x", "-unroll=99999999999999999999", "-unroll=-9223372036854775808", "-unroll=2147483647", "-signext=zz", "-signext=", "-rmpath=", "-rmpath=,", "-rmpath=a,b,,/", "-rmpath", "-zz", "--", "-", "-single=maybe", "-single=false", "-h", "-help", "--minimal", "-v", "-o=", "-relpath=true", "é", "", " ", "-t=C", "-memcpy=0"}
		for n := r.Range(1, 2); n > 0; n-- {
			i := r.N(len(a) + 1)
			a = append(a[:i:i], append([]string{pick(r, odd)}, a[i:]...)...)
		}
	}
	switch r.W(93, 2, 2, 2, 1) {
	case 0:
		a = append(a, main)
	case 1:
		a = append(a, pick(r, []string{"in", "in/none.bb", ".", "/dev/null", "", "in/\x01", strings.Repeat("x", 300)}))
	case 2:
		a = append(a, main, main)
	case 4:
		a = append([]string{main}, a...)
	}
	return a
}

func init() {
	checks["C15"] = func(c *Ctx) {
		c.Rule = "a case is one run of the command: files made from generated schemas (one or several) by token edits, cuts, splices, byte edits and odd numbers, or left alone, and random options, some of them malformed; it must end by itself with status 0, or another status and a message, and not panic. Array lengths, enum and void widths stay below 4097 and definitions are nested at most six deep. Distinct by files and arguments"
		n := c.n(1100, 16000)
		var cs []*CliCase
		prev := "package q;\nstruct A { uint8 a { get b(uint8): value + 1; }; }"
		for i := 0; i < n; i++ {
			r := c.R.Sub(uint64(i))
			g := cfgFor(r)
			g.Structs = r.Range(1, 6)
			g.Methods = r.Pct(60)
			g.Enums = r.Pct(30)
			g.Const = pick(r, []int{0, 10, 40})
			p := GenProgram(r, g)
			if r.Pct(30) {
				p = SplitProgram(r, p, SplitCfg{Files: r.Range(2, 4), SameLast: r.Pct(30), Transitive: r.Pct(40), PkgOpts: r.Pct(40), OmitEmpty: r.Pct(25)})
			}
			base := filesOf(p, "in")
			if r.Pct(30) { // one with a broken rule
				if b, _ := genFault(r, p); b != nil {
					base = b.Files
				}
			}
			main := "in/" + p.Files[0].Path
			for k := 0; k < 16; k++ {
				fs := map[string]string{}
				esc, ok := false, true
				what := "untouched"
				victim := pick(r, keysOf(base))
				if r.Pct(60) {
					victim = main
				}
				for _, f := range keysOf(base) {
					t := base[f]
					if f == victim && !r.Pct(6) {
						t = mutate(r, t, prev)
						what = "edited"
					}
					_, o := tame(t)
					ok = ok && o
					esc = esc || escapes(t)
					fs[f] = asText(t)
				}
				if !ok {
					c.class("edited into huge or deep schemas, not run", 1)
					continue
				}
				cs = append(cs, &CliCase{Files: fs, Args: fuzzArgs(r, main, !esc && !r.Pct(10)), Left: map[string]string{"exists/file.txt": "x"}, Want: "survive", Rule: fmt.Sprintf("%s, %d files", what, len(fs))})
			}
			prev = base[main]
		}
		c.runCliCases(cs)
	}
}
