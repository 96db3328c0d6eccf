package main

// The portable part of the accessor expression language: every leaf is cast, so
// one meaning fits every target (doubles; 32-bit ints that do not overflow; bools).

import (
	"errors"
	"math"
	"strconv"
	"strings"
)

type Expr struct {
	Op   string // "lit" "value" "cast" "neg" "bnot" "not" "tern" or a binary operator
	Lit  string
	To   *Type
	A    []*Expr
	Cls  byte // 'f' double, 'i' int, 'b' bool
	Long bool // 'value' of a 64-bit field
}

var precOf = map[string]int{"**": 13, "*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8,
	"<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}

func (e *Expr) prec() int {
	switch e.Op {
	case "lit":
		if strings.HasPrefix(e.Lit, "-") {
			return 12
		}
		return 100
	case "value":
		return 100
	case "neg", "bnot", "not":
		return 12
	case "cast":
		return 11
	case "tern":
		return 0
	}
	return precOf[e.Op]
}

// Text writes the expression with only the parentheses that precedence asks for.
func (e *Expr) Text() string {
	par := func(x *Expr, min int) string {
		if x.prec() < min {
			return "(" + x.Text() + ")"
		}
		return x.Text()
	}
	switch e.Op {
	case "lit":
		return e.Lit
	case "value":
		return "value"
	case "cast":
		return "(" + e.To.Name() + ")" + par(e.A[0], 11)
	case "neg":
		return "-" + par(e.A[0], 13)
	case "bnot":
		return "~" + par(e.A[0], 13)
	case "not":
		return "!" + par(e.A[0], 13)
	case "tern":
		return par(e.A[0], 1) + " ? " + par(e.A[1], 1) + " : " + par(e.A[2], 1)
	}
	p := e.prec()
	if e.Op == "**" {
		if e.A[0].Op == "lit" { // "-2.0 ** 2.0" is the power of the literal -2.0
			return "(" + e.A[0].Text() + ") ** " + par(e.A[1], 14)
		}
		return par(e.A[0], 14) + " ** " + par(e.A[1], 14)
	}
	return par(e.A[0], p) + " " + e.Op + " " + par(e.A[1], p+1)
}

var errSkip = errors.New("outside the portable domain")

type ev struct {
	f float64
	i int64
	b bool
}

// Eval computes the expression for a value of type t (host bits u).
func (e *Expr) Eval(t *Type, u uint64) (ev, error) {
	var a [3]ev
	if e.Op == "tern" {
		c, err := e.A[0].Eval(t, u)
		if err != nil {
			return c, err
		}
		if c.b {
			return e.A[1].Eval(t, u)
		}
		return e.A[2].Eval(t, u)
	}
	for i, x := range e.A {
		v, err := x.Eval(t, u)
		if err != nil {
			if e.Op == "&&" || e.Op == "||" { // short circuit hides nothing here: leaves never trap
				return v, err
			}
			return v, err
		}
		a[i] = v
	}
	ci := func(v int64) (ev, error) {
		if v > math.MaxInt32 || v < math.MinInt32 {
			return ev{}, errSkip
		}
		return ev{i: v}, nil
	}
	sub := byte(0)
	if len(e.A) > 0 {
		sub = e.A[0].Cls
	}
	switch e.Op {
	case "lit":
		switch e.Cls {
		case 'f':
			f, _ := strconv.ParseFloat(e.Lit, 64)
			return ev{f: f}, nil
		case 'b':
			return ev{b: e.Lit == "true"}, nil
		}
		i, _ := strconv.ParseInt(e.Lit, 0, 64)
		return ev{i: i}, nil
	case "value":
		switch t.K {
		case KBool:
			return ev{b: u != 0}, nil
		case KFloat:
			var f float64
			if t.W == 32 {
				f = float64(math.Float32frombits(uint32(u)))
			} else {
				f = math.Float64frombits(u)
			}
			if f != f || math.IsInf(f, 0) {
				return ev{}, errSkip
			}
			return ev{f: f}, nil
		}
		if t.Signed {
			i := sext(u, t.W)
			return ev{i: i, f: float64(i)}, nil
		}
		if u > math.MaxInt64 {
			return ev{}, errSkip
		}
		return ev{i: int64(u), f: float64(u)}, nil
	case "cast":
		switch e.To.K {
		case KFloat:
			if sub == 'i' {
				return ev{f: float64(a[0].i)}, nil
			}
			if e.To.W == 32 {
				f := float64(float32(a[0].f))
				if f != a[0].f {
					return ev{}, errSkip
				}
			}
			return a[0], nil
		case KBool:
			return a[0], nil
		}
		v := a[0].i
		if sub == 'f' {
			if !(math.Abs(a[0].f) < 1<<52) {
				return ev{}, errSkip
			}
			v = int64(math.Trunc(a[0].f))
		}
		lo, hi := intRange(e.To)
		if v < lo || v > hi {
			return ev{}, errSkip
		}
		return ev{i: v}, nil
	case "neg":
		if e.Cls == 'f' {
			return ev{f: -a[0].f}, nil
		}
		return ci(-a[0].i)
	case "bnot":
		return ci(^a[0].i)
	case "not":
		return ev{b: !a[0].b}, nil
	case "&&":
		return ev{b: a[0].b && a[1].b}, nil
	case "||":
		return ev{b: a[0].b || a[1].b}, nil
	}
	if sub == 'f' {
		x, y := a[0].f, a[1].f
		var r float64
		switch e.Op {
		case "+":
			r = x + y
		case "-":
			r = x - y
			if x == 0 && y == 0 { // gcc folds (double)i - (double)i - (double)i to -(double)i: -0
				return ev{}, errSkip
			}
		case "*":
			r = x * y
		case "/":
			if y == 0 {
				return ev{}, errSkip
			}
			r = x / y
		case "**":
			if x != math.Trunc(x) || math.Abs(x) > 1<<16 || y != 2 && y != 3 {
				return ev{}, errSkip
			}
			r = x * x
			if y == 3 {
				r *= x
			}
		case "<":
			return ev{b: x < y}, nil
		case "<=":
			return ev{b: x <= y}, nil
		case ">":
			return ev{b: x > y}, nil
		case ">=":
			return ev{b: x >= y}, nil
		case "==":
			return ev{b: x == y}, nil
		case "!=":
			return ev{b: x != y}, nil
		}
		if math.IsInf(r, 0) || r != r {
			return ev{}, errSkip
		}
		return ev{f: r}, nil
	}
	if sub == 'b' {
		if e.Op == "==" {
			return ev{b: a[0].b == a[1].b}, nil
		}
		return ev{b: a[0].b != a[1].b}, nil
	}
	x, y := a[0].i, a[1].i
	switch e.Op {
	case "**": // a double in C, an integer in Python: only ever cast to int32
		if x > 1<<16 || x < -1<<16 || y != 2 && y != 3 {
			return ev{}, errSkip
		}
		r := float64(x * x)
		if y == 3 {
			r *= float64(x)
		}
		return ev{f: r}, nil
	case "+":
		return ci(x + y)
	case "-":
		return ci(x - y)
	case "*":
		return ci(x * y)
	case "%":
		if x < 0 || y <= 0 {
			return ev{}, errSkip
		}
		return ci(x % y)
	case "<<":
		if x < 0 || y < 0 || y > 30 {
			return ev{}, errSkip
		}
		return ci(x << uint(y))
	case ">>":
		if y < 0 || y > 31 {
			return ev{}, errSkip
		}
		return ci(x >> uint(y))
	case "&":
		return ci(x & y)
	case "|":
		return ci(x | y)
	case "^":
		return ci(x ^ y)
	case "<":
		return ev{b: x < y}, nil
	case "<=":
		return ev{b: x <= y}, nil
	case ">":
		return ev{b: x > y}, nil
	case ">=":
		return ev{b: x >= y}, nil
	case "==":
		return ev{b: x == y}, nil
	case "!=":
		return ev{b: x != y}, nil
	}
	return ev{}, errSkip
}

func intRange(t *Type) (int64, int64) {
	if t.Signed {
		if t.W == 64 {
			return -1 << 53, 1 << 53
		}
		return -1 << uint(t.W-1), 1<<uint(t.W-1) - 1
	}
	if t.W == 64 {
		return 0, 1 << 53
	}
	return 0, int64(mask(t.W))
}

// EvalTo gives the result as host bits of type ret.
func (e *Expr) EvalTo(ret, t *Type, u uint64) (uint64, error) {
	v, err := e.Eval(t, u)
	if err != nil {
		return 0, err
	}
	switch ret.K {
	case KBool:
		if v.b {
			return 1, nil
		}
		return 0, nil
	case KFloat:
		if ret.W == 32 {
			return uint64(math.Float32bits(float32(v.f))), nil
		}
		return math.Float64bits(v.f), nil
	}
	return uint64(v.i) & mask(ret.W), nil
}

// ---- generation ----

var tF64 = &Type{K: KFloat, W: 64}
var tI32 = &Type{K: KInt, W: 32, Signed: true}

// classes of direct value leaves available for a source type
func (g *Gen) leaf(src *Type, cls byte) *Expr {
	val := &Expr{Op: "value"}
	switch src.K {
	case KBool:
		val.Cls = 'b'
	case KFloat:
		val.Cls = 'f'
	default:
		val.Cls = 'i'
	}
	switch cls {
	case 'f':
		if src.K == KFloat || src.K == KInt {
			return &Expr{Op: "cast", To: tF64, A: []*Expr{val}, Cls: 'f'}
		}
	case 'i':
		if src.K == KInt && (src.W < 32 || src.W == 32 && src.Signed) {
			return &Expr{Op: "cast", To: tI32, A: []*Expr{val}, Cls: 'i'}
		}
	case 'b':
		if src.K == KBool {
			return val
		}
	}
	return nil
}

func (g *Gen) lit(cls byte) *Expr {
	r := g.r
	switch cls {
	case 'f':
		s := pick(r, []string{"10.0", "0.5", "40.0", "1.25", "100.0", "0.1", "3.75", "1000.0", "0.0078125", "2.0", "1.5e3"})
		return &Expr{Op: "lit", Lit: s, Cls: 'f'}
	case 'i':
		return &Expr{Op: "lit", Lit: strconv.Itoa(pick(r, []int{0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 40, 100, 127, 255})), Cls: 'i'}
	}
	return &Expr{Op: "lit", Lit: pick(r, []string{"true", "false"}), Cls: 'b'}
}

func (g *Gen) expr(src *Type, cls byte, d int) *Expr {
	r := g.r
	can := func(c byte) bool { return g.leaf(src, c) != nil }
	if d <= 0 || r.Pct(12) {
		if l := g.leaf(src, cls); l != nil && r.Pct(75) {
			return l
		}
		if cls != 'b' {
			return g.lit(cls)
		}
	}
	bin := func(c byte, op string, ac byte) *Expr {
		return &Expr{Op: op, Cls: c, A: []*Expr{g.expr(src, ac, d-1), g.expr(src, ac, d-1)}}
	}
	switch cls {
	case 'f':
		switch r.W(12, 8, 4, 70, 6) {
		case 0:
			return g.tern(src, 'f', d)
		case 1:
			return &Expr{Op: "neg", Cls: 'f', A: []*Expr{g.expr(src, 'f', d-1)}}
		case 4:
			return &Expr{Op: "**", Cls: 'f', A: []*Expr{g.expr(src, 'f', d-1), {Op: "lit", Lit: pick(r, []string{"2.0", "3.0"}), Cls: 'f'}}}
		}
		e := bin('f', pick(r, []string{"+", "-", "*", "/"}), 'f')
		if e.Op == "/" {
			e.A[1] = g.lit('f')
		}
		return g.avoidConst(src, e)
	case 'i':
		switch r.W(10, 8, 8, 66, 8) {
		case 4:
			if b := g.expr(src, 'i', d-1); b.hasValue() {
				return &Expr{Op: "cast", To: tI32, Cls: 'i', A: []*Expr{{Op: "**", Cls: 'f', A: []*Expr{b, {Op: "lit", Lit: pick(r, []string{"2", "3"}), Cls: 'i'}}}}}
			}
		case 0:
			return g.tern(src, 'i', d)
		case 1:
			return &Expr{Op: "neg", Cls: 'i', A: []*Expr{g.expr(src, 'i', d-1)}}
		case 2:
			return &Expr{Op: "bnot", Cls: 'i', A: []*Expr{g.expr(src, 'i', d-1)}}
		}
		e := bin('i', pick(r, []string{"+", "-", "*", "%", "<<", ">>", "&", "|", "^"}), 'i')
		switch e.Op {
		case "%":
			e.A[1] = &Expr{Op: "lit", Lit: strconv.Itoa(r.Range(1, 100)), Cls: 'i'}
		case "<<", ">>":
			e.A[1] = &Expr{Op: "lit", Lit: strconv.Itoa(r.Range(0, 7)), Cls: 'i'}
		}
		return g.avoidConst(src, e)
	}
	// bool
	switch {
	case d > 1 && r.Pct(30):
		return bin('b', pick(r, []string{"&&", "||"}), 'b')
	case d > 1 && r.Pct(15):
		return bin('b', pick(r, []string{"==", "!="}), 'b')
	case r.Pct(15):
		return &Expr{Op: "not", Cls: 'b', A: []*Expr{g.expr(src, 'b', d-1)}}
	}
	ops := []string{"<", "<=", ">", ">=", "==", "!="}
	switch {
	case can('i'):
		return g.avoidConst(src, bin('b', pick(r, ops), 'i'))
	case can('f'):
		return g.avoidConst(src, bin('b', pick(r, ops), 'f'))
	}
	return g.leaf(src, 'b')
}

func (e *Expr) hasValue() bool {
	if e.Op == "value" {
		return true
	}
	for _, x := range e.A {
		if x.hasValue() {
			return true
		}
	}
	return false
}

// Constant subexpressions are folded at different precisions by some compilers
// (Go folds exactly): keep a value in the left operand.
func (g *Gen) avoidConst(src *Type, e *Expr) *Expr {
	if !e.A[0].hasValue() {
		if l := g.leaf(src, e.A[0].Cls); l != nil {
			if g.r.Pct(50) && !strings.Contains("/ % << >>", e.Op) {
				e.A[1], e.A[0] = l, g.lit(e.A[0].Cls)
			} else {
				e.A[0] = l
			}
		}
	}
	return e
}

func (g *Gen) tern(src *Type, cls byte, d int) *Expr {
	to := tF64
	if cls == 'i' {
		to = tI32
	}
	br := func() *Expr {
		x := g.expr(src, cls, d-1)
		return &Expr{Op: "cast", To: to, A: []*Expr{x}, Cls: cls}
	}
	return &Expr{Op: "tern", Cls: cls, A: []*Expr{g.expr(src, 'b', d-1), br(), br()}}
}

func (g *Gen) castTo(t *Type, e *Expr) *Expr {
	c := byte('i')
	switch t.K {
	case KFloat:
		c = 'f'
	case KBool:
		return e // already bool: no cast to bool (not expressible in every target)
	}
	return &Expr{Op: "cast", To: t, A: []*Expr{e}, Cls: c}
}

// exprFor gives an expression from src to dst, or nil.
func (g *Gen) exprFor(src, dst *Type) *Expr {
	d := g.r.Range(1, 3)
	if dst.K == KBool {
		if src.K == KBool {
			return g.expr(src, 'b', d)
		}
		if src.K == KInt && src.W == 64 && !src.Signed {
			return nil
		}
		return g.expr(src, 'b', d)
	}
	if src.K == KBool {
		c := byte('f')
		if dst.K == KInt {
			c = 'i'
		}
		mk := func() *Expr {
			l := g.lit(c)
			for c == 'i' && dst.W == 8 && dst.Signed && l.Lit == "255" {
				l = g.lit(c)
			}
			return &Expr{Op: "cast", To: dst, A: []*Expr{l}, Cls: c}
		}
		return &Expr{Op: "tern", Cls: c, A: []*Expr{g.leaf(src, 'b'), mk(), mk()}}
	}
	cls := byte('f')
	if dst.K == KInt && g.leaf(src, 'i') != nil && g.r.Pct(65) {
		cls = 'i'
	}
	e := g.expr(src, cls, d)
	if !e.hasValue() {
		e = g.leaf(src, cls)
	}
	return g.castTo(dst, e)
}

func (g *Gen) methods(f *Field) {
	n := g.r.Range(1, 3)
	for i := 0; i < n; i++ {
		ret := g.basic()
		if g.r.Pct(30) {
			ret = tF64
		}
		g.ctr++
		name, w := g.spell("m" + b26(g.ctr, 3))
		both := g.r.W(40, 30, 30)
		get := g.exprFor(f.T, ret)
		if get == nil {
			continue
		}
		if both != 2 {
			f.Methods = append(f.Methods, &Method{Get: true, Name: name, W: w, Ret: ret, E: get})
		}
		if both != 1 {
			if set := g.exprFor(ret, f.T); set != nil {
				f.Methods = append(f.Methods, &Method{Name: name, W: w, Ret: ret, E: set})
			} else if both == 2 {
				f.Methods = append(f.Methods, &Method{Get: true, Name: name, W: w, Ret: ret, E: get})
			}
		}
	}
}
