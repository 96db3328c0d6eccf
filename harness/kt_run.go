package main

// The Kotlin interpreter: values carry their Kotlin type, so that what the
// Kotlin compiler would refuse on an executed path (an Int assigned to a UByte
// property, == between a Long and an Int, ...) is refused here too.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

type kk uint8

const (
	kUnit kk = iota
	kNull
	kBool
	kByte
	kShort
	kInt
	kLong
	kUByte
	kUShort
	kUInt
	kULong
	kFloat
	kDouble
	kChar
	kString
	kArr
	kObjK
	kRange
	kLambda
	kClassK
	kList
)

var kkName = []string{"Unit", "Nothing?", "Boolean", "Byte", "Short", "Int", "Long", "UByte", "UShort", "UInt", "ULong", "Float", "Double", "Char", "String", "Array", "object", "Range", "Lambda", "class", "List"}
var kkOf = map[string]kk{"Unit": kUnit, "Boolean": kBool, "Byte": kByte, "Short": kShort, "Int": kInt, "Long": kLong, "UByte": kUByte, "UShort": kUShort, "UInt": kUInt, "ULong": kULong, "Float": kFloat, "Double": kDouble, "Char": kChar, "String": kString}
var kArrOf = map[string]kk{"BooleanArray": kBool, "ByteArray": kByte, "ShortArray": kShort, "IntArray": kInt, "LongArray": kLong, "UByteArray": kUByte, "UShortArray": kUShort, "UIntArray": kUInt, "ULongArray": kULong, "FloatArray": kFloat, "DoubleArray": kDouble, "CharArray": kChar}

// integers: i holds the value extended to 64 bits (sign or zero extension).
type kv struct {
	k   kk
	lit bool // an integer literal, which adapts to the expected type
	i   uint64
	p   any
}

type karr struct {
	k  kk // element kind of a primitive array; kObjK for Array<...>
	et *ktType
	a  []kv
}

type ktObj struct {
	c *ktClass
	f map[string]*kv
	// enum
	name string
	ord  int
}

type krange struct {
	from, to, step int64 // inclusive
	k              kk
}

type klam struct {
	fn   func(fr *frame, args []kv) kv
	fr   *frame
	recv bool
}

type ktExc struct{ typ, msg string } // a Kotlin exception
type ktTypeErr struct{ msg string }  // would not compile
type ktLamRet struct {               // return@label
	v     kv
	label string
}
type ktFnRet struct {
	fr *frame
	v  kv
}

func terr(ln int, f string, a ...any) {
	panic(ktTypeErr{fmt.Sprintf("line %d: ", ln) + fmt.Sprintf(f, a...)})
}
func throwK(t, f string, a ...any) { panic(ktExc{t, fmt.Sprintf(f, a...)}) }

func kStr(s string) kv { return kv{k: kString, p: s} }
func kBo(b bool) kv {
	if b {
		return kv{k: kBool, i: 1}
	}
	return kv{k: kBool}
}
func kI(n int64) kv      { return kv{k: kInt, i: uint64(int64(int32(n)))} }
func kF32(f float32) kv  { return kv{k: kFloat, i: uint64(math.Float32bits(f))} }
func kF64(f float64) kv  { return kv{k: kDouble, i: math.Float64bits(f)} }
func (v kv) str() string { return v.p.(string) }
func (v kv) arr() *karr  { return v.p.(*karr) }
func (v kv) f() float64 {
	switch v.k {
	case kFloat:
		return float64(math.Float32frombits(uint32(v.i)))
	case kDouble:
		return math.Float64frombits(v.i)
	case kULong, kUInt, kUShort, kUByte:
		return float64(v.i)
	}
	return float64(int64(v.i))
}
func (v kv) signed() bool { return v.k >= kByte && v.k <= kLong }
func (v kv) uns() bool    { return v.k >= kUByte && v.k <= kULong }
func (v kv) flt() bool    { return v.k == kFloat || v.k == kDouble }
func (v kv) num() bool    { return v.k >= kByte && v.k <= kDouble }

func wrapK(k kk, u uint64) kv {
	switch k {
	case kByte:
		u = uint64(int64(int8(u)))
	case kShort:
		u = uint64(int64(int16(u)))
	case kInt:
		u = uint64(int64(int32(u)))
	case kUByte:
		u &= 0xff
	case kUShort:
		u &= 0xffff
	case kUInt:
		u &= 0xffffffff
	}
	return kv{k: k, i: u}
}

func (v kv) tname() string {
	switch v.k {
	case kArr:
		for n, k := range kArrOf {
			if k == v.arr().k {
				return n
			}
		}
		return "Array<" + v.arr().et.String() + ">"
	case kObjK:
		return v.p.(*ktObj).c.name
	}
	return kkName[v.k]
}

// kCoerce checks and adapts a value where type t is expected.
func (in *ktInterp) coerce(v kv, t *ktType, ln int) kv {
	if t == nil {
		v.lit = false
		return v
	}
	if v.k == kNull {
		if !t.null && t.name != "Nothing" {
			terr(ln, "null where %s is expected", t)
		}
		return v
	}
	if k, ok := kkOf[t.name]; ok {
		if v.k == k {
			v.lit = false
			return v
		}
		if v.lit && v.num() && !v.flt() {
			n := int64(v.i)
			fits := true
			switch k {
			case kByte:
				fits = n >= -128 && n <= 127 && v.signed()
			case kShort:
				fits = n >= -32768 && n <= 32767 && v.signed()
			case kInt:
				fits = n >= math.MinInt32 && n <= math.MaxInt32 && v.signed()
			case kLong:
				fits = v.signed()
			case kUByte:
				fits = v.i <= 255 && v.uns()
			case kUShort:
				fits = v.i <= 65535 && v.uns()
			case kUInt:
				fits = v.i <= math.MaxUint32 && v.uns()
			case kULong:
				fits = v.uns()
			default:
				fits = false
			}
			if fits {
				return kv{k: k, i: v.i}
			}
		}
		terr(ln, "%s where %s is expected", v.tname(), t)
	}
	if k, ok := kArrOf[t.name]; ok {
		if v.k != kArr || v.arr().k != k {
			terr(ln, "%s where %s is expected", v.tname(), t)
		}
		return v
	}
	switch t.name {
	case "Array":
		if v.k != kArr || v.arr().k != kObjK {
			terr(ln, "%s where %s is expected", v.tname(), t)
		}
		if len(t.args) == 1 && v.arr().et != nil && t.args[0].name != "*" && (v.arr().et.name != t.args[0].name || v.arr().et.null != t.args[0].null) {
			terr(ln, "%s where %s is expected", v.tname(), t)
		}
		return v
	case "Any", "Comparable", "Number":
		v.lit = false
		return v
	}
	if c := in.byName[t.name]; c != nil && len(c) > 0 {
		ok := false
		if v.k == kObjK {
			for _, x := range c {
				ok = ok || v.p.(*ktObj).c == x
			}
		}
		if !ok {
			terr(ln, "%s where %s is expected", v.tname(), t)
		}
	}
	return v
}

type frame struct {
	s     []kv
	this  kv
	recvs []kv // receivers of lambdas, innermost last
	ret   kv
}

type ctl int

const (
	cNext ctl = iota
	cBreak
	cCont
	cRet
)

type xf func(fr *frame) kv
type sf func(fr *frame) ctl

type ktCode struct {
	run sf
	n   int
}

type ktInterp struct {
	files  []*ktFile
	byName map[string][]*ktClass
	pkgs   map[string]map[string]*ktClass
	tops   map[string][]*ktFn
	tprops map[string]*ktProp
	tvals  map[string]*kv
	steps  int64
	depth  int
}

const ktMaxSteps = 60_000_000

func (in *ktInterp) tick() {
	in.steps++
	if in.steps > ktMaxSteps {
		panic(ktExc{"Hang", "too many steps"})
	}
}

// ktLoad parses all files and resolves their declarations.
func ktLoad(srcs map[string]string) *ktInterp {
	in := &ktInterp{byName: map[string][]*ktClass{}, pkgs: map[string]map[string]*ktClass{}, tops: map[string][]*ktFn{}, tprops: map[string]*ktProp{}, tvals: map[string]*kv{}}
	var paths []string
	for p := range srcs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		f := func() *ktFile {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case ktSyntax:
						panic(ktSyntax{p + ": " + e.msg})
					case ktUnsup:
						panic(ktUnsup{p + ": " + e.msg})
					}
					panic(r)
				}
			}()
			return ktParse(p, srcs[p])
		}()
		in.files = append(in.files, f)
		if in.pkgs[f.pkg] == nil {
			in.pkgs[f.pkg] = map[string]*ktClass{}
		}
		for _, c := range f.classes {
			if in.pkgs[f.pkg][c.name] != nil {
				panic(ktSyntax{fmt.Sprintf("%s: redeclaration of %s", p, c.name)})
			}
			in.pkgs[f.pkg][c.name] = c
			in.byName[c.name] = append(in.byName[c.name], c)
		}
		for _, fn := range f.fns {
			in.tops[fn.name] = append(in.tops[fn.name], fn)
		}
		for _, pr := range f.props {
			in.tprops[pr.name] = pr
		}
	}
	// imports of packages that do not exist
	for _, f := range in.files {
		for _, im := range f.imports {
			q := strings.TrimSuffix(im, ".*")
			if strings.HasPrefix(q, "kotlin") || strings.HasPrefix(q, "java") {
				continue
			}
			if q != im {
				ok := false
				for n := range in.pkgs {
					ok = ok || n == q || strings.HasPrefix(n, q+".")
				}
				if !ok && in.classByPath(q) == nil {
					panic(ktSyntax{fmt.Sprintf("%s: unresolved import %s", f.path, im)})
				}
			} else if in.classByPath(q) == nil {
				panic(ktSyntax{fmt.Sprintf("%s: unresolved import %s", f.path, im)})
			}
		}
		for _, c := range f.classes {
			in.checkTypes(c)
		}
	}
	return in
}

func (in *ktInterp) classByPath(q string) *ktClass {
	if k := strings.LastIndexByte(q, '.'); k >= 0 {
		if m := in.pkgs[q[:k]]; m != nil {
			return m[q[k+1:]]
		}
		return nil
	}
	if m := in.pkgs[""]; m != nil {
		return m[q]
	}
	return nil
}

// resolve finds the class a simple name denotes inside class c.
func (in *ktInterp) resolve(c *ktClass, name string) *ktClass {
	for o := c; o != nil; o = o.outer {
		if o.name == name {
			return o
		}
		if n := o.nested[name]; n != nil {
			return n
		}
		if o.comp != nil && o.comp.nested[name] != nil {
			return o.comp.nested[name]
		}
	}
	if c == nil {
		return nil
	}
	for _, im := range c.imports {
		if !strings.HasSuffix(im, ".*") && strings.HasSuffix(im, "."+name) {
			if x := in.classByPath(im); x != nil {
				return x
			}
		}
	}
	if m := in.pkgs[c.pkg]; m != nil && m[name] != nil {
		return m[name]
	}
	var hit *ktClass
	for _, im := range c.imports {
		if q := strings.TrimSuffix(im, ".*"); q != im {
			if m := in.pkgs[q]; m != nil && m[name] != nil && m[name] != hit {
				if hit != nil {
					panic(ktSyntax{fmt.Sprintf("%s: %s is ambiguous", c.file, name)})
				}
				hit = m[name]
			}
		}
	}
	return hit
}

var ktStd = map[string]bool{"System": true, "Arrays": true, "Objects": true, "Math": true, "Any": true, "Nothing": true, "Unit": true, "Array": true, "List": true, "Map": true, "MutableList": true, "Comparable": true, "Number": true, "T": true, "*": true, "IntRange": true, "Set": true, "MutableMap": true, "CharSequence": true, "Charsets": true, "Exception": true, "IllegalArgumentException": true, "Pair": true, "Sequence": true, "Iterable": true, "LongRange": true, "StringBuilder": true}

func (in *ktInterp) checkType(c *ktClass, t *ktType, ln int) {
	if t == nil {
		return
	}
	for _, a := range t.args {
		in.checkType(c, a, ln)
	}
	if _, ok := kkOf[t.name]; ok || ktStd[t.name] {
		return
	}
	if _, ok := kArrOf[t.name]; ok {
		return
	}
	if in.resolve(c, t.name) == nil {
		if t.name == "" || t.name[0] < 'A' || t.name[0] > 'Z' {
			panic(ktSyntax{fmt.Sprintf("%s:%d: unresolved type %s", c.file, ln, t.name)})
		}
		if len(in.byName[t.name]) > 0 { // exists, but is not visible here
			panic(ktSyntax{fmt.Sprintf("%s:%d: type %s is not imported", c.file, ln, t.name)})
		}
		unsup("type %s", t.name)
	}
}

func (in *ktInterp) checkTypes(c *ktClass) {
	for _, p := range c.props {
		in.checkType(c, p.t, p.ln)
	}
	for _, fs := range c.fns {
		for _, f := range fs {
			in.checkType(c, f.ret, 0)
			for _, p := range f.params {
				in.checkType(c, p.t, 0)
			}
		}
	}
	if c.comp != nil {
		in.checkTypes(c.comp)
	}
	for _, n := range c.nested {
		in.checkTypes(n)
	}
}

// ---- compiling to closures ----

type fnC struct {
	in     *ktInterp
	cls    *ktClass // enclosing class
	scopes []map[string]local
	n      int
	inLam  int
	recvL  int // inside a lambda with a receiver
}

type local struct {
	slot int
	mut  bool
	t    *ktType
}

func (c *fnC) declare(name string, mut bool, t *ktType) int {
	c.scopes[len(c.scopes)-1][name] = local{c.n, mut, t}
	c.n++
	return c.n - 1
}
func (c *fnC) lookup(name string) (local, bool) {
	for i := len(c.scopes) - 1; i >= 0; i-- {
		if l, ok := c.scopes[i][name]; ok {
			return l, true
		}
	}
	return local{}, false
}
func (c *fnC) push() { c.scopes = append(c.scopes, map[string]local{}) }
func (c *fnC) pop()  { c.scopes = c.scopes[:len(c.scopes)-1] }

func (in *ktInterp) code(fn *ktFn) *ktCode {
	if fn.c != nil {
		return fn.c
	}
	c := &fnC{in: in, cls: fn.cls}
	c.push()
	for _, p := range fn.params {
		c.declare(p.name, false, p.t)
	}
	code := &ktCode{}
	if fn.expr {
		x := c.expr(fn.body)
		code.run = func(fr *frame) ctl { fr.ret = x(fr); return cRet }
	} else {
		code.run = c.block(fn.body)
	}
	code.n = c.n
	fn.c = code
	return code
}

func (in *ktInterp) call(fn *ktFn, this kv, args []kv, given []bool, ln int) (out kv) {
	in.tick()
	in.depth++
	if in.depth > 900 {
		in.depth = 0
		throwK("StackOverflowError", "")
	}
	code := in.code(fn)
	fr := &frame{s: make([]kv, code.n+1), this: this}
	for i, p := range fn.params {
		if i < len(args) && (given == nil || given[i]) {
			fr.s[i] = in.coerce(args[i], p.t, ln)
		} else if p.def != nil {
			c := &fnC{in: in, cls: fn.cls}
			c.push()
			for _, q := range fn.params {
				c.declare(q.name, false, q.t)
			}
			x := c.expr(p.def)
			sub := &frame{s: make([]kv, c.n+1), this: this}
			copy(sub.s, fr.s[:min(len(fr.s), len(sub.s))])
			fr.s[i] = in.coerce(x(sub), p.t, ln)
		} else {
			terr(ln, "no value for parameter %s of %s", p.name, fn.name)
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if fr2, ok := r.(ktFnRet); ok && fr2.fr == fr {
				in.depth--
				out = in.coerceRet(fr2.v, fn, ln)
				return
			}
			panic(r)
		}
	}()
	c := code.run(fr)
	in.depth--
	if c != cRet {
		if fn.ret != nil && fn.ret.name != "Unit" {
			terr(ln, "%s ends without a return", fn.name)
		}
		return kv{}
	}
	return in.coerceRet(fr.ret, fn, ln)
}

func (in *ktInterp) coerceRet(v kv, fn *ktFn, ln int) kv {
	if fn.ret == nil {
		v.lit = false
		return v
	}
	if fn.ret.name == "Unit" {
		if fn.expr {
			return kv{}
		}
	}
	return in.coerce(v, fn.ret, ln)
}

func (c *fnC) block(b *nd) sf {
	c.push()
	defer c.pop()
	var l []sf
	for _, s := range b.l {
		l = append(l, c.stmt(s))
	}
	if len(l) == 1 {
		return l[0]
	}
	return func(fr *frame) ctl {
		for _, s := range l {
			if r := s(fr); r != cNext {
				return r
			}
		}
		return cNext
	}
}

// blockVal: the value of a block is that of its last statement.
func (c *fnC) blockVal(b *nd) xf {
	c.push()
	defer c.pop()
	if len(b.l) == 0 {
		return func(fr *frame) kv { return kv{} }
	}
	var l []sf
	for _, s := range b.l[:len(b.l)-1] {
		l = append(l, c.stmt(s))
	}
	last := b.l[len(b.l)-1]
	var x xf
	switch last.k {
	case "local", "while", "dowhile", "for", "assign":
		s := c.stmt(last)
		x = func(fr *frame) kv { c.escape(fr, s(fr)); return kv{} }
	default:
		x = c.expr(last)
	}
	if len(l) == 0 {
		return x
	}
	return func(fr *frame) kv {
		for _, s := range l {
			c.escape(fr, s(fr))
		}
		return x(fr)
	}
}

type ktJump struct{ c ctl }

// escape leaves an expression for a jump that a statement inside it made.
func (c *fnC) escape(fr *frame, r ctl) {
	switch r {
	case cRet:
		panic(ktFnRet{fr, fr.ret})
	case cBreak, cCont:
		panic(ktJump{r})
	}
}

func (c *fnC) loopBody(b *nd) sf {
	s := c.block(b)
	if !hasJumpExpr(b) {
		return s
	}
	return func(fr *frame) (r ctl) {
		defer func() {
			if x := recover(); x != nil {
				if j, ok := x.(ktJump); ok {
					r = j.c
					return
				}
				panic(x)
			}
		}()
		return s(fr)
	}
}

// hasJumpExpr: break or continue somewhere inside an expression or a lambda.
func hasJumpExpr(b *nd) bool {
	hit := false
	var w func(n *nd, depth bool)
	w = func(n *nd, inx bool) {
		if n == nil {
			return
		}
		if (n.k == "break" || n.k == "continue") && inx {
			hit = true
		}
		if d, ok := n.d.(*nd); ok {
			w(d, inx)
		}
		switch n.k {
		case "block", "if", "while", "for", "dowhile", "branch", "when":
		default:
			inx = true
		}
		for _, x := range n.l {
			w(x, inx)
		}
	}
	w(b, false)
	return hit
}

func (c *fnC) stmt(n *nd) sf {
	in := c.in
	ln := n.ln
	switch n.k {
	case "block":
		return c.block(n)
	case "local":
		in.checkTypeIn(c, n.t, ln)
		var x xf
		if len(n.l) > 0 {
			x = c.expr(n.l[0])
		}
		t := n.t
		sl := c.declare(n.s, n.b || x == nil, t)
		if x == nil {
			return func(fr *frame) ctl { fr.s[sl] = kv{}; return cNext }
		}
		return func(fr *frame) ctl {
			v := in.coerce(x(fr), t, ln)
			fr.s[sl] = v
			return cNext
		}
	case "assign":
		return c.assign(n)
	case "while", "dowhile":
		x := c.expr(n.l[0])
		b := c.loopBody(n.l[1])
		first := n.k == "dowhile"
		if first { // the condition sees the locals of the body
			c.push()
			bl := &nd{k: "block", l: n.l[1].l}
			var l []sf
			for _, s := range bl.l {
				l = append(l, c.stmt(s))
			}
			x = c.expr(n.l[0])
			c.pop()
			b = func(fr *frame) ctl {
				for _, s := range l {
					if r := s(fr); r != cNext {
						return r
					}
				}
				return cNext
			}
		}
		return func(fr *frame) ctl {
			for {
				in.tick()
				if !first {
					if !in.truth(x(fr), ln) {
						return cNext
					}
				}
				switch b(fr) {
				case cBreak:
					return cNext
				case cRet:
					return cRet
				}
				if first && !in.truth(x(fr), ln) {
					return cNext
				}
			}
		}
	case "for":
		x := c.expr(n.l[0])
		c.push()
		sl := c.declare(n.s, false, nil)
		b := c.loopBody(n.l[1])
		c.pop()
		return func(fr *frame) ctl {
			var res ctl
			in.each(x(fr), ln, func(v kv) bool {
				in.tick()
				fr.s[sl] = v
				switch b(fr) {
				case cBreak:
					return false
				case cRet:
					res = cRet
					return false
				}
				return true
			})
			return res
		}
	case "return":
		if n.s != "" || c.inLam > 0 {
			x := c.expr(n)
			return func(fr *frame) ctl { x(fr); return cNext }
		}
		if len(n.l) == 0 {
			return func(fr *frame) ctl { fr.ret = kv{}; return cRet }
		}
		x := c.expr(n.l[0])
		return func(fr *frame) ctl { fr.ret = x(fr); return cRet }
	case "break":
		if c.inLam > 0 {
			return func(fr *frame) ctl { return cBreak }
		}
		return func(fr *frame) ctl { return cBreak }
	case "continue":
		return func(fr *frame) ctl { return cCont }
	case "if":
		x := c.expr(n.l[0])
		a := c.block(n.l[1])
		var e sf
		if len(n.l) > 2 {
			e = c.block(n.l[2])
		}
		return func(fr *frame) ctl {
			if in.truth(x(fr), ln) {
				return a(fr)
			}
			if e != nil {
				return e(fr)
			}
			return cNext
		}
	case "when":
		return c.whenStmt(n)
	case "call": // run { } as a statement: jumps pass through it
		if n.l[0].k == "name" && n.l[0].s == "run" && len(n.l) == 2 && n.l[1].k == "lambda" && c.noFn("run") {
			sv := c.inLam
			b := c.block(n.l[1].l[0])
			c.inLam = sv
			return b
		}
		if n.l[0].k == "name" && n.l[0].s == "repeat" && len(n.l) == 3 && n.l[2].k == "lambda" && c.noFn("repeat") {
			x := c.expr(n.l[1])
			c.push()
			nm := "it"
			if len(n.l[2].args) > 0 {
				nm = n.l[2].args[0]
			}
			sl := c.declare(nm, false, nil)
			b := c.block(n.l[2].l[0])
			c.pop()
			return func(fr *frame) ctl {
				m := in.coerce(x(fr), &ktType{name: "Int"}, ln)
				for i := int64(0); i < int64(m.i); i++ {
					in.tick()
					fr.s[sl] = kI(i)
					if r := b(fr); r == cRet {
						return r
					}
				}
				return cNext
			}
		}
	}
	x := c.expr(n)
	return func(fr *frame) ctl { x(fr); return cNext }
}

func (in *ktInterp) checkTypeIn(c *fnC, t *ktType, ln int) {
	if t != nil && c.cls != nil {
		in.checkType(c.cls, t, ln)
	}
}

func (c *fnC) noFn(name string) bool {
	for k := c.cls; k != nil; k = k.outer {
		if len(k.fns[name]) > 0 || k.comp != nil && len(k.comp.fns[name]) > 0 {
			return false
		}
	}
	return len(c.in.tops[name]) == 0
}

func (in *ktInterp) truth(v kv, ln int) bool {
	if v.k != kBool {
		terr(ln, "%s where Boolean is expected", v.tname())
	}
	return v.i != 0
}

func (c *fnC) whenConds(n *nd) (subj xf, conds []func(fr *frame, s kv) bool) {
	in := c.in
	if n.l[0] != nil {
		subj = c.expr(n.l[0])
	}
	for _, br := range n.l[1:] {
		var cs []func(fr *frame, s kv) bool
		for _, q := range br.l {
			q := q
			ln := br.ln
			switch q.k {
			case "weq":
				x := c.expr(q.l[0])
				if subj == nil {
					cs = append(cs, func(fr *frame, s kv) bool { return in.truth(x(fr), ln) })
				} else {
					cs = append(cs, func(fr *frame, s kv) bool { return in.eq(s, x(fr), ln) })
				}
			case "wis":
				in.checkTypeIn(c, q.t, ln)
				cs = append(cs, func(fr *frame, s kv) bool { return in.isT(c, s, q.t) != q.b })
			case "win":
				x := c.expr(q.l[0])
				cs = append(cs, func(fr *frame, s kv) bool { return in.contains(x(fr), s, ln) != q.b })
			}
		}
		els := br.b
		conds = append(conds, func(fr *frame, s kv) bool {
			if els {
				return true
			}
			for _, f := range cs {
				if f(fr, s) {
					return true
				}
			}
			return false
		})
	}
	return
}

func (c *fnC) whenStmt(n *nd) sf {
	subj, conds := c.whenConds(n)
	var bs []sf
	for _, br := range n.l[1:] {
		bs = append(bs, c.block(br.d.(*nd)))
	}
	return func(fr *frame) ctl {
		var s kv
		if subj != nil {
			s = subj(fr)
			s.lit = false
		}
		for i, f := range conds {
			if f(fr, s) {
				return bs[i](fr)
			}
		}
		return cNext
	}
}

func (c *fnC) assign(n *nd) sf {
	in, ln := c.in, n.ln
	rhs := c.expr(n.l[1])
	op := strings.TrimSuffix(n.s, "=")
	get, set := c.lvalue(n.l[0])
	if op == "" {
		return func(fr *frame) ctl { set(fr, func() kv { return rhs(fr) }, nil); return cNext }
	}
	return func(fr *frame) ctl {
		_ = get
		set(fr, nil, func(old kv) kv { return in.bin(op, old, rhs(fr), ln) })
		return cNext
	}
}

// lvalue: set evaluates the parts of the target once.
func (c *fnC) lvalue(n *nd) (xf, func(fr *frame, val func() kv, upd func(kv) kv)) {
	in, ln := c.in, n.ln
	for n.k == "paren" {
		n = n.l[0]
	}
	apply := func(old func() kv, val func() kv, upd func(kv) kv) kv {
		if val != nil {
			return val()
		}
		return upd(old())
	}
	switch n.k {
	case "name":
		if l, ok := c.lookup(n.s); ok {
			if !l.mut {
				terr(ln, "assignment to val %s", n.s)
			}
			return nil, func(fr *frame, val func() kv, upd func(kv) kv) {
				old := fr.s[l.slot]
				v := apply(func() kv { return old }, val, upd)
				if l.t != nil {
					v = in.coerce(v, l.t, ln)
				} else if old.k != kUnit && old.k != kNull {
					if kt := kkName[old.k]; old.k >= kBool && old.k <= kString {
						v = in.coerce(v, &ktType{name: kt}, ln)
					}
				}
				v.lit = false
				fr.s[l.slot] = v
			}
		}
		name := n.s
		return nil, func(fr *frame, val func() kv, upd func(kv) kv) {
			if name == "field" {
				unsup("backing field")
			}
			o, pr := c.findProp(fr, name)
			if pr == nil {
				terr(ln, "unresolved reference %s", name)
			}
			v := apply(func() kv { return in.getProp(o, pr, ln) }, val, upd)
			in.setProp(o, pr, v, ln)
		}
	case "member", "smember":
		x := c.expr(n.l[0])
		name := n.s
		return nil, func(fr *frame, val func() kv, upd func(kv) kv) {
			o := x(fr)
			if o.k == kNull {
				if n.k == "smember" {
					return
				}
				throwK("NullPointerException", "")
			}
			ob, pr := in.propOf(o, name)
			if pr == nil {
				terr(ln, "%s has no property %s", o.tname(), name)
			}
			v := apply(func() kv { return in.getProp(ob, pr, ln) }, val, upd)
			in.setProp(ob, pr, v, ln)
		}
	case "index":
		x := c.expr(n.l[0])
		ix := c.expr(n.l[1])
		return nil, func(fr *frame, val func() kv, upd func(kv) kv) {
			o := x(fr)
			i := ix(fr)
			if o.k != kArr {
				unsup("indexed assignment to %s", o.tname())
			}
			a := o.arr()
			k := in.index(a, i, ln)
			old := a.a
			v := apply(func() kv { in.bound(a, k); return old[k] }, val, upd)
			in.bound(a, k)
			a.a[k] = in.elem(a, v, ln)
		}
	}
	terr(ln, "not assignable")
	return nil, nil
}

func (in *ktInterp) elem(a *karr, v kv, ln int) kv {
	if a.k != kObjK {
		return in.coerce(v, &ktType{name: kkName[a.k]}, ln)
	}
	if a.et != nil {
		return in.coerce(v, a.et, ln)
	}
	v.lit = false
	return v
}
func (in *ktInterp) index(a *karr, i kv, ln int) int64 {
	if i.k != kInt {
		terr(ln, "index of type %s", i.tname())
	}
	return int64(i.i)
}
func (in *ktInterp) bound(a *karr, k int64) {
	if k < 0 || k >= int64(len(a.a)) {
		throwK("ArrayIndexOutOfBoundsException", "Index %d out of bounds for length %d", k, len(a.a))
	}
}

// findProp resolves a simple name to a property through the receivers.
func (c *fnC) findProp(fr *frame, name string) (kv, *ktProp) {
	for i := len(fr.recvs) - 1; i >= 0; i-- {
		if o, pr := c.in.propOf(fr.recvs[i], name); pr != nil {
			return o, pr
		}
	}
	if fr.this.k == kObjK || fr.this.k == kClassK {
		if o, pr := c.in.propOf(fr.this, name); pr != nil {
			return o, pr
		}
	}
	for k := c.cls; k != nil; k = k.outer {
		for _, cc := range []*ktClass{k, k.comp} {
			if cc != nil && cc.object {
				o := c.in.object(cc)
				if pr := cc.pidx[name]; pr != nil {
					return o, pr
				}
			}
		}
	}
	if pr := c.in.tprops[name]; pr != nil {
		return kv{}, pr
	}
	return kv{}, nil
}

func (in *ktInterp) propOf(o kv, name string) (kv, *ktProp) {
	switch o.k {
	case kObjK:
		ob := o.p.(*ktObj)
		if pr := ob.c.pidx[name]; pr != nil {
			return o, pr
		}
	case kClassK:
		c, ok := o.p.(*ktClass)
		if !ok { // a type of the standard library
			return kv{}, nil
		}
		if c.object {
			return in.object(c), c.pidx[name]
		}
		if c.comp != nil {
			if pr := c.comp.pidx[name]; pr != nil {
				return in.object(c.comp), pr
			}
		}
	}
	return kv{}, nil
}

func (in *ktInterp) getProp(o kv, pr *ktProp, ln int) kv {
	if o.k == kUnit { // top level
		if v := in.tvals[pr.name]; v != nil {
			return *v
		}
		c := &fnC{in: in}
		c.push()
		if pr.init == nil {
			if pr.get != nil {
				return in.call(pr.get, kv{}, nil, nil, ln)
			}
			terr(ln, "property %s without a value", pr.name)
		}
		x := c.expr(pr.init)
		v := in.coerce(x(&frame{s: make([]kv, c.n+1)}), pr.t, ln)
		in.tvals[pr.name] = &v
		return v
	}
	if pr.get != nil {
		return in.call(pr.get, o, nil, nil, ln)
	}
	f := o.p.(*ktObj).f[pr.name]
	if f == nil {
		terr(ln, "property %s is not initialised", pr.name)
	}
	return *f
}

func (in *ktInterp) setProp(o kv, pr *ktProp, v kv, ln int) {
	if !pr.mut {
		terr(ln, "val %s cannot be reassigned", pr.name)
	}
	if pr.set != nil {
		in.call(pr.set, o, []kv{in.coerce(v, pr.t, ln)}, nil, ln)
		return
	}
	if pr.get != nil && pr.init == nil {
		terr(ln, "property %s has no setter", pr.name)
	}
	if o.k == kUnit {
		w := in.coerce(v, pr.t, ln)
		in.tvals[pr.name] = &w
		return
	}
	ob := o.p.(*ktObj)
	t := pr.t
	if t == nil {
		if f := ob.f[pr.name]; f != nil && f.k >= kBool && f.k <= kString {
			t = &ktType{name: kkName[f.k]}
		}
	}
	w := in.coerce(v, t, ln)
	ob.f[pr.name] = &w
}

func (in *ktInterp) object(c *ktClass) kv {
	if c.self.k == kObjK {
		return c.self
	}
	c.self = kv{k: kObjK, p: &ktObj{c: c, f: map[string]*kv{}}}
	in.initObj(c, c.self, nil, nil)
	return c.self
}

func (in *ktInterp) initObj(c *ktClass, o kv, args []kv, given []bool) {
	ob := o.p.(*ktObj)
	// the primary constructor's parameters are visible to the initialisers
	cc := &fnC{in: in, cls: c}
	cc.push()
	var vals []kv
	for i, p := range c.params {
		var v kv
		if i < len(args) && (given == nil || given[i]) {
			v = in.coerce(args[i], p.t, 0)
		} else if p.def != nil {
			d := &fnC{in: in, cls: c}
			d.push()
			x := d.expr(p.def)
			v = in.coerce(x(&frame{s: make([]kv, d.n+1), this: o}), p.t, 0)
		} else {
			terr(0, "no value for parameter %s of %s", p.name, c.name)
		}
		cc.declare(p.name, false, p.t)
		vals = append(vals, v)
		if c.pprop[i] {
			w := v
			ob.f[p.name] = &w
		}
	}
	if c.initc == nil {
		c.initc = []func(fr *frame){}
		for _, e := range c.order {
			switch e := e.(type) {
			case *ktProp:
				if e.init == nil {
					if e.get == nil {
						panic(ktSyntax{fmt.Sprintf("%s:%d: property %s must be initialised", c.file, e.ln, e.name)})
					}
					continue
				}
				x := cc.expr(e.init)
				c.initc = append(c.initc, func(fr *frame) {
					v := in.coerce(x(fr), e.t, e.ln)
					fr.this.p.(*ktObj).f[e.name] = &v
				})
			case *nd:
				b := cc.block(e)
				c.initc = append(c.initc, func(fr *frame) { b(fr) })
			}
		}
		c.initn = cc.n
	}
	fr := &frame{s: make([]kv, max(c.initn, len(vals))+1), this: o}
	copy(fr.s, vals)
	for _, f := range c.initc {
		f(fr)
	}
}

func (in *ktInterp) construct(c *ktClass, args []kv, given []bool, ln int) kv {
	in.tick()
	if c.enum || c.object {
		terr(ln, "%s cannot be constructed", c.name)
	}
	if len(args) > len(c.params) {
		terr(ln, "too many arguments for %s", c.name)
	}
	o := kv{k: kObjK, p: &ktObj{c: c, f: map[string]*kv{}}}
	in.initObj(c, o, args, given)
	return o
}

func (in *ktInterp) entries(c *ktClass) []*ktObj {
	var out []*ktObj
	for i, e := range c.entries {
		if e.obj == nil {
			e.obj = &ktObj{c: c, f: map[string]*kv{}, name: e.name, ord: i}
			cc := &fnC{in: in, cls: c}
			cc.push()
			var args []kv
			for _, a := range e.args {
				x := cc.expr(a)
				args = append(args, x(&frame{s: make([]kv, cc.n+1)}))
			}
			in.initObj(c, kv{k: kObjK, p: e.obj}, args, nil)
		}
		out = append(out, e.obj)
	}
	return out
}

func (c *fnC) expr(n *nd) xf {
	in, ln := c.in, n.ln
	switch n.k {
	case "lit":
		v := n.v
		return func(*frame) kv { return v }
	case "paren":
		return c.expr(n.l[0])
	case "tpl":
		var l []xf
		for _, p := range n.l {
			l = append(l, c.expr(p))
		}
		return func(fr *frame) kv {
			s := ""
			for _, x := range l {
				s += in.toStr(x(fr))
			}
			return kStr(s)
		}
	case "this":
		return func(fr *frame) kv {
			if len(fr.recvs) > 0 && n.s == "" {
				return fr.recvs[len(fr.recvs)-1]
			}
			if fr.this.k == kUnit {
				terr(ln, "this outside a class")
			}
			return fr.this
		}
	case "name":
		if l, ok := c.lookup(n.s); ok {
			sl := l.slot
			return func(fr *frame) kv { return fr.s[sl] }
		}
		name := n.s
		return func(fr *frame) kv {
			if o, pr := c.findProp(fr, name); pr != nil {
				return in.getProp(o, pr, ln)
			}
			for i := len(fr.recvs) - 1; i >= 0; i-- {
				if v, ok := in.builtinProp(fr.recvs[i], name); ok {
					return v
				}
			}
			for k := c.cls; k != nil; k = k.outer {
				if k.enum {
					for _, e := range in.entries(k) {
						if e.name == name {
							return kv{k: kObjK, p: e}
						}
					}
					if v, ok := in.enumStatic(k, name); ok {
						return v
					}
				}
			}
			if x := in.resolve(c.cls, name); x != nil {
				return kv{k: kClassK, p: x}
			}
			if _, ok := kkOf[name]; ok {
				return kv{k: kClassK, p: name}
			}
			if _, ok := kArrOf[name]; ok || ktStd[name] {
				return kv{k: kClassK, p: name}
			}
			if fr.this.k == kObjK {
				if v, ok := in.builtinProp(fr.this, name); ok {
					return v
				}
			}
			if len(in.byName[name]) > 0 {
				terr(ln, "unresolved reference %s", name)
			}
			if strings.ToLower(name[:1]) == name[:1] && len(in.tprops) == 0 {
				switch name {
				case "com", "org", "kotlin", "java", "field":
					unsup("name %s", name)
				}
				for p := range in.pkgs {
					if p == name || strings.HasPrefix(p, name+".") {
						return kv{k: kClassK, p: "package " + name}
					}
				}
				terr(ln, "unresolved reference %s", name)
			}
			unsup("name %s", name)
			return kv{}
		}
	case "member", "smember":
		x := c.expr(n.l[0])
		name := n.s
		return func(fr *frame) kv {
			o := x(fr)
			if o.k == kNull {
				if n.k == "smember" {
					return o
				}
				terr(ln, "member %s of a nullable value that is null", name)
			}
			return in.member(o, name, ln)
		}
	case "nn":
		x := c.expr(n.l[0])
		return func(fr *frame) kv {
			v := x(fr)
			if v.k == kNull {
				throwK("NullPointerException", "")
			}
			return v
		}
	case "index":
		x, ix := c.expr(n.l[0]), c.expr(n.l[1])
		if len(n.l) > 2 {
			unsup("index with several arguments")
		}
		return func(fr *frame) kv {
			o := x(fr)
			i := ix(fr)
			switch o.k {
			case kArr, kList:
				a := o.arr()
				k := in.index(a, i, ln)
				in.bound(a, k)
				return a.a[k]
			case kString:
				u := utf16.Encode([]rune(o.str()))
				if int64(i.i) < 0 || int64(i.i) >= int64(len(u)) {
					throwK("StringIndexOutOfBoundsException", "%d", int64(i.i))
				}
				return kv{k: kChar, i: uint64(u[i.i])}
			}
			terr(ln, "[] on %s", o.tname())
			return kv{}
		}
	case "bin":
		return c.binary(n)
	case "infix":
		a, b := c.expr(n.l[0]), c.expr(n.l[1])
		op := n.s
		return func(fr *frame) kv {
			x := a(fr)
			return in.callM(fr, x, op, []kv{b(fr)}, nil, ln, c)
		}
	case "un":
		if n.s == "++" || n.s == "--" {
			_, set := c.lvalue(n.l[0])
			x := c.expr(n.l[0])
			d := n.s[:1]
			return func(fr *frame) kv {
				set(fr, nil, func(old kv) kv { return in.incdec(old, d, ln) })
				return x(fr)
			}
		}
		x := c.expr(n.l[0])
		op := n.s
		return func(fr *frame) kv {
			v := x(fr)
			switch op {
			case "!":
				if v.k != kBool {
					terr(ln, "! on %s", v.tname())
				}
				return kBo(v.i == 0)
			case "-":
				switch v.k {
				case kByte, kShort, kInt:
					r := wrapK(kInt, -v.i)
					r.lit = v.lit
					return r
				case kLong:
					r := kv{k: kLong, i: -v.i, lit: v.lit}
					return r
				case kFloat:
					return kF32(-math.Float32frombits(uint32(v.i)))
				case kDouble:
					return kF64(-v.f())
				}
				terr(ln, "unary - on %s", v.tname())
			case "+":
				if v.k == kByte || v.k == kShort {
					return wrapK(kInt, v.i)
				}
				if v.uns() {
					terr(ln, "unary + on %s", v.tname())
				}
				return v
			}
			return v
		}
	case "post":
		_, set := c.lvalue(n.l[0])
		d := n.s[:1]
		return func(fr *frame) kv {
			var o kv
			set(fr, nil, func(old kv) kv { o = old; return in.incdec(old, d, ln) })
			return o
		}
	case "if":
		x := c.expr(n.l[0])
		a := c.blockVal(n.l[1])
		var e xf
		if len(n.l) > 2 {
			e = c.blockVal(n.l[2])
		}
		return func(fr *frame) kv {
			if in.truth(x(fr), ln) {
				return a(fr)
			}
			if e != nil {
				return e(fr)
			}
			return kv{}
		}
	case "when":
		subj, conds := c.whenConds(n)
		var bs []xf
		for _, br := range n.l[1:] {
			bs = append(bs, c.blockVal(br.d.(*nd)))
		}
		return func(fr *frame) kv {
			var s kv
			if subj != nil {
				s = subj(fr)
				s.lit = false
			}
			for i, f := range conds {
				if f(fr, s) {
					return bs[i](fr)
				}
			}
			return kv{}
		}
	case "block":
		return c.blockVal(n)
	case "is":
		x := c.expr(n.l[0])
		in.checkTypeIn(c, n.t, ln)
		return func(fr *frame) kv { return kBo(in.isT(c, x(fr), n.t) != n.b) }
	case "as":
		x := c.expr(n.l[0])
		in.checkTypeIn(c, n.t, ln)
		return func(fr *frame) kv {
			v := x(fr)
			if !in.isT(c, v, n.t) {
				if n.b {
					return kv{k: kNull}
				}
				throwK("ClassCastException", "%s to %s", v.tname(), n.t)
			}
			return v
		}
	case "in":
		x, r := c.expr(n.l[0]), c.expr(n.l[1])
		return func(fr *frame) kv { v := x(fr); return kBo(in.contains(r(fr), v, ln) != n.b) }
	case "throw":
		x := c.expr(n.l[0])
		return func(fr *frame) kv {
			v := x(fr)
			throwK("Exception", "%s", in.toStr(v))
			return kv{}
		}
	case "return":
		var x xf
		if len(n.l) > 0 {
			x = c.expr(n.l[0])
		}
		return func(fr *frame) kv {
			v := kv{}
			if x != nil {
				v = x(fr)
			}
			if n.s != "" {
				panic(ktLamRet{v, n.s})
			}
			panic(ktFnRet{fr, v})
		}
	case "break":
		return func(fr *frame) kv { panic(ktJump{cBreak}) }
	case "continue":
		return func(fr *frame) kv { panic(ktJump{cCont}) }
	case "lambda":
		return c.lambda(n)
	case "call":
		return c.call(n)
	case "local", "while", "dowhile", "for", "assign":
		s := c.stmt(n)
		return func(fr *frame) kv { c.escape(fr, s(fr)); return kv{} }
	}
	unsup("expression %s", n.k)
	return nil
}

func (in *ktInterp) incdec(v kv, d string, ln int) kv {
	one := kv{k: v.k, i: 1}
	switch {
	case v.signed() || v.uns():
		if d == "+" {
			return wrapK(v.k, v.i+one.i)
		}
		return wrapK(v.k, v.i-one.i)
	}
	terr(ln, "%s%s on %s", d, d, v.tname())
	return kv{}
}

func (c *fnC) lambda(n *nd) xf {
	c.push()
	names := n.args
	if n.b {
		names = []string{"it"}
	}
	var slots []int
	for _, a := range names {
		slots = append(slots, c.declare(a, false, nil))
	}
	c.inLam++
	b := c.blockVal(n.l[0])
	c.inLam--
	c.pop()
	return func(fr *frame) kv {
		return kv{k: kLambda, p: &klam{fr: fr, fn: func(fr *frame, args []kv) (out kv) {
			c.in.tick()
			for i, s := range slots {
				if i < len(args) {
					v := args[i]
					v.lit = false
					fr.s[s] = v
				}
			}
			nr := len(fr.recvs)
			defer func() {
				fr.recvs = fr.recvs[:min(nr, len(fr.recvs))]
				if r := recover(); r != nil {
					if lr, ok := r.(ktLamRet); ok {
						out = lr.v
						return
					}
					panic(r)
				}
			}()
			return b(fr)
		}}}
	}
}

func (l *klam) call(args ...kv) kv { return l.fn(l.fr, args) }
func (l *klam) with(recv kv, args ...kv) kv {
	l.fr.recvs = append(l.fr.recvs, recv)
	n := len(l.fr.recvs)
	defer func() {
		if len(l.fr.recvs) >= n {
			l.fr.recvs = l.fr.recvs[:n-1]
		}
	}()
	b := l.fn
	return func() kv {
		return b(l.fr, args)
	}()
}

func (c *fnC) binary(n *nd) xf {
	in, ln := c.in, n.ln
	a, b := c.expr(n.l[0]), c.expr(n.l[1])
	op := n.s
	switch op {
	case "&&":
		return func(fr *frame) kv {
			if !in.truth(a(fr), ln) {
				return kBo(false)
			}
			return kBo(in.truth(b(fr), ln))
		}
	case "||":
		return func(fr *frame) kv {
			if in.truth(a(fr), ln) {
				return kBo(true)
			}
			return kBo(in.truth(b(fr), ln))
		}
	case "?:":
		return func(fr *frame) kv {
			if v := a(fr); v.k != kNull {
				return v
			}
			return b(fr)
		}
	case "==":
		return func(fr *frame) kv { x := a(fr); return kBo(in.eq(x, b(fr), ln)) }
	case "!=":
		return func(fr *frame) kv { x := a(fr); return kBo(!in.eq(x, b(fr), ln)) }
	case "===", "!==":
		return func(fr *frame) kv {
			x := a(fr)
			y := b(fr)
			same := x.k == y.k
			if same {
				switch x.k {
				case kObjK, kArr, kList:
					same = x.p == y.p
				case kNull:
				case kString:
					same = x.str() == y.str()
				default:
					same = x.i == y.i
				}
			}
			return kBo(same == (op == "==="))
		}
	case "<", ">", "<=", ">=":
		return func(fr *frame) kv {
			x := a(fr)
			y := b(fr)
			k, unord := in.cmp(x, y, ln)
			if unord {
				return kBo(false)
			}
			switch op {
			case "<":
				return kBo(k < 0)
			case ">":
				return kBo(k > 0)
			case "<=":
				return kBo(k <= 0)
			}
			return kBo(k >= 0)
		}
	}
	return func(fr *frame) kv { x := a(fr); return in.bin(op, x, b(fr), ln) }
}

// cmp compares; unord is set for NaN.
func (in *ktInterp) cmp(a, b kv, ln int) (int, bool) {
	c := func(l, g bool) (int, bool) {
		if l {
			return -1, false
		}
		if g {
			return 1, false
		}
		return 0, false
	}
	switch {
	case a.signed() && b.signed():
		return c(int64(a.i) < int64(b.i), int64(a.i) > int64(b.i))
	case a.uns() && b.uns():
		return c(a.i < b.i, a.i > b.i)
	case a.num() && b.num() && !a.uns() && !b.uns():
		x, y := a.f(), b.f()
		if x != x || y != y {
			return 0, true
		}
		return c(x < y, x > y)
	case a.k == kChar && b.k == kChar:
		return c(a.i < b.i, a.i > b.i)
	case a.k == kString && b.k == kString:
		return c(a.str() < b.str(), a.str() > b.str())
	case a.k == kBool && b.k == kBool:
		return c(a.i < b.i, a.i > b.i)
	case a.k == kObjK && b.k == kObjK && a.p.(*ktObj).c.enum:
		x, y := a.p.(*ktObj).ord, b.p.(*ktObj).ord
		return c(x < y, x > y)
	}
	terr(ln, "comparison of %s and %s", a.tname(), b.tname())
	return 0, false
}

// eq is Kotlin's == on statically known types.
func (in *ktInterp) eq(a, b kv, ln int) bool {
	if a.k == kNull || b.k == kNull {
		return a.k == b.k
	}
	if a.k != b.k {
		if a.num() && b.num() || a.k < kString && b.k < kString {
			terr(ln, "== between %s and %s", a.tname(), b.tname())
		}
		return false
	}
	switch a.k {
	case kFloat, kDouble:
		return a.f() == b.f()
	case kString:
		return a.str() == b.str()
	case kArr, kLambda:
		return a.p == b.p
	case kObjK:
		return in.equals(a, b, ln)
	case kList:
		return in.deepEq(a, b, ln)
	case kClassK:
		x, ok1 := a.p.(*ktClass)
		y, ok2 := b.p.(*ktClass)
		if ok1 && ok2 {
			return x == y
		}
		s, ok1 := a.p.(string)
		t, ok2 := b.p.(string)
		if ok1 && ok2 {
			return s == t
		}
		return false
	case kRange:
		unsup("== on %s", a.tname())
	}
	return a.i == b.i
}

// equals is the method, total for floats.
func (in *ktInterp) equals(a, b kv, ln int) bool {
	if a.k == kNull || b.k == kNull {
		return a.k == b.k
	}
	if a.k == kObjK {
		o := a.p.(*ktObj)
		if !o.c.enum {
			if fs := o.c.fns["equals"]; len(fs) > 0 {
				return in.truth(in.call(fs[0], a, []kv{b}, nil, ln), ln)
			}
			if o.c.data {
				unsup("data class equality")
			}
		}
		return a.p == b.p
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case kFloat, kDouble:
		x, y := a.f(), b.f()
		if x != x && y != y {
			return true
		}
		return a.i == b.i
	}
	return in.eq(a, b, ln)
}

func (in *ktInterp) deepEq(a, b kv, ln int) bool {
	x, y := a.arr(), b.arr()
	if x.k != y.k || len(x.a) != len(y.a) {
		return false
	}
	for i := range x.a {
		if x.a[i].k == kArr && y.a[i].k == kArr {
			if !in.deepEq(x.a[i], y.a[i], ln) {
				return false
			}
		} else if !in.equals(x.a[i], y.a[i], ln) {
			return false
		}
	}
	return true
}

func (in *ktInterp) hash(v kv, deep bool, ln int) int32 {
	switch v.k {
	case kNull:
		return 0
	case kBool:
		if v.i != 0 {
			return 1231
		}
		return 1237
	case kByte, kShort, kInt, kUByte, kUShort, kUInt, kChar:
		switch v.k {
		case kUByte:
			return int32(int8(v.i))
		case kUShort:
			return int32(int16(v.i))
		}
		return int32(v.i)
	case kLong, kULong:
		return int32(v.i ^ v.i>>32)
	case kFloat:
		if f := v.f(); f != f {
			return 0x7fc00000
		}
		return int32(v.i)
	case kDouble:
		if f := v.f(); f != f {
			return 0x7ff80000
		}
		return int32(v.i ^ v.i>>32)
	case kString:
		h := int32(0)
		for _, u := range utf16.Encode([]rune(v.str())) {
			h = 31*h + int32(u)
		}
		return h
	case kArr:
		if deep {
			h := int32(1)
			for _, e := range v.arr().a {
				h = 31*h + in.hash(e, true, ln)
			}
			return h
		}
		return in.identity(v)
	case kObjK:
		o := v.p.(*ktObj)
		if fs := o.c.fns["hashCode"]; len(fs) > 0 && !o.c.enum {
			return int32(in.call(fs[0], v, nil, nil, ln).i)
		}
		if o.c.data {
			unsup("data class hash")
		}
		return in.identity(v)
	}
	unsup("hash of %s", v.tname())
	return 0
}

func (in *ktInterp) identity(v kv) int32 {
	var s string
	fmt.Sscan(fmt.Sprintf("%p", v.p), &s)
	u, _ := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	return int32(u>>4) & 0x7fffffff
}

func (in *ktInterp) isT(c *fnC, v kv, t *ktType) bool {
	if v.k == kNull {
		return t.null
	}
	if k, ok := kkOf[t.name]; ok {
		return v.k == k
	}
	if k, ok := kArrOf[t.name]; ok {
		return v.k == kArr && v.arr().k == k
	}
	if t.name == "Any" {
		return true
	}
	if t.name == "Array" {
		return v.k == kArr && v.arr().k == kObjK
	}
	if x := in.resolve(c.cls, t.name); x != nil {
		return v.k == kObjK && v.p.(*ktObj).c == x
	}
	unsup("is %s", t)
	return false
}

func (in *ktInterp) contains(r, v kv, ln int) bool {
	switch r.k {
	case kRange:
		g := r.p.(*krange)
		n := int64(v.i)
		if !v.signed() && !v.uns() && v.k != kChar {
			terr(ln, "in on %s", v.tname())
		}
		return n >= g.from && n <= g.to && (n-g.from)%g.step == 0
	case kArr, kList:
		for _, e := range r.arr().a {
			if in.equals(e, v, ln) {
				return true
			}
		}
		return false
	}
	unsup("in %s", r.tname())
	return false
}

func (in *ktInterp) each(v kv, ln int, f func(kv) bool) {
	switch v.k {
	case kRange:
		g := v.p.(*krange)
		if g.step > 0 {
			for i := g.from; i <= g.to; i += g.step {
				if !f(kv{k: g.k, i: uint64(i)}) || i > math.MaxInt64-g.step {
					return
				}
			}
		} else {
			for i := g.from; i >= g.to; i += g.step {
				if !f(kv{k: g.k, i: uint64(i)}) {
					return
				}
			}
		}
	case kArr, kList:
		for _, e := range v.arr().a {
			if !f(e) {
				return
			}
		}
	case kString:
		for _, u := range utf16.Encode([]rune(v.str())) {
			if !f(kv{k: kChar, i: uint64(u)}) {
				return
			}
		}
	default:
		terr(ln, "for over %s", v.tname())
	}
}

func (in *ktInterp) bin(op string, a, b kv, ln int) kv {
	if op == ".." || op == "..<" {
		if !a.signed() || !b.signed() {
			if a.uns() && b.uns() {
				unsup("unsigned range")
			}
			terr(ln, "range of %s and %s", a.tname(), b.tname())
		}
		k := kInt
		if a.k == kLong || b.k == kLong {
			k = kLong
		}
		g := &krange{int64(a.i), int64(b.i), 1, k}
		if op == "..<" {
			g.to--
		}
		return kv{k: kRange, p: g}
	}
	if op == "+" && a.k == kString {
		return kStr(a.str() + in.toStr(b))
	}
	if a.k == kChar {
		unsup("arithmetic on Char")
	}
	if (a.k == kArr || a.k == kList) && op == "+" {
		unsup("array concatenation")
	}
	lit := a.lit && b.lit
	switch {
	case a.signed() && b.signed():
		k := kInt
		if a.k == kLong || b.k == kLong {
			k = kLong
		}
		x, y := int64(a.i), int64(b.i)
		var r int64
		switch op {
		case "+":
			r = x + y
		case "-":
			r = x - y
		case "*":
			r = x * y
		case "/", "%":
			if y == 0 {
				throwK("ArithmeticException", "/ by zero")
			}
			if y == -1 {
				if op == "/" {
					r = -x
				}
			} else if op == "/" {
				r = x / y
			} else {
				r = x % y
			}
		}
		w := wrapK(k, uint64(r))
		w.lit = lit
		return w
	case a.uns() && b.uns():
		k := kUInt
		if a.k == kULong || b.k == kULong {
			k = kULong
		}
		x, y := a.i, b.i
		var r uint64
		switch op {
		case "+":
			r = x + y
		case "-":
			r = x - y
		case "*":
			r = x * y
		case "/", "%":
			if y == 0 {
				throwK("ArithmeticException", "/ by zero")
			}
			if op == "/" {
				r = x / y
			} else {
				r = x % y
			}
		}
		w := wrapK(k, r)
		w.lit = lit
		return w
	case a.num() && b.num() && !a.uns() && !b.uns():
		x, y := a.f(), b.f()
		dbl := a.k == kDouble || b.k == kDouble
		if !dbl { // Long to Float rounds once
			x, y = float64(toF32(a)), float64(toF32(b))
		}
		var r float64
		switch op {
		case "+":
			r = x + y
		case "-":
			r = x - y
		case "*":
			r = x * y
		case "/":
			r = x / y
		case "%":
			r = math.Mod(x, y)
		}
		if dbl {
			return kF64(r)
		}
		return kF32(float32(r))
	}
	terr(ln, "%s between %s and %s", op, a.tname(), b.tname())
	return kv{}
}

func toF32(v kv) float32 {
	switch {
	case v.k == kFloat:
		return math.Float32frombits(uint32(v.i))
	case v.k == kDouble:
		return float32(v.f())
	case v.uns():
		return float32(v.i)
	}
	return float32(int64(v.i))
}

func (in *ktInterp) toStr(v kv) string {
	switch v.k {
	case kString:
		return v.str()
	case kNull:
		return "null"
	case kBool:
		return fmt.Sprint(v.i != 0)
	case kUByte, kUShort, kUInt, kULong:
		return fmt.Sprint(v.i)
	case kByte, kShort, kInt, kLong:
		return fmt.Sprint(int64(v.i))
	case kChar:
		return string(rune(v.i))
	case kUnit:
		return "kotlin.Unit"
	case kObjK:
		o := v.p.(*ktObj)
		if o.c.enum {
			return o.name
		}
		if fs := o.c.fns["toString"]; len(fs) > 0 {
			return in.call(fs[0], v, nil, nil, 0).str()
		}
		return o.c.name
	}
	unsup("string of %s", v.tname())
	return ""
}

func (in *ktInterp) enumStatic(c *ktClass, name string) (kv, bool) {
	if name == "entries" {
		l := &karr{k: kObjK}
		for _, e := range in.entries(c) {
			l.a = append(l.a, kv{k: kObjK, p: e})
		}
		return kv{k: kList, p: l}, true
	}
	return kv{}, false
}

func (in *ktInterp) member(o kv, name string, ln int) kv {
	if ob, pr := in.propOf(o, name); pr != nil {
		return in.getProp(ob, pr, ln)
	}
	if v, ok := in.builtinProp(o, name); ok {
		return v
	}
	switch o.k {
	case kClassK:
		if s, ok := o.p.(string); ok {
			if strings.HasPrefix(s, "package ") {
				q := strings.TrimPrefix(s, "package ")
				if c := in.classByPath(q + "." + name); c != nil {
					return kv{k: kClassK, p: c}
				}
				return kv{k: kClassK, p: s + "." + name}
			}
			if s == "Charsets" && name == "UTF_8" {
				return kv{k: kClassK, p: name}
			}
			unsup("%s.%s", s, name)
		}
	case kObjK:
		terr(ln, "%s has no member %s", o.tname(), name)
	}
	unsup("member %s of %s", name, o.tname())
	return kv{}
}

func (in *ktInterp) builtinProp(o kv, name string) (kv, bool) {
	if name == "javaClass" {
		if o.k == kClassK {
			return o, true
		}
		if o.k == kObjK {
			if ob, ok := o.p.(*ktObj); ok {
				return kv{k: kClassK, p: ob.c}, true
			}
		}
		return kv{k: kClassK, p: o.tname()}, true
	}
	switch o.k {
	case kArr, kList:
		n := int64(len(o.arr().a))
		switch name {
		case "size":
			return kI(n), true
		case "indices":
			return kv{k: kRange, p: &krange{0, n - 1, 1, kInt}}, true
		case "lastIndex":
			return kI(n - 1), true
		}
	case kString:
		if name == "length" {
			return kI(int64(len(utf16.Encode([]rune(o.str()))))), true
		}
	case kObjK:
		ob := o.p.(*ktObj)
		if ob.c.enum {
			switch name {
			case "name":
				return kStr(ob.name), true
			case "ordinal":
				return kI(int64(ob.ord)), true
			}
		}
	case kChar:
		if name == "code" {
			return kI(int64(o.i)), true
		}
	case kRange:
		g := o.p.(*krange)
		switch name {
		case "first":
			return kv{k: g.k, i: uint64(g.from)}, true
		case "last":
			return kv{k: g.k, i: uint64(g.to)}, true
		}
	case kClassK:
		switch c := o.p.(type) {
		case *ktClass:
			if c.enum {
				for _, e := range in.entries(c) {
					if e.name == name {
						return kv{k: kObjK, p: e}, true
					}
				}
				if v, ok := in.enumStatic(c, name); ok {
					return v, true
				}
			}
			if n := c.nested[name]; n != nil {
				if n.object {
					return in.object(n), true
				}
				return kv{k: kClassK, p: n}, true
			}
			if c.comp != nil && name == c.comp.name {
				return in.object(c.comp), true
			}
		case string:
			k, ok := kkOf[c]
			if !ok {
				break
			}
			w := map[kk]int{kByte: 8, kShort: 16, kInt: 32, kLong: 64, kUByte: 8, kUShort: 16, kUInt: 32, kULong: 64}[k]
			switch {
			case w > 0 && name == "SIZE_BITS":
				return kI(int64(w)), true
			case w > 0 && name == "SIZE_BYTES":
				return kI(int64(w / 8)), true
			case w > 0 && name == "MAX_VALUE":
				if k >= kUByte {
					return kv{k: k, i: mask(w)}, true
				}
				return kv{k: k, i: mask(w - 1)}, true
			case w > 0 && name == "MIN_VALUE":
				if k >= kUByte {
					return kv{k: k}, true
				}
				return wrapK(k, 1<<uint(w-1)), true
			case k == kFloat && name == "NaN":
				return kF32(math.Float32frombits(0x7fc00000)), true
			case k == kDouble && name == "NaN":
				return kF64(math.Float64frombits(0x7ff8000000000000)), true
			case k == kFloat && name == "POSITIVE_INFINITY":
				return kF32(float32(math.Inf(1))), true
			case k == kFloat && name == "NEGATIVE_INFINITY":
				return kF32(float32(math.Inf(-1))), true
			case k == kDouble && name == "POSITIVE_INFINITY":
				return kF64(math.Inf(1)), true
			case k == kDouble && name == "NEGATIVE_INFINITY":
				return kF64(math.Inf(-1)), true
			}
		}
	}
	return kv{}, false
}

// ---- calls ----

func (c *fnC) call(n *nd) xf {
	in, ln := c.in, n.ln
	var args []xf
	for _, a := range n.l[1:] {
		args = append(args, c.expr(a))
	}
	names := n.args
	named := false
	for _, s := range names {
		named = named || s != ""
	}
	eval := func(fr *frame) []kv {
		out := make([]kv, len(args))
		for i, a := range args {
			out[i] = a(fr)
		}
		return out
	}
	callee := n.l[0]
	targ := callee.t
	// sort arranges named arguments for a declared function
	arrange := func(ps []ktParam, a []kv) ([]kv, []bool) {
		if !named {
			if len(a) > len(ps) {
				terr(ln, "too many arguments")
			}
			return a, nil
		}
		out, given := make([]kv, len(ps)), make([]bool, len(ps))
		for i, v := range a {
			k := i
			if names[i] != "" {
				k = -1
				for j, p := range ps {
					if p.name == names[i] {
						k = j
					}
				}
			}
			if k < 0 || k >= len(ps) {
				terr(ln, "no parameter %s", names[i])
			}
			out[k], given[k] = v, true
		}
		return out, given
	}
	pickFn := func(fs []*ktFn, a []kv) *ktFn { return in.overload(fs, a, named) }
	switch callee.k {
	case "name":
		name := callee.s
		if l, ok := c.lookup(name); ok {
			return func(fr *frame) kv {
				f := fr.s[l.slot]
				if f.k != kLambda {
					terr(ln, "%s is not a function", name)
				}
				return f.p.(*klam).call(eval(fr)...)
			}
		}
		return func(fr *frame) kv {
			// members of receivers, of this, of companions, then top level
			for i := len(fr.recvs) - 1; i >= 0; i-- {
				r := fr.recvs[i]
				if r.k == kObjK {
					if fs := r.p.(*ktObj).c.fns[name]; len(fs) > 0 {
						a := eval(fr)
						fn := pickFn(fs, a)
						b, g := arrange(fn.params, a)
						return in.call(fn, r, b, g, ln)
					}
				}
			}
			if fr.this.k == kObjK {
				o := fr.this.p.(*ktObj)
				if fs := o.c.fns[name]; len(fs) > 0 {
					a := eval(fr)
					if fn := pickFn(fs, a); fn != nil {
						b, g := arrange(fn.params, a)
						return in.call(fn, fr.this, b, g, ln)
					}
				}
			}
			for k := c.cls; k != nil; k = k.outer {
				for _, cc := range []*ktClass{k, k.comp} {
					if cc != nil && cc.object {
						if fs := cc.fns[name]; len(fs) > 0 {
							a := eval(fr)
							if fn := pickFn(fs, a); fn != nil {
								b, g := arrange(fn.params, a)
								return in.call(fn, in.object(cc), b, g, ln)
							}
						}
					}
				}
			}
			if x := in.resolve(c.cls, name); x != nil {
				a := eval(fr)
				b, g := arrange(x.params, a)
				return in.construct(x, b, g, ln)
			}
			if fs := in.tops[name]; len(fs) > 0 {
				a := eval(fr)
				if fn := pickFn(fs, a); fn != nil && fn.recv == nil {
					b, g := arrange(fn.params, a)
					return in.call(fn, kv{}, b, g, ln)
				}
			}
			if len(fr.recvs) > 0 {
				if v, ok := in.builtinM(fr.recvs[len(fr.recvs)-1], name, eval(fr), ln); ok {
					return v
				}
			}
			if fr.this.k == kObjK {
				switch name {
				case "hashCode", "equals", "toString":
					return in.callM(fr, fr.this, name, eval(fr), names, ln, c)
				}
			}
			for k := c.cls; k != nil; k = k.outer {
				if k.enum && (name == "values" || name == "valueOf") {
					return in.callM(fr, kv{k: kClassK, p: k}, name, eval(fr), nil, ln, c)
				}
			}
			return in.builtinF(c, fr, name, targ, eval(fr), names, ln)
		}
	case "member", "smember":
		if callee.l[0].k == "super" {
			unsup("super call")
		}
		x := c.expr(callee.l[0])
		name := callee.s
		safe := callee.k == "smember"
		return func(fr *frame) kv {
			o := x(fr)
			if o.k == kNull {
				if safe {
					return o
				}
				if name != "toString" && name != "hashCode" && name != "equals" && name != "let" && name != "also" {
					throwK("NullPointerException", "call of %s", name)
				}
			}
			return in.callM(fr, o, name, eval(fr), names, ln, c)
		}
	}
	x := c.expr(callee)
	return func(fr *frame) kv {
		f := x(fr)
		if f.k != kLambda {
			terr(ln, "%s is not callable", f.tname())
		}
		return f.p.(*klam).call(eval(fr)...)
	}
}

func (in *ktInterp) overload(fs []*ktFn, a []kv, named bool) *ktFn {
	if len(fs) == 1 || named {
		return fs[0]
	}
	var best *ktFn
	score := -1
	for _, f := range fs {
		if len(a) > len(f.params) {
			continue
		}
		s, ok := 0, true
		for i, p := range f.params {
			if i >= len(a) {
				if p.def == nil {
					ok = false
				}
				s--
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(ktTypeErr); !is {
							panic(r)
						}
						ok = false
					}
				}()
				in.coerce(a[i], p.t, 0)
			}()
			s += 2
		}
		if ok && (best == nil || s > score) {
			best, score = f, s
		}
	}
	if best == nil {
		return fs[0]
	}
	return best
}

func (in *ktInterp) callM(fr *frame, o kv, name string, a []kv, names []string, ln int, c *fnC) kv {
	named := false
	for _, s := range names {
		named = named || s != ""
	}
	try := func(cls *ktClass, self kv) (kv, bool) {
		fs := cls.fns[name]
		if len(fs) == 0 {
			return kv{}, false
		}
		fn := in.overload(fs, a, named)
		args, given := a, []bool(nil)
		if named {
			args, given = make([]kv, len(fn.params)), make([]bool, len(fn.params))
			for i, v := range a {
				k := i
				if names[i] != "" {
					k = -1
					for j, p := range fn.params {
						if p.name == names[i] {
							k = j
						}
					}
				}
				if k < 0 || k >= len(args) {
					terr(ln, "no parameter %s", names[i])
				}
				args[k], given[k] = v, true
			}
		} else if len(a) > len(fn.params) {
			terr(ln, "too many arguments for %s", name)
		}
		return in.call(fn, self, args, given, ln), true
	}
	switch o.k {
	case kObjK:
		ob := o.p.(*ktObj)
		if v, ok := try(ob.c, o); ok {
			return v
		}
		if pr := ob.c.pidx[name]; pr != nil {
			if f := in.getProp(o, pr, ln); f.k == kLambda {
				return f.p.(*klam).call(a...)
			}
		}
	case kClassK:
		if cl, ok := o.p.(*ktClass); ok {
			if cl.object {
				if v, ok := try(cl, in.object(cl)); ok {
					return v
				}
			}
			if cl.comp != nil {
				if v, ok := try(cl.comp, in.object(cl.comp)); ok {
					return v
				}
			}
			if n := cl.nested[name]; n != nil {
				return in.construct(n, a, nil, ln)
			}
			if cl.enum && name == "values" {
				l := &karr{k: kObjK}
				for _, e := range in.entries(cl) {
					l.a = append(l.a, kv{k: kObjK, p: e})
				}
				return kv{k: kArr, p: l}
			}
			if cl.enum && name == "valueOf" {
				for _, e := range in.entries(cl) {
					if e.name == a[0].str() {
						return kv{k: kObjK, p: e}
					}
				}
				throwK("IllegalArgumentException", "no enum constant")
			}
			terr(ln, "%s has no function %s", cl.name, name)
		}
		if s, ok := o.p.(string); ok {
			if strings.HasPrefix(s, "package ") {
				if x := in.classByPath(strings.TrimPrefix(s, "package ") + "." + name); x != nil {
					return in.construct(x, a, nil, ln)
				}
			}
			switch s + "." + name {
			case "System.arraycopy":
				if len(a) == 5 && a[0].k == kArr && a[2].k == kArr && a[1].k == kInt && a[3].k == kInt && a[4].k == kInt {
					n := kI(int64(a[1].i) + int64(a[4].i))
					in.builtinM(a[0], "copyInto", []kv{a[2], a[3], a[1], n}, ln)
					return kv{}
				}
				unsup("arraycopy")
			case "Float.fromBits":
				return kv{k: kFloat, i: in.coerce(a[0], &ktType{name: "Int"}, ln).i & 0xffffffff}
			case "Double.fromBits":
				return kv{k: kDouble, i: in.coerce(a[0], &ktType{name: "Long"}, ln).i}
			}
			unsup("%s.%s", s, name)
		}
	}
	for _, fn := range in.tops[name] { // extensions
		if fn.recv != nil && (fn.recv.name == o.tname()) {
			return in.call(fn, o, a, nil, ln)
		}
	}
	if v, ok := in.builtinM(o, name, a, ln); ok {
		return v
	}
	if ktNotOn(o, name) {
		terr(ln, "%s has no function %s", o.tname(), name)
	}
	unsup("%s.%s", o.tname(), name)
	return kv{}
}

// ktNotOn: a function that the standard library surely does not have for the
// value; others may be extensions the interpreter does not know.
func ktNotOn(o kv, name string) bool {
	switch name {
	case "contentEquals", "contentHashCode", "contentDeepEquals", "contentDeepHashCode", "copyInto":
		return o.k != kArr && o.k != kList && o.k != kString && o.k != kLambda
	case "encodeToByteArray":
		return o.k != kString
	case "encode", "decode", "encodeSize", "decodeSize", "toRawBits", "toUByte", "toUShort", "toUInt", "toULong", "toByte", "toShort", "toInt", "toLong", "toFloat", "toDouble", "and", "or", "xor", "inv", "shl", "shr", "ushr":
		return o.k == kObjK && o.p != nil
	}
	return false
}

func (in *ktInterp) toInt(v kv, k kk, ln int) kv {
	if v.flt() {
		f := v.f()
		switch k {
		case kInt, kLong:
			w := 32
			if k == kLong {
				w = 64
			}
			switch {
			case f != f:
				return kv{k: k}
			case f >= math.Ldexp(1, w-1):
				return wrapK(k, mask(w-1))
			case f <= -math.Ldexp(1, w-1):
				return wrapK(k, 1<<uint(w-1))
			}
			return wrapK(k, uint64(int64(f)))
		case kUInt, kULong:
			w := 32
			if k == kULong {
				w = 64
			}
			switch {
			case f != f || f <= 0:
				return kv{k: k}
			case f >= math.Ldexp(1, w):
				return kv{k: k, i: mask(w)}
			}
			return wrapK(k, uint64(f))
		}
		terr(ln, "no conversion from %s to %s", v.tname(), kkName[k])
	}
	return wrapK(k, v.i)
}

func (in *ktInterp) builtinM(o kv, name string, a []kv, ln int) (kv, bool) {
	need := func(i int, t string) kv {
		if i >= len(a) {
			terr(ln, "%s needs more arguments", name)
		}
		if k := a[i].k; k == kClassK || k == kRange || k == kLambda || k == kArr || k == kList {
			unsup("%s with a %s", name, a[i].tname()) // an overload not known here
		}
		return in.coerce(a[i], &ktType{name: t}, ln)
	}
	lam := func(i int) *klam {
		if i >= len(a) || a[i].k != kLambda {
			unsup("%s without a lambda", name)
		}
		return a[i].p.(*klam)
	}
	switch name {
	case "let":
		return lam(0).call(o), true
	case "also":
		lam(0).call(o)
		return o, true
	case "apply":
		lam(0).with(o)
		return o, true
	case "run":
		return lam(0).with(o), true
	case "equals":
		return kBo(in.equals(o, a[0], ln)), true
	case "hashCode":
		return kI(int64(in.hash(o, false, ln))), true
	case "toString":
		if len(a) == 0 {
			return kStr(in.toStr(o)), true
		}
	}
	if o.num() || o.k == kChar {
		conv := map[string]kk{"toByte": kByte, "toShort": kShort, "toInt": kInt, "toLong": kLong, "toUByte": kUByte, "toUShort": kUShort, "toUInt": kUInt, "toULong": kULong}
		if k, ok := conv[name]; ok {
			if o.k == kChar {
				unsup("Char.%s", name)
			}
			return in.toInt(o, k, ln), true
		}
		switch name {
		case "toFloat":
			return kF32(toF32(o)), true
		case "toDouble":
			return kF64(o.f()), true
		case "compareTo":
			k, un := in.cmp(o, a[0], ln)
			if o.flt() { // total order
				x, y := o.f(), a[0].f()
				switch {
				case x != x && y != y:
					k = 0
				case x != x:
					k = 1
				case y != y:
					k = -1
				case x == 0 && y == 0 && math.Signbit(x) != math.Signbit(y):
					k = 1
					if math.Signbit(x) {
						k = -1
					}
				}
			} else if un {
				unsup("compareTo")
			}
			return kI(int64(k)), true
		case "coerceAtLeast", "coerceAtMost":
			if len(a) == 1 {
				b := in.coerce(a[0], &ktType{name: kkName[o.k]}, ln)
				k, _ := in.cmp(o, b, ln)
				if (k < 0) == (name == "coerceAtLeast") {
					return b, true
				}
				return o, true
			}
		case "coerceIn":
			if len(a) == 2 {
				b, c := in.coerce(a[0], &ktType{name: kkName[o.k]}, ln), in.coerce(a[1], &ktType{name: kkName[o.k]}, ln)
				if k, _ := in.cmp(o, b, ln); k < 0 {
					return b, true
				}
				if k, _ := in.cmp(o, c, ln); k > 0 {
					return c, true
				}
				return o, true
			}
		case "plus", "minus", "times", "div", "rem":
			op := map[string]string{"plus": "+", "minus": "-", "times": "*", "div": "/", "rem": "%"}[name]
			return in.bin(op, o, a[0], ln), true
		case "unaryMinus":
			if o.signed() {
				k := o.k
				if k < kInt {
					k = kInt
				}
				return wrapK(k, -o.i), true
			}
		}
	}
	if o.flt() {
		switch name {
		case "toRawBits", "toBits":
			if o.k == kFloat {
				return kI(int64(int32(uint32(o.i)))), true
			}
			return kv{k: kLong, i: o.i}, true
		case "pow":
			y := a[0]
			if o.k == kDouble && (y.k == kDouble || y.k == kInt) || o.k == kFloat && (y.k == kFloat || y.k == kInt) {
				r := math.Pow(o.f(), y.f())
				if o.k == kFloat {
					return kF32(float32(r)), true
				}
				return kF64(r), true
			}
			terr(ln, "pow of %s and %s", o.tname(), y.tname())
		case "isNaN":
			return kBo(o.f() != o.f()), true
		case "isInfinite":
			return kBo(math.IsInf(o.f(), 0)), true
		}
		return kv{}, false
	}
	if o.signed() || o.uns() {
		w := map[kk]int{kByte: 8, kShort: 16, kInt: 32, kLong: 64, kUByte: 8, kUShort: 16, kUInt: 32, kULong: 64}[o.k]
		switch name {
		case "and", "or", "xor":
			b := a[0]
			if b.lit && b.k != o.k && !o.lit {
				if o.k == kLong && b.k == kInt { // a literal adapts to the parameter type
					b.k = kLong
				} else if o.k == kULong && b.k == kUInt || o.k == kUByte && b.k == kUInt && b.i < 256 || o.k == kUShort && b.k == kUInt && b.i < 65536 {
					b.k = o.k
				}
			}
			if b.k != o.k {
				terr(ln, "%s between %s and %s", name, o.tname(), b.tname())
			}
			if o.k == kByte || o.k == kShort {
				unsup("%s on %s", name, o.tname()) // needs an import
			}
			r := o.i & b.i
			if name == "or" {
				r = o.i | b.i
			} else if name == "xor" {
				r = o.i ^ b.i
			}
			return kv{k: o.k, i: r}, true
		case "inv":
			if o.k == kByte || o.k == kShort {
				unsup("inv on %s", o.tname())
			}
			return wrapK(o.k, ^o.i), true
		case "shl", "shr", "ushr":
			if w < 32 || o.uns() && name == "ushr" {
				terr(ln, "%s on %s", name, o.tname())
			}
			n := need(0, "Int").i & uint64(w-1)
			switch name {
			case "shl":
				return wrapK(o.k, o.i<<n), true
			case "shr":
				if o.uns() {
					return kv{k: o.k, i: o.i >> n}, true
				}
				return wrapK(o.k, uint64(int64(o.i)>>n)), true
			}
			return wrapK(o.k, (o.i&mask(w))>>n), true
		case "until", "downTo", "rangeTo", "rangeUntil":
			if !o.signed() || !a[0].signed() {
				unsup("%s on %s", name, o.tname())
			}
			k := kInt
			if o.k == kLong || a[0].k == kLong {
				k = kLong
			}
			g := &krange{int64(o.i), int64(a[0].i), 1, k}
			if name == "until" || name == "rangeUntil" {
				g.to--
			}
			if name == "downTo" {
				g.step = -1
			}
			return kv{k: kRange, p: g}, true
		case "inc":
			return wrapK(o.k, o.i+1), true
		case "dec":
			return wrapK(o.k, o.i-1), true
		case "floorDiv", "mod":
			unsup("%s", name)
		case "countOneBits":
			return kI(int64(bits.OnesCount64(o.i & mask(w)))), true
		case "countTrailingZeroBits":
			return kI(int64(min(w, bits.TrailingZeros64(o.i)))), true
		case "countLeadingZeroBits":
			return kI(int64(bits.LeadingZeros64(o.i&mask(w)) - (64 - w))), true
		case "rotateLeft", "rotateRight":
			n := int(int32(need(0, "Int").i))
			if name == "rotateRight" {
				n = -n
			}
			n = ((n % w) + w) % w
			u := o.i & mask(w)
			return wrapK(o.k, u<<uint(n)|u>>uint(w-n)), true
		}
		return kv{}, false
	}
	switch o.k {
	case kBool:
		if len(a) == 1 && (name == "and" || name == "or" || name == "xor") {
			b := need(0, "Boolean")
			switch name {
			case "and":
				return kBo(o.i&b.i != 0), true
			case "or":
				return kBo(o.i|b.i != 0), true
			}
			return kBo(o.i^b.i != 0), true
		}
		if name == "not" {
			return kBo(o.i == 0), true
		}
		if name == "compareTo" {
			k, _ := in.cmp(o, a[0], ln)
			return kI(int64(k)), true
		}
	case kRange:
		g := o.p.(*krange)
		switch name {
		case "step":
			s := int64(a[0].i)
			if s <= 0 {
				throwK("IllegalArgumentException", "step")
			}
			if g.step < 0 {
				s = -s
			}
			return kv{k: kRange, p: &krange{g.from, g.to, s, g.k}}, true
		case "reversed":
			return kv{k: kRange, p: &krange{g.to, g.from, -g.step, g.k}}, true
		case "forEach":
			f := lam(0)
			in.each(o, ln, func(v kv) bool { f.call(v); return true })
			return kv{}, true
		case "all", "any", "sumOf", "none":
			return in.agg(o, name, lam(0), ln), true
		}
	case kString:
		s := o.str()
		switch name {
		case "encodeToByteArray", "toByteArray":
			if len(a) > 0 && !(a[0].k == kClassK && a[0].p == "UTF_8") {
				unsup("%s with arguments", name)
			}
			return bytesK([]byte(s)), true
		case "isEmpty":
			return kBo(s == ""), true
		case "isNotEmpty":
			return kBo(s != ""), true
		}
	case kArr, kList:
		ar := o.arr()
		switch name {
		case "contentEquals", "contentDeepEquals":
			if a[0].k == kNull {
				return kBo(false), true
			}
			if a[0].k != kArr || a[0].arr().k != ar.k {
				terr(ln, "%s of %s and %s", name, o.tname(), a[0].tname())
			}
			if name == "contentDeepEquals" {
				if ar.k != kObjK {
					terr(ln, "%s on %s", name, o.tname())
				}
				return kBo(in.deepEq(o, a[0], ln)), true
			}
			b := a[0].arr()
			eq := len(ar.a) == len(b.a)
			for i := 0; eq && i < len(ar.a); i++ {
				eq = in.equals(ar.a[i], b.a[i], ln)
			}
			return kBo(eq), true
		case "contentHashCode", "contentDeepHashCode":
			if name == "contentDeepHashCode" && ar.k != kObjK {
				terr(ln, "%s on %s", name, o.tname())
			}
			h := int32(1)
			for _, e := range ar.a {
				h = 31*h + in.hash(e, name == "contentDeepHashCode", ln)
			}
			return kI(int64(h)), true
		case "copyInto":
			dst := a[0]
			if dst.k != kArr || dst.arr().k != ar.k {
				terr(ln, "copyInto of %s and %s", o.tname(), dst.tname())
			}
			d := dst.arr()
			at, from, to := int64(0), int64(0), int64(len(ar.a))
			if len(a) > 1 {
				at = int64(need(1, "Int").i)
			}
			if len(a) > 2 {
				from = int64(need(2, "Int").i)
			}
			if len(a) > 3 {
				to = int64(need(3, "Int").i)
			}
			if from < 0 || to > int64(len(ar.a)) || from > to || at < 0 || at+to-from > int64(len(d.a)) {
				throwK("IndexOutOfBoundsException", "copyInto %d..%d of %d to %d of %d", from, to, len(ar.a), at, len(d.a))
			}
			copy(d.a[at:], append([]kv(nil), ar.a[from:to]...))
			return dst, true
		case "copyOfRange", "sliceArray":
			var from, to int64
			if name == "sliceArray" {
				if a[0].k != kRange {
					unsup("sliceArray")
				}
				g := a[0].p.(*krange)
				from, to = g.from, g.to+1
			} else {
				from, to = int64(need(0, "Int").i), int64(need(1, "Int").i)
			}
			if from > to {
				throwK("IllegalArgumentException", "fromIndex (%d) > toIndex (%d)", from, to)
			}
			if from < 0 || to > int64(len(ar.a)) {
				throwK("IndexOutOfBoundsException", "copyOfRange %d..%d of %d", from, to, len(ar.a))
			}
			return kv{k: kArr, p: &karr{ar.k, ar.et, append([]kv(nil), ar.a[from:to]...)}}, true
		case "copyOf", "clone":
			if len(a) > 0 {
				unsup("copyOf with a size")
			}
			return kv{k: kArr, p: &karr{ar.k, ar.et, append([]kv(nil), ar.a...)}}, true
		case "decodeToString", "toString":
			if ar.k != kByte {
				break
			}
			f, t := int64(0), int64(len(ar.a))
			if len(a) == 1 && a[0].k == kClassK && a[0].p == "UTF_8" {
				a = nil
			}
			if len(a) > 0 {
				f = int64(need(0, "Int").i)
			}
			if len(a) > 1 {
				t = int64(need(1, "Int").i)
			}
			if f < 0 || t > int64(len(ar.a)) || f > t {
				throwK("IndexOutOfBoundsException", "decodeToString %d..%d of %d", f, t, len(ar.a))
			}
			return kStr(utf8OK(bytesOf(ar)[f:t])), true
		case "fill":
			v := in.elem(ar, a[0], ln)
			f, t := int64(0), int64(len(ar.a))
			if len(a) > 1 {
				f = int64(need(1, "Int").i)
			}
			if len(a) > 2 {
				t = int64(need(2, "Int").i)
			}
			if f < 0 || t > int64(len(ar.a)) || f > t {
				throwK("IndexOutOfBoundsException", "fill")
			}
			for i := f; i < t; i++ {
				ar.a[i] = v
			}
			return kv{}, true
		case "forEach":
			f := lam(0)
			for _, e := range append([]kv(nil), ar.a...) {
				f.call(e)
			}
			return kv{}, true
		case "forEachIndexed":
			f := lam(0)
			for i, e := range append([]kv(nil), ar.a...) {
				f.call(kI(int64(i)), e)
			}
			return kv{}, true
		case "all", "any", "none", "sumOf":
			return in.agg(o, name, lam(0), ln), true
		case "firstOrNull", "find", "first":
			for _, e := range ar.a {
				if len(a) == 0 || in.truth(lam(0).call(e), ln) {
					return e, true
				}
			}
			if name == "first" {
				throwK("NoSuchElementException", "")
			}
			return kv{k: kNull}, true
		case "getOrNull":
			i := int64(need(0, "Int").i)
			if i < 0 || i >= int64(len(ar.a)) {
				return kv{k: kNull}, true
			}
			return ar.a[i], true
		case "get":
			k := in.index(ar, a[0], ln)
			in.bound(ar, k)
			return ar.a[k], true
		case "set":
			k := in.index(ar, a[0], ln)
			in.bound(ar, k)
			ar.a[k] = in.elem(ar, a[1], ln)
			return kv{}, true
		case "isEmpty":
			return kBo(len(ar.a) == 0), true
		case "isNotEmpty":
			return kBo(len(ar.a) != 0), true
		case "indexOf":
			for i, e := range ar.a {
				if in.equals(e, a[0], ln) {
					return kI(int64(i)), true
				}
			}
			return kI(-1), true
		case "contains":
			return kBo(in.contains(o, a[0], ln)), true
		}
	}
	return kv{}, false
}

func (in *ktInterp) agg(o kv, name string, f *klam, ln int) kv {
	any, all := false, true
	sum := kv{k: kInt}
	in.each(o, ln, func(v kv) bool {
		r := f.call(v)
		if name == "sumOf" {
			r.lit = false
			if sum.i == 0 && sum.k != r.k {
				sum.k = r.k
			}
			sum = in.bin("+", sum, r, ln)
			return true
		}
		if in.truth(r, ln) {
			any = true
		} else {
			all = false
		}
		return true
	})
	switch name {
	case "any":
		return kBo(any)
	case "none":
		return kBo(!any)
	case "all":
		return kBo(all)
	}
	return sum
}

func bytesK(b []byte) kv {
	a := &karr{k: kByte, a: make([]kv, len(b))}
	for i, x := range b {
		a.a[i] = kv{k: kByte, i: uint64(int64(int8(x)))}
	}
	return kv{k: kArr, p: a}
}
func bytesOf(a *karr) []byte {
	b := make([]byte, len(a.a))
	for i, x := range a.a {
		b[i] = byte(x.i)
	}
	return b
}
func utf8OK(b []byte) string {
	if utf8.Valid(b) {
		return string(b)
	}
	return strings.ToValidUTF8(string(b), "\ufffd")
}

func (in *ktInterp) defElem(k kk) kv { return kv{k: k} }

// builtinF: functions of the standard library called by simple name.
func (in *ktInterp) builtinF(c *fnC, fr *frame, name string, targ *ktType, a []kv, names []string, ln int) kv {
	if k, ok := kArrOf[name]; ok {
		n := in.coerce(a[0], &ktType{name: "Int"}, ln)
		if int64(n.i) < 0 {
			throwK("NegativeArraySizeException", "%d", int64(n.i))
		}
		if n.i > 1<<24 {
			unsup("huge array")
		}
		ar := &karr{k: k, a: make([]kv, n.i)}
		for i := range ar.a {
			ar.a[i] = in.defElem(k)
			if len(a) > 1 {
				ar.a[i] = in.elem(ar, a[1].p.(*klam).call(kI(int64(i))), ln)
			}
		}
		return kv{k: kArr, p: ar}
	}
	for n, k := range kArrOf { // byteArrayOf(...)
		if name == strings.ToLower(n[:1])+n[1:]+"Of" || strings.HasPrefix(n, "U") && name == strings.ToLower(n[:2])+n[2:]+"Of" {
			ar := &karr{k: k}
			for _, v := range a {
				ar.a = append(ar.a, in.elem(ar, v, ln))
			}
			return kv{k: kArr, p: ar}
		}
	}
	lam := func(i int) *klam {
		if i >= len(a) || a[i].k != kLambda {
			unsup("%s without a lambda", name)
		}
		return a[i].p.(*klam)
	}
	switch name {
	case "Array":
		n := in.coerce(a[0], &ktType{name: "Int"}, ln)
		if n.i > 1<<24 {
			unsup("huge array")
		}
		f := lam(1)
		ar := &karr{k: kObjK, et: targ, a: make([]kv, n.i)}
		for i := range ar.a {
			ar.a[i] = f.call(kI(int64(i)))
			ar.a[i].lit = false
			if targ != nil {
				ar.a[i] = in.coerce(ar.a[i], targ, ln)
			} else if ar.et == nil && ar.a[i].k != kNull {
				t := ar.a[i].tname()
				ar.et = &ktType{name: t}
			}
		}
		if targ == nil {
			nul := false
			for _, e := range ar.a {
				nul = nul || e.k == kNull
			}
			if nul {
				ar.et = nil // inferred from the expected type
			}
		}
		return kv{k: kArr, p: ar}
	case "arrayOfNulls":
		n := in.coerce(a[0], &ktType{name: "Int"}, ln)
		ar := &karr{k: kObjK, a: make([]kv, n.i)}
		if targ != nil {
			ar.et = &ktType{name: targ.name, args: targ.args, null: true}
		}
		for i := range ar.a {
			ar.a[i] = kv{k: kNull}
		}
		return kv{k: kArr, p: ar}
	case "arrayOf", "listOf":
		ar := &karr{k: kObjK, et: targ}
		for _, v := range a {
			v.lit = false
			ar.a = append(ar.a, v)
		}
		if name == "listOf" {
			return kv{k: kList, p: ar}
		}
		return kv{k: kArr, p: ar}
	case "run":
		return lam(0).call()
	case "with":
		return lam(1).with(a[0])
	case "repeat":
		n := in.coerce(a[0], &ktType{name: "Int"}, ln)
		f := lam(1)
		for i := int64(0); i < int64(n.i); i++ {
			f.call(kI(i))
		}
		return kv{}
	case "maxOf", "minOf":
		r := a[0]
		for _, v := range a[1:] {
			if v.k != r.k {
				if v.lit && v.signed() && r.signed() {
					v.k = r.k
				} else if r.lit && v.signed() && r.signed() {
					r.k = v.k
				} else {
					terr(ln, "%s of %s and %s", name, r.tname(), v.tname())
				}
			}
			k, _ := in.cmp(v, r, ln)
			if (k > 0) == (name == "maxOf") && k != 0 {
				r = v
			}
		}
		r.lit = false
		return r
	case "require", "check":
		if !in.truth(a[0], ln) {
			throwK(map[string]string{"require": "IllegalArgumentException", "check": "IllegalStateException"}[name], "")
		}
		return kv{}
	case "error":
		throwK("IllegalStateException", "%s", in.toStr(a[0]))
	case "IllegalArgumentException", "IllegalStateException", "Exception", "RuntimeException", "IndexOutOfBoundsException":
		s := name
		if len(a) > 0 {
			s += ": " + in.toStr(a[0])
		}
		return kStr(s)
	case "String":
		if len(a) >= 1 && a[0].k == kArr && a[0].arr().k == kByte {
			b := bytesOf(a[0].arr())
			if len(a) >= 3 && a[1].k == kInt && a[2].k == kInt {
				f, n := int64(a[1].i), int64(a[2].i)
				if f < 0 || n < 0 || f+n > int64(len(b)) {
					throwK("StringIndexOutOfBoundsException", "%d+%d of %d", f, n, len(b))
				}
				b = b[f : f+n]
			} else if len(a) == 2 && a[1].k != kClassK || len(a) > 3 {
				unsup("String()")
			}
			return kStr(utf8OK(b))
		}
	}
	if len(name) > 2 && strings.HasPrefix(name, "bb") { // a helper that is not there
		terr(ln, "unresolved reference %s", name)
	}
	unsup("function %s", name)
	return kv{}
}
