package main

// The driver for interpreted Kotlin: the same commands as the other targets.

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
)

var ktSkipped atomic.Int64 // pieces outside the interpreted subset
var ktRan atomic.Int64     // commands answered

func ktPkg(f *File) string {
	for _, o := range f.Options {
		if o[0] == "kotlin_package" {
			return strings.Trim(o[1], "\"'")
		}
	}
	return f.Pkg
}

type ktSess struct {
	in    *ktInterp
	p     *Program
	unsup string
}

func ktSafe(f func()) (unsupMsg, exc, bad string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case ktUnsup:
				unsupMsg = e.msg
			case ktExc:
				exc = e.typ + " " + e.msg
			case ktTypeErr:
				bad = "type error: " + e.msg
			case ktSyntax:
				bad = "error: " + e.msg
			case ktFnRet, ktJump, ktLamRet:
				unsupMsg = "jump out of an expression"
			default:
				if os.Getenv("VH_KTDEBUG") != "" {
					panic(r)
				}
				unsupMsg = fmt.Sprint(r)
			}
		}
	}()
	f()
	return
}

// ktCompile parses the generated code; a construct outside the subset is no
// failure.
func (s *Session) ktCompile() *Fail {
	srcs := map[string]string{}
	for _, f := range globExt(s.Out, ".kt") {
		b, _ := os.ReadFile(f)
		rel, _ := filepath.Rel(s.Out, f)
		srcs[rel] = string(b)
	}
	k := &ktSess{p: s.P}
	s.kt = k
	un, _, bad := ktSafe(func() { k.in = ktLoad(srcs) })
	if un != "" {
		k.unsup = un
		if os.Getenv("VH_KTDEBUG") != "" {
			os.MkdirAll("/tmp/ktun", 0755)
			exec.Command("cp", "-a", s.Dir, "/tmp/ktun/").Run()
		}
		ktSkipped.Add(1)
		return nil
	}
	if bad != "" {
		return &Fail{"compile", "Kotlin: " + bad}
	}
	// every function must be one the interpreter can compile; names of types exist
	for _, st := range s.P.AllStructs() {
		if k.cls(ktPkg(st.File), st.Name) == nil {
			return &Fail{"compile", "Kotlin: no class for struct " + st.Name}
		}
	}
	return nil
}

func (k *ktSess) cls(pkg, name string) *ktClass { return k.in.pkgs[pkg][name] }

type ktCur struct {
	t []string
	i int
}

func (c *ktCur) next() string {
	if c.i >= len(c.t) {
		return ""
	}
	c.i++
	return c.t[c.i-1]
}

func (k *ktSess) rd(c *ktCur, t *Type) kv {
	switch t.K {
	case KBool:
		return kBo(c.next() != "0")
	case KInt:
		s := c.next()
		if t.Signed {
			n, _ := strconv.ParseInt(s, 10, 64)
			return wrapK(map[int]kk{8: kByte, 16: kShort, 32: kInt, 64: kLong}[t.W], uint64(n))
		}
		u, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			n, _ := strconv.ParseInt(s, 10, 64)
			u = uint64(n)
		}
		return wrapK(map[int]kk{8: kUByte, 16: kUShort, 32: kUInt, 64: kULong}[t.W], u)
	case KFloat:
		s := c.next()
		if s == "nan" {
			if t.W == 32 {
				return kF32(math.Float32frombits(0x7fc00000))
			}
			return kF64(math.Float64frombits(0x7ff8000000000000))
		}
		u, _ := strconv.ParseUint(s, 10, 64)
		if t.W == 32 {
			return kv{k: kFloat, i: u & 0xffffffff}
		}
		return kv{k: kDouble, i: u}
	case KString:
		return kStr(string(unhex(c.next())))
	case KBytes:
		return bytesK(unhex(c.next()))
	case KEnum:
		u, _ := strconv.ParseUint(c.next(), 10, 64)
		e := k.cls(ktPkg(t.En.File), t.En.Name)
		if e == nil {
			throwK("Missing", "enum %s", t.En.Name)
		}
		for _, o := range k.in.entries(e) {
			if f := o.f["number"]; f != nil && f.i == u {
				return kv{k: kObjK, p: o}
			}
		}
		for i, m := range t.En.Members { // number is kept in another way
			if uint64(m.Val) == u && i < len(e.entries) && k.in.entries(e)[i].f["number"] == nil {
				return kv{k: kObjK, p: k.in.entries(e)[i]}
			}
		}
		return kv{k: kNull}
	case KStruct:
		o := k.mk(t.St)
		k.set(o, t.St, c)
		return o
	}
	return kv{}
}

func unhex(s string) []byte {
	if s == "-" || s == "" {
		return nil
	}
	b := make([]byte, len(s)/2)
	for i := range b {
		u, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
		b[i] = byte(u)
	}
	return b
}

func (k *ktSess) mk(s *Struct) kv {
	return k.in.construct(k.cls(ktPkg(s.File), s.Name), nil, nil, 0)
}

func (k *ktSess) setF(o kv, f *Field, c *ktCur) {
	n := camel(f.Words)
	ob, pr := k.in.propOf(o, n)
	if pr == nil {
		terr(0, "%s has no property %s", o.tname(), n)
	}
	if f.T.K == KArray {
		old := k.in.getProp(ob, pr, 0)
		if old.k != kArr {
			unsup("array property of type %s", old.tname())
		}
		a := old.arr()
		nw := &karr{k: a.k, et: a.et}
		if len(a.a) != f.T.N {
			throwK("Length", "%s has %d items", n, len(a.a))
		}
		for i := 0; i < f.T.N; i++ {
			nw.a = append(nw.a, k.in.elem(a, k.rd(c, f.T.Elem), 0))
		}
		k.in.setProp(ob, pr, kv{k: kArr, p: nw}, 0)
		return
	}
	v := k.rd(c, f.T)
	k.in.setProp(ob, pr, v, 0)
}

func (k *ktSess) set(o kv, s *Struct, c *ktCur) {
	for _, f := range s.Vals() {
		k.setF(o, f, c)
	}
}

func (k *ktSess) get(o kv, name string) kv {
	ob, pr := k.in.propOf(o, name)
	if pr == nil {
		terr(0, "%s has no property %s", o.tname(), name)
	}
	return k.in.getProp(ob, pr, 0)
}

func (k *ktSess) put(t *Type, v kv, out *[]string) {
	w := func(s string) { *out = append(*out, s) }
	switch t.K {
	case KArray:
		a := v.arr()
		for _, e := range a.a {
			k.put(t.Elem, e, out)
		}
	case KStruct:
		for _, f := range t.St.Vals() {
			k.put(f.T, k.get(v, camel(f.Words)), out)
		}
	case KString:
		w(tokBytes([]byte(v.str())))
	case KBytes:
		w(tokBytes(bytesOf(v.arr())))
	case KEnum:
		if v.k == kNull {
			w("null")
			return
		}
		w(k.enumNum(t.En, v))
	case KBool:
		w(strconv.FormatUint(v.i, 10))
	case KFloat:
		if f := v.f(); f != f {
			w("nan")
		} else {
			w(strconv.FormatUint(v.i, 10))
		}
	case KInt:
		if t.Signed {
			w(strconv.FormatInt(int64(v.i), 10))
		} else {
			w(strconv.FormatUint(v.i, 10))
		}
	}
}

func (k *ktSess) enumNum(e *Enum, v kv) string {
	return strconv.FormatUint(k.in.member(v, "number", 0).i, 10)
}

// m calls a method of the object or, if it has none, of its companion.
func (k *ktSess) m(o kv, name string, a ...kv) kv {
	c := o.p.(*ktObj).c
	if len(c.fns[name]) == 0 && c.comp != nil && len(c.comp.fns[name]) > 0 {
		return k.in.callM(nil, k.in.object(c.comp), name, a, nil, 0, nil)
	}
	return k.in.callM(nil, o, name, a, nil, 0, nil)
}

func (k *ktSess) exec(line string) string {
	k.in.steps, k.in.depth = 0, 0
	c := &ktCur{t: strings.Fields(line)}
	op := c.next()
	n, _ := strconv.Atoi(c.next())
	s := k.p.AllStructs()[n]
	var out []string
	w := func(x any) { out = append(out, fmt.Sprint(x)) }
	num := func() int { x, _ := strconv.Atoi(c.next()); return x }
	vals := func(o kv) { k.put(&Type{K: KStruct, St: s}, o, &out) }
	in := func(v kv) int64 {
		if v.k != kInt {
			terr(0, "%s where Int is expected", v.tname())
		}
		return int64(v.i)
	}
	buf := func(start int, d []byte, pad, fill int) kv {
		b := make([]byte, start+len(d)+pad)
		for i := range b {
			b[i] = byte(fill)
		}
		copy(b[start:], d)
		return bytesK(b)
	}
	dec := func(d kv, start int) (kv, int64) {
		o := k.mk(s)
		return o, in(k.m(o, "decode", d, kI(int64(start))))
	}
	show := func(o kv, r int64) {
		if r < 0 {
			w("-")
		} else {
			vals(o)
		}
	}
	un, exc, bad := ktSafe(func() {
		switch op {
		case "E":
			start, pad, fill := num(), num(), num()
			o := k.mk(s)
			k.set(o, s, c)
			es := in(k.m(o, "encodeSize"))
			if es < 0 || es > 1<<24 {
				throwK("Size", "%d", es)
			}
			b := buf(start, make([]byte, es), pad, fill)
			for i := 0; i < int(es); i++ {
				b.arr().a[start+i] = wrapK(kByte, uint64(fill))
			}
			r := in(k.m(o, "encode", b, kI(int64(start))))
			w(es)
			w(r)
			w(tokBytes(bytesOf(b.arr())))
			w(tokBytes(bytesOf(k.m(o, "encode").arr())))
			vals(o)
		case "D":
			start, pad, fill := num(), num(), num()
			b := buf(start, unhex(c.next()), pad, fill)
			cp := string(bytesOf(b.arr()))
			o := k.mk(s)
			ds := in(k.m(o, "decodeSize", b, kI(int64(start))))
			r := in(k.m(o, "decode", b, kI(int64(start))))
			w(ds)
			w(r)
			if string(bytesOf(b.arr())) == cp {
				w(1)
			} else {
				w(0)
			}
			show(o, r)
		case "P":
			d := unhex(c.next())
			for i := 0; i <= len(d); i++ {
				b := bytesK(d[:i])
				o := k.mk(s)
				ds := in(k.m(o, "decodeSize", b))
				_, r := dec(b, 0)
				w(fmt.Sprintf("%d:%d", ds, r))
			}
		case "R":
			d1, d2 := unhex(c.next()), unhex(c.next())
			o := k.mk(s)
			r1 := in(k.m(o, "decode", bytesK(d1)))
			r2 := in(k.m(o, "decode", bytesK(d2)))
			w(r1)
			w(r2)
			show(o, r2)
		case "X":
			b := bytesK(unhex(c.next()))
			f := num()
			o, r := dec(b, 0)
			for i := range b.arr().a {
				b.arr().a[i] = wrapK(kByte, uint64(f))
			}
			w(r)
			show(o, r)
		case "T":
			o, r := dec(bytesK(unhex(c.next())), 0)
			w(r)
			if r < 0 {
				w("-")
			} else {
				w(tokBytes(bytesOf(k.m(o, "encode").arr())))
			}
		case "Q":
			a, b := k.mk(s), k.mk(s)
			k.set(a, s, c)
			k.set(b, s, c)
			e := func(x, y kv) int {
				if k.in.truth(k.m(x, "equals", y), 0) {
					return 1
				}
				return 0
			}
			h := 0
			if k.m(a, "hashCode").i == k.m(b, "hashCode").i {
				h = 1
			}
			w(e(a, b))
			w(e(b, a))
			w(e(a, a))
			w(h)
			w(e(a, kv{k: kNull}))
			w(e(a, kStr("x")))
		case "Y":
			o := k.mk(s)
			k.set(o, s, c)
			for q := num(); q > 0; q-- {
				cc := c.next()
				x := num()
				switch cc {
				case "n":
					for _, en := range enumsOf(s) {
						cl := k.cls(ktPkg(en.File), en.Name)
						for _, m := range en.Members {
							var hit kv
							for _, e := range k.in.entries(cl) {
								if e.name == m.Name {
									hit = kv{k: kObjK, p: e}
								}
							}
							if hit.k != kObjK {
								terr(0, "%s has no entry %s", en.Name, m.Name)
							}
							w(k.enumNum(en, hit))
							back := k.in.callM(nil, kv{k: kClassK, p: cl}, "fromNumber", []kv{{k: kLong, i: uint64(m.Val)}}, nil, 0, nil)
							if back.k == kNull {
								w("null")
							} else {
								w(k.enumNum(en, back))
							}
						}
					}
				case "f":
					k.setF(o, s.Vals()[x], c)
				case "c":
					m := s.Vals()[x/100].Methods[x%100]
					v := k.rd(c, m.Ret)
					ob, pr := k.in.propOf(o, camel(m.W))
					if pr == nil {
						terr(0, "no property %s", camel(m.W))
					}
					k.in.setProp(ob, pr, v, 0)
				}
			}
			vals(o)
			w("~")
			vals(o)
			w("~")
			for _, f := range s.Vals() {
				for _, m := range f.Methods {
					if m.Get {
						k.put(m.Ret, k.get(o, camel(m.W)), &out)
					}
				}
			}
		case "Z":
			o := k.mk(s)
			if k.in.truth(k.m(o, "dynamic"), 0) {
				w(1)
			} else {
				w(0)
			}
			w(in(k.m(o, "size")))
		}
	})
	if un != "" {
		return "UNSUP " + un
	}
	if bad != "" {
		return "CRASH Kotlin code that does not compile, " + bad
	}
	if exc != "" {
		return "EXC " + strings.TrimSpace(exc)
	}
	ktRan.Add(1)
	return strings.Join(out, " ")
}

// ktProgram is the program without what the Kotlin target documents it refuses:
// setters without a getter of the same name and type.
func ktProgram(p *Program) *Program {
	q := CloneProgram(p)
	for _, s := range q.AllStructs() {
		for _, f := range s.Vals() {
			var keep []*Method
			for _, m := range f.Methods {
				ok := m.Get
				for _, g := range f.Methods {
					if g.Get && g.Name == m.Name && g.Ret.Name() == m.Ret.Name() {
						ok = true
					}
				}
				if ok {
					keep = append(keep, m)
				}
			}
			f.Methods = keep
		}
	}
	return q
}

// forTarget is the program as the target accepts it.
func forTarget(p *Program, v Variant) *Program {
	if v.Target == "kt" {
		return ktProgram(p)
	}
	return p
}

// ktUnsupported: the answer needs Kotlin that the interpreter does not know.
func ktUnsupported(out string) bool {
	if strings.Contains(out, "UNSUP ") {
		ktSkipped.Add(1)
		if os.Getenv("VH_KTDEBUG") != "" {
			fmt.Println("unsupported:", clip2(out, 200))
		}
		return true
	}
	return false
}
