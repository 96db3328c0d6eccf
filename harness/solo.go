package main

// Schemas whose files use one feature each, so that whatever a generator must
// add to a file for the sake of a feature (an import, a helper) cannot be there
// for the sake of another.

import (
	"fmt"
	"strconv"
	"strings"
)

// GenSolo deals the features out to the files of n programs.
func GenSolo(r *Rng, cfg GenCfg, n int) []*Program {
	root := strings.SplitN(cfg.Pkg, ".", 2)[0]
	var ps []*Program
	for i := 0; i < n; i++ {
		main := &File{Path: "mroot.bb", Pkg: root + ".mroot"}
		main.Options = append(main.Options, [2]string{"go_package", strconv.Quote(root + "/mroot")})
		ps = append(ps, &Program{Files: []*File{main}})
	}
	k := 0
	var g *Gen
	var f *File
	var p *Program
	newFile := func() *File {
		name := "s" + b26(k, 3)
		k++
		x := &File{Path: "file_" + name + ".bb", Pkg: root + "." + name}
		x.Options = append(x.Options, [2]string{"go_package", strconv.Quote(root + "/" + name)})
		p.Files = append(p.Files, x)
		m := p.Files[0]
		m.Imports = append(m.Imports, x)
		m.ImpText = append(m.ImpText, x.Path)
		return x
	}
	// where a type lives: in the file that uses it or in another
	home := func() *File {
		if r.Pct(50) {
			return f
		}
		x := newFile()
		f.Imports = append(f.Imports, x)
		f.ImpText = append(f.ImpText, x.Path)
		return x
	}
	field := func(t *Type, bits int) *Field {
		x := &Field{K: FNormal, T: t, Bits: bits}
		x.Name, x.Words = g.fieldName()
		if bits > 0 {
			g.size(x, t.TypeBits())
			if r.Pct(40) {
				x.Order = "big"
			}
		}
		return x
	}
	put := func(to *File, fs ...*Field) *Struct {
		s := &Struct{Name: g.typeName("S"), File: to}
		pos := 0
		for _, x := range fs {
			s.Fields = append(s.Fields, x)
			if x.K != FEmbedRef {
				pos += x.Bits
			}
		}
		if pos%8 != 0 {
			b := 8 - pos%8
			s.Fields = append(s.Fields, &Field{K: FVoid, Bits: b, SizeText: sizeText(b, r)})
		}
		to.Defs = append(to.Defs, Def{St: s})
		return s
	}
	byteT := func() *Type { return &Type{K: KInt, W: 8} }
	// kinds of element, with the width of one of them (0 for dynamic ones)
	type elem func() (*Type, int)
	basic := func(t Type, odd bool) elem {
		return func() (*Type, int) {
			c := t
			b := c.TypeBits()
			if odd {
				b = r.Range(c.W/2+1, c.W-1)
			}
			return &c, b
		}
	}
	elems := []elem{
		basic(Type{K: KBool}, false),
		func() (*Type, int) { return &Type{K: KBool}, 1 },
		basic(Type{K: KFloat, W: 32}, false), basic(Type{K: KFloat, W: 64}, false),
		func() (*Type, int) {
			to := home()
			g.file = to
			e := g.Enum()
			g.file = f
			to.Defs = append(to.Defs, Def{En: e})
			return &Type{K: KEnum, En: e}, e.Bits
		},
		func() (*Type, int) {
			s := put(home(), field(byteT(), 8))
			return &Type{K: KStruct, St: s}, 8
		},
		func() (*Type, int) {
			s := put(home(), field(&Type{K: pick(r, []TK{KString, KBytes})}, 0))
			return &Type{K: KStruct, St: s}, 0
		},
		func() (*Type, int) { return &Type{K: KString}, 0 },
		func() (*Type, int) { return &Type{K: KBytes}, 0 },
	}
	for _, w := range intW {
		for _, signed := range []bool{false, true} {
			elems = append(elems, basic(Type{K: KInt, W: w, Signed: signed}, false), basic(Type{K: KInt, W: w, Signed: signed}, true))
		}
	}
	// an odd width may put an enum or struct at no byte boundary: whole bytes only there
	var feats []func()
	for _, e := range elems {
		for _, c := range []int{0, r.Range(1, 4), r.Range(6, 9)} {
			feats = append(feats, func() {
				t, b := e()
				if c > 0 {
					t, b = &Type{K: KArray, Elem: t, N: c}, b*c
				}
				put(f, field(t, b))
			})
		}
	}
	// a constant beside a plain byte; accessors of one field; an embedded struct
	for _, t := range []Type{{K: KBool}, {K: KFloat, W: 32}, {K: KFloat, W: 64}, {K: KInt, W: 16, Signed: true}, {K: KInt, W: 64}} {
		feats = append(feats, func() {
			c := t
			x := g.constField(&c, c.TypeBits())
			x.Bits, x.SizeText = c.TypeBits(), ""
			put(f, x, field(byteT(), 8))
		})
	}
	for _, t := range []Type{{K: KBool}, {K: KFloat, W: 32}, {K: KFloat, W: 64}, {K: KInt, W: 8}, {K: KInt, W: 32, Signed: true}, {K: KInt, W: 64}} {
		feats = append(feats, func() {
			c := t
			x := field(&c, c.TypeBits())
			for i := 0; i < 5 && len(x.Methods) == 0; i++ {
				g.methods(x)
			}
			put(f, x)
		})
	}
	feats = append(feats, func() {
		s := put(home(), field(byteT(), 8))
		put(f, &Field{K: FEmbedRef, Emb: s})
	}, func() {
		s := put(home(), field(byteT(), 8), field(&Type{K: pick(r, []TK{KString, KBytes})}, 0))
		put(f, &Field{K: FEmbedRef, Emb: s})
	})
	for i := len(feats) - 1; i > 0; i-- {
		j := r.N(i + 1)
		feats[i], feats[j] = feats[j], feats[i]
	}
	g = &Gen{r: r, cfg: cfg}
	for i, x := range feats {
		p = ps[i%n]
		f = newFile()
		g.file = f
		x()
	}
	for i, p := range ps { // the main file holds a plain struct
		f = p.Files[0]
		g.file = f
		s := put(f, field(byteT(), 8))
		s.Name = fmt.Sprintf("SMain%s", b26(i, 2))
	}
	return ps
}
