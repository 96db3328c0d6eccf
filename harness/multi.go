package main

// Splitting a schema over several files, and joining it again.

import (
	"fmt"
	"path"
	"path/filepath"
	"strconv"
	"strings"
)

type SplitCfg struct {
	Files      int
	SameLast   bool // packages may share their last component
	Transitive bool // names may come from files imported indirectly
	PkgOpts    bool // per-language package options
	OmitEmpty  bool
}

// defDeps lists the definitions a definition uses directly.
func defDeps(d Def, owner map[string]int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(n string) {
		if i, ok := owner[n]; ok && !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	if d.En != nil {
		for _, m := range d.En.Members {
			if strings.HasPrefix(m.Spec, " = ") {
				add(strings.TrimPrefix(m.Spec, " = "))
			}
		}
		return out
	}
	var ws func(s *Struct)
	ws = func(s *Struct) {
		for _, f := range s.Fields {
			if f.Const != nil && f.Const.Enum {
				add(f.Const.Text)
			}
			if f.K == FEmbedRef {
				add(f.Emb.Name)
			}
			if f.K == FEmbedDef {
				ws(f.Emb)
			}
			if f.T != nil {
				b := baseType(f.T)
				if f.Inline {
					ws(b.St)
					continue
				}
				if b.K == KStruct {
					add(b.St.Name)
				}
				if b.K == KEnum {
					add(b.En.Name)
				}
			}
		}
	}
	ws(d.St)
	return out
}

func setFile(d Def, f *File) {
	if d.En != nil {
		d.En.File = f
		return
	}
	var ws func(s *Struct)
	ws = func(s *Struct) {
		s.File = f
		for _, x := range s.Fields {
			if x.K == FEmbedDef {
				ws(x.Emb)
			}
			if x.Inline {
				ws(baseType(x.T).St)
			}
		}
	}
	ws(d.St)
}

// badPkg lists type names that make no package name, in lower case.
var badPkg = map[string]bool{"package": true, "import": true, "from": true, "struct": true, "enum": true, "get": true, "set": true, "value": true, "bytes": true, "option": true}

// SplitProgram spreads the definitions of a one-file program over several files
// that import each other without cycles.
func SplitProgram(r *Rng, p *Program, sc SplitCfg) *Program {
	q := CloneProgram(p)
	main := q.Files[0]
	defs := main.Defs
	owner := map[string]int{}
	for i, d := range defs {
		if d.En != nil {
			owner[d.En.Name] = i
			for _, m := range d.En.Members {
				owner[m.Name] = i
			}
		} else {
			owner[d.St.Name] = i
		}
	}
	n := sc.Files
	root := strings.SplitN(main.Pkg, ".", 2)[0]
	files := make([]*File, n)
	used := map[string]bool{}
	var shared []Def // definitions that others use
	isShared := map[int]bool{}
	for _, d := range defs {
		for _, k := range defDeps(d, owner) {
			isShared[k] = true
		}
	}
	for i, d := range defs {
		if isShared[i] {
			shared = append(shared, d)
		}
	}
	dirs := []string{"", "", "sub", "sub/deep", "lib"}
	// packages within one another, made of the same two or three components, and
	// packages whose names differ in underscores and capitals only
	var nested []string
	if sc.SameLast && r.Pct(40) {
		nested = []string{root, root + "." + root, root + ".nn", root + ".nn." + root, root + "." + root + ".nn", root + ".nn.nn", root + ".nn.sub." + root,
			root + ".n_x", root + ".n.x", root + ".nX"}
		for i := len(nested) - 1; i > 0; i-- {
			j := r.N(i + 1)
			nested[i], nested[j] = nested[j], nested[i]
		}
	}
	for i := range files {
		f := &File{}
		last := fmt.Sprintf("m%c", 'a'+i)
		if sc.SameLast && r.Pct(60) {
			last = "mx"
		}
		mid := pick(r, []string{"", "", "sub.", "lib.deep."})
		if sc.SameLast {
			mid = fmt.Sprintf("p%c.", 'a'+i)
		}
		f.Pkg = root + "." + mid + last
		if nested == nil && len(shared) > 0 && r.Pct(35) {
			// named like a type, as in package log with struct Log
			d, n := pick(r, shared), ""
			if d.En != nil {
				n = d.En.Name
			} else {
				n = d.St.Name
			}
			n = strings.ToLower(n[:1]) + n[1:]
			if !used[n] && !badPkg[n] {
				used[n] = true
				f.Pkg = root + "." + mid + n
			}
		}
		if nested != nil && i < len(nested) {
			f.Pkg = nested[i]
		}
		f.Path = path.Join(pick(r, dirs), fmt.Sprintf("file_%c.bb", 'a'+i))
		if i == n-1 && r.Pct(60) {
			f.Path = fmt.Sprintf("file_%c.bb", 'a'+i)
		}
		if sc.PkgOpts {
			if r.Pct(50) {
				f.Options = append(f.Options, [2]string{"go_package", strconv.Quote(root + "/g/" + pick(r, []string{"", "deep/"}) + fmt.Sprintf("go%c", 'a'+i))})
			}
			if r.Pct(50) {
				f.Options = append(f.Options, [2]string{"java_package", strconv.Quote("com.ex." + fmt.Sprintf("j%c", 'a'+i))})
			}
			if r.Pct(50) {
				f.Options = append(f.Options, [2]string{"cpp_namespace", strconv.Quote(pick(r, []string{"ex::n", "flat", fmt.Sprintf("ex::deep::n%c", 'a'+i)}))})
			}
			if r.Pct(50) {
				f.Options = append(f.Options, [2]string{"csharp_namespace", strconv.Quote(pick(r, []string{"Ex.N", "Flat", fmt.Sprintf("Ex.Deep.N%c", 'a'+i)}))})
			}
		}
		files[i] = f
	}
	// place definitions: never below a dependency
	at := make([]int, len(defs))
	hole := -1 // a file that only imports others
	if n > 2 && r.Pct(50) {
		hole = r.Range(0, n-2)
	}
	for i, d := range defs {
		lo := 0
		for _, k := range defDeps(d, owner) {
			lo = max(lo, at[k])
		}
		at[i] = lo
		if r.Pct(55) {
			at[i] = r.Range(lo, n-1)
		}
		if sc.OmitEmpty && at[i] == n-1 && lo < n-1 {
			at[i] = n - 2
		}
		if at[i] == hole {
			at[i]++
		}
	}
	need := make([]map[int]bool, n)
	for i := range need {
		need[i] = map[int]bool{}
	}
	for i, d := range defs {
		f := files[at[i]]
		f.Defs = append(f.Defs, d)
		setFile(d, f)
		for _, k := range defDeps(d, owner) {
			if at[k] != at[i] {
				need[at[i]][at[k]] = true
			}
		}
	}
	reach := func(from int, skip int) map[int]bool {
		seen := map[int]bool{}
		var w func(i int)
		w = func(i int) {
			for k := range need[i] {
				if i == from && k == skip {
					continue
				}
				if !seen[k] {
					seen[k] = true
					w(k)
				}
			}
		}
		w(from)
		return seen
	}
	for i := 0; i < n; i++ { // superfluous imports
		for k := 0; k < i; k++ {
			if r.Pct(25) {
				need[i][k] = true
			}
		}
	}
	seen := reach(n-1, -1)
	for i := n - 2; i >= 0; i-- { // everything is reached from the main file
		if !seen[i] {
			need[n-1][i] = true
			seen = reach(n-1, -1)
		}
	}
	if sc.Transitive {
		for i := 0; i < n; i++ {
			for k := 0; k < i; k++ {
				if need[i][k] && r.Pct(70) && reach(i, k)[k] {
					delete(need[i], k)
				}
			}
		}
	}
	if sc.OmitEmpty {
		for i, f := range files {
			if len(f.Defs) == 0 && (i == n-1 || r.Pct(60)) || r.Pct(10) {
				f.Options = append(f.Options, [2]string{"omit_empty", pick(r, []string{"true", "true", "false"})})
			}
		}
	}
	q.Files = nil
	for i := n - 1; i >= 0; i-- {
		f := files[i]
		var ks []int
		for k := range files {
			if need[i][k] {
				ks = append(ks, k)
			}
		}
		for j := len(ks) - 1; j > 0; j-- {
			k := r.N(j + 1)
			ks[j], ks[k] = ks[k], ks[j]
		}
		for _, k := range ks {
			f.Imports = append(f.Imports, files[k])
			rel, err := filepath.Rel(filepath.Dir("/"+f.Path), "/"+files[k].Path)
			if err != nil {
				panic(err)
			}
			if r.Pct(15) {
				rel = "./" + rel
			}
			f.ImpText = append(f.ImpText, rel)
		}
		q.Files = append(q.Files, f)
	}
	return q
}

// JoinProgram is the same schema in one file.
func JoinProgram(p *Program) *Program {
	q := CloneProgram(p)
	root := strings.SplitN(q.Files[0].Pkg, ".", 2)[0]
	f := &File{Path: "joined.bb", Pkg: root + ".joined", Options: [][2]string{{"go_package", strconv.Quote(root + "/joined")}}}
	for i := len(q.Files) - 1; i >= 0; i-- {
		for _, d := range q.Files[i].Defs {
			f.Defs = append(f.Defs, d)
			setFile(d, f)
		}
	}
	q.Files = []*File{f}
	return q
}

// InlineProgram writes the fields of embedded structs out in place.
func InlineProgram(p *Program) *Program {
	q := CloneProgram(p)
	ctr := 0
	var copyField func(f *Field, ren bool) *Field
	var copyStruct func(s *Struct) *Struct
	copyStruct = func(s *Struct) *Struct { // a fresh copy of an inline definition
		ctr++
		n := &Struct{Name: fmt.Sprintf("%sInl%s", s.Name, b26(ctr, 2)), DeclSize: s.DeclSize, File: s.File, Nested: true}
		for _, f := range s.Flat() {
			n.Fields = append(n.Fields, copyField(f, true))
		}
		return n
	}
	copyField = func(f *Field, ren bool) *Field {
		g := *f
		g.Methods = append([]*Method{}, f.Methods...)
		if f.Inline && ren {
			b := baseType(f.T)
			ns := copyStruct(b.St)
			if f.T.K == KArray {
				g.T = &Type{K: KArray, N: f.T.N, Elem: &Type{K: KStruct, St: ns}}
			} else {
				g.T = &Type{K: KStruct, St: ns}
			}
		}
		return &g
	}
	done := map[*Struct]bool{}
	var walk func(s *Struct)
	walk = func(s *Struct) {
		if done[s] {
			return
		}
		done[s] = true
		var out []*Field
		for _, f := range s.Fields {
			switch f.K {
			case FEmbedRef:
				walk(f.Emb)
				for _, g := range f.Emb.Flat() {
					out = append(out, copyField(g, true))
				}
			case FEmbedDef:
				walk(f.Emb)
				for _, g := range f.Emb.Flat() {
					out = append(out, copyField(g, false))
				}
			default:
				if f.Inline {
					walk(baseType(f.T).St)
				}
				out = append(out, f)
			}
		}
		s.Fields = out
	}
	for _, s := range q.Structs() {
		walk(s)
	}
	return q
}
