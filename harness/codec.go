package main

// The reference wire codec, written from the README's format description.

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
)

// V is a value: U holds scalars at host width (two's complement, IEEE bits,
// 0/1), S holds strings and bytes, L holds array elements or struct fields.
type V struct {
	U uint64
	S []byte
	L []V
}

func mask(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(n) - 1
}

type bitw struct {
	b   []byte
	pos int
	odd *Rng // lengths in unusual forms
}

func (w *bitw) bit(v uint64) {
	if w.pos/8 >= len(w.b) {
		w.b = append(w.b, 0)
	}
	if v&1 != 0 {
		w.b[w.pos/8] |= 1 << uint(w.pos%8)
	}
	w.pos++
}

// srcBit maps the i-th wire bit of an n-bit field to a bit of its value.
func srcBit(i, n int, big bool) int {
	if !big {
		return i
	}
	k := i / 8
	sh := n - 8*(k+1)
	if sh < 0 {
		sh = 0
	}
	return sh + i%8
}

func (w *bitw) put(v uint64, n int, big bool) {
	for i := 0; i < n; i++ {
		w.bit(v >> uint(srcBit(i, n, big)))
	}
}

func (w *bitw) raw(b []byte) {
	w.b = append(w.b, b...)
	w.pos += 8 * len(b)
}

func leb(n int) []byte {
	var o []byte
	for {
		c := byte(n & 0x7f)
		n >>= 7
		if n > 0 {
			o = append(o, c|0x80)
		} else {
			return append(o, c)
		}
	}
}

// oddLeb is a length with redundant continuation bytes, or another, too large one.
func oddLeb(r *Rng, n int) []byte {
	o := leb(n)
	pad := func(k int) {
		for ; k > 0; k-- {
			o[len(o)-1] |= 0x80
			o = append(o, 0)
		}
	}
	switch r.W(40, 35, 8, 17) {
	case 0:
		pad(r.N(maxLeb - len(o) + 1))
	case 2:
		pad(r.Range(1, 14))
	case 3:
		o = nil
		for k := pick(r, []int{2, 3, 4, 4, 5, 5, 5, 6, 8, 9, 9, 10, 10, 11}); k > 0; k-- {
			o = append(o, byte(r.U64())|0x80)
			if r.Pct(40) {
				o[len(o)-1] = 0xff
			}
		}
		o[len(o)-1] &= 0x7f
		if r.Pct(30) {
			o[len(o)-1] = pick(r, []byte{1, 2, 3, 4, 7, 8, 15, 16})
		}
	}
	return o
}

func (w *bitw) val(t *Type, bits int, big bool, v V) {
	switch t.K {
	case KString:
		w.raw(v.S)
		w.raw([]byte{0})
	case KBytes:
		if w.odd != nil {
			w.raw(oddLeb(w.odd, len(v.S)))
		} else {
			w.raw(leb(len(v.S)))
		}
		w.raw(v.S)
	case KStruct:
		w.st(t.St, v)
	case KArray:
		eb := 0
		if t.N > 0 {
			eb = bits / t.N
		}
		for i := 0; i < t.N; i++ {
			w.val(t.Elem, eb, big, v.L[i])
		}
	default:
		w.put(v.U, bits, big)
	}
}

func (w *bitw) st(s *Struct, v V) {
	i := 0
	for _, f := range s.Flat() {
		switch f.K {
		case FVoid:
			w.put(0, f.Bits, false)
		case FConst:
			w.put(f.Const.Raw, f.Bits, f.Big())
		default:
			w.val(f.T, f.Bits, f.Big(), v.L[i])
			i++
		}
	}
}

func Encode(s *Struct, v V) []byte {
	w := &bitw{}
	w.st(s, v)
	return w.b
}

// span marks the wire bits of one leaf, for mutation and isolation checks.
type span struct {
	from, n int
	kind    byte // 'v' value, 'c' const, 'p' padding, 's' string/bytes payload, 'l' terminator or length
	f       *Field
	t       *Type
	path    []int
	raw     uint64
}

func (w *bitw) spansVal(t *Type, bits int, f *Field, v V, path []int, out *[]span) {
	switch t.K {
	case KString:
		*out = append(*out, span{w.pos, 8 * len(v.S), 's', f, t, cp(path), 0})
		w.pos += 8 * len(v.S)
		*out = append(*out, span{w.pos, 8, 'l', f, t, cp(path), 0})
		w.pos += 8
	case KBytes:
		l := len(leb(len(v.S)))
		*out = append(*out, span{w.pos, 8 * l, 'l', f, t, cp(path), 0})
		w.pos += 8 * l
		*out = append(*out, span{w.pos, 8 * len(v.S), 's', f, t, cp(path), 0})
		w.pos += 8 * len(v.S)
	case KStruct:
		w.spansSt(t.St, v, path, out)
	case KArray:
		for i := 0; i < t.N; i++ {
			w.spansVal(t.Elem, bits/t.N, f, v.L[i], append(path, i), out)
		}
	default:
		*out = append(*out, span{w.pos, bits, 'v', f, t, cp(path), 0})
		w.pos += bits
	}
}

func cp(p []int) []int { return append([]int(nil), p...) }

func (w *bitw) spansSt(s *Struct, v V, path []int, out *[]span) {
	i := 0
	for _, f := range s.Flat() {
		switch f.K {
		case FVoid:
			*out = append(*out, span{w.pos, f.Bits, 'p', f, nil, cp(path), 0})
			w.pos += f.Bits
		case FConst:
			*out = append(*out, span{w.pos, f.Bits, 'c', f, f.T, cp(path), f.Const.Raw})
			w.pos += f.Bits
		default:
			w.spansVal(f.T, f.Bits, f, v.L[i], append(path, i), out)
			i++
		}
	}
}

func Spans(s *Struct, v V) []span {
	w := &bitw{}
	var out []span
	w.spansSt(s, v, nil, &out)
	return out
}

type bitr struct {
	b          []byte
	pos        int
	zeros      bool // zeros follow the bytes for ever
	fix        *Rng // enum bits that are no member are overwritten
	over, huge bool // a length all targets need not accept, or none can
	utf8       bool
}

var errShort = fmt.Errorf("short")
var errConst = fmt.Errorf("const")

func (r *bitr) get(n int, big bool) (uint64, error) {
	if r.pos+n > 8*len(r.b) && !r.zeros {
		return 0, errShort
	}
	var v uint64
	for i := 0; i < n; i++ {
		if r.pos < 8*len(r.b) && r.b[r.pos/8]>>uint(r.pos%8)&1 != 0 {
			v |= 1 << uint(srcBit(i, n, big))
		}
		r.pos++
	}
	return v, nil
}

// extend turns n wire bits into the host value.
func extend(t *Type, n int, u uint64) uint64 {
	u &= mask(n)
	switch t.K {
	case KInt:
		if t.Signed && n < 64 && u>>(uint(n)-1)&1 != 0 {
			u |= ^mask(n)
		}
		return u & mask(t.W)
	case KBool:
		if u != 0 {
			return 1
		}
		return 0
	}
	return u
}

func (r *bitr) val(t *Type, bits int, big bool) (V, error) {
	switch t.K {
	case KString:
		p := r.pos / 8
		i := bytes.IndexByte(r.b[min(p, len(r.b)):], 0)
		if i < 0 && r.zeros {
			r.pos = 8 * (max(p, len(r.b)) + 1)
			return V{}, nil
		}
		if i < 0 {
			return V{}, errShort
		}
		r.pos += 8 * (i + 1)
		r.utf8 = r.utf8 && validText(r.b[p:p+i])
		return V{S: append([]byte{}, r.b[p:p+i]...)}, nil
	case KBytes:
		n, sh := 0, 0
		for {
			u, err := r.get(8, false)
			if err != nil {
				r.huge = r.huge || r.over
				return V{}, err
			}
			if sh >= 7*maxLeb {
				r.over = true
			}
			if sh > 40 && u&0x7f != 0 {
				r.over, n = true, 1<<50
			} else if sh <= 40 {
				n |= int(u&0x7f) << uint(sh)
			}
			if n > maxLen {
				r.over = true
			}
			sh += 7
			if u&0x80 == 0 {
				break
			}
		}
		p := r.pos / 8
		if p+n > len(r.b) {
			if r.zeros && n <= maxLen {
				r.pos += 8 * n
				return V{}, nil
			}
			r.huge = r.huge || n > maxLen
			return V{}, errShort
		}
		r.pos += 8 * n
		return V{S: append([]byte{}, r.b[p:p+n]...)}, nil
	case KStruct:
		return r.st(t.St)
	case KArray:
		var o V
		var bad error
		for i := 0; i < t.N; i++ {
			e, err := r.val(t.Elem, bits/t.N, big)
			if err == errConst {
				bad = err
			} else if err != nil {
				return o, err
			}
			o.L = append(o.L, e)
		}
		return o, bad
	}
	at := r.pos
	u, err := r.get(bits, big)
	if r.fix != nil && err == nil && t.K == KEnum {
		ok := false
		for _, m := range t.En.Members {
			ok = ok || uint64(m.Val)&mask(bits) == u
		}
		if !ok {
			u = uint64(pick(r.fix, t.En.Members).Val) & mask(bits)
			for i := 0; i < bits; i++ {
				setBit(r.b, at+i, u>>uint(srcBit(i, bits, big))&1 != 0)
			}
		}
	}
	return V{U: extend(t, bits, u)}, err
}

func (r *bitr) st(s *Struct) (V, error) {
	var o V
	bad := false
	for _, f := range s.Flat() {
		switch f.K {
		case FVoid:
			if _, err := r.get(f.Bits, false); err != nil {
				return o, err
			}
		case FConst:
			u, err := r.get(f.Bits, f.Big())
			if err != nil {
				return o, err
			}
			if u != f.Const.Raw&mask(f.Bits) {
				bad = true
			}
		default:
			e, err := r.val(f.T, f.Bits, f.Big())
			if err != nil && err != errConst {
				return o, err
			}
			if err == errConst {
				bad = true
			}
			o.L = append(o.L, e)
		}
	}
	if bad {
		return o, errConst
	}
	return o, nil
}

// Decode returns the value, the bytes consumed, and errShort/errConst.
func Decode(s *Struct, b []byte) (V, int, error) {
	r := &bitr{b: b}
	v, err := r.st(s)
	return v, (r.pos + 7) / 8, err
}

// Wire-normalised value: what decoding the encoding of v gives.
func Norm(s *Struct, v V) V {
	var nv func(t *Type, bits int, v V) V
	var ns func(s *Struct, v V) V
	nv = func(t *Type, bits int, v V) V {
		switch t.K {
		case KString, KBytes:
			return v
		case KStruct:
			return ns(t.St, v)
		case KArray:
			var o V
			for _, e := range v.L {
				o.L = append(o.L, nv(t.Elem, bits/t.N, e))
			}
			return o
		}
		return V{U: extend(t, bits, v.U)}
	}
	ns = func(s *Struct, v V) V {
		var o V
		for i, f := range s.Vals() {
			o.L = append(o.L, nv(f.T, f.Bits, v.L[i]))
		}
		return o
	}
	return ns(s, v)
}

// ---- token form of values (driver protocol) ----

func tokScalar(t *Type, u uint64) string {
	switch t.K {
	case KBool, KEnum:
		return strconv.FormatUint(u, 10)
	case KInt:
		if t.Signed {
			return strconv.FormatInt(sext(u, t.W), 10)
		}
		return strconv.FormatUint(u&mask(t.W), 10)
	case KFloat:
		if t.W == 32 {
			f := math.Float32frombits(uint32(u))
			if f != f {
				return "nan"
			}
		} else if f := math.Float64frombits(u); f != f {
			return "nan"
		}
		return strconv.FormatUint(u, 10)
	}
	return "?"
}

func sext(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	u &= mask(w)
	if u>>(uint(w)-1)&1 != 0 {
		u |= ^mask(w)
	}
	return int64(u)
}

func tokBytes(b []byte) string {
	if len(b) == 0 {
		return "-"
	}
	return fmt.Sprintf("%x", b)
}

func tokVal(t *Type, v V, out *[]string) {
	switch t.K {
	case KString, KBytes:
		*out = append(*out, tokBytes(v.S))
	case KStruct:
		tokStruct(t.St, v, out)
	case KArray:
		for _, e := range v.L {
			tokVal(t.Elem, e, out)
		}
	default:
		*out = append(*out, tokScalar(t, v.U))
	}
}

func tokStruct(s *Struct, v V, out *[]string) {
	for i, f := range s.Vals() {
		tokVal(f.T, v.L[i], out)
	}
}

func Toks(s *Struct, v V) string {
	var o []string
	tokStruct(s, v, &o)
	return strings.Join(o, " ")
}

func eqV(a, b V) bool {
	if a.U != b.U || !bytes.Equal(a.S, b.S) || len(a.L) != len(b.L) {
		return false
	}
	for i := range a.L {
		if !eqV(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

func clone(v V) V {
	o := V{U: v.U, S: append([]byte(nil), v.S...)}
	for _, e := range v.L {
		o.L = append(o.L, clone(e))
	}
	return o
}
