package main

import (
	"bytes"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Arbitrary bytes in place of messages (C22): what the generated readers must
// make of them is read off the reference reader.

// maxLeb is the most bytes of a length that every target has to understand,
// maxLen the greatest such length; beyond them a reader may also refuse.
const (
	maxLeb = 5
	maxLen = 1<<31 - 1<<16
)

// junkView is what the reference reader makes of some bytes.
type junkView struct {
	v     V
	n     int   // bytes of the message at the front
	err   error // errShort: incomplete, errConst: complete with a wrong constant
	min   int   // incomplete: the least size of a message that starts like this
	over  bool  // a length the reader may refuse
	text  bool  // every string is UTF-8
	leafs int
}

func viewJunk(s *Struct, b []byte) junkView {
	r := &bitr{b: b, utf8: true}
	v, err := r.st(s)
	j := junkView{v: v, n: (r.pos + 7) / 8, err: err, over: r.over, text: r.utf8}
	if err == errShort && !r.huge {
		z := &bitr{b: b, zeros: true}
		z.st(s)
		j.min = (z.pos + 7) / 8
	}
	return j
}

// fixEnums writes declared members over enum bits that are none.
func fixEnums(r *Rng, s *Struct, b []byte) {
	(&bitr{b: b, fix: r}).st(s)
}

func genJunk(r *Rng, s *Struct, a V) []byte {
	w := &bitw{}
	if r.Pct(45) {
		w.odd = r
	}
	w.st(s, a)
	b := w.b
	edit := func() {
		switch k := r.N(7); {
		case k == 0 && len(b) > 0: // cut
			b = b[:r.N(len(b))]
		case k == 1:
			for i := r.Range(1, 12); i > 0; i-- {
				b = append(b, byte(r.U64()))
			}
		case k == 2 && len(b) > 0:
			b[r.N(len(b))] ^= 1 << uint(r.N(8))
		case k == 3 && len(b) > 0:
			b[r.N(len(b))] = pick(r, []byte{0, 0x80, 0xff, 0x7f, 1, 0x81})
		case k == 4 && len(b) > 0:
			b[r.N(len(b))] = byte(r.U64())
		case k == 5 && len(b) > 0:
			i := r.N(len(b))
			b = append(b[:i], b[i+1:]...)
		case k == 6:
			i := r.N(len(b) + 1)
			b = append(b[:i:i], append([]byte{pick(r, []byte{0, 0x80, 0xff, byte(r.U64())})}, b[i:]...)...)
		}
	}
	switch r.W(30, 45, 25) {
	case 0: // complete, perhaps with something after it
		if r.Pct(50) {
			for i := r.Range(1, 20); i > 0; i-- {
				b = append(b, byte(r.U64()))
			}
		}
	case 1:
		for i := r.Range(1, 4); i > 0; i-- {
			edit()
		}
	case 2:
		n := r.N(1 + pick(r, []int{4, 12, 40, 90}))
		b = make([]byte, n)
		zero, low := r.N(60), r.N(100)
		for i := range b {
			b[i] = byte(r.U64())
			if r.Pct(zero) {
				b[i] = 0
			} else if r.Pct(low) {
				b[i] &= 0x8f
			}
		}
	}
	fixEnums(r, s, b)
	return b
}

func (c *Case) verifyJunk(s *Struct, set bool, fs []string, bad func(a, f string, x ...any)) {
	j := viewJunk(s, c.Raw)
	n := len(c.Raw)
	if len(fs) < 3 {
		bad("junk", "unreadable answer %q", strings.Join(fs, " "))
		return
	}
	ds, err1 := strconv.Atoi(fs[0])
	ret, err2 := strconv.Atoi(fs[1])
	if err1 != nil || err2 != nil {
		bad("junk", "unreadable answer %q", strings.Join(fs, " "))
		return
	}
	if fs[2] != "1" {
		bad("src", "decode changed the source buffer")
	}
	if j.over && ds < 0 {
		if ret >= 0 {
			bad("junk", "decode returned %d though decode_size refuses the length (%d)", ret, ds)
		}
		return
	}
	if j.err == errShort {
		switch {
		case ds >= 0:
			bad("junk", "decode_size says %d for an incomplete message of %d bytes", ds, n)
		case -ds <= n || j.min > 0 && -ds > j.min && !j.over:
			bad("junk", "decode_size asks for %d bytes given %d; a message that starts like this has at least %d", -ds, n, j.min)
		case ret >= 0:
			bad("junk", "decode returned %d for an incomplete message", ret)
		}
		return
	}
	if ds != j.n {
		bad("junk", "decode_size says %d, the message at the front has %d bytes", ds, j.n)
		return
	}
	if j.err != nil {
		if ret >= 0 {
			bad("junk", "decode returned %d for a message with a wrong constant", ret)
		}
		return
	}
	if !j.text && ret < 0 {
		return // text that is not UTF-8 may be refused
	}
	if ret != j.n {
		bad("junk", "decode returned %d, the message at the front has %d bytes", ret, j.n)
		return
	}
	if set && j.text {
		if d := diffToks(fields(Toks(s, j.v)), fs[3:]); d != "" {
			bad("junk", "decoded %s", d)
		}
	}
}

// smallerJunk is a list of simpler byte strings.
func smallerJunk(b []byte) [][]byte {
	var out [][]byte
	if len(b) > 1 {
		out = append(out, b[:len(b)/2])
	}
	if len(b) > 0 {
		out = append(out, b[:len(b)-1])
	}
	for i := range b {
		if len(b) <= 64 || i%(len(b)/64+1) == 0 {
			out = append(out, append(append([]byte{}, b[:i]...), b[i+1:]...))
			if b[i] != 0 {
				z := bytes.Clone(b)
				z[i] = 0
				out = append(out, z)
			}
		}
	}
	return out
}

func validText(b []byte) bool { return utf8.Valid(b) }
