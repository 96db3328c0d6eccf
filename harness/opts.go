package main

import "fmt"

// randOpts draws an accepted option combination for the target.
func randOpts(r *Rng, target string, multi bool) []string {
	var o []string
	add := func(pct int, s ...string) {
		if r.Pct(pct) {
			o = append(o, s...)
		}
	}
	add(70, fmt.Sprintf("-unroll=%d", pick(r, []int{-1, 0, 0, 1, 2, 3, 5, 6, 7, 8, 16, 31, 32, 33, 100})))
	add(40, "-decnum")
	add(40, "-memcpy")
	switch r.N(3) {
	case 0:
		o = append(o, "-signext=arith")
	case 1:
		o = append(o, "-signext=shift")
	}
	add(20, "-minimal")
	add(25, "-single")
	add(30, "-compat")
	add(30, "-inner")
	if !(target == "go" && multi) { // relative import paths are outside Go modules
		add(30, "-relpath")
	}
	return o
}
