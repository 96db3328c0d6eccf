package main

// Cases that only need the bubbler command: what it accepts, rejects, prints and writes.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type CliCase struct {
	Files  map[string]string // path below the case's directory -> text
	Args   []string          // {D} stands for the case's directory, as in the texts of Files
	Cwd    string            // below the directory
	Want   string            // "accept", "reject", "survive", "tree", "same"
	Expect []string          `json:",omitempty"` // tree: exactly these files, relative to the directory
	Files2 map[string]string `json:",omitempty"` // same: the other invocation
	Args2  []string          `json:",omitempty"`
	Cwd2   string            `json:",omitempty"`
	Where  []string          `json:",omitempty"` // reject: the message names one of these places (file or file:line)
	Rule   string            // what is exercised
	NoPos  bool              `json:",omitempty"` // reject: without a position
	Out    string            `json:",omitempty"` // same: subtree that is compared
	Subst  map[string]string `json:",omitempty"` // same: text replaced in the second tree before comparing
	Left   map[string]string `json:",omitempty"` // files already there that are not inputs (same: in the second run only)
	Stdout bool              `json:",omitempty"` // same: standard output counts as a file
	Fault  string            `json:",omitempty"` // iofault: what goes wrong
	FaultN int               `json:",omitempty"` // iofault: where, or how much
	ended  string
	Holds  map[string][]string `json:",omitempty"` // tree: names each file mentions
}

var posRe = regexp.MustCompile(`[^\s:]+:\d+:\d+:`)
var warnRe = regexp.MustCompile(`(?m)^.*compile warning: .*\n?`)
var ansiRe = regexp.MustCompile("\x1b\\[[0-9;]*m")

type cliResult struct {
	ExecRes
	Tree map[string]string // everything below the directory but the inputs
	Err  string            // without colours and warnings
	Dir  string
}

// runCli lays the files out in a fresh directory and runs bubbler there.
func runCli(files, left map[string]string, args []string, cwd string, tmo time.Duration) cliResult {
	d := newDir("cli")
	defer os.RemoveAll(d)
	for f, t := range files {
		p := filepath.Join(d, f)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(strings.ReplaceAll(fileText(t), "{D}", d)), 0o644)
	}
	for f, t := range left {
		p := filepath.Join(d, f)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(t), 0o644)
	}
	wd := filepath.Join(d, cwd)
	os.MkdirAll(wd, 0o755)
	var av []string
	for _, a := range args {
		av = append(av, strings.ReplaceAll(a, "{D}", d))
	}
	cliRuns.Add(1)
	r := cliResult{Tree: map[string]string{}, Dir: d}
	r.ExecRes = run(wd, nil, nil, tmo, append([]string{bubbler}, av...)...)
	r.Err = warnRe.ReplaceAllString(ansiRe.ReplaceAllString(string(r.ExecRes.Err), ""), "")
	r.Tree = treeOf(d, files)
	return r
}

// treeOf is everything below d but the inputs, which must not have changed.
func treeOf(d string, files map[string]string) map[string]string {
	tree := map[string]string{}
	filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err != nil || e.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(d, p)
		b, _ := os.ReadFile(p)
		if t, ok := files[rel]; ok {
			if strings.ReplaceAll(fileText(t), "{D}", d) != string(b) {
				tree["(input changed) "+rel] = string(b)
			}
			return nil
		}
		tree[rel] = string(b)
		return nil
	})
	return tree
}

// died: the command panicked, hung or was killed.
func (r *cliResult) died() string {
	switch {
	case r.Timeout:
		return "no end within the time limit"
	case r.Sig != "":
		return "ended by signal " + r.Sig
	case strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:") || strings.Contains(r.Err, "goroutine "):
		return "panic: " + clip2(r.Err, 600)
	}
	return ""
}

func keysOf(m map[string]string) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// diffTree describes the first difference of two sets of files.
func diffTree(a, b map[string]string) string {
	for _, k := range keysOf(a) {
		t, ok := b[k]
		if !ok {
			return fmt.Sprintf("%s is written by the first run only", k)
		}
		if t != a[k] {
			la, lb := strings.Split(a[k], "\n"), strings.Split(t, "\n")
			for i := range la {
				if i >= len(lb) || la[i] != lb[i] {
					o := ""
					if i < len(lb) {
						o = lb[i]
					}
					return fmt.Sprintf("%s differs in line %d: %q / %q", k, i+1, clip2(la[i], 200), clip2(o, 200))
				}
			}
			return fmt.Sprintf("%s differs in length", k)
		}
	}
	for _, k := range keysOf(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%s is written by the second run only", k)
		}
	}
	return ""
}

const cliLimit = 20 * time.Second

// judge returns what is wrong, or "".
func (cc *CliCase) judge() string {
	if cc.Want == "iofault" {
		return cc.judgeIO()
	}
	left := cc.Left
	if cc.Want == "same" {
		left = nil
	}
	r := runCli(cc.Files, left, cc.Args, cc.Cwd, cliLimit)
	if r.Timeout { // a busy machine: once more with patience
		r = runCli(cc.Files, left, cc.Args, cc.Cwd, 3*cliLimit)
	}
	if d := r.died(); d != "" {
		return d
	}
	switch cc.Want {
	case "survive":
		switch {
		case r.Code == 0:
			cc.ended = "ended: accepted"
		case strings.Contains(r.Err, "mismatched input") || strings.Contains(r.Err, "extraneous input") || strings.Contains(r.Err, "no viable alternative") || strings.Contains(r.Err, "missing ") || strings.Contains(r.Err, "token recognition"):
			cc.ended = "ended: syntax error"
		case r.Code == 2:
			cc.ended = "ended: bad command line"
		default:
			cc.ended = "ended: another error"
		}
		if r.Code != 0 && len(bytes.TrimSpace(r.ExecRes.Err)) == 0 {
			return fmt.Sprintf("exit status %d without a message", r.Code)
		}
		return ""
	case "accept":
		if r.Code != 0 {
			return fmt.Sprintf("rejected (exit %d): %s", r.Code, clip2(r.Err, 600))
		}
		if len(r.Tree) == 0 {
			return "accepted, but nothing was written"
		}
		return ""
	case "reject":
		switch {
		case r.Code == 0:
			return "accepted"
		case diffTree(cc.Left, r.Tree) != "":
			return fmt.Sprintf("rejected, but wrote: %s", diffTree(cc.Left, r.Tree))
		case !cc.NoPos && !posRe.MatchString(r.Err):
			return fmt.Sprintf("rejected without a position: %s", clip2(r.Err, 300))
		case len(cc.Where) > 0 && !namesOneOf(r.Err, cc.Where):
			return fmt.Sprintf("rejected without naming %v: %s", cc.Where, clip2(r.Err, 300))
		case strings.TrimSpace(r.Err) == "":
			return "rejected without a message"
		}
		return ""
	case "stdout": // what files would hold is printed instead
		if r.Code != 0 {
			return fmt.Sprintf("rejected (exit %d): %s", r.Code, clip2(r.Err, 600))
		}
		if len(r.Tree) > 0 {
			return fmt.Sprintf("wrote %v without -o", keysOf(r.Tree))
		}
		n := len(cc.Args) - 1
		args := append(append(append([]string{}, cc.Args[:n]...), "-o", "{D}/zzout"), cc.Args[n])
		r2 := runCli(cc.Files, nil, args, cc.Cwd, 3*cliLimit)
		var texts []string
		for _, k := range keysOf(r2.Tree) {
			texts = append(texts, r2.Tree[k])
		}
		if !madeOf(string(r.ExecRes.Out), texts) {
			return "standard output is not what the files hold"
		}
		return ""
	case "tree":
		if r.Code != 0 {
			return fmt.Sprintf("rejected (exit %d): %s", r.Code, clip2(r.Err, 600))
		}
		want := map[string]string{}
		for _, e := range cc.Expect {
			want[e] = ""
		}
		for k, t := range cc.Left {
			if _, ok := want[k]; !ok {
				want[k] = ""
				if r.Tree[k] != t {
					return fmt.Sprintf("changed %s", k)
				}
			} else if r.Tree[k] == t {
				return fmt.Sprintf("left the old %s", k)
			}
		}
		for k := range r.Tree {
			if _, ok := want[k]; !ok {
				return fmt.Sprintf("wrote %s; expected only %v", k, keysOf(want))
			}
		}
		for k := range want {
			if _, ok := r.Tree[k]; !ok {
				return fmt.Sprintf("did not write %s; wrote %v", k, keysOf(r.Tree))
			}
			flat := strings.ToLower(strings.ReplaceAll(r.Tree[k], "_", ""))
			for _, n := range cc.Holds[k] {
				if !strings.Contains(flat, strings.ToLower(strings.ReplaceAll(n, "_", ""))) {
					return fmt.Sprintf("%s is not in %s", n, k)
				}
			}
		}
		return ""
	case "same":
		f2, a2 := cc.Files2, cc.Args2
		if f2 == nil {
			f2 = cc.Files
		}
		if a2 == nil {
			a2 = cc.Args
		}
		cwd2 := cc.Cwd2
		if cwd2 == "" {
			cwd2 = cc.Cwd
		}
		r2 := runCli(f2, cc.Left, a2, cwd2, 3*cliLimit)
		if d := r2.died(); d != "" {
			return "second run: " + d
		}
		if r.Code != r2.Code {
			return fmt.Sprintf("exit %d and %d: %s", r.Code, r2.Code, clip2(r.Err+r2.Err, 500))
		}
		if r.Code != 0 {
			return ""
		}
		return diffTree(cc.tree(r, nil), cc.tree(r2, cc.Subst))
	}
	panic(cc.Want)
}

// madeOf: s is the texts, each once, in some order.
func madeOf(s string, texts []string) bool {
	n := 0
	for _, t := range texts {
		n += len(t)
		if !strings.Contains(s, t) {
			return false
		}
	}
	return n == len(s)
}

func namesOneOf(msg string, where []string) bool {
	for _, w := range where {
		if strings.Contains(msg, w+":") {
			return true
		}
	}
	return false
}

// tree: the written files below Out, with the directory's name taken out.
func (cc *CliCase) tree(r cliResult, subst map[string]string) map[string]string {
	o := map[string]string{}
	if cc.Stdout {
		o["(standard output)"] = string(r.ExecRes.Out)
	}
	for k, t := range r.Tree {
		if cc.Out != "" && k != cc.Out && !strings.HasPrefix(k, cc.Out+"/") {
			k = "(outside) " + k
		}
		t = strings.ReplaceAll(t, r.Dir, "{D}")
		for a, b := range subst {
			t = strings.ReplaceAll(t, a, b)
		}
		o[k] = t
	}
	return o
}

func (cc *CliCase) replay(problem string) *Replay {
	b, _ := json.Marshal(cc)
	return &Replay{Kind: "cli", Files: cc.Files, Args: cc.Args, Problem: cc.Rule + ": " + problem, Case: b}
}

// runCliCases judges the cases and reports a few, shrunk, per rule.
func (c *Ctx) runCliCases(cs []*CliCase) {
	probs := make([]string, len(cs))
	stats := map[string]int{}
	var mu sync.Mutex
	par(len(cs), func(i int) {
		if !deadline.IsZero() && time.Now().After(deadline) {
			return
		}
		probs[i] = cs[i].judge()
		if e := cs[i].ended; e != "" {
			mu.Lock()
			stats[e]++
			mu.Unlock()
		}
		cc := cs[i]
		c.St.add("cli", cc.Want, cc.ended != "a fault that no file meets", fmt.Sprint(cc.Files, cc.Args, cc.Cwd, cc.Files2, cc.Args2, cc.Cwd2, cc.Left, cc.Want, cc.Fault, cc.FaultN))
		c.class(cc.Want+": "+cc.Rule, 1)
	})
	for k, n := range stats {
		c.class(k, n)
	}
	per := map[string]int{}
	total := 0
	for i, p := range probs {
		if p == "" {
			continue
		}
		k := cs[i].Rule
		per[k]++
		if per[k] > 1 || total >= 4 {
			continue
		}
		total++
		m := cs[i].shrink(p)
		c.report(m.replay(m.judge()))
	}
	for i := 0; i < len(cs); i += max(len(cs)/8, 1) {
		c.St.sample(cs[i].Rule + ": " + strings.Join(cs[i].Args, " ") + ": " + clip2(cs[i].Files[keysOf(cs[i].Files)[0]], 300))
	}
}

// kindOf groups problems for shrinking.
func kindOf(p string) string {
	p = sigRe.ReplaceAllString(p, "")
	if len(p) > 24 {
		p = p[:24]
	}
	return p
}

// shrink removes lines from single-invocation cases that must survive.
func (cc *CliCase) shrink(p string) *CliCase {
	if cc.Want != "survive" || os.Getenv("VH_FAST") != "" {
		return cc
	}
	best := cc
	k := kindOf(p)
	end := time.Now().Add(25 * time.Second)
	with := func(f, t string) *CliCase {
		nc := *best
		nc.Files = map[string]string{}
		for a, b := range best.Files {
			nc.Files[a] = b
		}
		nc.Files[f] = t
		return &nc
	}
	// lines first, then statements and tokens
	split := []func(string) []string{
		func(s string) []string { return strings.SplitAfter(s, "\n") },
		func(s string) []string { return strings.SplitAfter(s, ";") },
		func(s string) []string { return strings.SplitAfter(s, " ") },
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for _, sp := range split {
			for _, f := range keysOf(best.Files) {
				ls := sp(best.Files[f])
				for n := (len(ls) + 1) / 2; n >= 1; n /= 2 {
					for i := 0; i+n <= len(ls) && time.Now().Before(end); {
						cand := append(append([]string{}, ls[:i]...), ls[i+n:]...)
						nc := with(f, strings.Join(cand, ""))
						if q := nc.judge(); q != "" && kindOf(q) == k {
							best, ls, changed = nc, cand, true
						} else {
							i += n
						}
					}
				}
			}
		}
	}
	return best
}

// filesOf is the text of a program below dir.
func filesOf(p *Program, dir string) map[string]string {
	m := map[string]string{}
	for _, f := range p.Files {
		m[filepath.Join(dir, f.Path)] = f.Emit()
	}
	return m
}
