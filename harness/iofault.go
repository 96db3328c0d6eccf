package main

// C23: a run that cannot write something fails and says so, and the same run
// works once the cause is gone.

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strconv"
	"strings"
)

// judgeIO runs the command undisturbed, then in a directory where writing
// fails, then there again with the cause removed.
func (cc *CliCase) judgeIO() string {
	if cc.Fault == "full" {
		return cc.judgeFull()
	}
	clean := runCli(cc.Files, nil, cc.Args, cc.Cwd, 3*cliLimit)
	if d := clean.died(); d != "" {
		return d
	}
	if clean.Code != 0 {
		return fmt.Sprintf("rejected (exit %d): %s", clean.Code, clip2(clean.Err, 600))
	}
	outs := keysOf(clean.Tree)
	if len(outs) == 0 {
		return ""
	}
	d := newDir("cli")
	defer os.RemoveAll(d)
	ins := cc.layOut(d)
	pick := outs[cc.FaultN%len(outs)]
	way, text, dir := "", "in the way\n", "" // what is in the way
	var argv []string
	blocked := map[string]bool{}
	limit := -1
	switch cc.Fault {
	case "dir":
		dir = pick
		way = path.Join(pick, "inside")
		blocked[pick] = true
	case "file": // a directory that would have to be made
		var ps []string
		for p := path.Dir(pick); p != "."; p = path.Dir(p) {
			if fi, err := os.Stat(filepath.Join(d, p)); err == nil && fi.IsDir() {
				break
			}
			ps = append(ps, p)
		}
		if len(ps) == 0 {
			return ""
		}
		way = ps[cc.FaultN/7%len(ps)]
		for _, o := range outs {
			if strings.HasPrefix(o, way+"/") {
				blocked[o] = true
			}
		}
	case "fsize": // no file longer than so many kilobytes
		big := 0
		for _, t := range clean.Tree {
			big = max(big, len(t))
		}
		limit = cc.FaultN % (big/1024 + 2)
		for o, t := range clean.Tree {
			if len(t) > limit*1024 {
				blocked[o] = true
			}
		}
		argv = []string{"bash", "-c", `ulimit -f "$0"; exec "$@"`, strconv.Itoa(limit)}
	}
	if way != "" {
		p := filepath.Join(d, way)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(text), 0o644)
	}
	r := cc.runAt(d, ins, argv)
	if e := r.died(); e != "" {
		return e
	}
	what := cc.Fault
	if dir != "" {
		what = dir + " is a directory"
	} else if way != "" {
		what = way + " is a file"
	} else {
		what = fmt.Sprintf("files are limited to %d KiB", limit)
	}
	cc.ended = "a fault that no file meets"
	if len(blocked) > 0 {
		cc.ended = "a fault that " + map[bool]string{true: "all", false: "some"}[len(blocked) == len(outs)] + " of the files meet"
		if r.Code == 0 {
			return fmt.Sprintf("exit 0 although %s", what)
		}
		named := false
		for o := range blocked {
			named = named || strings.Contains(r.Err, path.Base(o))
		}
		if !named {
			return fmt.Sprintf("%s: no file of %v is named: %s", what, keysOfB(blocked), clip2(r.Err, 300))
		}
	} else if r.Code != 0 {
		return fmt.Sprintf("exit %d although no file is too long: %s", r.Code, clip2(r.Err, 300))
	}
	for k, t := range r.Tree {
		switch u, out := clean.Tree[k]; {
		case k == way:
			if t != text {
				return fmt.Sprintf("%s: it was changed", what)
			}
		case !out:
			return fmt.Sprintf("%s: wrote %s", what, k)
		case !blocked[k] && t != strings.ReplaceAll(u, clean.Dir, d) && len(blocked) == 0:
			return fmt.Sprintf("%s differs under a limit that it does not reach", k)
		}
	}
	if _, ok := r.Tree[way]; way != "" && !ok {
		return fmt.Sprintf("%s: it was removed", what)
	}
	// the cause gone
	if way != "" {
		os.Remove(filepath.Join(d, way))
		if dir != "" {
			os.Remove(filepath.Join(d, dir))
		}
	}
	r = cc.runAt(d, ins, nil)
	if e := r.died(); e != "" {
		return e
	}
	if r.Code != 0 {
		return fmt.Sprintf("%s, then no more: exit %d: %s", what, r.Code, clip2(r.Err, 400))
	}
	if e := diffTree(cc.tree(clean, nil), cc.tree(r, nil)); e != "" {
		return fmt.Sprintf("%s, then no more: %s", what, e)
	}
	return ""
}

// judgeFull prints to a device that takes nothing.
func (cc *CliCase) judgeFull() string {
	r := runCli(cc.Files, nil, cc.Args, cc.Cwd, 3*cliLimit)
	if d := r.died(); d != "" {
		return d
	}
	if r.Code != 0 {
		return fmt.Sprintf("rejected (exit %d): %s", r.Code, clip2(r.Err, 600))
	}
	if len(r.ExecRes.Out) == 0 {
		return ""
	}
	d := newDir("cli")
	defer os.RemoveAll(d)
	ins := cc.layOut(d)
	r = cc.runAt(d, ins, []string{"bash", "-c", `exec "$@" >/dev/full`, "bash"})
	switch e := r.died(); {
	case e != "":
		return e
	case r.Code == 0:
		return "exit 0 although standard output takes nothing"
	case strings.TrimSpace(r.Err) == "":
		return "standard output takes nothing: no message"
	case len(r.Tree) > 0:
		return fmt.Sprintf("standard output takes nothing: wrote %v", keysOf(r.Tree))
	}
	cc.ended = "a full standard output"
	return ""
}

func keysOfB(m map[string]bool) []string {
	x := map[string]string{}
	for k := range m {
		x[k] = ""
	}
	return keysOf(x)
}

// layOut writes the inputs below d.
func (cc *CliCase) layOut(d string) map[string]string {
	for f, t := range cc.Files {
		p := filepath.Join(d, f)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(strings.ReplaceAll(fileText(t), "{D}", d)), 0o644)
	}
	os.MkdirAll(filepath.Join(d, cc.Cwd), 0o755)
	return cc.Files
}

// runAt runs the command in a directory laid out before.
func (cc *CliCase) runAt(d string, ins map[string]string, pre []string) cliResult {
	argv := append(append([]string{}, pre...), bubbler)
	for _, a := range cc.Args {
		argv = append(argv, strings.ReplaceAll(a, "{D}", d))
	}
	cliRuns.Add(1)
	r := cliResult{Dir: d}
	r.ExecRes = run(filepath.Join(d, cc.Cwd), nil, nil, 3*cliLimit, argv...)
	r.Err = warnRe.ReplaceAllString(ansiRe.ReplaceAllString(string(r.ExecRes.Err), ""), "")
	r.Tree = treeOf(d, ins)
	return r
}

func init() {
	checks["C23"] = func(c *Ctx) {
		c.Rule = "a case is one invocation on a generated schema (one file or several, generated options) run undisturbed, then where writing fails (a directory in the place of one output, a file in the place of a directory, a limit on the length of files, a standard output that takes nothing), then again with the cause gone. Non-trivial when some output meets the fault; distinct by files, arguments and fault"
		var cs []*CliCase
		for i := 0; i < c.n(40, 900); i++ {
			r := c.R.Sub(uint64(i))
			g := cfgFor(r)
			g.Structs = r.Range(1, 6)
			g.Enums = r.Pct(40)
			p := GenProgram(r, g)
			if r.Pct(60) {
				p = SplitProgram(r, p, SplitCfg{Files: r.Range(2, 5), SameLast: r.Pct(35), Transitive: r.Pct(40), PkgOpts: r.Pct(40), OmitEmpty: r.Pct(25)})
			}
			c.St.Schemas++
			for _, t := range targetsFor(p) {
				if r.Pct(50) {
					continue
				}
				opts := dropOpt(randOpts(r, t, true), "-single")
				for _, k := range []string{"dir", "file", "fsize", "full"} {
					if k == "fsize" && r.Pct(30) || k == "full" && r.Pct(50) {
						continue
					}
					o := append([]string{"-t", t}, opts...)
					if k != "full" {
						o = append(o, "-o", pick(r, []string{"{D}/out", "out", "out/a/b", "{D}/x y/z"}))
					}
					o = append(o, "{D}/in/"+p.Files[0].Path)
					cs = append(cs, &CliCase{Files: filesOf(p, "in"), Args: o, Cwd: pick(r, []string{"", "w"}), Want: "iofault", Fault: k, FaultN: r.N(10000), Rule: k + " " + t})
				}
			}
		}
		c.runCliCases(cs)
	}
}
