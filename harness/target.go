package main

// Building the compiler under test, running it, compiling and running drivers.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// allTargets have a compiler or interpreter here; runTargets adds Kotlin, which
// kt_run.go interprets.
var allTargets = []string{"c", "cpp", "cs", "cjs", "esm", "go", "java", "py"}
var runTargets = append(append([]string{}, allTargets...), "kt")

var (
	scratch  string // removed at exit
	bubbler  string
	repoDir  = "/repo"
	dirSeq   atomic.Int64
	cliRuns  atomic.Int64
	tgtRuns  atomic.Int64
	compiles atomic.Int64
)

func newDir(p string) string {
	d := filepath.Join(scratch, fmt.Sprintf("%s%d", p, dirSeq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

type ExecRes struct {
	Out, Err []byte
	Code     int // exit code; -1 signal or timeout
	Timeout  bool
	Sig      string
}

type capBuf struct {
	b   bytes.Buffer
	max int
}

func (c *capBuf) Write(p []byte) (int, error) {
	if c.b.Len() < c.max {
		k := min(len(p), c.max-c.b.Len())
		c.b.Write(p[:k])
	}
	return len(p), nil
}

func run(dir string, env []string, stdin []byte, tmo time.Duration, argv ...string) ExecRes {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	c := exec.CommandContext(ctx, argv[0], argv[1:]...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	o, e := &capBuf{max: 256 << 20}, &capBuf{max: 4 << 20}
	c.Stdout, c.Stderr = o, e
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	err := c.Run()
	r := ExecRes{Out: o.b.Bytes(), Err: e.b.Bytes()}
	if ctx.Err() != nil {
		r.Timeout = true
		r.Code = -1
		return r
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.Code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				r.Sig = ws.Signal().String()
				r.Code = -1
			}
		} else if !errors.Is(err, exec.ErrWaitDelay) {
			r.Code = -2
			r.Err = append(r.Err, []byte(err.Error())...)
		}
	}
	return r
}

// sem bounds concurrent work.
var sem = make(chan struct{}, 8)

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// buildCompiler builds the bubbler command from the repository's working tree.
func buildCompiler() error {
	bubbler = filepath.Join(scratch, "bubbler")
	r := run(repoDir, []string{"GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off"}, nil, 10*time.Minute, "go", "build", "-mod=readonly", "-o", bubbler, ".")
	if r.Code != 0 {
		return fmt.Errorf("building bubbler: %s", r.Err)
	}
	return nil
}

func cli(dir string, args ...string) ExecRes {
	cliRuns.Add(1)
	return run(dir, nil, nil, 60*time.Second, append([]string{bubbler}, args...)...)
}

// Variant is one way of generating, building and running code.
type Variant struct {
	Target string
	Opts   []string
	San    bool // C, C++: AddressSanitizer and UBSan
	Strict bool `json:",omitempty"` // build every piece alone as well (C19)
}

func (v Variant) Feat() Feat {
	return Feat{Minimal: hasOpt(v.Opts, "-minimal"), Compat: hasOpt(v.Opts, "-compat"), MemCpy: hasOpt(v.Opts, "-memcpy"), Single: hasOpt(v.Opts, "-single")}
}

func (v Variant) String() string {
	s := v.Target
	for _, o := range v.Opts {
		s += " " + o
	}
	if v.San {
		s += " +asan"
	}
	if v.Strict {
		s += " +strict"
	}
	return s
}

// canSet: the generated API lets a program assign fields.
func (v Variant) canSet() bool {
	return !v.Feat().Minimal || (v.Target != "java" && v.Target != "cs" && v.Target != "py")
}

type Fail struct {
	Stage string // "cli", "compile", "link"
	Msg   string
}

type Session struct {
	P    *Program
	V    Variant
	Dir  string
	Out  string
	argv []string
	env  []string
	kt   *ktSess
}

// WriteSchema writes the program's files below dir and returns the main path.
func WriteSchema(p *Program, dir string) string {
	for _, f := range p.Files {
		fp := filepath.Join(dir, f.Path)
		os.MkdirAll(filepath.Dir(fp), 0o755)
		os.WriteFile(fp, []byte(f.Emit()), 0o644)
	}
	return filepath.Join(dir, p.Files[0].Path)
}

func tail(b []byte, n int) string {
	s := strings.TrimSpace(string(b))
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func pkgPath(f *File) string { return strings.ReplaceAll(f.Pkg, ".", "/") }

func goPkg(f *File) string {
	for _, o := range f.Options {
		if o[0] == "go_package" {
			return strings.Trim(o[1], "\"'")
		}
	}
	return pkgPath(f)
}

func goPkgName(s string) string { return s[strings.LastIndex(s, "/")+1:] }

func globExt(dir string, exts ...string) []string {
	var out []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			for _, e := range exts {
				if strings.HasSuffix(p, e) {
					out = append(out, p)
				}
			}
		}
		return nil
	})
	return out
}

// noWarnings drops the lines that are warnings.
func noWarnings(b []byte) []byte {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.Contains(l, " warning:") {
			out = append(out, l)
		}
	}
	return []byte(strings.Join(out, "\n"))
}

// Generate runs the CLI for the variant; out is the output location's root.
func Generate(p *Program, v Variant, dir string) (string, *Fail) {
	main := WriteSchema(p, filepath.Join(dir, "src"))
	out := filepath.Join(dir, "out")
	o := out
	if v.Feat().Single {
		switch v.Target {
		case "c":
			o = filepath.Join(out, "single.bb.h")
		case "cpp":
			o = filepath.Join(out, "single.bb.hpp")
		case "cs":
			o = filepath.Join(out, "single.bb.cs")
		case "cjs":
			o = filepath.Join(out, "single.bb.js")
		case "esm":
			o = filepath.Join(out, "single.bb.mjs")
		case "go":
			o = filepath.Join(out, goPkg(p.Files[0]), "single.bb.go")
		case "py":
			o = filepath.Join(out, "single_bb.py")
		}
	}
	r := cli(dir, append(append([]string{"-t", v.Target}, v.Opts...), "-o", o, main)...)
	if r.Code != 0 {
		return out, &Fail{"cli", fmt.Sprintf("exit %d %s: %s", r.Code, r.Sig, tail(noWarnings(append(r.Err, r.Out...)), 600))}
	}
	return out, nil
}

var csRefs = func() []string {
	m, _ := filepath.Glob("/usr/lib/dotnet/shared/Microsoft.NETCore.App/*")
	if len(m) == 0 {
		return nil
	}
	var out []string
	for _, d := range []string{"System.Private.CoreLib", "System.Runtime", "System.Console", "System.Linq", "System.Collections", "System.Memory", "System.Text.Encoding.Extensions", "System.Runtime.Extensions", "System.Threading"} {
		p := filepath.Join(m[0], d+".dll")
		if _, err := os.Stat(p); err == nil {
			out = append(out, "-r:"+p)
		}
	}
	return out
}()

var cscDll = func() string {
	m, _ := filepath.Glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll")
	if len(m) == 0 {
		return ""
	}
	return m[0]
}()

// Build generates code and compiles the driver for it.
func Build(p *Program, v Variant) (*Session, *Fail) {
	p = forTarget(p, v)
	dir := newDir("s")
	s := &Session{P: p, V: v, Dir: dir}
	out, fail := Generate(p, v, dir)
	if fail != nil {
		os.RemoveAll(dir)
		return nil, fail
	}
	s.Out = out
	fail = s.compile()
	if fail == nil && v.Strict {
		fail = s.strict()
	}
	compiles.Add(1)
	if fail != nil {
		os.RemoveAll(dir)
		return nil, fail
	}
	return s, nil
}

func (s *Session) Close() { os.RemoveAll(s.Dir) }

func (s *Session) compile() *Fail {
	p, v, out := s.P, s.V, s.Out
	ft := v.Feat()
	drv := filepath.Join(s.Dir, "drv")
	os.MkdirAll(drv, 0o755)
	wr := func(name, text string) string {
		fp := filepath.Join(drv, name)
		os.MkdirAll(filepath.Dir(fp), 0o755)
		os.WriteFile(fp, []byte(text), 0o644)
		return fp
	}
	must := func(stage string, r ExecRes) *Fail {
		if r.Code != 0 {
			m := append(append([]byte{}, r.Out...), r.Err...)
			return &Fail{stage, fmt.Sprintf("exit %d: %s", r.Code, tail(m, 1500))}
		}
		return nil
	}
	const tmo = 5 * time.Minute
	switch v.Target {
	case "kt":
		return s.ktCompile()
	case "c", "cpp":
		hx, sx, comp := ".bb.h", ".bb.c", []string{"gcc", "-std=c11"}
		if v.Target == "cpp" {
			hx, sx, comp = ".bb.hpp", ".bb.cpp", []string{"g++", "-std=c++20", "-Wno-deprecated-declarations"}
			if ft.Compat {
				comp[1] = "-std=c++17"
			}
		}
		var hs []string
		if ft.Single {
			hs = []string{"single" + hx}
		} else {
			for _, f := range p.Files {
				if _, err := os.Stat(filepath.Join(out, pkgPath(f)+hx)); err == nil {
					hs = append(hs, pkgPath(f)+hx)
				}
			}
		}
		ext := map[bool]string{true: "drv.cpp", false: "drv.c"}[v.Target == "cpp"]
		src := wr(ext, emitC(p, hs, ft, v.Target == "cpp"))
		flags := []string{"-O0", "-w", "-I", out, "-fno-strict-aliasing"}
		if v.San {
			flags = append(flags, "-g1", "-fsanitize=address", "-fno-sanitize-recover=all")
		}
		exe := filepath.Join(drv, "drv")
		args := append(append([]string{}, comp...), flags...)
		args = append(args, "-o", exe, src)
		args = append(args, globExt(out, sx)...)
		args = append(args, "-lm")
		if f := must("compile", run(drv, nil, nil, tmo, args...)); f != nil {
			return f
		}
		s.argv = []string{exe}
		s.env = []string{"ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=4096"}
	case "go":
		root := filepath.Join(out, strings.SplitN(goPkg(p.Files[0]), "/", 2)[0])
		os.WriteFile(filepath.Join(root, "go.mod"), []byte("module "+filepath.Base(root)+"\n\ngo 1.21\n"), 0o644)
		imports := map[string]string{}
		qual := map[*File]string{}
		for i, f := range p.Files {
			g := goPkg(f)
			if ft.Single {
				g = goPkg(p.Files[0])
			}
			if len(globExtShallow(filepath.Join(out, g), ".go")) == 0 {
				continue
			}
			a := fmt.Sprintf("g%d", i)
			dup := false
			for k, x := range imports {
				if x == g {
					a, dup = k, true
				}
			}
			used := false
			for _, st := range p.AllStructs() {
				used = used || st.File == f
			}
			qual[f] = a + "."
			if !dup && (used || ft.Single) {
				imports[a] = g
			}
		}
		// enums may live in otherwise unused packages
		text := emitGo(p, imports, func(f *File) string { return qual[f] }, ft)
		for i, f := range p.Files {
			a := fmt.Sprintf("g%d.", i)
			if _, ok := imports[a[:len(a)-1]]; !ok && qual[f] == a && strings.Contains(text, a) {
				imports[a[:len(a)-1]] = goPkg(f)
			}
		}
		text = emitGo(p, imports, func(f *File) string { return qual[f] }, ft)
		os.MkdirAll(filepath.Join(root, "drv"), 0o755)
		os.WriteFile(filepath.Join(root, "drv", "main.go"), []byte(text), 0o644)
		exe := filepath.Join(drv, "drv")
		if f := must("compile", run(root, []string{"GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off"}, nil, tmo, "go", "build", "-o", exe, "./drv")); f != nil {
			return f
		}
		s.argv = []string{exe}
	case "java":
		a, b := emitJava(p, ft)
		srcs := append([]string{wr("Drv.java", a), wr("Tbl.java", b)}, globExt(out, ".java")...)
		cls := filepath.Join(drv, "cls")
		wr("args", strings.Join(srcs, "\n"))
		if f := must("compile", run(drv, nil, nil, tmo, "javac", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-nowarn", "-proc:none", "-d", cls, "@"+filepath.Join(drv, "args"))); f != nil {
			return f
		}
		s.argv = []string{"java", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xss8m", "-Xshare:auto", "-cp", cls, "Drv"}
	case "cs":
		a, b := emitCs(p, ft)
		srcs := append([]string{wr("Drv.cs", a), wr("Tbl.cs", b)}, globExt(out, ".cs")...)
		dll := filepath.Join(drv, "drv.dll")
		args := []string{"dotnet", "exec", cscDll, "-nologo", "-noconfig", "-nostdlib", "-unsafe", "-langversion:latest", "-warn:0", "-out:" + dll}
		args = append(args, csRefs...)
		args = append(args, srcs...)
		if f := must("compile", run(drv, []string{"DOTNET_TieredPGO=0", "DOTNET_CLI_TELEMETRY_OPTOUT=1"}, nil, tmo, args...)); f != nil {
			return f
		}
		wr("drv.runtimeconfig.json", `{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"8.0.0"}}}`)
		s.argv = []string{"dotnet", "exec", dll}
		s.env = []string{"DOTNET_TieredPGO=0", "DOTNET_gcServer=0", "DOTNET_GCHeapHardLimit=20000000"}
	case "py":
		mod := map[*File]string{}
		var mods [][2]string
		pyRoot, pyPre := pyPlace(p, v, out)
		for i, f := range p.Files {
			m := pyPre + f.Pkg + "_bb"
			if ft.Single {
				m = pyPre + "single_bb"
			} else if _, err := os.Stat(filepath.Join(out, pkgPath(f)+"_bb.py")); err != nil {
				continue
			}
			a := fmt.Sprintf("m%d", i)
			mod[f] = a
			mods = append(mods, [2]string{m, a})
		}
		src := wr("drv.py", emitPy(p, pyRoot, mods, func(f *File) string { return mod[f] }, ft))
		// accept the module as Python first
		if f := must("compile", run(drv, []string{"PYTHONDONTWRITEBYTECODE=1"}, nil, tmo, append([]string{"python3", "-c", "import sys\nfor f in sys.argv[1:]:\n    compile(open(f).read(),f,'exec')"}, globExt(out, ".py")...)...)); f != nil {
			return f
		}
		s.argv = []string{"python3", "-B", src}
	case "cjs":
		head := "const R={};\n"
		ref := map[*File]string{}
		for i, f := range p.Files {
			fp := filepath.Join(out, pkgPath(f)+".bb.js")
			if ft.Single {
				fp = filepath.Join(out, "single.bb.js")
			} else if _, err := os.Stat(fp); err != nil {
				continue
			}
			head += fmt.Sprintf("const m%d=require(%q);\n", i, fp)
			ref[f] = fmt.Sprintf("m%d.%s.", i, f.Pkg)
		}
		src := wr("drv.cjs", emitJS(p, head, func(f *File, n string) string { return ref[f] + n }, ft))
		if f := s.nodeCheck(src, globExt(out, ".js")); f != nil {
			return f
		}
		s.argv = []string{"node", src}
	case "esm":
		os.WriteFile(filepath.Join(out, "package.json"), []byte(`{"type":"module"}`), 0o644)
		head := "import {createRequire} from 'module'; const require=createRequire(import.meta.url);\n"
		ref := map[*File]string{}
		for i, f := range p.Files {
			fp, sub := filepath.Join(out, pkgPath(f)+".bb.js"), ""
			if ft.Single {
				fp = filepath.Join(out, "single.bb.mjs")
				sub = "." + f.Pkg[strings.LastIndex(f.Pkg, ".")+1:]
			} else if _, err := os.Stat(fp); err != nil {
				continue
			}
			head += fmt.Sprintf("import m%d from %q;\n", i, fp)
			ref[f] = fmt.Sprintf("m%d%s.", i, sub)
		}
		src := wr("drv.mjs", emitJS(p, head, func(f *File, n string) string { return ref[f] + n }, ft))
		if f := s.nodeCheck(src, globExt(out, ".js", ".mjs")); f != nil {
			return f
		}
		s.argv = []string{"node", src}
	}
	return nil
}

func globExtShallow(dir, ext string) []string {
	m, _ := filepath.Glob(filepath.Join(dir, "*"+ext))
	return m
}

// nodeCheck loads the modules once.
func (s *Session) nodeCheck(src string, files []string) *Fail {
	r := run(s.Dir, nil, []byte("\n"), time.Minute, "node", src)
	if r.Code != 0 {
		return &Fail{"compile", fmt.Sprintf("exit %d: %s", r.Code, tail(r.Err, 900))}
	}
	return nil
}

// Run sends the command lines and returns one answer per line. A crash is
// reported as "CRASH ..." for the line that caused it.
func (s *Session) Run(lines []string) []string {
	if s.kt != nil {
		tgtRuns.Add(1)
		out := make([]string, len(lines))
		for i, l := range lines {
			if s.kt.unsup != "" {
				out[i] = "UNSUP " + s.kt.unsup
			} else {
				out[i] = s.kt.exec(l)
			}
		}
		return out
	}
	out := make([]string, 0, len(lines))
	crashes := 0
	patient := false
	for len(out) < len(lines) {
		rest := lines[len(out):]
		tgtRuns.Add(1)
		r := run(s.Dir, s.env, []byte(strings.Join(rest, "\n")+"\n"), map[bool]time.Duration{false: 100 * time.Second, true: 200 * time.Second}[patient], s.argv...)
		ol := strings.Split(string(r.Out), "\n")
		if len(ol) > 0 { // drop the piece after the last newline
			ol = ol[:len(ol)-1]
		}
		for _, l := range ol {
			if len(out) < len(lines) {
				out = append(out, strings.TrimSpace(l))
			}
		}
		if len(out) >= len(lines) {
			break
		}
		if r.Timeout && !patient {
			patient = true // a busy machine? once more with patience
			continue
		}
		crashes++
		msg := fmt.Sprintf("CRASH exit=%d %s timeout=%v %s", r.Code, r.Sig, r.Timeout, crashMsg(r.Err))
		out = append(out, msg)
		if crashes > 25 {
			for len(out) < len(lines) {
				out = append(out, "CRASH (too many crashes, not run)")
			}
		}
	}
	return out
}

func crashMsg(b []byte) string {
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "ERROR:") || strings.Contains(l, "runtime error") || strings.HasPrefix(l, "READ of") || strings.HasPrefix(l, "WRITE of") || strings.Contains(l, ".bb.") {
			keep = append(keep, l)
			if len(keep) >= 5 {
				break
			}
		}
	}
	if len(keep) == 0 {
		return tail(b, 300)
	}
	return tail([]byte(strings.Join(keep, " | ")), 500)
}

func init() { // for working on a copy; the registered commands do not set it
	if d := os.Getenv("VH_REPO"); d != "" {
		repoDir = d
	}
	if t := os.Getenv("VH_TARGETS"); t != "" {
		allTargets = strings.Split(t, ",")
		runTargets = allTargets
	}
}

// pyPlace returns the directory to import the generated modules from, and the
// package they are imported in. Relative imports do not reach out of a top-level
// package, so where a module lies outside all packages and another one inside,
// the output directory is imported as a package itself.
func pyPlace(p *Program, v Variant, out string) (string, string) {
	if hasOpt(v.Opts, "-relpath") {
		for _, f := range p.Files {
			if !strings.Contains(f.Pkg, ".") {
				return filepath.Dir(out), filepath.Base(out) + "."
			}
		}
	}
	return out, ""
}
