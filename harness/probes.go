package main

// Probes of the known findings: each repeats exactly the recorded input.

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// probeRun generates code for one schema and runs a command on it; nil if bubbler rejects it.
func probeRun(schema string, args []string, more map[string]string, cmd ...string) *ExecRes {
	d := newDir("probe")
	defer os.RemoveAll(d)
	os.WriteFile(filepath.Join(d, "s.bb"), []byte(schema), 0o644)
	for f, t := range more {
		os.WriteFile(filepath.Join(d, f), []byte(t), 0o644)
	}
	if r := run(d, nil, nil, time.Minute, append(append([]string{bubbler}, args...), "s.bb")...); r.Code != 0 {
		return nil
	}
	if cmd == nil {
		return &ExecRes{}
	}
	r := run(d, nil, nil, 2*time.Minute, cmd...)
	return &r
}

const wideEnum = "package p.z;\nenum E[5] { EA = 1; };\nstruct S { E e; };\n"

func init() {
	probes["wide-enum-cjs"] = func() bool {
		r := probeRun(wideEnum, []string{"-t", "cjs", "-single", "-o", "g.js"}, map[string]string{"t.js": "const m=require('./g.js');const s=new m.p.z.S();s.e=1;const b=new Uint8Array(5);s.encode(b);console.log(Buffer.from(b).toString('hex'));\n"}, "node", "t.js")
		return r != nil && strings.TrimSpace(string(r.Out)) == "0100000001"
	}
	probes["wide-enum-esm"] = func() bool {
		r := probeRun(wideEnum, []string{"-t", "esm", "-single", "-o", "g.mjs"}, map[string]string{"t.mjs": "import m from './g.mjs';const s=new m.z.S();s.e=1;const b=new Uint8Array(5);s.encode(b);console.log(Buffer.from(b).toString('hex'));\n"}, "node", "t.mjs")
		return r != nil && strings.TrimSpace(string(r.Out)) == "0100000001"
	}
	probes["long-enum-java"] = func() bool {
		r := probeRun("package p.z;\nenum E[5] { EA = 0x100000000; };\nstruct S { E e; };\n", []string{"-t", "java", "-o", "o"}, nil, "javac", "-d", "c", "o/p/z/E.java", "o/p/z/S.java")
		return r != nil && r.Code != 0 && bytes.Contains(append(r.Out, r.Err...), []byte("int"))
	}
	probes["float-inf"] = func() bool {
		r := probeRun("package p.z;\nstruct S { float64 a = inf; };\n", []string{"-t", "java", "-o", "o"}, nil, "javac", "-d", "c", "o/p/z/S.java")
		return r != nil && r.Code != 0 && bytes.Contains(append(r.Out, r.Err...), []byte("Inf"))
	}
	probes["enum-constant"] = func() bool {
		return probeRun("package p.z;\nenum FrameType[1] { FRAME_DATA; };\nstruct S { FrameType opcode = FRAME_DATA; };\n", []string{"-t", "c", "-o", "o"}, nil) == nil
	}
	probes["nested-depth"] = func() bool {
		d := newDir("probe")
		defer os.RemoveAll(d)
		t := "package p;\n"
		for i := 0; i < 14; i++ {
			t += "struct A" + string(rune('a'+i)) + " { "
		}
		t += "uint8 x; "
		for i := 13; i > 0; i-- {
			t += "} a" + string(rune('a'+i)) + "; "
		}
		os.WriteFile(filepath.Join(d, "s.bb"), []byte(t+"}\n"), 0o644)
		return run(d, nil, nil, 20*time.Second, bubbler, "-t", "c", "-o", "o", "s.bb").Timeout
	}
}
