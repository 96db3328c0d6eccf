package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// replayFile repeats the case of a replay file. 1: it still fails, 0: it passes.
func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Println(err)
		return 2
	}
	v := Variant{Target: rp.Target, Opts: rp.Options, San: rp.San, Strict: rp.Kind == "build" && rp.Property == "C19"}
	switch rp.Kind {
	case "case", "build", "pair":
		var p *Program
		if err := loadGraph(rp.Prog, &p); err != nil {
			fmt.Println(err)
			return 2
		}
		var c *Case
		if len(rp.Case) > 0 {
			if err := loadGraph(rp.Case, &c); err != nil {
				fmt.Println(err)
				return 2
			}
		}
		for _, f := range p.Files {
			fmt.Printf("---- %s\n%s", f.Path, f.Emit())
		}
		if rp.Kind == "pair" {
			var cs []*Case
			if c != nil {
				cs = append(cs, c)
			}
			fs, note := runPair(p, v, cs, rp.Extra["compared_with"], nil)
			if note != "" {
				fmt.Println(note)
			}
			for _, f := range fs {
				fmt.Println(f)
				return 1
			}
			return 0
		}
		p = forTarget(p, v)
		s, fail := Build(p, v)
		if fail != nil {
			fmt.Printf("%s: %s failed: %s\n", v, fail.Stage, fail.Msg)
			return 1
		}
		if c == nil {
			fmt.Println("builds")
			return 0
		}
		if os.Getenv("KEEP") != "" {
			fmt.Println(s.Dir)
			defer fmt.Scanln()
		}
		outs, cmds := s.Exec([]*Case{c})
		fmt.Printf("%s\ncommand: %s\nanswer:  %s\n", v, cmds[0], outs[0])
		ret := 0
		for _, pr := range c.verify(p, v, outs[0]) {
			fmt.Printf("problem: %s: %s\n", pr.Aspect, pr.Msg)
			if pr.Aspect == rp.Aspect || pr.Aspect == "crash" {
				ret = 1
			}
		}
		return ret
	}
	if rp.Kind == "cli" {
		var cc CliCase
		if err := json.Unmarshal(rp.Case, &cc); err != nil {
			fmt.Println(err)
			return 2
		}
		for _, f := range keysOf(cc.Files) {
			fmt.Printf("---- %s\n%s\n", f, cc.Files[f])
		}
		fmt.Println("bubbler", cc.Args)
		if p := cc.judge(); p != "" {
			fmt.Println("problem:", p)
			return 1
		}
		return 0
	}
	fmt.Println("unknown replay kind")
	return 2
}
