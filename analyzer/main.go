package main

import (
	"flag"
	"fmt"
	"os"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence goes")
	tier := flag.String("tier", "quick", "quick or thorough")
	prop := flag.String("prop", "", "property id, or all")
	cpu := flag.String("cpu", "", "write a CPU profile")
	flag.Parse()
	rdebug.SetGCPercent(400)
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *prop != "" {
		ids := strings.Split(*prop, ",")
		if *prop == "all" {
			ids = nil
			for k := range rules {
				ids = append(ids, k)
			}
			sort.Strings(ids)
		}
		os.Exit(mainCheck(ids, *tier, *repo, *verif))
	}
	debug(*repo, flag.Args())
}

func debug(repo string, args []string) {
	t := time.Now()
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", len(p.funcs), time.Since(t))
	for _, n := range args {
		t := time.Now()
		x := NewExec(p)
		fn := p.fn(n)
		x.prof = map[string]int{}
		if fn == nil {
			fmt.Println("no", n)
			continue
		}
		ex := x.Run(fn, nil)
		fmt.Println(n, "exits", len(ex), "steps", x.steps, "states", x.nState, "merges", x.nMerge, "over", x.over, time.Since(t))
		for k, v := range x.prof {
			if v > 1000 {
				fmt.Println("prof", v, k)
			}
		}
		for i, e := range ex {
			if i > 6 {
				break
			}
			fmt.Println("--", e.res, "\n", e.s.f)
		}
	}
}
