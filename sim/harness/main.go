//go:build go1.21

// Command harness explores simulated executions of libasciidoc.
package main

import (
	"flag"
	"fmt"
	realos "os"
	"strconv"
	"time"
)

func main() {
	if len(realos.Args) < 2 {
		fmt.Fprintln(realos.Stderr, "usage: harness run|check|replay ...")
		realos.Exit(2)
	}
	switch realos.Args[1] {
	case "run":
		realos.Exit(childMain())
	case "check":
		fl := flag.NewFlagSet("check", flag.ExitOnError)
		id := fl.String("prop", "", "property")
		tier := fl.String("tier", "quick", "quick or thorough")
		cases := fl.Int("cases", 0, "number of cases")
		wall := fl.Duration("wall", 0, "no new cases after this time")
		fl.StringVar(&verifDir, "verif", "/verif", "where the framework is")
		_ = fl.Parse(realos.Args[2:])
		seed := uint64(1)
		if s := realos.Getenv("VERIF_SEED"); s != "" {
			v, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				v = hash64(s)
			}
			seed = v
		}
		if *wall == 0 {
			*wall = 150 * time.Second
			if *tier == "thorough" {
				*wall = 12 * time.Minute
			}
		}
		realos.Exit(check(*id, *tier, seed, *cases, *wall))
	case "gen": // prints the sources of a case
		n, _ := strconv.Atoi(realos.Args[4])
		seed, _ := strconv.ParseUint(realos.Args[3], 10, 64)
		groupSeed = seed
		sc := props[realos.Args[2]].Gen(NewCaseRng(seed, hash64(realos.Args[2]), uint64(n)), n)
		if id := realos.Args[2]; id == "C02" || id == "C03" || id == "C20" {
			buildModel(sc)
		}
		for _, t := range sc.Tasks {
			for _, op := range t.Ops {
				fmt.Println("--- op", op.Kind, op.Cfg.Filename)
				fmt.Println(op.Src)
			}
		}
		for _, f := range sc.Files {
			fmt.Println("--- file", f.Path)
			fmt.Println(f.Data)
		}
		realos.Exit(0)
	case "explore":
		n, _ := strconv.Atoi(realos.Args[3])
		dir := ""
		if len(realos.Args) > 4 {
			dir = realos.Args[4]
		}
		groupSeed = 1
		explore(realos.Args[2], n, dir)
		realos.Exit(0)
	case "replay":
		if len(realos.Args) < 3 {
			realos.Exit(2)
		}
		realos.Exit(replay(realos.Args[2]))
	}
	realos.Exit(2)
}
