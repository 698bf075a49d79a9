package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func main() {
	prop := flag.String("p", "", "property to decide (or 'all', or a comma separated list)")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "source tree")
	out := flag.String("out", "/verif/evidence", "evidence folder")
	knownPath := flag.String("known", "", "known findings")
	dump := flag.String("dump", "", "print: ops, or events with this callee prefix")
	flag.Parse()
	start := time.Now()
	p, err := load(*repo)
	var w *World
	if err == nil {
		w, err = buildWorldSafe(p)
	}
	if *dump != "" {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if strings.HasPrefix(*dump, "report:") {
			dbgReport(w, strings.Split(*dump, ":")[1])
			return
		}
		if strings.HasPrefix(*dump, "tmpl=") {
			dbgTmpl(w, (*dump)[5:])
			return
		}
		if strings.HasPrefix(*dump, "objs:") {
			dbgObjs(w, strings.Split(*dump, ":")[1], strings.Split(*dump, ":")[2])
			return
		}
		if strings.HasPrefix(*dump, "facts:") {
			dbgFacts(w, strings.Split(*dump, ":")[1], strings.Split(*dump, ":")[2])
			return
		}
		dumpWorld(w, *dump)
		return
	}
	var known []knownFinding
	if *knownPath != "" {
		ks, kerr := loadKnown(*knownPath)
		if kerr != nil {
			fmt.Println("known findings:", kerr)
		}
		known = ks
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for _, c := range checks {
			ids = append(ids, c.ID)
		}
	}
	code := 0
	for _, id := range ids {
		c := findCheck(id)
		if c == nil {
			fmt.Println("unknown property", id)
			os.Exit(1)
		}
		st := start
		if len(ids) > 1 {
			st = time.Now()
		}
		var r *Report
		if err != nil {
			r = &Report{ID: id, Counts: map[string]int{}, seen: map[string]bool{}}
			r.failAt("?", "", "cannot analyse the program: %v", err)
		} else {
			r = c.exec(w)
		}
		if x := finish(c, r, *out, *tier, known, st); x != 0 {
			code = x
		}
	}
	os.Exit(code)
}

func buildWorldSafe(p *Program) (w *World, err error) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("GRCHECK_PANIC") != "" {
				panic(x)
			}
			err = fmt.Errorf("analysis stopped: %v", x)
		}
	}()
	return buildWorld(p)
}

func dumpWorld(w *World, what string) {
	for _, c := range w.Order {
		fmt.Println("==", c.Path, len(c.events))
		if what == "ops" {
			for _, o := range w.opsOf(c) {
				fmt.Println("    OP", w.P.pos(o.Site.Pos()), o.ReadOnly, o)
			}
			continue
		}
		for _, e := range c.events {
			if strings.HasPrefix(e.Callee, what) {
				fmt.Println(w.P.pos(e.In.Pos()), e.Callee, e.Args)
			}
		}
	}
}
