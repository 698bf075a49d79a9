package main

import "fmt"

func dbgFacts(w *World, cmd, kind string) {
	c := w.Cmds[cmd]
	for _, o := range w.opsKind(c, kind) {
		fmt.Println("OP", o)
		for _, f := range w.A.factsOnPath(o.Ev.Fr, o.Ev.In.Block(), c.Run) {
			fmt.Println("   ", f.True, len(f.Loops), f.T)
		}
	}
}

func dbgReport(w *World, cmd string) {
	a := w.A
	c := w.Cmds[cmd]
	var show func(p string, t *Term, d int)
	show = func(p string, t *Term, d int) {
		if d > 8 {
			return
		}
		fs := a.jsonFields(t)
		if len(fs) > 0 {
			ks := map[string]bool{}
			for k := range fs {
				ks[k] = true
			}
			for _, k := range sortedKeys(ks) {
				show(p+"."+k, fs[k], d+1)
			}
			return
		}
		s := a.seqOf(t)
		if len(s.Items) > 0 && t.T != nil && fmt.Sprint(t.T.Underlying())[0] == '[' {
			for i, it := range s.Items {
				fmt.Println(p, "ITEM", i, "loops", len(it.Loops), "conds", len(it.Conds), "splat", it.Splat, "rev", it.Rev, "uniq", it.Uniq, "part", it.Part, "alts", s.Alts)
				for _, l := range it.Loops {
					fmt.Println("     over", l.Coll)
				}
				for _, l := range it.Conds {
					fmt.Println("     if", l.True, l.T, len(l.CB))
				}
				if it.Splat {
					fmt.Println("     ", it.Body)
					continue
				}
				show(p+fmt.Sprintf("[%d]", i), it.Body, d+1)
			}
			return
		}
		for _, x := range a.resolve(t) {
			fmt.Println(p, "=", x)
		}
	}
	for _, root := range w.reportRoots(c) {
		show("", root, 0)
	}
}

func dbgTmpl(w *World, callee string) {
	for _, c := range w.Order {
		for _, e := range c.events {
			if e.Callee != callee {
				continue
			}
			fmt.Println("==", c.Path, w.P.pos(e.In.Pos()))
			for i, x := range e.Args {
				for _, t := range w.A.tmpls(x) {
					fmt.Println("  ", i, t.String())
				}
			}
			for _, f := range w.A.factsOnPath(e.Fr, e.In.Block(), c.Run) {
				fmt.Println("     ", f.True, len(f.Loops), f.T)
			}
		}
	}
}
