package main

import "fmt"

func dbgObjs(w *World, cmd, typ string) {
	a := w.A
	c := w.Cmds[cmd]
	for _, o := range w.objsOf(c, typ) {
		fmt.Println("OBJ", o, w.P.pos(o.Val.Pos()), o.Fr)
		for _, f := range sortedFields(a.heap[o]) {
			for _, s := range a.heap[o][f] {
				fmt.Println("   ", f, "<-", s.Val, " @", w.P.pos(s.In.Pos()))
			}
			s := a.seqOf(a.field(o, f))
			for i, it := range s.Items {
				fmt.Println("      ITEM", i, "splat", it.Splat, "part", it.Part, "rev", it.Rev, it.Body, a.values(it.Body))
				for _, l := range it.Loops {
					fmt.Println("           over", l.Coll, a.values(l.Coll))
				}
				for _, l := range it.Conds {
					fmt.Println("           if", l.True, l.T)
				}
			}
		}
	}
}
