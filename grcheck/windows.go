package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// inst is a moment (or a length of time): base plus a constant number of nanoseconds plus multiples of other values.
type inst struct {
	base *Term
	off  int64
	syms map[*Term]int64
}

func (i inst) plain() bool { return len(i.syms) == 0 }

// headerPhi: the loop whose header holds the phi.
func headerPhi(t *Term) (*ssa.Phi, *Loop) {
	if t == nil || t.Op != "phi" {
		return nil, nil
	}
	ph, ok := t.Val.(*ssa.Phi)
	if !ok {
		return nil, nil
	}
	for _, l := range cfgOf(ph.Parent()).loops {
		if l.Header == ph.Block() {
			return ph, l
		}
	}
	return nil, nil
}

// cellVal: what a variable written once, as a whole, holds.
func (a *Analysis) cellVal(b *Term) *Term {
	if b == nil || b.Op != "obj" {
		return nil
	}
	var v *Term
	for k, rs := range a.heap[b] {
		for _, r := range rs {
			if r.Zero {
				continue
			}
			if k != "*" || v != nil {
				return nil
			}
			v = r.Val
		}
	}
	return v
}

// peel follows copies, single values and wrappers which keep the value, but not the variables of loops.
func (a *Analysis) peel(t *Term) *Term {
	for k := 0; k < 10; k++ {
		if ph, _ := headerPhi(t); ph != nil {
			return t
		}
		if t.Op == "elem" || t.Op == "rangeidx" || t.Op == "rangekey" {
			return t
		}
		if t.Op == "conv" || t.Op == "chtype" {
			t = t.Args[0]
			continue
		}
		if t.Op == "load" {
			// a cell written once
			if v := a.cellVal(a.one(t.Args[0])); v != nil {
				t = v
				continue
			}
		}
		if x := a.val(t); x != nil && x != t {
			t = x
			continue
		}
		if t.Op == "field" {
			// a member written once
			if b := a.one(t.Args[0]); b != nil && b.Op == "obj" {
				var v *Term
				n := 0
				for _, r := range a.heap[b][t.S] {
					if !r.Zero {
						v, n = r.Val, n+1
					}
				}
				if n == 1 && len(a.heap[b]["*"]) == 0 {
					t = v
					continue
				}
			}
		}
		break
	}
	return t
}

var sameInstant = map[string]bool{
	"(time.Time).UTC": true, "(time.Time).Local": true, "(time.Time).In": true,
}

func (a *Analysis) instant(t *Term) inst {
	r := inst{syms: map[*Term]int64{}}
	a.addInst(&r, t, 1, 0)
	for s, k := range r.syms {
		if k == 0 {
			delete(r.syms, s)
		}
	}
	return r
}

// length of time
func (a *Analysis) length(t *Term) inst {
	r := inst{syms: map[*Term]int64{}}
	a.addLen(&r, t, 1, 0)
	for s, k := range r.syms {
		if k == 0 {
			delete(r.syms, s)
		}
	}
	return r
}

func (a *Analysis) addInst(r *inst, t *Term, k int64, d int) {
	t = a.peel(t)
	if d < 12 && t.Op == "call" {
		switch {
		case t.Callee == "(time.Time).Add":
			a.addInst(r, t.Args[0], k, d+1)
			a.addLen(r, t.Args[1], k, d+1)
			return
		case sameInstant[t.Callee]:
			a.addInst(r, t.Args[0], k, d+1)
			return
		case t.Callee == "(time.Time).AddDate":
			// days of 24 hours (where the clocks are not changed)
			if len(t.Args) == 4 {
				y, ok1 := a.peel(t.Args[1]).isConstInt()
				m, ok2 := a.peel(t.Args[2]).isConstInt()
				n, ok3 := a.peel(t.Args[3]).isConstInt()
				if ok1 && ok2 && ok3 && y == 0 && m == 0 {
					a.addInst(r, t.Args[0], k, d+1)
					r.off += k * n * day
					return
				}
			}
		}
	}
	r.base = t
}

func (a *Analysis) addLen(r *inst, t *Term, k int64, d int) {
	t = a.peel(t)
	if n, ok := t.isConstInt(); ok {
		r.off += k * n
		return
	}
	if d < 12 && t.Op == "unop" && t.S == "-" {
		a.addLen(r, t.Args[0], -k, d+1)
		return
	}
	if d < 12 && t.Op == "binop" {
		switch t.S {
		case "+":
			a.addLen(r, t.Args[0], k, d+1)
			a.addLen(r, t.Args[1], k, d+1)
			return
		case "-":
			a.addLen(r, t.Args[0], k, d+1)
			a.addLen(r, t.Args[1], -k, d+1)
			return
		case "*":
			if n, ok := a.peel(t.Args[1]).isConstInt(); ok {
				a.addLen(r, t.Args[0], k*n, d+1)
				return
			}
			if n, ok := a.peel(t.Args[0]).isConstInt(); ok {
				a.addLen(r, t.Args[1], k*n, d+1)
				return
			}
		}
	}
	r.syms[t] += k
}

func (i inst) same(a *Analysis, j inst) bool {
	if i.off != j.off || len(i.syms) != len(j.syms) || (i.base == nil) != (j.base == nil) {
		return false
	}
	for s, k := range i.syms {
		if j.syms[s] != k {
			return false
		}
	}
	if i.base == j.base {
		return true
	}
	return i.base != nil && (a.sameVal(i.base, j.base) || sameSet(a.resolve(i.base), a.resolve(j.base)))
}

// winGen describes a series of moments: start, start+step, start+2*step ...; count of them, or all before end.
type winGen struct {
	start inst
	step  int64
	count int64
	end   *Term
	loops []*LoopCtx // loops which go through the series
}

// series: t takes the moments of a series (offset off added).
func (w *World) series(t *Term) (g *winGen, off int64, why string) {
	a := w.A
	i := a.instant(t)
	var loops []*LoopCtx
	for k := 0; k < 4 && i.base != nil && i.base.Op == "elem" && i.plain(); k++ {
		lp := i.base.Loop
		if lp == nil || lp.Part || lp.Coll == nil {
			return nil, 0, "some of the windows may be left out"
		}
		loops = append(loops, lp)
		s := a.seqOf(lp.Coll)
		var items []*SeqItem
		for _, it := range s.Items {
			if it.Splat && len(a.values(it.Body)) == 0 {
				continue
			}
			items = append(items, it)
		}
		if len(items) != 1 || items[0].Splat || len(items[0].Loops) != 1 {
			return nil, 0, "the windows are not understood"
		}
		it := items[0]
		if len(it.Conds) > 0 || it.Part || it.Loops[0].Part || it.Uniq {
			return nil, 0, "some of the windows may be left out"
		}
		off += i.off
		i = a.instant(it.Body)
		loops = append(loops, it.Loops...)
	}
	if ph, l := headerPhi(i.base); ph != nil && i.plain() {
		off += i.off
		fr := i.base.Fr
		lc := fr.loopCtx(l)
		loops = append(loops, lc)
		if lc.Part {
			return nil, 0, "some of the windows may be left out"
		}
		g = &winGen{count: -1, loops: loops}
		seen := false
		for n, p := range ph.Block().Preds {
			e := a.instant(fr.eval(ph.Edges[n]))
			if !l.Blocks[p] {
				if seen && !g.start.same(a, e) {
					return nil, 0, "the windows start at different moments"
				}
				g.start, seen = e, true
				continue
			}
			if e.base != i.base || !e.plain() || e.off <= 0 {
				return nil, 0, "a window does not start where the one before ends"
			}
			if g.step != 0 && g.step != e.off {
				return nil, 0, "the windows have different lengths"
			}
			g.step = e.off
		}
		if why := w.seriesEnd(g, lc, ph); why != "" {
			return nil, 0, why
		}
		return g, off, ""
	}
	if i.base != nil && len(i.syms) == 1 {
		for s, k := range i.syms {
			var lc *LoopCtx
			if s.Op == "rangeidx" {
				lc = s.Loop
			} else if ph, l := headerPhi(s); ph != nil && l.Phi == ph {
				lc = s.Fr.loopCtx(l)
			}
			if lc == nil || lc.L == nil || lc.L.Kind != "count" || k <= 0 {
				return nil, 0, "the windows are not understood"
			}
			if lc.Part {
				return nil, 0, "some of the windows may be left out"
			}
			from, to, ok := countBounds(lc.L)
			if !ok {
				return nil, 0, "the number of windows is unknown"
			}
			g = &winGen{step: k, count: to - from, loops: append(loops, lc)}
			g.start = inst{base: i.base, off: i.off + off + from*k}
			return g, 0, ""
		}
	}
	return nil, 0, "only one window is asked for"
}

func countBounds(l *Loop) (from, to int64, ok bool) {
	if l.From == nil || l.To == nil {
		return 0, 0, false
	}
	f, ok1 := constant.Int64Val(constant.ToInt(l.From))
	t, ok2 := constant.Int64Val(constant.ToInt(l.To))
	return f, t, ok1 && ok2
}

// seriesEnd finds out how long the loop goes on.
func (w *World) seriesEnd(g *winGen, lc *LoopCtx, ph *ssa.Phi) string {
	a := w.A
	l := lc.L
	if l.Kind == "count" {
		from, to, ok := countBounds(l)
		if !ok {
			return "the number of windows is unknown"
		}
		g.count = to - from
		return ""
	}
	iff, ok := lastInstr(l.Header).(*ssa.If)
	if !ok {
		return "the end of the windows is not understood"
	}
	stay := l.Blocks[l.Header.Succs[0]]
	v := iff.Cond
	for {
		if n, isN := v.(*ssa.UnOp); isN && n.Op == token.NOT {
			v, stay = n.X, !stay
			continue
		}
		break
	}
	c := lc.Fr.eval(v)
	if c.Op != "call" || len(c.Args) != 2 {
		return "the end of the windows is not understood"
	}
	self := lc.Fr.eval(ph)
	x, y := a.instant(c.Args[0]), a.instant(c.Args[1])
	var end *Term
	switch {
	case x.base == self && x.plain() && x.off == 0 && (c.Callee == "(time.Time).Before" && stay || c.Callee == "(time.Time).After" && !stay):
		end = c.Args[1]
	case y.base == self && y.plain() && y.off == 0 && (c.Callee == "(time.Time).After" && stay || c.Callee == "(time.Time).Before" && !stay):
		end = c.Args[0]
	default:
		return "the windows may end too early or never"
	}
	g.end = end
	return ""
}
