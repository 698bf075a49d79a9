package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P25", "Members of the Jaeger report traced to their flag or environment; the condition of the same-service list and the count it compares; orientation, limit and order of the heap of slow traces; path enumeration of the visitor that compacts traces: kept, labelled and popped exactly on the specified truth table; recursion of every visitor.", checkP25)
}

func checkP25(w *World, r *Report) {
	a := w.A
	c := w.Cmds[jaegerCmd]
	if c == nil {
		r.missing("command %q", jaegerCmd)
		return
	}
	roots := w.reportRoots(c)
	if len(roots) != 1 {
		r.missing("the report of %q", c.Path)
		return
	}
	at := func(m string) *Term {
		t := a.jsonAt(roots[0], "digData.jaeger."+m)
		if t == nil {
			r.missing("member %s of the report", m)
		}
		return t
	}
	// scalars
	if t := at("uiPath"); t != nil {
		r.count("members traced", 1)
		n := 0
		for _, x := range a.resolve(t) {
			if x.Op == "zero" {
				continue
			}
			n++
			if n, ok := envName(x); !ok || n != "JAEGER_UI_URL" {
				r.failAt("", c.Path, "uiPath is not JAEGER_UI_URL: %s", trim(x.String()))
			}
		}
		if n == 0 {
			r.failAt("", c.Path, "uiPath is not JAEGER_UI_URL")
		}
	}
	for _, m := range [][2]string{{"slowThresholdMilli", "min-duration-millisecond"}, {"sameServiceThreshold", "same-service-threshold"}} {
		if t := at(m[0]); t != nil {
			r.count("members traced", 1)
			fl := c.flag(m[1])
			if fl == nil {
				r.missing("flag --%s", m[1])
			} else if !w.isFlag(t, fl) {
				r.failAt("", c.Path, "%s is not --%s: %s", m[0], m[1], trim(t.String()))
			}
		}
	}
	if t := at("sameServiceTraces"); t != nil {
		w.checkSameService(c, r, t)
	}
	if t := at("slowTraces"); t != nil {
		w.checkSlow(c, r, t)
	}
	w.checkCompaction(c, r)
	w.checkTraceViews(c, r)
}

// checkSameService: the list holds exactly the traces calling a service more often than the threshold.
func (w *World) checkSameService(c *Command, r *Report, t *Term) {
	a := w.A
	fl := c.flag("same-service-threshold")
	seen := 0
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if d > 4 {
			return
		}
		for _, it := range a.seqOf(t).Items {
			bad := func(f string, args ...any) {
				if it.At != nil {
					r.failAt(w.P.pos(it.At.Pos()), it.Fr.String(), f, args...)
				} else {
					r.failAt("", c.Path, f, args...)
				}
			}
			for _, f := range a.condFacts(it.Conds) {
				if f.T.Op != "binop" {
					continue
				}
				x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
				if fl != nil && w.isFlag(x, fl) {
					x, y, op = y, x, swapOpS(op)
				}
				if fl == nil || !w.isFlag(y, fl) {
					continue
				}
				if !f.True {
					op = negOpS(op)
				}
				seen++
				r.count("conditions of the same-service list", 1)
				if op != ">" {
					bad("traces are picked when their count is %s the threshold, not when it is more", op)
				}
				var el *Term
				if len(it.Loops) > 0 && it.Loops[len(it.Loops)-1].Coll != nil {
					lp := it.Loops[len(it.Loops)-1]
					el = a.mk("elem", "", 0, lp, lp.Coll)
				}
				w.checkCount(c, r, x, el, bad)
			}
			if seen > 0 {
				continue
			}
			for _, l := range it.Loops {
				if l.Coll != nil {
					walk(l.Coll, d+1)
				}
			}
			if it.Splat {
				walk(it.Body, d+1)
			}
		}
	}
	walk(t, 0)
	if seen == 0 {
		r.failAt("", c.Path, "sameServiceTraces does not depend on --same-service-threshold")
	}
}

// checkCount: x is the highest number of spans one service has in the trace.
func (w *World) checkCount(c *Command, r *Report, x, tree *Term, bad func(string, ...any)) {
	a := w.A
	for k := 0; k < 6; k++ {
		x = a.copied(x)
		if x.Op != "call" || len(x.Inls) != 1 || len(x.Inls[0].results(0)) != 1 || strings.HasPrefix(x.Callee, "github.com/samber/lo.") {
			break
		}
		x = x.Inls[0].results(0)[0]
	}
	if !(x.Op == "call" && strings.HasPrefix(x.Callee, "github.com/samber/lo.")) {
		x = a.peel(x)
	}
	if isLen(x) {
		bad("the count is not how often one service is called")
		return
	}
	if x.Op != "call" || !strings.HasPrefix(x.Callee, "github.com/samber/lo.") {
		r.count("counts not followed", 1)
		return
	}
	if !strings.HasSuffix(x.Callee, "lo.Max") {
		bad("the count is not the highest of the services (%s)", x.Callee)
		return
	}
	v := a.peel(x.Args[0])
	if v.Op != "call" || !strings.HasSuffix(v.Callee, "lo.Values") {
		r.count("counts not followed", 1)
		return
	}
	ms := a.resolve(v.Args[0])
	if len(ms) != 1 || ms[0].Op != "makemap" {
		r.count("counts not followed", 1)
		return
	}
	r.count("counts traced", 1)
	recs := a.heap[ms[0]]["[]"]
	if len(recs) == 0 {
		bad("nothing is counted")
	}
	for _, rec := range recs {
		w.checkTally(r, rec, ms[0], tree, func(v *Term) bool { k, ok := a.peel(v).isConstInt(); return ok && k == 1 }, "each span counts once", bad)
	}
}

// checkTally: m[service of the node] += amount, for every node of the tree.
func (w *World) checkTally(r *Report, rec *StoreRec, m, tree *Term, amount func(*Term) bool, what string, bad0 func(string, ...any)) {
	a := w.A
	bad := func(f string, args ...any) { r.failAt(w.P.pos(rec.In.Pos()), rec.Fr.String(), f, args...) }
	node := w.memberOf(rec.Key, "ServiceName")
	if node == nil {
		if w.memberOf(rec.Key, "Name") != nil || w.idOf(rec.Key, "SpanId") != nil || w.idOf(rec.Key, "TraceId") != nil {
			bad("the tally is not per service")
		} else {
			r.count("tallies not followed", 1)
		}
		return
	}
	r.count("tallies", 1)
	v := a.peel(rec.Val)
	if v.Op != "binop" || v.S != "+" {
		bad("the tally is not increased (%s)", what)
		return
	}
	ok := false
	for i := 0; i < 2; i++ {
		g := v.Args[i]
		for g.Op == "conv" || g.Op == "chtype" || g.Op == "res" && g.Args[0].Op == "mapget" {
			g = g.Args[0]
		}
		if g.Op == "mapget" && a.sameVal(g.Args[0], m) && (g.Args[1] == rec.Key || w.memberOf(g.Args[1], "ServiceName") != nil) && amount(v.Args[1-i]) {
			ok = true
		}
	}
	if !ok {
		bad("the tally is not increased by the right amount (%s)", what)
	}
	if tree != nil {
		root := a.peel(node)
		own := false
		a.reach(root, func(y *Term) bool {
			if y == tree {
				own = true
			}
			return !own
		})
		if !own && root.Op == "field" && root.S == "Root" {
			bad("the tally is not of the trace itself")
		}
	}
	w.checkVisited(r, rec.In, rec.Fr, 0, bad)
}

// visitOf: the recursive function over nodes that leads to the frame; the call leading there.
func (w *World) visitOf(in ssa.Instruction, fr *Frame) (*Frame, ssa.Instruction, []step) {
	var chain []step
	for fr != nil {
		chain = append([]step{{fr, in}}, chain...)
		if in == nil {
			return nil, nil, nil
		}
		if selfCall(fr.Fn) != nil {
			return fr, in, chain[1:]
		}
		in = fr.Site
		fr = fr.Parent
		if in == nil {
			return nil, nil, nil
		}
	}
	return nil, nil, nil
}

func selfCall(fn *ssa.Function) *ssa.Call {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == fn {
				return call
			}
		}
	}
	return nil
}

// checkVisited: the instruction is executed exactly once for every node of the tree.
// order: -1 before its children, 1 after, 0 either.
func (w *World) checkVisited(r *Report, in ssa.Instruction, fr *Frame, order int, bad func(string, ...any)) bool {
	vf, site, chain := w.visitOf(in, fr)
	if vf == nil {
		r.count("visits not followed", 1)
		return false
	}
	r.count("visits", 1)
	if order == 0 {
		for _, s := range chain {
			ci := cfgOf(s.Fr.Fn)
			if len(ci.loopChain(s.In.Block())) > 0 {
				bad("a node may be visited more than once")
			} else if !ci.mustExec(s.In.Block()) {
				bad("some nodes may be left out")
			}
		}
	}
	w.checkVisitor(r, vf, site, order, bad)
	return true
}

func (w *World) checkVisitor(r *Report, vf *Frame, site ssa.Instruction, order int, bad func(string, ...any)) {
	ci := cfgOf(vf.Fn)
	if len(ci.loopChain(site.Block())) > 0 {
		r.count("visits not followed", 1)
		return
	}
	if !ci.mustExec(site.Block()) {
		bad("some nodes may be left out")
	}
	n := 0
	for _, b := range vf.Fn.Blocks {
		for i, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() != vf.Fn {
				continue
			}
			n++
			ls := ci.loopChain(b)
			if len(ls) == 0 {
				bad("not every child is visited")
				continue
			}
			l := innermost(ls)
			lc := vf.loopCtx(l)
			if lc.Part || !ci.everyTurn(l, b) || !ci.mustExec(l.Header) {
				bad("some children may not be visited")
			}
			if lc.Coll == nil || w.childrenIn(lc.Coll) == nil {
				bad("the visit does not go over the children of the node")
			} else {
				node := w.childrenIn(lc.Coll)
				mine := false
				for _, p := range vf.Fn.Params {
					if x := vf.eval(p); x == node || w.A.val(x) != nil && w.A.val(x) == w.A.val(node) {
						mine = true
					}
				}
				if !mine {
					r.count("visits not followed", 1)
				}
			}
			_ = i
			switch order {
			case -1:
				if !site.Block().Dominates(l.Header) {
					bad("a node is entered after its children")
				}
			case 1:
				if !l.Header.Dominates(site.Block()) || l.Blocks[site.Block()] {
					bad("a node is left before its children")
				}
			}
		}
	}
	if n > 1 {
		bad("children may be visited more than once")
	}
}

// checkSlow: the list holds the 100 traces lasting longest, the longest first.
func (w *World) checkSlow(c *Command, r *Report, t *Term) {
	a := w.A
	var pops []*Event
	var pushes []*Event
	for _, e := range c.events {
		switch e.Callee {
		case "container/heap.Pop":
			pops = append(pops, e)
		case "container/heap.Push":
			pushes = append(pushes, e)
		}
	}
	if len(pops) == 0 || len(pushes) == 0 {
		r.count("selections not followed", 1)
		return
	}
	w.checkStacks(r, func(t string) bool { return strings.Contains(t, "omodel.") })
	heaps := map[string]bool{}
	for _, e := range append(append([]*Event{}, pops...), pushes...) {
		for _, h := range a.resolve(e.Args[0]) {
			if h.Op == "obj" && h.T != nil && !heaps[h.T.String()] {
				heaps[h.T.String()] = true
				w.checkContainer(r, h.T)
			}
		}
	}
	// the order of the list
	rev, found := 0, false
	var popped *Event
	var walk func(t *Term, rv int, d int)
	walk = func(t *Term, rv int, d int) {
		if d > 5 || found {
			return
		}
		for _, it := range a.seqOf(t).Items {
			k := rv
			if it.Rev {
				k++
			}
			for _, l := range it.Loops {
				if l.L != nil && l.L.Kind == "slice-rev" {
					k++
				}
			}
			for _, l := range it.Loops {
				if l.Coll != nil {
					walk(l.Coll, k, d+1)
				}
			}
			if it.Splat {
				walk(it.Body, k, d+1)
			}
			if found {
				return
			}
			for _, e := range pops {
				hit := false
				if it.Body != nil {
					a.reach(it.Body, func(y *Term) bool {
						if y == e.Call {
							hit = true
						}
						return !hit
					})
				}
				if hit && !found && len(it.Loops) > 0 {
					found, rev, popped = true, k, e
				}
			}
			if found {
				return
			}
		}
	}
	walk(t, 0, 0)
	if !found {
		r.failAt("", c.Path, "slowTraces are not the traces taken from the heap of slow traces")
		return
	}
	r.count("selections", 1)
	bad := func(e *Event, f string, args ...any) { r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), f, args...) }
	// orientation: the first popped is the shortest
	up, ok, where := w.heapOrder(popped)
	if !ok {
		r.count("orders not followed", 1)
	} else {
		r.count("orders", 1)
		if where != "" {
			bad(popped, "%s", where)
		} else if !up {
			bad(popped, "the traces kept are not the slowest ones")
		} else if rev%2 == 0 {
			bad(popped, "the slowest trace does not come first")
		}
	}
	// dropped only when there are more than 100
	for _, e := range pops {
		if e == popped {
			continue
		}
		if used(e) {
			continue
		}
		r.count("removals", 1)
		w.checkLimit(c, r, e, pushes, bad)
	}
	for _, e := range pushes {
		w.checkOffered(r, e, bad)
	}
	// everything kept is listed
	if ls := cfgOf(popped.Fr.Fn).loopChain(popped.In.Block()); len(ls) > 0 {
		l := innermost(ls)
		okEnd := false
		iff, isIf := lastInstr(l.Header).(*ssa.If)
		if isIf {
			f := popped.Fr.eval(iff.Cond)
			pol := l.Blocks[l.Header.Succs[0]] // staying in the loop
			if f.Op == "binop" {
				x, y, op := f.Args[0], f.Args[1], f.S
				if !pol {
					op = negOpS(op)
				}
				if constZero(a.peel(x)) || constOne(a.peel(x)) {
					x, y, op = y, x, swapOpS(op)
				}
				if lenLike(a, x) && (constZero(a.peel(y)) && (op == ">" || op == "!=") || constOne(a.peel(y)) && op == ">=") {
					okEnd = true
				} else if lenLike(a, x) {
					if _, isC := a.peel(y).isConstInt(); isC {
						bad(popped, "some of the slowest traces may be left out")
						okEnd = true
					}
				}
			}
		}
		if !okEnd {
			r.count("endings not followed", 1)
		}
	}
}

func constOne(t *Term) bool { k, ok := t.isConstInt(); return ok && k == 1 }

// lenLike: a length, or a call of Len.
func lenLike(a *Analysis, t *Term) bool {
	for k := 0; k < 6; k++ {
		t = a.peel(t)
		if isLen(t) {
			return true
		}
		if t.Op == "call" && strings.HasSuffix(t.Callee, ").Len") {
			return true
		}
		if t.Op == "call" && len(t.Inls) == 1 && len(t.Inls[0].results(0)) == 1 {
			t = t.Inls[0].results(0)[0]
			continue
		}
		return false
	}
	return false
}

func used(e *Event) bool {
	v, ok := e.In.(*ssa.Call)
	return ok && v.Referrers() != nil && len(*v.Referrers()) > 0
}

// checkLimit: after a push, one is removed exactly when more than 100 are there.
func (w *World) checkLimit(c *Command, r *Report, e *Event, pushes []*Event, bad func(*Event, string, ...any)) {
	a := w.A
	facts := a.factsAt(e.Fr, e.In.Block())
	n := 0
	for _, f := range facts {
		if f.T.Op != "binop" {
			continue
		}
		x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
		if !lenLike(a, x) {
			x, y, op = y, x, swapOpS(op)
		}
		if !lenLike(a, x) {
			continue
		}
		if !f.True {
			op = negOpS(op)
		}
		k, ok := a.peel(y).isConstInt()
		if !ok {
			r.count("limits not followed", 1)
			n++
			continue
		}
		switch op {
		case ">=":
			k--
		case ">":
		default:
			continue
		}
		n++
		r.count("limits", 1)
		after := false
		for _, p := range pushes {
			if p.Fr == e.Fr && p.In.Block().Dominates(e.In.Block()) {
				after = true
			}
		}
		if k != 100 {
			bad(e, "not the 100 slowest traces are kept but %d", k)
		} else if !after {
			before := false
			for _, p := range pushes {
				if p.Fr == e.Fr {
					before = true
				}
			}
			if before {
				bad(e, "a trace may be dropped in favour of a faster one")
			} else {
				r.count("limits not followed", 1)
			}
		}
	}
	if n == 0 {
		bad(e, "traces may be dropped although there are fewer than 100")
	}
}

// heapOrder: whether the heap the event works on has the shortest trace on top.
func (w *World) heapOrder(e *Event) (up, ok bool, why string) {
	a := w.A
	for _, h := range a.resolve(e.Args[0]) {
		if h.Op != "obj" || h.T == nil {
			continue
		}
		if h.T == nil {
			continue
		}
		var pkg *types.Package
		if n, ok := deptr(h.T).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
		less := w.P.SSA.LookupMethod(h.T, pkg, "Less")
		if less == nil {
			continue
		}
		// Less(i, j): either the comparison itself, or a call of a function with elements i and j
		swap := false
		fn := less
		if l, rr, op, ok := cmpOf(less); ok {
			return orderOf(l, rr, op, 1)
		}
		var call *ssa.Call
		if len(less.Blocks) == 1 {
			if ret, isRet := lastInstr(less.Blocks[0]).(*ssa.Return); isRet && len(ret.Results) == 1 {
				call, _ = ret.Results[0].(*ssa.Call)
			}
		}
		if call == nil || len(call.Call.Args) < 2 {
			return false, false, ""
		}
		n := len(call.Call.Args)
		x, ok1 := sideOf(less, call.Call.Args[n-2])
		y, ok2 := sideOf(less, call.Call.Args[n-1])
		if !ok1 || !ok2 || x.param == y.param {
			return false, false, ""
		}
		swap = x.param > y.param
		fn = call.Call.StaticCallee()
		if fn == nil {
			// a member of the heap
			ld, isLoad := call.Call.Value.(*ssa.UnOp)
			if !isLoad {
				return false, false, ""
			}
			fa, isF := ld.X.(*ssa.FieldAddr)
			if !isF {
				return false, false, ""
			}
			for _, v := range a.resolve(a.field(h, fieldNameOf(fa.X.Type(), fa.Field))) {
				if v.Fn != nil {
					fn = v.Fn
				}
			}
		}
		if fn == nil {
			return false, false, ""
		}
		l, rr, op, isCmp := cmpOf(fn)
		if !isCmp {
			return false, false, ""
		}
		first := len(fn.Params) - 2
		up, ok, why = orderOf(l, rr, op, first)
		if swap {
			up = !up
		}
		return up, ok, why
	}
	return false, false, ""
}

func orderOf(l, r cmpSide, op token.Token, first int) (up, ok bool, why string) {
	if l.field != r.field || l.param == r.param {
		return false, true, fmt.Sprintf("traces are compared by %s and %s", l.field, r.field)
	}
	if l.field != "Duration()" {
		for _, m := range []string{"StartTimeUnixNano", "EndTimeUnixNano", "CalcConsumedTime()", "Name", "ServiceName"} {
			if l.field == m {
				return false, true, "traces are not compared by their duration but by " + m
			}
		}
		return false, false, ""
	}
	lt := op == token.LSS || op == token.LEQ
	gt := op == token.GTR || op == token.GEQ
	if !lt && !gt {
		return false, false, ""
	}
	return lt == (l.param == first), true, ""
}

// atoms of the compaction: root, other service than the parent, has children, goes to a database.
type compFacts struct{ root, other, kids, db int } // 0 unknown, 1 true, -1 false

func sgn(b bool) int {
	if b {
		return 1
	}
	return -1
}

// leafDB and kept: three-valued.
func (f compFacts) leaf() int {
	switch {
	case f.kids == 1 || f.db == -1:
		return -1
	case f.kids == -1 && f.db == 1:
		return 1
	}
	return 0
}

func (f compFacts) kept() int {
	l := f.leaf()
	switch {
	case f.root == 1 || f.other == 1 || l == 1:
		return 1
	case f.root == -1 && f.other == -1 && l == -1:
		return -1
	}
	return 0
}

func (w *World) compAtoms(o Out, node *Term) (res compFacts, feasible bool) {
	a := w.A
	feasible = true
	set := func(p *int, v int) {
		if *p != 0 && *p != v {
			feasible = false
		}
		*p = v
	}
	is := func(x *Term) bool { return x != nil && (x == node || a.sameVal(x, node)) }
	for _, f := range o.Facts {
		t := f.T
		if t.Op == "res" && t.Idx == 1 && t.Args[0].Op == "mapget" {
			if s, ok := a.peel(t.Args[0].Args[1]).isConstString(); ok && s == "db.system" && is(w.memberOf(t.Args[0].Args[0], "SpanAttributes")) {
				set(&res.db, sgn(f.True))
			}
			continue
		}
		if t.Op != "binop" {
			continue
		}
		x, y, op := t.Args[0], t.Args[1], t.S
		if !f.True {
			op = negOpS(op)
		}
		if x.Op == "nil" || constZero(x) || constOne(x) {
			x, y, op = y, x, swapOpS(op)
		}
		eq := op == "=="
		if op == "==" || op == "!=" {
			if y.Op == "nil" && is(w.memberOf(x, "Parent")) {
				set(&res.root, sgn(eq))
			}
			if g := w.lookupIn(x); y.Op == "nil" && g != nil {
				if s, ok := a.peel(g.Args[1]).isConstString(); ok && s == "db.system" && is(w.memberOf(g.Args[0], "SpanAttributes")) {
					set(&res.db, sgn(!eq))
				}
			}
			if y.Op == "nil" && is(w.childrenIn(x)) {
				set(&res.kids, sgn(!eq))
			}
			p, q := w.memberOf(x, "ServiceName"), w.memberOf(y, "ServiceName")
			if p != nil && q != nil {
				if is(p) {
					p, q = q, p
				}
				if is(q) && is(w.memberOf(p, "Parent")) {
					set(&res.other, sgn(!eq))
				}
			}
		}
		if isLen(x) && is(w.childrenIn(x.Args[0])) {
			switch {
			case constZero(y) && (op == ">" || op == "!="), constOne(y) && op == ">=":
				set(&res.kids, 1)
			case constZero(y) && (op == "==" || op == "<="), constOne(y) && op == "<":
				set(&res.kids, -1)
			}
		}
	}
	return res, feasible
}

// ways: the ways from the entry of the first frame of the chain, and whether they get to its end.
func (w *World) ways(chain []step, marks []mark) (res []way, ok bool) {
	a := w.A
	if len(chain) == 0 {
		return nil, false
	}
	outs, ok := a.outcomes(chain[0].Fr)
	if !ok {
		return nil, false
	}
	for _, o := range outs {
		hit := o.Seen[chain[0].In.Block()]
		wy := way{Out: o, hit: hit, marks: make([]bool, len(marks))}
		all := []way{wy}
		for i, m := range marks {
			if m.Fr != chain[0].Fr || !o.Seen[m.In.Block()] {
				continue
			}
			if len(m.sub) == 0 {
				for j := range all {
					all[j].marks[i] = true
				}
				continue
			}
			sub, ok := w.ways(m.sub, nil)
			if !ok {
				return nil, false
			}
			var next []way
			for _, x := range all {
				for _, s := range sub {
					n, feasible := x.Out.with(s.Out)
					if !feasible {
						continue
					}
					y := way{Out: n, hit: x.hit, marks: append([]bool{}, x.marks...)}
					y.Seen = x.Seen
					y.marks[i] = s.hit
					next = append(next, y)
				}
			}
			all = next
		}
		if len(all) > 5000 {
			return nil, false
		}
		if !hit || len(chain) == 1 {
			res = append(res, all...)
			continue
		}
		sub, ok := w.ways(chain[1:], marks)
		if !ok {
			return nil, false
		}
		for _, wy := range all {
			for _, s := range sub {
				n, feasible := wy.Out.with(s.Out)
				if !feasible {
					continue
				}
				x := way{Out: n, hit: s.hit, marks: make([]bool, len(marks))}
				for i := range marks {
					x.marks[i] = wy.marks[i] || s.marks[i]
				}
				res = append(res, x)
			}
		}
	}
	return res, true
}

// mark: an instruction reached from a frame of the chain, possibly through calls.
type mark struct {
	step
	sub []step
}

func markOf(chain []step, in ssa.Instruction, f *Frame) (mark, bool) {
	var sub []step
	for f != nil && !inChain(chain, f) {
		sub = append([]step{{f, in}}, sub...)
		in, f = f.Site, f.Parent
	}
	if f == nil || in == nil {
		return mark{}, false
	}
	return mark{step{f, in}, sub}, true
}

type way struct {
	Out
	hit   bool
	marks []bool
}

// emptyStack: on this way there is nothing to attach to, which cannot be (the stack starts with the top).
func (w *World) emptyStack(o Out, base *Term) bool {
	for _, f := range o.Facts {
		if f.T.Op != "binop" {
			continue
		}
		x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
		if !f.True {
			op = negOpS(op)
		}
		if x.Op == "nil" || constZero(x) {
			x, y, op = y, x, swapOpS(op)
		}
		if y.Op == "nil" && op == "==" && (x == base || w.A.sameVal(x, base) || isStackCall(x, "Top")) {
			return true
		}
		if constZero(y) && (op == "==" || op == "<=") && (isLen(x) && !isNode(w.childrenIn(x.Args[0])) || isStackCall(x, "Size")) {
			return true
		}
	}
	return false
}

func isStackCall(t *Term, m string) bool {
	return t.Op == "call" && strings.Contains(t.Callee, "lib.Stack[") && strings.HasSuffix(t.Callee, ")."+m)
}

// checkCompaction: the nodes kept, their labels and their places.
func (w *World) checkCompaction(c *Command, r *Report) {
	a := w.A
	n := 0
	for _, o := range w.objsOf(c, spanT) {
		var src *Term
		for _, rec := range a.stores(o, "SpanId") {
			if x := w.memberOf(rec.Val, "SpanId"); x != nil && !isRecv(x) {
				src = x
			}
		}
		if src == nil {
			continue
		}
		done := map[ssa.Instruction]bool{}
		for _, x := range sortedObjs(a.heap) {
			for _, rec := range a.heap[x]["Children"] {
				ap := rec.Val
				if done[rec.In] || ap.Op != "call" || ap.Callee != "append" || len(ap.Args) < 2 {
					continue
				}
				els, ok := a.elements(ap.Args[1])
				if !ok || len(els) != 1 || els[0] != o && a.val(els[0]) != o {
					continue
				}
				done[rec.In] = true
				n++
				w.checkKeptNodes(c, r, o, src, rec)
			}
		}
	}
	if n == 0 {
		r.count("compactions not followed", 1)
	}
	// the compacted tree is the first node under the holder
	for _, o := range w.objsOf(c, "github.com/mrasu/GravityR/otel/omodel.TraceTree") {
		for _, rec := range a.stores(o, "Root") {
			v := a.peel(rec.Val)
			if v.Op == "index" && w.childrenIn(v.Args[0]) != nil {
				r.count("compacted trees", 1)
				if n, ok := v.Args[1].isConstInt(); ok && n != 0 {
					r.failAt(w.P.pos(rec.In.Pos()), rec.Fr.String(), "the compacted trace is not that of the root")
				} else if h := a.copied(w.childrenIn(v.Args[0])); h.Op == "index" || h.Op == "elem" {
					r.failAt(w.P.pos(rec.In.Pos()), rec.Fr.String(), "the compacted trace is not that of the root")
				} else if h := a.val(w.childrenIn(v.Args[0])); h != nil && h.Op == "obj" && len(a.stores(h, "SpanId")) > 0 {
					r.failAt(w.P.pos(rec.In.Pos()), rec.Fr.String(), "the compacted trace is not that of the root")
				}
			}
		}
	}
}

func (w *World) checkKeptNodes(c *Command, r *Report, o, src *Term, rec *StoreRec) {
	a := w.A
	bad := func(in ssa.Instruction, fr *Frame, f string, args ...any) {
		r.failAt(w.P.pos(in.Pos()), fr.String(), f, args...)
	}
	vf, site, chain := w.visitOf(rec.In, rec.Fr)
	if vf == nil || len(chain) == 0 {
		r.count("compactions not followed", 1)
		return
	}
	r.count("compactions", 1)
	w.checkVisitor(r, vf, site, -1, func(f string, args ...any) { bad(site, vf, f, args...) })
	var base *Term
	if st, ok := rec.In.(*ssa.Store); ok {
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
			base = rec.Fr.eval(fa.X)
		}
	}
	if base == nil {
		r.count("compactions not followed", 1)
		return
	}
	// marks: the label, the push
	var marks []mark
	label, push := -1, -1
	for _, s := range a.stores(o, "ServiceName") {
		if w.memberOf(s.Val, "ServiceName") == nil && isAncestor(chain[0].Fr, s.Fr) {
			if m, ok := markOf(chain, s.In, s.Fr); ok {
				label = len(marks)
				marks = append(marks, m)
			}
		}
	}
	for _, e := range c.events {
		if strings.Contains(e.Callee, "lib.Stack[") && strings.HasSuffix(e.Callee, ").Push") && len(e.Args) == 2 && isAncestor(chain[0].Fr, e.Fr) {
			if e.Args[1] != o && a.val(e.Args[1]) != o {
				if isNode(e.Args[1]) {
					bad(e.In, e.Fr, "later nodes are not attached to the kept copy")
				}
				continue
			}
			if m, ok := markOf(chain, e.In, e.Fr); ok {
				push = len(marks)
				marks = append(marks, m)
			}
			if isStackCall(base, "Top") {
				for _, t := range c.events {
					if t.Call == base && t.Fr == e.Fr && t.Seq > e.Seq {
						bad(rec.In, rec.Fr, "a node is attached to itself")
					}
				}
			}
		}
	}
	ways, ok := w.ways(chain, marks)
	if !ok {
		r.count("compactions not followed", 1)
		return
	}
	for _, y := range ways {
		if w.emptyStack(y.Out, base) {
			continue
		}
		r.count("ways to treat a node", 1)
		at, feasible := w.compAtoms(y.Out, src)
		if !feasible {
			continue
		}
		if y.hit && at.kept() != 1 {
			bad(rec.In, rec.Fr, "a span may be kept that is neither a root, nor the first of its service, nor a last call to a database")
			break
		}
		if !y.hit && at.kept() != -1 {
			bad(rec.In, rec.Fr, "a span may be dropped that is a root, the first of its service or a last call to a database")
			break
		}
		if !y.hit {
			continue
		}
		if label >= 0 {
			if y.marks[label] && at.leaf() != 1 {
				bad(marks[label].In, marks[label].Fr, "a span that is not a last call to a database may be labelled as one")
				break
			}
			if !y.marks[label] && at.leaf() != -1 {
				bad(marks[label].In, marks[label].Fr, "a last call to a database may lack its label")
				break
			}
		}
		if push >= 0 && !y.marks[push] {
			bad(rec.In, rec.Fr, "later nodes may not be attached to the nearest kept one")
			break
		}
	}
	if label < 0 {
		r.count("labels not followed", 1)
	}
	if push < 0 {
		r.count("stacks not followed", 1)
		return
	}
	w.checkLeave(c, r, vf, src, bad)
}

func inChain(chain []step, f *Frame) bool {
	for _, s := range chain {
		if s.Fr == f {
			return true
		}
	}
	return false
}

// checkLeave: when a kept node has been visited, and only then, it stops being the place for others.
func (w *World) checkLeave(c *Command, r *Report, vf *Frame, src *Term, bad func(ssa.Instruction, *Frame, string, ...any)) {
	a := w.A
	n := 0
	for _, e := range c.events {
		if !strings.Contains(e.Callee, "lib.Stack[") || !strings.HasSuffix(e.Callee, ").Pop") || !isAncestor(vf, e.Fr) || e.Fr == vf {
			continue
		}
		n++
		vf2, site, chain := w.visitOf(e.In, e.Fr)
		if vf2 != vf || len(chain) == 0 {
			r.count("stacks not followed", 1)
			continue
		}
		w.checkVisitor(r, vf, site, 1, func(f string, args ...any) { bad(site, vf, f, args...) })
		ways, ok := w.ways(chain, nil)
		if !ok {
			r.count("stacks not followed", 1)
			continue
		}
		for _, y := range ways {
			r.count("ways to leave a node", 1)
			same, trace := 0, 0
			for _, f := range y.Facts {
				t := f.T
				pol := f.True
				var p, q *Term
				if t.Op == "call" && t.Callee == "bytes.Equal" && len(t.Args) == 2 {
					p, q = t.Args[0], t.Args[1]
				} else if t.Op == "binop" && (t.S == "==" || t.S == "!=") {
					p, q = t.Args[0], t.Args[1]
					if t.S == "!=" {
						pol = !pol
					}
				} else {
					continue
				}
				for m, v := range map[string]*int{"SpanId": &same, "TraceId": &trace} {
					x, z := w.idOf(p, m), w.idOf(q, m)
					if x == nil || z == nil {
						continue
					}
					if x == src || a.sameVal(x, src) {
						x, z = z, x
					}
					if z == src || a.sameVal(z, src) {
						*v = sgn(pol)
					}
				}
			}
			at, _ := w.compAtoms(y.Out, src)
			if w.emptyStack(y.Out, nil) {
				continue
			}
			if y.hit && same != 1 && at.kept() != 1 {
				bad(e.In, e.Fr, "a node may stop taking children before all of them were visited")
				break
			}
			if !y.hit && same != -1 && trace != -1 && at.kept() != -1 {
				bad(e.In, e.Fr, "a node may take children of others after it was visited")
				break
			}
		}
	}
	if n == 0 {
		bad(selfCall(vf.Fn), vf, "a node takes children of others after it was visited")
	}
}

// checkTraceViews: the counts shown with a trace are its own.
func (w *World) checkTraceViews(c *Command, r *Report) {
	a := w.A
	for _, o := range w.objsOf(c, vmPkg+"VmOtelCompactTrace") {
		bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Val.Pos()), o.Fr.String(), f, args...) }
		var tree *Term
		for _, rec := range a.stores(o, "TraceId") {
			a.reach(rec.Val, func(y *Term) bool {
				if y.Op == "field" && y.S == "Root" && tree == nil {
					tree = y.Args[0]
				}
				return tree == nil
			})
		}
		rs := a.stores(o, "SameServiceAccessCount")
		if len(rs) == 0 {
			bad("sameServiceAccessCount is not set")
		}
		for _, rec := range rs {
			w.checkCount(c, r, rec.Val, tree, bad)
		}
		rs = a.stores(o, "TimeConsumingServiceName")
		if len(rs) == 0 {
			bad("timeConsumingServiceName is not set")
		}
		for _, rec := range rs {
			w.checkMostTime(c, r, rec.Val, tree, bad)
		}
	}
}

// checkMostTime: the key of the highest entry of a map of times per service.
func (w *World) checkMostTime(c *Command, r *Report, v, tree *Term, bad func(string, ...any)) {
	a := w.A
	v = a.peel(v)
	ph, l := headerPhi(v)
	for k := 0; k < 4 && ph == nil && v.Op == "call" && len(v.Inls) == 1 && len(v.Inls[0].results(0)) == 1; k++ {
		v = a.peel(v.Inls[0].results(0)[0])
		ph, l = headerPhi(v)
	}
	if ph == nil || l == nil || l.Kind != "map" || v.Fr == nil {
		r.count("most consuming services not followed", 1)
		return
	}
	fr := v.Fr
	lc := fr.loopCtx(l)
	ms := a.resolve(lc.Coll)
	if len(ms) != 1 || ms[0].Op != "makemap" {
		r.count("most consuming services not followed", 1)
		return
	}
	r.count("most consuming services", 1)
	if lc.Part {
		bad("some services may be left out of the comparison")
	}
	for _, rec := range a.heap[ms[0]]["[]"] {
		w.checkTally(r, rec, ms[0], tree, func(x *Term) bool {
			own := false
			a.reach(x, func(y *Term) bool {
				if n := w.memberOf(y, "EndTimeUnixNano"); n != nil {
					own = true
				}
				return !own
			})
			return own
		}, "the time spent by the span", bad)
	}
	done, _, ok := a.turns(lc)
	if !ok {
		r.count("most consuming services not followed", 1)
		return
	}
	// the value compared with is the maximum
	max := map[*ssa.Phi]bool{}
	for _, t := range done {
		for _, f := range t.Facts {
			for _, x := range f.T.Args {
				if p, pl := headerPhi(x); f.T.Op == "binop" && p != nil && pl == l && p != ph {
					max[p] = true
				}
			}
		}
	}
	for _, t := range done {
		nv := t.Env[ph]
		if nv == nil {
			r.count("most consuming services not followed", 1)
			return
		}
		more, notMore := false, false
		for _, f := range t.Facts {
			if f.T.Op != "binop" {
				continue
			}
			x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
			if !f.True {
				op = negOpS(op)
			}
			if p, pl := headerPhi(y); p != nil && pl == l && p != ph {
				x, y, op = y, x, swapOpS(op)
			}
			if p, pl := headerPhi(x); p == nil || pl != l || p == ph {
				continue
			}
			switch op {
			case "<", "<=", "==":
				more = true
			case ">", ">=":
				notMore = true
			}
			if op == "<=" || op == "==" {
				notMore = true
			}
		}
		replaced := nv != ssa.Value(ph)
		if !replaced {
			for p, v := range t.Env {
				if max[p] && v != ssa.Value(p) {
					bad("the highest time may not be that of the service shown")
					return
				}
			}
		} else {
			x := fr.eval(nv)
			if x.Op != "key" && x.Op != "mapkey" && x.Op != "rangekey" {
				r.count("services not followed", 1)
			}
			kept := false
			for p, v := range t.Env {
				if max[p] && v == ssa.Value(p) {
					kept = true
				}
			}
			if kept {
				bad("the highest time may not be that of the service shown")
				return
			}
		}
		if replaced && !more {
			bad("the service shown may not be the one consuming most time")
			return
		}
		if !replaced && !notMore {
			bad("a service consuming more time may be passed over")
			return
		}
	}
}

func sortedObjs(h map[*Term]map[string][]*StoreRec) []*Term {
	var res []*Term
	for x := range h {
		res = append(res, x)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].ID < res[j].ID })
	return res
}

func isLen(t *Term) bool { return t.Op == "call" && t.Callee == "len" && len(t.Args) == 1 }

// skips lists the branches by which b is left out of a turn of its loop (or, without a loop, of its function).
func skips(b *ssa.BasicBlock) (res []*ssa.If, loop bool) {
	var l *Loop
	if ls := cfgOf(b.Parent()).loopChain(b); len(ls) > 0 {
		l = innermost(ls)
	}
	start := b.Parent().Blocks[0]
	if l != nil {
		start = l.Header
	}
	// avoid: a turn can be finished from x without b
	avoid := func(x *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(x *ssa.BasicBlock) bool
		walk = func(x *ssa.BasicBlock) bool {
			if x == b {
				return false
			}
			if l != nil && (x == l.Header || !l.Blocks[x]) {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			if len(x.Succs) == 0 {
				_, isRet := lastInstr(x).(*ssa.Return)
				return isRet
			}
			for _, s := range x.Succs {
				if walk(s) {
					return true
				}
			}
			return false
		}
		return walk(x)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if seen[x] || x == b || l != nil && !l.Blocks[x] {
			return
		}
		seen[x] = true
		iff, ok := lastInstr(x).(*ssa.If)
		if ok && (l == nil || x != l.Header) && blockReaches(x, b, l) {
			for _, s := range x.Succs {
				if avoid(s) {
					res = append(res, iff)
					break
				}
			}
		}
		for _, s := range x.Succs {
			if l == nil || s != l.Header {
				walk(s)
			}
		}
	}
	walk(start)
	return res, l != nil
}

func blockReaches(x, b *ssa.BasicBlock, l *Loop) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] || l != nil && !l.Blocks[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if (l == nil || s != l.Header) && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(x)
}

// checkOffered: every trace is offered to the heap (or compared with the shortest one kept).
func (w *World) checkOffered(r *Report, e *Event, bad func(*Event, string, ...any)) {
	b := e.In.Block()
	for f := e.Fr; f != nil && f.Site != nil; f = f.Parent {
		ifs, loop := skips(b)
		peeks := false
		for _, i := range ifs {
			for _, in := range i.Block().Instrs {
				if ix, ok := in.(*ssa.IndexAddr); ok {
					if k, ok := ix.Index.(*ssa.Const); ok && k.Value != nil && k.Int64() == 0 {
						peeks = true
					}
				}
			}
		}
		for _, i := range ifs {
			c := stripNot(i.Cond, true).v
			if bo, ok := c.(*ssa.BinOp); ok && (nilConstV(bo.X) || nilConstV(bo.Y)) {
				continue
			}
			if _, ok := f.eval(i.Cond).isConstBool(); ok || peeks {
				continue
			}
			r.count("offers", 1)
			bad(e, "a trace may be left out without being compared with the slowest ones (condition at %s)", w.P.pos(i.Cond.Pos()))
			return
		}
		if loop || f.CBLoop != nil {
			break
		}
		b = f.Site.Block()
	}
	r.count("offers", 1)
}

func nilConstV(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}
