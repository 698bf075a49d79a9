package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "The value flow of the reported times is traced back: each must be the elapsed time between two clock readings enclosing the execution of exactly the given query (and variables); the baseline precedes every index creation, each candidate's measurement lies between the creation and the removal of that candidate's index, is reported with that candidate, and every candidate contributes one result. Candidates are the given indexes whenever there are any, otherwise all suggestions except those with unsafe names.", checkP05)
}

func rootOf(f *Frame) *Frame {
	for f.Parent != nil {
		f = f.Parent
	}
	return f
}

func namedOf(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// objsOf lists the objects of a named struct type made during a command.
func (w *World) objsOf(c *Command, typ string) []*Term {
	var res []*Term
	for t := range w.A.heap {
		if t.Op == "obj" && t.Fr != nil && rootOf(t.Fr) == c.Run && namedOf(t.T) == typ && len(w.A.heap[t]) > 0 && structOf(t.T) != nil {
			if p, ok := t.T.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Struct); ok {
					res = append(res, t)
				}
			}
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].ID < res[j].ID })
	return res
}

// at compares two instructions of different contexts in the function they share.
func (w *World) at(f1 *Frame, i1 ssa.Instruction, f2 *Frame, i2 ssa.Instruction) (f *Frame, x, y ssa.Instruction) {
	f = lca(f1, f2)
	if f == nil {
		return nil, nil, nil
	}
	return f, pathTo(f, f1, i1)[0].In, pathTo(f, f2, i2)[0].In
}

// before: whenever the second executes, the first has executed (in the shared function).
func (w *World) before(f1 *Frame, i1 ssa.Instruction, f2 *Frame, i2 ssa.Instruction) bool {
	f, x, y := w.at(f1, i1, f2, i2)
	if f == nil || x == y {
		return false
	}
	_, dx := x.(*ssa.Defer)
	_, dy := y.(*ssa.Defer)
	switch {
	case dx && !dy:
		return false // executed when the function ends
	case dy && !dx:
		// executed when the function ends
		for _, b := range f.Fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.RunDefers); ok && reaches(y, in) && !instrDominates(x, in) {
					return false
				}
			}
		}
	case dx && dy:
		return instrDominates(y, x) // last in, first out
	case !instrDominates(x, y):
		return false
	}
	// executed in the callee as well, on its way to returning normally
	for _, s := range pathTo(f, f1, i1)[1:] {
		if !cfgOf(s.Fr.Fn).mustExec(s.In.Block()) {
			return false
		}
	}
	return true
}

type measure struct {
	start, end *Term // clock readings
	ok         bool
	why        string
}

// elapsed recognises a duration in milliseconds between two clock readings.
func (a *Analysis) elapsed(t *Term) measure {
	t = a.one(t)
	if t == nil {
		return measure{why: "the time has several sources"}
	}
	var d *Term
	switch {
	case t.Op == "call" && t.Callee == "(time.Duration).Milliseconds":
		d = t.Args[0]
	case t.Op == "conv" || t.Op == "binop" && t.S == "/":
		x := t
		if x.Op == "conv" {
			x = a.one(x.Args[0])
		}
		if x == nil || x.Op != "binop" || x.S != "/" {
			return measure{why: "the time is not a number of milliseconds"}
		}
		n, ok := x.Args[1].isConstInt()
		if !ok || n != 1000000 {
			return measure{why: "the time is not a number of milliseconds"}
		}
		d = x.Args[0]
		for d.Op == "conv" || d.Op == "call" && d.Callee == "(time.Duration).Nanoseconds" {
			d = d.Args[0]
		}
	default:
		return measure{why: "the time is not a number of milliseconds: " + trim(t.String())}
	}
	d = a.one(d)
	if d == nil {
		return measure{why: "the time has several sources"}
	}
	isNow := func(x *Term) bool { return x != nil && x.Op == "call" && x.Callee == "time.Now" }
	if d.Op == "call" && d.Callee == "time.Since" {
		if s := a.one(d.Args[0]); isNow(s) {
			return measure{start: s, end: d, ok: true}
		}
	}
	if d.Op == "call" && d.Callee == "(time.Time).Sub" {
		e, s := a.one(d.Args[0]), a.one(d.Args[1])
		if isNow(s) && isNow(e) {
			return measure{start: s, end: e, ok: true}
		}
	}
	return measure{why: "the time is not measured by the clock: " + trim(d.String())}
}

// one: the only thing a term can stand for, or nil.
func (a *Analysis) one(t *Term) *Term {
	rs := a.resolve(t)
	if len(rs) == 1 {
		return rs[0]
	}
	return nil
}

// val is one, also looking into variables holding a pointer (captured variables).
func (a *Analysis) val(t *Term) *Term {
	for i := 0; i < 4; i++ {
		x := a.one(t)
		if x == nil {
			return nil
		}
		if x.Op == "obj" && isCell(x) {
			if len(a.heap[x]["*"]) > 0 {
				t = a.mk("load", "", 0, nil, x)
				continue
			}
		}
		return x
	}
	return nil
}

// nonZero drops the zero values a variable starts with (results accompanying errors).
func (a *Analysis) values(t *Term) []*Term {
	var res []*Term
	for _, x := range a.resolve(t) {
		if x.Op == "zero" || x.Op == "nil" {
			continue
		}
		res = append(res, x)
	}
	return res
}

func instrOf(t *Term) ssa.Instruction {
	in, _ := t.Val.(ssa.Instruction)
	return in
}

func checkP05(w *World, r *Report) {
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		w.checkTimes(c, r)
		w.checkExaminedTargets(c, r)
	}
}

func (w *World) checkTimes(c *Command, r *Report) {
	a := w.A
	name := c.Path
	q := c.flag("query")
	ops := w.opsKind(c, "query")
	creates, drops := w.opsKind(c, "create-index"), w.opsKind(c, "drop-index")
	ers := w.objsOf(c, modPath+"/database/dmodel.ExaminationResult")
	irs := w.objsOf(c, modPath+"/database/dmodel.ExaminationIndexResult")
	if len(ers) == 0 || len(irs) == 0 {
		r.missing("the results of the examination of %q", name)
		return
	}
	for _, o := range ops {
		if o.SQL == nil || !w.isFlag(o.SQL, q) {
			r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "executes something else than the given query")
		}
		if o.Chan == "graphql" {
			w.checkVariables(c, r, o, o.Body["variables"])
		}
	}
	for _, o := range w.opsOf(c) {
		if o.Chan == "explain" {
			if o.SQL == nil || !w.isFlag(o.SQL, q) {
				r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "explains something else than the given query")
			}
			if b := o.Body["query"]; b != nil {
				w.checkVariables(c, r, o, a.jsonFields(b)["variables"])
			}
		}
	}
	// find the execution enclosed by a measurement
	find := func(m measure, pos ssa.Instruction) *Op {
		var found *Op
		for _, o := range ops {
			if w.before(m.start.Fr, instrOf(m.start), o.Ev.Fr, o.Ev.In) && w.before(o.Ev.Fr, o.Ev.In, m.end.Fr, instrOf(m.end)) && lca(m.start.Fr, o.Ev.Fr) == m.start.Fr {
				if found != nil {
					return nil
				}
				found = o
			}
		}
		if found == nil {
			return nil
		}
		// nothing else that talks to the database in between
		for _, o := range w.opsOf(c) {
			if o != found && w.before(m.start.Fr, instrOf(m.start), o.Ev.Fr, o.Ev.In) && w.before(o.Ev.Fr, o.Ev.In, m.end.Fr, instrOf(m.end)) && lca(m.start.Fr, o.Ev.Fr) == m.start.Fr {
				return nil
			}
		}
		return found
	}
	for _, er := range ers {
		r.count("reported times", 1)
		pos := instrOf(er)
		m := a.elapsed(a.field(er, "OriginalTimeMillis"))
		if !m.ok {
			r.failAt(w.P.pos(pos.Pos()), er.Fr.String(), "original time: %s", m.why)
			continue
		}
		o := find(m, pos)
		if o == nil {
			r.failAt(w.P.pos(instrOf(m.end).Pos()), m.end.Fr.String(), "the clock readings of the original time do not enclose exactly one execution of the query")
			continue
		}
		for _, cr := range creates {
			r.count("orderings checked", 1)
			f, x, y := w.at(o.Ev.Fr, o.Ev.In, cr.Ev.Fr, cr.Ev.In)
			if !w.before(o.Ev.Fr, o.Ev.In, cr.Ev.Fr, cr.Ev.In) {
				r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "the original time is not always measured before an index is created")
			} else if reaches(y, x) {
				r.failAt(w.P.pos(o.Site.Pos()), f.String(), "the original time may be measured again after an index was created")
			}
		}
		r.fact("%s: original time is measured around %s", name, w.P.pos(o.Site.Pos()))
		w.checkAllResults(c, r, er, irs, creates)
	}
	for _, ir := range irs {
		r.count("reported times", 1)
		pos := instrOf(ir)
		m := a.elapsed(a.field(ir, "ExecutionTimeMillis"))
		if !m.ok {
			r.failAt(w.P.pos(pos.Pos()), ir.Fr.String(), "time of a candidate: %s", m.why)
			continue
		}
		o := find(m, pos)
		if o == nil {
			r.failAt(w.P.pos(instrOf(m.end).Pos()), m.end.Fr.String(), "the clock readings of a candidate's time do not enclose exactly one execution of the query")
			continue
		}
		for _, cr := range creates {
			r.count("orderings checked", 1)
			f, x, y := w.at(cr.Ev.Fr, cr.Ev.In, o.Ev.Fr, o.Ev.In)
			if !w.before(cr.Ev.Fr, cr.Ev.In, o.Ev.Fr, o.Ev.In) {
				r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "a candidate's time is measured without its index having been created")
				continue
			}
			lx, ly := cfgOf(f.Fn).loopChain(x.Block()), cfgOf(f.Fn).loopChain(y.Block())
			if len(lx) != len(ly) || len(lx) > 0 && lx[0] != ly[0] {
				r.failAt(w.P.pos(o.Site.Pos()), f.String(), "a candidate's time is not measured in the turn that creates its index")
			}
			// same candidate
			var table *Term
			for _, t := range cr.Tm {
				if d, err := parseDDL(cr, t); err == nil {
					table = a.holeField(d.Table, "TableName")
				}
			}
			it := a.field(ir, "IndexTarget")
			if table == nil || !a.sameVal(it, table) {
				r.failAt(w.P.pos(pos.Pos()), ir.Fr.String(), "the time is reported for another candidate than the one whose index was created")
			}
		}
		for _, d := range drops {
			f, x, y := w.at(o.Ev.Fr, o.Ev.In, d.Ev.Fr, d.Ev.In)
			if f == nil {
				continue
			}
			if _, deferred := y.(*ssa.Defer); deferred {
				continue
			}
			if !w.before(o.Ev.Fr, o.Ev.In, d.Ev.Fr, d.Ev.In) {
				_ = x
				r.failAt(w.P.pos(d.Site.Pos()), d.Ev.Fr.String(), "the index may be dropped before the candidate's time is measured")
			}
		}
		r.fact("%s: time of a candidate is measured around %s", name, w.P.pos(o.Site.Pos()))
	}
}

// checkVariables: the variables sent are those of --json-variables.
func (w *World) checkVariables(c *Command, r *Report, o *Op, v *Term) {
	fl := c.flag("json-variables")
	if fl == nil {
		r.missing("flag --json-variables")
		return
	}
	ok := v != nil
	if ok {
		vs := w.A.values(v)
		ok = len(vs) > 0
		for _, x := range vs {
			if x.Op != "out" || x.S != "json" || !w.fromBytes(x.Args[0], fl) {
				ok = false
			}
		}
	}
	r.count("requests with variables", 1)
	if !ok {
		r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "the request does not carry the variables given with --json-variables")
	}
}

// fromBytes: []byte(flag), strings.NewReader(flag), ... exactly.
func (w *World) fromBytes(t *Term, f *Flag) bool {
	for i := 0; i < 6; i++ {
		if w.isFlag(t, f) {
			return true
		}
		x := w.A.one(t)
		if x == nil {
			return false
		}
		switch {
		case x.Op == "conv":
			t = x.Args[0]
		case x.Op == "call" && (x.Callee == "strings.NewReader" || x.Callee == "bytes.NewReader" || x.Callee == "bytes.NewBufferString" || x.Callee == "encoding/json.NewDecoder" || x.Callee == "bytes.NewBuffer"):
			t = x.Args[0]
		default:
			return false
		}
	}
	return false
}

// checkAllResults: the examination result lists one result per candidate.
func (w *World) checkAllResults(c *Command, r *Report, er *Term, irs []*Term, creates []*Op) {
	a := w.A
	pos := w.P.pos(instrOf(er).Pos())
	isIR := map[*Term]bool{}
	for _, x := range irs {
		isIR[x] = true
	}
	s := a.seqOf(a.field(er, "IndexResults"))
	var items []*SeqItem
	for _, it := range s.Items {
		if len(a.values(it.Body)) == 0 && !it.Splat {
			continue
		}
		items = append(items, it)
	}
	if len(items) != 1 {
		r.failAt(pos, er.Fr.String(), "results of the candidates are gathered in %d ways", len(items))
		return
	}
	it := items[0]
	if len(it.Loops) != 1 || it.Part || it.Splat || it.Uniq || len(it.Conds) > 0 {
		r.failAt(pos, er.Fr.String(), "not every candidate's result is reported once")
		return
	}
	for _, x := range a.values(it.Body) {
		if !isIR[x] {
			r.failAt(pos, er.Fr.String(), "something else than a candidate's result is reported")
			continue
		}
		tg := a.field(x, "IndexTarget")
		ok := false
		for _, y := range a.norm0(tg) {
			if y.Op == "elem" && y.Loop == it.Loops[0] {
				ok = true
			}
		}
		if !ok {
			r.failAt(pos, er.Fr.String(), "the reported results are not those of the candidates in turn")
		}
	}
	r.count("result lists", 1)
}

// norm0 resolves without looking into collections.
func (a *Analysis) norm0(t *Term) []*Term { return a.resolve(t) }

// examinedColl: the collection whose elements get an index created.
func (w *World) examinedColl(c *Command) []*LoopCtx {
	a := w.A
	var res []*LoopCtx
	seen := map[*LoopCtx]bool{}
	for _, cr := range w.opsKind(c, "create-index") {
		for _, t := range cr.Tm {
			d, err := parseDDL(cr, t)
			if err != nil {
				continue
			}
			b := a.holeField(d.Table, "TableName")
			if b == nil {
				continue
			}
			for _, x := range a.resolve(b) {
				if x.Op == "elem" && x.Loop != nil && !seen[x.Loop] {
					seen[x.Loop] = true
					res = append(res, x.Loop)
				}
			}
		}
	}
	return res
}

// edges lists the alternatives of a value together with the block that chooses each.
type edge struct {
	T  *Term
	Fr *Frame
	B  *ssa.BasicBlock
	To *ssa.BasicBlock // where B leads (values chosen by a branch)
}

func (a *Analysis) edges(t *Term) []edge {
	var res []edge
	type key struct {
		t *Term
		b *ssa.BasicBlock
	}
	seen := map[key]bool{}
	var visit func(t *Term, fr *Frame, b, to *ssa.BasicBlock)
	visit = func(t *Term, fr *Frame, b, to *ssa.BasicBlock) {
		k := key{t, b}
		if t.Op == "phi" {
			k.b = nil
		}
		if seen[k] {
			return
		}
		seen[k] = true
		if a.opaque[t] != nil {
			res = append(res, edge{t, fr, b, to})
			return
		}
		switch t.Op {
		case "phi":
			ph := t.Val.(*ssa.Phi)
			for i, x := range t.Args {
				visit(x, t.Fr, ph.Block().Preds[i], ph.Block())
			}
			return
		case "alts":
			for _, x := range t.Args {
				visit(x, fr, b, to)
			}
			return
		case "res", "call":
			cl, idx := t, 0
			if t.Op == "res" {
				cl, idx = t.Args[0], t.Idx
			}
			if cl.Op == "call" && len(cl.Inls) > 0 {
				for _, fr := range cl.Inls {
					slot := errSlot(fr.Fn.Signature)
					for _, ret := range fr.rets {
						if slot >= 0 && idx != slot && cfgOf(fr.Fn).retKind(ret) == retErr {
							continue
						}
						visit(fr.eval(ret.Results[idx]), fr, ret.Block(), nil)
					}
				}
				return
			}
		case "load", "field":
			n := 0
			bases := a.resolve(t.Args[0])
			for _, bt := range bases {
				f := "*"
				if t.Op == "field" {
					f = t.S
				}
				for _, s := range a.heap[bt][f] {
					n++
					visit(s.Val, s.Fr, s.In.Block(), nil)
				}
			}
			if n > 0 {
				return
			}
		}
		res = append(res, edge{t, fr, b, to})
	}
	visit(t, nil, nil, nil)
	return res
}

// edgeFacts: what is known where an alternative is chosen.
func (a *Analysis) edgeFacts(e edge, top *Frame) []Fact {
	if e.Fr == nil {
		return nil
	}
	fs := a.factsOnPath(e.Fr, e.B, top)
	if e.To != nil {
		if iff, ok := lastInstr(e.B).(*ssa.If); ok && e.B.Succs[0] != e.B.Succs[1] {
			s := stripNot(iff.Cond, e.B.Succs[0] == e.To)
			fs = append(fs, (&factCtx{a: a}).lit(e.Fr.eval(s.v), s.t)...)
		}
	}
	return fs
}

func (w *World) checkExaminedTargets(c *Command, r *Report) {
	a := w.A
	fl := c.flag("index")
	if fl == nil {
		r.missing("flag --index of %q", c.Path)
		return
	}
	lps := w.examinedColl(c)
	if len(lps) == 0 {
		r.missing("the loop over examined candidates of %q", c.Path)
		return
	}
	fromFlag := func(t *Term) bool {
		hit := false
		a.reach(t, func(x *Term) bool {
			if a.opaque[x] == fl {
				hit = true
			}
			return !hit
		})
		return hit
	}
	for _, lp := range lps {
		where := w.P.pos(lp.Fr.Fn.Pos())
		given, sugg := 0, 0
		for _, e := range a.edges(lp.Coll) {
			if e.T.Op == "nil" || e.T.Op == "zero" {
				continue
			}
			r.count("sources of candidates", 1)
			if fromFlag(e.T) {
				given++
				w.checkGiven(c, r, e.T, fl)
				continue
			}
			sugg++
			fs := a.edgeFacts(e, c.Run)
			_, hi := a.lenBounds(fs, func(t *Term) bool { return fromFlag(t) })
			if hi != 0 {
				r.failAt(where, e.T.String(), "suggestions are examined although indexes were given with --index")
			}
			w.checkSafeOnly(c, r, e.T)
		}
		if given == 0 {
			r.failAt(where, lp.Fr.String(), "indexes given with --index are not examined")
		}
		if sugg == 0 {
			r.failAt(where, lp.Fr.String(), "suggested indexes are not examined")
		}
	}
}

// checkGiven: one target per text, with the table and every column given.
func (w *World) checkGiven(c *Command, r *Report, t *Term, fl *Flag) {
	a := w.A
	bad := func(what string) { r.failAt(w.P.pos(fl.Ev.In.Pos()), "", "%s (%s)", what, c.Path) }
	s := a.seqOf(t)
	n := 0
	for _, it := range s.Items {
		if !it.Splat && len(a.values(it.Body)) == 0 {
			continue
		}
		n++
		if it.Splat || len(it.Loops) != 1 || it.Part || len(it.Conds) > 0 || it.Loops[0].Coll == nil || !w.isFlag(it.Loops[0].Coll, fl) {
			bad("not every index given with --index becomes one candidate")
			return
		}
		for _, x := range a.values(it.Body) {
			w.checkParsedTarget(c, r, x, a.mk("elem", "", 0, it.Loops[0], it.Loops[0].Coll))
		}
	}
	if n != 1 {
		bad("indexes given with --index are gathered in several ways")
	}
}

// checkParsedTarget: table and columns of a target come from the text, all columns in order.
func (w *World) checkParsedTarget(c *Command, r *Report, obj, text *Term) {
	a := w.A
	if obj.Op != "obj" {
		r.failAt("?", "", "candidate of --index is not built from its text")
		return
	}
	pos := w.P.pos(instrOf(obj).Pos())
	derives := func(t *Term) bool {
		hit := false
		a.reach(t, func(x *Term) bool {
			if x == text || x.Op == "elem" && x.Loop == text.Loop {
				hit = true
			}
			return !hit
		})
		return hit
	}
	if !derives(a.field(obj, "TableName")) {
		r.failAt(pos, "", "the table of a given index is not taken from its text")
	}
	s := a.seqOf(a.field(obj, "Columns"))
	n := 0
	for _, it := range s.Items {
		if !it.Splat && len(a.values(it.Body)) == 0 {
			continue
		}
		n++
		if len(it.Loops) != 1 || it.Part || it.Splat || it.Rev || it.Uniq || len(it.Conds) > 0 || it.Loops[0].Rev {
			r.failAt(pos, "", "not all columns of a given index are taken in their order")
			return
		}
		lp := it.Loops[0]
		coll := a.one(lp.Coll)
		if coll == nil || coll.Op != "call" || coll.Callee != "strings.Split" || !derives(coll) {
			r.failAt(pos, "", "the columns of a given index are not all parts of its text: %s", trim(lp.Coll.String()))
			return
		}
		if sep, ok := coll.Args[1].isConstString(); !ok || sep != "+" {
			r.failAt(pos, "", "the columns of a given index are not separated by +")
		}
		for _, x := range a.values(it.Body) {
			for _, y := range a.values(a.field(x, "Name")) {
				if y.Op != "elem" || y.Loop != lp {
					r.failAt(pos, "", "a column of a given index is not named as given: %s", trim(y.String()))
				}
			}
		}
	}
	if n != 1 {
		r.failAt(pos, "", "columns of a given index are gathered in %d ways", n)
	}
	r.count("given indexes traced", 1)
}

// checkSafeOnly: suggestions are left out of the examination for unsafe names only.
func (w *World) checkSafeOnly(c *Command, r *Report, t *Term) {
	a := w.A
	s := a.seqOf(t)
	for _, it := range s.Items {
		for _, lp := range it.Loops {
			if lp.Part {
				r.failAt(w.P.pos(lp.Fr.Fn.Pos()), lp.Fr.String(), "examination stops before all suggestions are examined")
			}
		}
		for _, cd := range it.Conds {
			bad := w.unsafeAtoms(cd)
			r.count("filters of suggestions", 1)
			if bad != "" {
				r.failAt(w.P.pos(cd.pos()), "", "suggestions are left out of the examination by %s", bad)
			}
		}
		if it.Body != nil && it.Body.Op == "elem" && it.Body.Loop != nil && it.Body.Loop.Coll != nil && len(it.Loops) == 1 {
			continue
		}
	}
}

func (c Cond) pos() (p token.Pos) {
	if c.In != nil {
		return c.In.Pos()
	}
	if len(c.CB) > 0 {
		return c.CB[0].Fn.Pos()
	}
	return 0
}

// unsafeAtoms: a test the condition is made of that is not about the names of the candidate.
func (w *World) unsafeAtoms(cd Cond) string {
	a := w.A
	var atoms func(t *Term, seen map[*Term]bool) string
	frame := func(fr *Frame, seen map[*Term]bool) string {
		for _, b := range fr.Fn.Blocks {
			if iff, ok := lastInstr(b).(*ssa.If); ok {
				if isLoopTest(fr.Fn, b) {
					continue
				}
				if s := atoms(fr.eval(iff.Cond), seen); s != "" {
					return s
				}
			}
		}
		for _, ret := range fr.rets {
			if len(ret.Results) > 0 {
				if s := atoms(fr.eval(ret.Results[0]), seen); s != "" {
					return s
				}
			}
		}
		return ""
	}
	atoms = func(t *Term, seen map[*Term]bool) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		switch t.Op {
		case "const":
			return ""
		case "unop":
			return atoms(t.Args[0], seen)
		case "phi", "alts":
			for _, x := range t.Args {
				if s := atoms(x, seen); s != "" {
					return s
				}
			}
			return ""
		case "call":
			if t.Callee == "(*regexp.Regexp).MatchString" {
				if pat, ok := a.regexpOf(t.Args[0]); ok && onlyWord(pat) {
					return ""
				}
				return "another pattern"
			}
			if len(t.Inls) > 0 {
				for _, fr := range t.Inls {
					if s := frame(fr, seen); s != "" {
						return s
					}
				}
				return ""
			}
		case "binop":
			if t.S == "==" || t.S == "!=" {
				x, y := a.one(t.Args[0]), a.one(t.Args[1])
				for i := 0; i < 2; i++ {
					if x != nil && y != nil && x.Op == "call" && x.Callee == "(*regexp.Regexp).ReplaceAllString" && a.sameVal(x.Args[1], y) {
						return ""
					}
					x, y = y, x
				}
			}
		}
		return trim(t.String())
	}
	seen := map[*Term]bool{}
	if cd.CB != nil {
		for _, fr := range cd.CB {
			if s := frame(fr, seen); s != "" {
				return s
			}
		}
		return ""
	}
	if cd.T == nil {
		return "" // combination of conditions listed on their own
	}
	return atoms(cd.T, seen)
}

func isLoopTest(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for _, l := range cfgOf(fn).loops {
		if l.Header == b {
			return true
		}
	}
	return false
}

var _ = strings.Contains
