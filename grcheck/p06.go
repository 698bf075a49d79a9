package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P06", "The suggestions written to the report are traced back through the collections they are copied from. On every path through the filter, a kept candidate must be known to differ (table, number of columns, or a column compared at the same position ignoring case) from every existing index of its table, a dropped one to equal one of them; nothing else may drop candidates, and the existing indexes must have been read for the tables of all candidates.", checkP06)
}

var suggestPaths = map[string]string{
	"db suggest mysql":           "suggestData.mysql",
	"db suggest postgres":        "suggestData.postgres",
	"db suggest hasura postgres": "suggestData.hasura.postgres",
}

// stage is one step of copying a collection: the loop over its source and the ways an element is kept or dropped.
type stage struct {
	lp            *LoopCtx
	kept, dropped []Out
	filtered      bool
	why           string
}

// stageOf describes how collection t is made from another one, element by element.
func (a *Analysis) stageOf(t *Term) (*stage, string) {
	s := a.seqOf(t)
	var items []*SeqItem
	for _, it := range s.Items {
		if !it.Splat && len(a.values(it.Body)) == 0 {
			continue
		}
		items = append(items, it)
	}
	if len(items) != 1 {
		return nil, "it is gathered in several ways"
	}
	it := items[0]
	if it.Splat {
		return nil, ""
	}
	if len(it.Loops) != 1 {
		return nil, "it is not gathered by one loop"
	}
	lp := it.Loops[0]
	st := &stage{lp: lp}
	if it.Part || lp.Part {
		return nil, "the loop gathering it may end early"
	}
	if lp.Site != nil {
		// collection helper
		for _, cd := range it.Conds {
			st.filtered = true
			for _, cb := range cd.CB {
				outs, ok := a.outcomes(cb)
				if !ok {
					return nil, "the filter is too complex"
				}
				for _, o := range outs {
					p := &pathEnum{a: a, left: 20000}
					for _, pol := range []bool{true, false} {
						for _, c := range p.lit(o.Vals[0], pol) {
							if m, ok := o.with(c); ok {
								if pol == cd.True {
									st.kept = append(st.kept, m)
								} else {
									st.dropped = append(st.dropped, m)
								}
							}
						}
					}
				}
			}
		}
		return st, ""
	}
	if it.Fr != lp.Fr {
		if len(it.Conds) == 0 {
			return st, ""
		}
		return nil, "the filter spans several functions"
	}
	done, _, ok := a.turns(lp)
	if len(it.Conds) == 0 {
		// a turn may still be ended early, from a loop within it
		some := false
		for _, o := range done {
			if !o.Seen[it.At.Block()] {
				some = true
			}
		}
		if !ok || !some {
			return st, ""
		}
	}
	st.filtered = true
	if !ok {
		return nil, "the filter is too complex"
	}
	for _, o := range done {
		if o.Seen[it.At.Block()] {
			st.kept = append(st.kept, o)
		} else {
			st.dropped = append(st.dropped, o)
		}
	}
	return st, ""
}

func checkP06(w *World, r *Report) {
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		roots := w.reportRoots(c)
		if len(roots) == 0 {
			r.missing("the report of %q", name)
			continue
		}
		for _, root := range roots {
			v := w.A.jsonAt(root, suggestPaths[name]+".indexTargets")
			if v == nil {
				r.missing("the suggestions in the report of %q", name)
				continue
			}
			var filtered []*Term
			w.checkFiltered(c, r, v, &filtered, false, 0)
			w.checkIndexTables(c, r, filtered)
		}
	}
}

// checkFiltered follows the suggestions back to the candidates.
func (w *World) checkFiltered(c *Command, r *Report, t *Term, colls *[]*Term, filtered bool, depth int) {
	a := w.A
	if depth > 12 {
		r.failAt("?", "", "the suggestions cannot be traced (%s)", c.Path)
		return
	}
	// unwrap duplicates removal
	for _, e := range a.edges(t) {
		x := e.T
		if x.Op == "nil" || x.Op == "zero" || x.Op == "makeslice" && len(a.heap[x]["[]"]) == 0 {
			continue
		}
		if e.Fr != nil {
			fs := a.edgeFacts(e, c.Run)
			if _, hi := a.lenBounds(fs, func(y *Term) bool { return a.sameVal(y, x) }); hi == 0 {
				continue // known to be empty here
			}
		}
		if x.Op == "call" && x.Callee == "github.com/samber/lo.Uniq" {
			w.checkFiltered(c, r, x.Args[0], colls, filtered, depth+1)
			continue
		}
		st, why := a.stageOf(x)
		if why != "" {
			r.failAt(w.where(x), "", "suggestions: %s (%s)", why, c.Path)
			continue
		}
		if st == nil {
			if !filtered {
				r.failAt(w.where(x), "", "suggestions are reported without leaving out existing indexes (%s): %s", c.Path, trim(x.String()))
			}
			continue
		}
		now := filtered
		if st.filtered {
			r.count("filters", 1)
			*colls = append(*colls, st.lp.Coll)
			if w.judgeFilter(c, r, st) {
				now = true
			}
		}
		// candidates are made elsewhere: stop at objects built from the parsed query
		if st.lp.Coll == nil || w.isCandidateSource(st) {
			if !now {
				r.failAt(w.where(x), "", "suggestions are reported without leaving out existing indexes (%s)", c.Path)
			}
			continue
		}
		w.checkFiltered(c, r, st.lp.Coll, colls, now, depth+1)
	}
}

func (w *World) where(t *Term) string {
	if t.Val != nil {
		return w.P.pos(t.Val.Pos())
	}
	return "?"
}

// isCandidateSource: the loop runs over something else than index targets.
func (w *World) isCandidateSource(st *stage) bool {
	t := st.lp.Coll.T
	if t == nil {
		return false
	}
	s := t.String()
	return !strings.Contains(s, "IndexTarget") || strings.Contains(s, "IndexTargetTable")
}

// existing: the value is (an element of) the indexes read from the catalog.
func (w *World) fromCatalog(t *Term) bool {
	hit := false
	w.A.reach(t, func(x *Term) bool {
		if x.Op == "out" && (x.S == "rows" || x.S == "json") {
			hit = true
		}
		return !hit
	})
	return hit
}

func (w *World) judgeFilter(c *Command, r *Report, st *stage) bool {
	a := w.A
	el := st.lp
	isCand := func(t *Term) bool {
		x := a.val(t)
		return x != nil && x.Op == "elem" && x.Loop == el
	}
	pos := w.P.pos(el.pos())
	good := true
	for _, o := range st.dropped {
		r.count("ways to drop a candidate", 1)
		if ok, why := w.sameEvidence(o, isCand); !ok {
			good = false
			r.failAt(pos, "", "a suggestion may be left out although %s (%s)", why, c.Path)
		}
	}
	for _, o := range st.kept {
		r.count("ways to keep a candidate", 1)
		if !w.diffEvidence(o, isCand) {
			good = false
			r.failAt(pos, "", "a suggestion may be kept although an existing index of its table has the same columns (%s)", c.Path)
		}
	}
	if len(st.dropped) == 0 || len(st.kept) == 0 {
		r.failAt(pos, "", "the filter of suggestions does not separate anything (%s)", c.Path)
		good = false
	}
	return good
}

func (l *LoopCtx) pos() (p posT) {
	if l.Site != nil {
		return l.Site.Pos()
	}
	if l.L != nil {
		for _, in := range l.L.Header.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
		if l.L.Body != nil {
			for _, in := range l.L.Body.Instrs {
				if in.Pos().IsValid() {
					return in.Pos()
				}
			}
		}
	}
	return l.Fr.Fn.Pos()
}

// colPair: comparison of the names of the columns of two targets at the same position, ignoring case.
type colPair struct {
	x, y *Term // targets
	lp   *LoopCtx
}

func (w *World) colCompare(t *Term) *colPair {
	a := w.A
	var l, rr *Term
	switch {
	case t.Op == "call" && t.Callee == "strings.EqualFold":
		l, rr = t.Args[0], t.Args[1]
	case t.Op == "binop" && (t.S == "==" || t.S == "!="):
		l, rr = a.one(t.Args[0]), a.one(t.Args[1])
		if l == nil || rr == nil || l.Op != "call" || rr.Op != "call" || l.Callee != rr.Callee || l.Callee != "strings.ToLower" && l.Callee != "strings.ToUpper" {
			return nil
		}
		l, rr = l.Args[0], rr.Args[0]
	default:
		return nil
	}
	tx, lx := w.columnOf(l)
	ty, ly := w.columnOf(rr)
	if tx == nil || ty == nil || lx != ly || lx == nil {
		return nil
	}
	return &colPair{tx, ty, lx}
}

// columnOf: the term is target.Columns[i].Name for the position i of a loop.
func (w *World) columnOf(t *Term) (target *Term, lp *LoopCtx) {
	a := w.A
	x := a.one(t)
	if x == nil {
		x = t
	}
	if x.Op != "field" || x.S != "Name" {
		// the name may be known to come from a collection of names: look at the unresolved read
		if t.Op == "field" && t.S == "Name" {
			x = t
		} else {
			return nil, nil
		}
	}
	b := x.Args[0]
	var coll *Term
	switch b.Op {
	case "elem":
		coll, lp = b.Args[0], b.Loop
	case "index":
		if i := b.Args[1]; i.Op == "rangeidx" {
			coll, lp = b.Args[0], i.Loop
		}
	}
	if coll == nil || coll.Op != "field" || coll.S != "Columns" {
		return nil, nil
	}
	return coll.Args[0], lp
}

// lenCompare: comparison of the numbers of columns of two targets.
func (w *World) lenCompare(t *Term) (x, y *Term, op string) {
	if t.Op != "binop" {
		return
	}
	side := func(t *Term) *Term {
		if t.Op == "call" && t.Callee == "len" && t.Args[0].Op == "field" && t.Args[0].S == "Columns" {
			return t.Args[0].Args[0]
		}
		return nil
	}
	x, y = side(t.Args[0]), side(t.Args[1])
	if x == nil || y == nil {
		return nil, nil, ""
	}
	return x, y, t.S
}

// tableCompare: comparison of the tables of two targets.
func (w *World) tableCompare(t *Term) (x, y *Term, op string) {
	if t.Op != "binop" || t.S != "==" && t.S != "!=" {
		return
	}
	side := func(t *Term) *Term {
		if t.Op == "field" && t.S == "TableName" {
			return t.Args[0]
		}
		return nil
	}
	x, y = side(t.Args[0]), side(t.Args[1])
	if x == nil || y == nil {
		return nil, nil, ""
	}
	return x, y, t.S
}

func eqFact(op string, pol bool) (eq, ne bool) {
	return op == "==" && pol || op == "!=" && !pol, op == "!=" && pol || op == "==" && !pol
}

// groupFor: the collection holds exactly the catalog's indexes of the candidate's table.
func (w *World) groupFor(coll *Term, isCand func(*Term) bool) bool {
	a := w.A
	t := coll
	if t.Op == "res" && t.Idx == 0 {
		t = t.Args[0]
	}
	if t.Op != "mapget" {
		return false
	}
	k := t.Args[1]
	if k.Op != "field" || k.S != "TableName" || !isCand(k.Args[0]) {
		return false
	}
	return w.groupedByTable(a, t.Args[0])
}

func (w *World) groupedByTable(a *Analysis, m *Term) bool {
	for _, x := range a.resolve(m) {
		switch {
		case x.Op == "call" && x.Callee == "github.com/samber/lo.GroupBy":
			if !w.fromCatalog(x.Args[0]) {
				return false
			}
			for _, cb := range x.CB {
				for _, k := range cb.results(0) {
					if k.Op != "field" || k.S != "TableName" || k.Args[0].Op != "elem" || k.Args[0].Loop != x.Loop {
						return false
					}
				}
			}
		case x.Op == "makemap":
			n := 0
			for _, s := range a.heap[x]["[]"] {
				n++
				if s.Key.Op != "field" || s.Key.S != "TableName" || s.Key.Args[0].Op != "elem" || !w.fromCatalog(s.Key.Args[0].Args[0]) {
					return false
				}
				el := s.Key.Args[0]
				if el.Loop == nil || el.Loop.Part {
					return false
				}
				ch := a.execChain(s.In, s.Fr, x.Fr, x.Val.(ssa.Instruction).Block())
				if len(ch.Conds) > 0 || len(ch.Loops) != 1 || ch.Loops[0] != el.Loop {
					return false
				}
				// append(m[key], el)
				if s.Val.Op != "call" || s.Val.Callee != "append" {
					return false
				}
				base := s.Val.Args[0]
				if base.Op == "res" {
					base = base.Args[0]
				}
				if base.Op != "mapget" || !a.sameVal(base.Args[0], x) || !a.sameVal(base.Args[1], s.Key) {
					return false
				}
				els, ok := a.elements(s.Val.Args[1])
				if !ok || len(els) != 1 || els[0] != el {
					return false
				}
			}
			if n == 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// indexElem: the target is an existing index; sameTable when its collection already guarantees the candidate's table.
func (w *World) indexElem(t *Term, isCand func(*Term) bool) (ok, sameTable bool) {
	if t.Op != "elem" {
		x := w.A.val(t)
		if x == nil || x.Op != "elem" {
			return false, false
		}
		t = x
	}
	if w.groupFor(t.Args[0], isCand) {
		return true, true
	}
	if t.Loop != nil && t.Loop.Coll != nil && isCand(t) {
		return false, false
	}
	return w.fromCatalog(t.Args[0]), false
}

// sameEvidence: on this way the candidate is known to equal an existing index.
func (w *World) sameEvidence(o Out, isCand func(*Term) bool) (bool, string) {
	a := w.A
	why := "no existing index is known to have the same columns"
	for _, q := range o.Alls {
		if len(q.Alts) == 0 {
			continue
		}
		var pair *colPair
		all := true
		for _, alt := range q.Alts {
			hit := false
			for _, f := range alt.Facts {
				if p := w.colCompare(f.T); p != nil && p.lp == q.Loop {
					eq := f.True
					if f.T.Op == "binop" {
						eq, _ = eqFact(f.T.S, f.True)
					}
					if eq {
						hit = true
						pair = p
					}
				}
			}
			all = all && hit
		}
		if !all || pair == nil {
			continue
		}
		x, y := pair.x, pair.y
		if isCand(y) {
			x, y = y, x
		}
		isIdx, sameTable := w.indexElem(y, isCand)
		if !isCand(x) || !isIdx {
			continue
		}
		lens := false
		for _, f := range o.Facts {
			if lx, ly, op := w.lenCompare(f.T); lx != nil {
				eq, _ := eqFact(op, f.True)
				if eq && (a.sameVal(lx, x) && a.sameVal(ly, y) || a.sameVal(lx, y) && a.sameVal(ly, x)) {
					lens = true
				}
			}
			if tx, ty, op := w.tableCompare(f.T); tx != nil {
				eq, _ := eqFact(op, f.True)
				if eq && (a.sameVal(tx, x) && a.sameVal(ty, y) || a.sameVal(tx, y) && a.sameVal(ty, x)) {
					sameTable = true
				}
			}
		}
		switch {
		case !lens:
			why = "the existing index may have another number of columns"
		case !sameTable:
			why = "the existing index may belong to another table"
		default:
			return true, ""
		}
	}
	return false, why
}

// diffEvidence: on this way the candidate is known to differ from every existing index of its table.
func (w *World) diffEvidence(o Out, isCand func(*Term) bool) bool {
	for _, f := range o.Facts {
		// no index of the table
		if f.T.Op == "res" && f.T.Idx == 1 && !f.True && w.groupFor(f.T.Args[0], isCand) {
			return true
		}
		if f.T.Op == "binop" {
			l := f.T.Args[0]
			if n, ok := f.T.Args[1].isConstInt(); ok && n == 0 && l.Op == "call" && l.Callee == "len" && w.groupFor(l.Args[0], isCand) {
				if eq, _ := eqFact(f.T.S, f.True); eq || f.T.S == ">" && !f.True {
					return true
				}
			}
		}
	}
	for _, q := range o.Alls {
		if q.Loop.Coll == nil || q.Loop.Part && false {
			continue
		}
		inGroup := w.groupFor(q.Loop.Coll, isCand)
		if !inGroup && !w.fromCatalog(q.Loop.Coll) {
			continue
		}
		all := len(q.Alts) > 0
		for _, alt := range q.Alts {
			all = all && w.differs(alt, isCand, q.Loop)
		}
		if all {
			return true
		}
	}
	return false
}

func (w *World) differs(o Out, isCand func(*Term) bool, lp *LoopCtx) bool {
	a := w.A
	isIdx := func(t *Term) bool {
		x := a.val(t)
		return t.Op == "elem" && t.Loop == lp || x != nil && x.Op == "elem" && x.Loop == lp
	}
	both := func(x, y *Term) bool { return isCand(x) && isIdx(y) || isCand(y) && isIdx(x) }
	for _, f := range o.Facts {
		if x, y, op := w.lenCompare(f.T); x != nil && both(x, y) {
			if _, ne := eqFact(op, f.True); ne || (op == "<" || op == ">") && f.True || (op == "<=" || op == ">=") && !f.True {
				return true
			}
		}
		if p := w.colCompare(f.T); p != nil && both(p.x, p.y) {
			ne := !f.True
			if f.T.Op == "binop" {
				_, ne = eqFact(f.T.S, f.True)
			}
			if ne {
				return true
			}
		}
		if x, y, op := w.tableCompare(f.T); x != nil && both(x, y) {
			if _, ne := eqFact(op, f.True); ne {
				return true
			}
		}
	}
	return false
}

// checkIndexTables: existing indexes are read for the tables of all candidates.
func (w *World) checkIndexTables(c *Command, r *Report, colls []*Term) {
	a := w.A
	n := 0
	for _, e := range c.events {
		if !strings.HasSuffix(e.Callee, ".GetIndexes") || !strings.Contains(e.Callee, "/infra/") {
			continue
		}
		n++
		t := e.Args[len(e.Args)-1]
		r.count("catalog lookups", 1)
		s := a.seqOf(t)
		ok := len(s.Items) == 1
		for _, it := range s.Items {
			if it.Splat || it.Part || len(it.Loops) != 1 || len(it.Conds) > 0 {
				ok = false
				continue
			}
			lp := it.Loops[0]
			for _, cl := range colls {
				if !a.sameCollection(lp.Coll, cl) {
					ok = false
				}
			}
			for _, b := range a.values(it.Body) {
				if b.Op != "field" || b.S != "TableName" || b.Args[0].Op != "elem" || b.Args[0].Loop != lp {
					ok = false
				}
			}
		}
		if !ok {
			r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), "existing indexes are not read for the tables of all candidates (%s)", c.Path)
		}
	}
	if n == 0 {
		r.missing("the lookup of existing indexes of %q", c.Path)
	}
}
