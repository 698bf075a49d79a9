package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P19", "Requests to RDS and Performance Insights: instances, grouping, consecutive windows over the period, every page; each number of the report traced back to the member of the answer it states, conditions on the way, keys of the maps it is filed under, one filing per data point; the listed hours as a series over the period.", checkP19)
}

const piCmd = "db dig performance-insights"
const week = 7 * day
const vmPkg = "github.com/mrasu/GravityR/html/viewmodel."

// deepPath describes where a value comes from: the members followed from the result of a call, through collections
// the program builds itself ("call.Member[*].Member").
type deepPath struct {
	base  *Term // the call
	path  string
	items []*SeqItem
	loops []*LoopCtx
}

func (w *World) deep(t *Term) (*deepPath, bool) { return w.deep1(t, 0) }

var derefs = map[string]bool{
	"github.com/aws/aws-sdk-go-v2/aws.ToString": true, "github.com/aws/aws-sdk-go-v2/aws.ToTime": true,
	"github.com/aws/aws-sdk-go-v2/aws.ToFloat64": true, "github.com/samber/lo.FromPtr": true,
	"(time.Time).UTC": true,
}

func (w *World) deep1(t *Term, d int) (*deepPath, bool) {
	a := w.A
	if d > 40 || t == nil {
		return nil, false
	}
	add := func(x *Term, s string) (*deepPath, bool) {
		p, ok := w.deep1(x, d+1)
		if !ok {
			return nil, false
		}
		n := *p
		n.path += s
		return &n, true
	}
	switch t.Op {
	case "elem":
		// of a collection kept in a member of an object made here?
		if c := a.copied(t.Args[0]); c.Op == "field" {
			if o := w.own(c.Args[0]); o != nil {
				p, ok := w.deep1(a.mk("elem", "", 0, t.Loop, a.field(o.body, c.S)), d+1)
				return o.before(p, ok)
			}
		}
		// of a collection made here?
		s := a.seqOf(t.Args[0])
		var items []*SeqItem
		for _, it := range s.Items {
			if it.Splat && len(a.values(it.Body)) == 0 {
				continue
			}
			items = append(items, it)
		}
		if len(items) == 1 && !items[0].Splat && items[0].Body != t {
			it := items[0]
			p, ok := w.deep1(it.Body, d+1)
			if !ok {
				return nil, false
			}
			n := *p
			n.items = append([]*SeqItem{it}, n.items...)
			if t.Loop != nil {
				n.loops = append([]*LoopCtx{t.Loop}, n.loops...)
			}
			return &n, true
		}
		if len(items) == 1 && items[0].Splat {
			it := items[0]
			p, ok := w.deep1(it.Body, d+1)
			if ok {
				n := *p
				n.items = append([]*SeqItem{it}, n.items...)
				n.path += "[*]"
				if t.Loop != nil {
					n.loops = append([]*LoopCtx{t.Loop}, n.loops...)
				}
				return &n, true
			}
		}
		p, ok := add(t.Args[0], "[*]")
		if ok && t.Loop != nil {
			p.loops = append([]*LoopCtx{t.Loop}, p.loops...)
		}
		return p, ok
	case "field":
		// of an object made here?
		for _, b := range a.resolve(t.Args[0]) {
			if b.Op != "obj" {
				continue
			}
			rs := a.heap[b][t.S]
			var vals []*StoreRec
			for _, r := range rs {
				if !r.Zero {
					vals = append(vals, r)
				}
			}
			if len(vals) == 1 {
				return w.deep1(vals[0].Val, d+1)
			}
		}
		if o := w.own(t.Args[0]); o != nil {
			p, ok := w.deep1(a.field(o.body, t.S), d+1)
			return o.before(p, ok)
		}
		return add(t.Args[0], "."+t.S)
	case "load":
		if v := a.cellVal(a.one(t.Args[0])); v != nil {
			return w.deep1(v, d+1)
		}
		return w.deep1(t.Args[0], d+1)
	case "obj":
		if v := a.cellVal(t); v != nil {
			return w.deep1(v, d+1)
		}
		return nil, false
	case "addr":
		return w.deep1(a.field(t.Args[0], t.S), d+1)
	case "mapget":
		k := a.val(t.Args[1])
		if k == nil {
			return nil, false
		}
		s, ok := k.isConstString()
		if !ok {
			return nil, false
		}
		return add(t.Args[0], "["+s+"]")
	case "conv", "chtype":
		return w.deep1(t.Args[0], d+1)
	case "res":
		if c := t.Args[0]; c.Op == "call" && len(c.Inls) == 0 {
			return &deepPath{base: c}, true
		}
	case "call":
		if derefs[t.Callee] {
			return w.deep1(t.Args[0], d+1)
		}
		if len(t.Inls) == 0 && t.Callee != "append" {
			return &deepPath{base: t}, true
		}
	}
	if x := a.one(t); x != nil && x != t {
		return w.deep1(x, d+1)
	}
	// several values of which one is not empty
	if vs := a.values(t); len(vs) == 1 && vs[0] != t {
		return w.deep1(vs[0], d+1)
	}
	return nil, false
}

// ownElem is an element of a collection whose elements are objects made by the program.
type ownElem struct {
	body  *Term
	items []*SeqItem
	loops []*LoopCtx
}

func (o *ownElem) before(p *deepPath, ok bool) (*deepPath, bool) {
	if !ok {
		return nil, false
	}
	n := *p
	n.items = append(append([]*SeqItem{}, o.items...), n.items...)
	n.loops = append(append([]*LoopCtx{}, o.loops...), n.loops...)
	return &n, true
}

func (w *World) own(t *Term) *ownElem {
	a := w.A
	for k := 0; k < 8; k++ {
		switch t.Op {
		case "elem":
			o := &ownElem{}
			coll := a.copied(t.Args[0])
			if coll.Op == "field" {
				if in := w.own(coll.Args[0]); in != nil {
					o.items, o.loops = in.items, in.loops
					coll = a.field(in.body, coll.S)
				}
			}
			it := w.soleItem(coll)
			if it == nil {
				return nil
			}
			if b := a.val(it.Body); b == nil || b.Op != "obj" || a.cellVal(b) != nil {
				return nil
			}
			o.body = it.Body
			o.items = append(append([]*SeqItem{}, o.items...), it)
			if t.Loop != nil {
				o.loops = append(append([]*LoopCtx{}, o.loops...), t.Loop)
			}
			return o
		case "load":
			t = t.Args[0]
			continue
		case "obj":
			if v := a.cellVal(t); v != nil {
				t = v
				continue
			}
			return nil
		}
		x := a.one(t)
		if x == nil || x == t {
			return nil
		}
		t = x
	}
	return nil
}

// deepAny: where an element, or else a member of it, comes from.
func (w *World) deepAny(t *Term) (*deepPath, bool) {
	if p, ok := w.deep(t); ok {
		return p, true
	}
	o := w.own(t)
	if o == nil {
		return nil, false
	}
	if b := w.A.val(o.body); b != nil {
		for _, f := range sortedFields(w.A.heap[b]) {
			if p, ok := w.deep(w.A.field(o.body, f)); ok {
				return o.before(p, true)
			}
		}
	}
	return nil, false
}

// soleItem: what is put into the collection, if that happens at one place only.
func (w *World) soleItem(coll *Term) *SeqItem {
	var items []*SeqItem
	for _, it := range w.A.seqOf(coll).Items {
		if it.Splat && len(w.A.values(it.Body)) == 0 {
			continue
		}
		items = append(items, it)
	}
	if len(items) != 1 || items[0].Splat {
		return nil
	}
	return items[0]
}

// copied follows copies only.
func (a *Analysis) copied(t *Term) *Term {
	for k := 0; k < 6; k++ {
		if t.Op == "conv" || t.Op == "chtype" {
			t = t.Args[0]
			continue
		}
		if t.Op == "load" {
			if v := a.cellVal(a.one(t.Args[0])); v != nil {
				t = v
				continue
			}
		}
		break
	}
	return t
}

// piRequest is one series of requests for metrics.
type piRequest struct {
	page  *Event // NextPage
	input *Term
	group string
	g     *winGen
}

func (w *World) paged(c *Command, r *Report, e *Event) (input *Term) {
	a := w.A
	bad := func(f string, args ...any) { r.failAt(w.P.pos(e.In.Pos()), c.Path, f, args...) }
	pag := a.val(e.Args[0])
	if pag == nil || pag.Op != "call" || !strings.Contains(pag.Callee, "Paginator") || len(pag.Args) < 2 {
		bad("the pages are not understood")
		return nil
	}
	input = a.val(pag.Args[1])
	r.count("paged requests", 1)
	var loop *Loop
	for _, l := range cfgOf(e.Fr.Fn).loops {
		if l.Blocks[e.In.Block()] && (loop == nil || loop.Blocks[l.Header]) {
			loop = l
		}
	}
	if loop == nil {
		bad("only the first page is read")
		return input
	}
	// the paginator is made outside of the loop
	if pag.Fr == e.Fr && loop.Blocks[pag.Val.(ssa.Instruction).Block()] {
		bad("only the first page is read")
		return input
	}
	ci := cfgOf(e.Fr.Fn)
	for b := range loop.Blocks {
		if ret, ok := lastInstr(b).(*ssa.Return); ok && ci.retKind(ret) != retErr {
			bad("pages may be left out")
		}
		for _, s := range b.Succs {
			if loop.Blocks[s] || ci.errOnly[s] {
				continue
			}
			iff, ok := lastInstr(b).(*ssa.If)
			done := false
			if ok {
				fc := &factCtx{a: a}
				for _, f := range fc.lit(e.Fr.eval(iff.Cond), b.Succs[0] == s) {
					if f.T.Op == "call" && strings.HasSuffix(f.T.Callee, "Paginator).HasMorePages") && !f.True && a.val(f.T.Args[0]) == pag {
						done = true
					}
				}
			}
			if !done {
				bad("pages may be left out")
			}
		}
	}
	return input
}

func checkP19(w *World, r *Report) {
	a := w.A
	c := w.Cmds[piCmd]
	if c == nil {
		r.missing("command %q", piCmd)
		return
	}
	var dbPage *Event
	var reqs []*piRequest
	for _, e := range c.events {
		switch {
		case strings.HasSuffix(e.Callee, "DescribeDBInstances") || strings.HasSuffix(e.Callee, ".GetResourceMetrics"):
			r.failAt(w.P.pos(e.In.Pos()), c.Path, "only the first page is read")
		case strings.HasSuffix(e.Callee, "DescribeDBInstancesPaginator).NextPage"):
			dbPage = e
			in := w.paged(c, r, e)
			if in != nil {
				w.checkEngine(c, r, e, in)
			}
		case strings.HasSuffix(e.Callee, "GetResourceMetricsPaginator).NextPage"):
			in := w.paged(c, r, e)
			if in != nil {
				reqs = append(reqs, &piRequest{page: e, input: in})
			}
		}
	}
	if dbPage == nil {
		r.missing("the request for the database instances")
		return
	}
	groups := map[string]int{}
	for _, q := range reqs {
		w.checkPiRequest(c, r, q, dbPage)
		groups[q.group]++
	}
	for _, g := range []string{"db.sql", "db.sql_tokenized"} {
		if groups[g] == 0 {
			r.missing("requests for the load grouped by %s", g)
		}
	}
	roots := w.reportRoots(c)
	if len(roots) != 1 {
		r.missing("the report of %q", c.Path)
		return
	}
	for _, m := range []struct{ name, group, sql, id string }{
		{"sqlDbLoads", "db.sql", "db.sql.statement", "db.sql.tokenized_id"},
		{"tokenizedSqlDbLoads", "db.sql_tokenized", "db.sql_tokenized.statement", "db.sql_tokenized.id"},
	} {
		t := a.jsonAt(roots[0], "digData.performanceInsights."+m.name)
		if t == nil {
			r.missing("member %s of the report", m.name)
			continue
		}
		w.checkLoads(c, r, m.name, t, m.group, m.sql, m.id, reqs, dbPage)
	}
}

func (w *World) checkEngine(c *Command, r *Report, e *Event, in *Term) {
	a := w.A
	bad := func(f string, args ...any) { r.failAt(w.P.pos(e.In.Pos()), c.Path, f, args...) }
	if in.Op != "obj" {
		return
	}
	for _, m := range []string{"DBInstanceIdentifier", "Marker"} {
		if len(a.values(a.field(in, m))) > 0 {
			bad("the instances are restricted by %s", m)
		}
	}
	els, ok := a.elements(a.field(in, "Filters"))
	if !ok || len(els) != 1 {
		bad("the instances are not those of MySQL")
		return
	}
	n := w.ptrConst(a.field(els[0], "Name"))
	vals := a.seqOf(a.field(els[0], "Values"))
	hit := false
	for _, it := range vals.Items {
		if b := a.val(it.Body); b != nil {
			if s, ok := b.isConstString(); ok && s == "mysql" && !it.Splat && len(it.Conds) == 0 {
				hit = true
			}
		}
	}
	if n != "engine" || !hit {
		bad("the instances are not those of MySQL")
	}
}

// ptrConst: the constant a pointer leads to.
func (w *World) ptrConst(t *Term) string {
	a := w.A
	x := a.val(t)
	for k := 0; k < 4 && x != nil && x.Op == "obj"; k++ {
		x = a.val(a.mk("load", "", 0, nil, x))
	}
	if x == nil {
		return ""
	}
	if x.Op == "call" && len(x.Inls) == 0 && len(x.Args) == 1 && (strings.HasSuffix(x.Callee, "/aws.String") || strings.HasSuffix(x.Callee, "lo.ToPtr")) {
		x = a.val(x.Args[0])
	}
	if x == nil {
		return ""
	}
	s, _ := x.isConstString()
	return s
}

// pointed: what a pointer leads to.
func (w *World) pointed(t *Term) *Term {
	a := w.A
	x := a.one(t)
	if x == nil {
		return t
	}
	if x.Op == "call" && len(x.Inls) == 0 && len(x.Args) == 1 {
		return x.Args[0]
	}
	if v := a.cellVal(x); v != nil {
		return v
	}
	return a.mk("load", "", 0, nil, x)
}

func (w *World) checkPiRequest(c *Command, r *Report, q *piRequest, dbPage *Event) {
	a := w.A
	bad := func(f string, args ...any) { r.failAt(w.P.pos(q.page.In.Pos()), c.Path, f, args...) }
	if q.input.Op != "obj" {
		bad("the request is not understood")
		return
	}
	id, ok := w.deep(a.field(q.input, "Identifier"))
	if !ok || !w.isCallOf(id.base, dbPage) || id.path != ".DBInstances[*].DbiResourceId" {
		bad("the request is not about the resource id of an instance")
	}
	if st := a.val(a.field(q.input, "ServiceType")); st == nil {
		bad("the service is not RDS")
	} else if s, ok := st.isConstString(); !ok || s != "RDS" {
		bad("the service is not RDS")
	}
	els, ok := a.elements(a.field(q.input, "MetricQueries"))
	if !ok || len(els) != 1 {
		bad("the metrics asked for are not understood")
		return
	}
	if w.ptrConst(a.field(els[0], "Metric")) != "db.load.avg" {
		bad("the metric is not db.load.avg")
	}
	gb := a.val(a.field(els[0], "GroupBy"))
	if gb == nil || gb.Op != "obj" {
		bad("the load is not grouped")
		return
	}
	q.group = w.ptrConst(a.field(gb, "Group"))
	if q.group != "db.sql" && q.group != "db.sql_tokenized" {
		bad("the load is grouped by %q", q.group)
	}
	if len(a.values(a.field(els[0], "Filter"))) > 0 {
		bad("the load is filtered")
	}
	st := w.pointed(a.field(q.input, "StartTime"))
	en := w.pointed(a.field(q.input, "EndTime"))
	g, off, why := w.series(st)
	if why != "" {
		bad("%s", why)
		return
	}
	q.g = g
	if off != 0 {
		bad("the first window does not begin at the start")
	}
	is, ie := a.instant(st), a.instant(en)
	if is.base != ie.base || len(is.syms) != len(ie.syms) || ie.off-is.off != g.step {
		bad("a window does not end where the next one starts")
	}
	r.count("series of windows", 1)
	w.checkPeriod(c, r, g, week, false, bad)
	// every instance: the loops around the request
	insts := false
	for _, s := range pathTo(c.Run, q.page.Fr, q.page.In) {
		for _, l := range cfgOf(s.Fr.Fn).loopChain(s.In.Block()) {
			lc := s.Fr.loopCtx(l)
			if lc.Part {
				bad("instances or windows may be left out")
			}
			if lc.Coll != nil {
				if p, ok := w.deepAny(a.mk("elem", "", 0, lc, lc.Coll)); ok && w.isCallOf(p.base, dbPage) {
					insts = true
					w.checkPassed(r, p, bad)
				}
			}
		}
		if s.Fr.Fn == q.page.Fr.Fn {
			continue
		}
		ci := cfgOf(s.Fr.Fn)
		b := s.In.Block()
		if l := ci.loopChain(b); len(l) == 0 && !ci.mustExec(b) || len(l) > 0 && !ci.everyTurn(innermost(l), b) {
			bad("some requests may be left out")
		}
	}
	if !insts {
		bad("the request is not made for every instance")
	}
}

func innermost(ls []*Loop) *Loop {
	in := ls[0]
	for _, l := range ls {
		if in.Blocks[l.Header] {
			in = l
		}
	}
	return in
}

func (w *World) isCallOf(t *Term, e *Event) bool {
	return t != nil && e != nil && (t == e.Call || t.Val != nil && t.Val == e.Call.Val && t.Fr == e.Call.Fr)
}

// checkPassed: nothing is left out on the way from the answer.
func (w *World) checkPassed(r *Report, p *deepPath, bad func(string, ...any)) {
	for _, it := range p.items {
		r.count("collections followed", 1)
		if it.Part || it.Uniq {
			bad("data of an answer may be left out (a pass may end early, or what it gathered is replaced)")
		}
		for _, l := range it.Loops {
			if l.Part {
				bad("data of an answer may be left out (a pass may end early)")
			}
		}
		for _, cd := range it.Conds {
			if !w.A.dropsOnly(cd, w.harmless) {
				bad("data of an answer may be left out: %s", condText(cd))
			}
		}
	}
	for _, l := range p.loops {
		if l.Part {
			bad("data of an answer may be left out (a pass may end early)")
		}
	}
}

// harmless: what is left out carries no load: a missing member, no load at all, or another metric.
func (w *World) harmless(f Fact) bool {
	a := w.A
	t := f.T
	if t.Op == "call" && strings.HasSuffix(t.Callee, "Paginator).HasMorePages") {
		return f.True
	}
	if t.Op == "call" && (t.Callee == "(time.Time).Before" || t.Callee == "(time.Time).After") {
		return true // the loop over the windows
	}
	if t.Op != "binop" {
		return false
	}
	x, y, op := t.Args[0], t.Args[1], t.S
	if x.Op == "nil" || x.Op == "const" {
		x, y, op = y, x, swapOpS(op)
	}
	if !f.True {
		op = negOpS(op)
	}
	if y.Op == "nil" {
		return op == "!="
	}
	p, ok := w.deep(x)
	if !ok {
		return false
	}
	if s, isS := a.peel(y).isConstString(); isS {
		return op == "==" && s == "db.load.avg" && strings.HasSuffix(p.path, ".Key.Metric")
	}
	if y.Op == "const" && strings.HasSuffix(p.path, ".Value") && constZero(y) {
		return op == "!=" || op == ">"
	}
	return false
}

func constZero(t *Term) bool {
	if k, ok := t.isConstInt(); ok {
		return k == 0
	}
	return t.C != nil && t.C.ExactString() == "0"
}

// hourOf: the term is the beginning of the hour (in UTC) of a moment.
func (w *World) hourOf(t *Term) (at *Term, why string) {
	a := w.A
	x := a.peel(t)
	if x.Op == "call" && x.Callee == "(time.Time).UTC" {
		// UTC of the truncated
		x = a.peel(x.Args[0])
	}
	utc := func(y *Term) (*Term, string) {
		y = a.peel(y)
		if y.Op == "call" && y.Callee == "(time.Time).UTC" {
			return a.peel(y.Args[0]), ""
		}
		if y.Op == "call" && y.Callee == "(time.Time).In" && strings.HasSuffix(y.Args[1].String(), "time.UTC") {
			return a.peel(y.Args[0]), ""
		}
		return y, "the hours are not those of one time zone"
	}
	if x.Op != "call" {
		return nil, "the hour is not understood"
	}
	switch x.Callee {
	case "(time.Time).Truncate":
		if k, ok := a.peel(x.Args[1]).isConstInt(); !ok || k != 3600*1000*milli {
			return nil, "the hour is not understood"
		}
		return utc(x.Args[0])
	case "time.Date":
		var of *Term
		for i, m := range []string{"Year", "Month", "Day", "Hour"} {
			y := a.peel(x.Args[i])
			if y.Op != "call" || y.Callee != "(time.Time)."+m || of != nil && a.peel(y.Args[0]) != of {
				return nil, "the hour is not the one of the moment"
			}
			of = a.peel(y.Args[0])
		}
		for i := 4; i < 7; i++ {
			if k, ok := a.peel(x.Args[i]).isConstInt(); !ok || k != 0 {
				return nil, "the hour is not the one of the moment"
			}
		}
		loc := a.peel(x.Args[7])
		if loc.Op == "call" && loc.Callee == "(time.Time).Location" && a.peel(loc.Args[0]) == of {
			return utc(of)
		}
		if strings.HasSuffix(loc.String(), "time.UTC") {
			return utc(of)
		}
	}
	return nil, "the hour is not understood"
}

func (w *World) checkLoads(c *Command, r *Report, name string, t *Term, group, sqlKey, idKey string, reqs []*piRequest, dbPage *Event) {
	a := w.A
	pos := "?"
	for _, x := range a.values(t) {
		if x.Val != nil && pos == "?" {
			pos = w.P.pos(x.Val.Pos())
		}
	}
	bad := func(f string, args ...any) { r.failAt(pos, c.Path, name+": "+f, args...) }
	objs := map[string][]*Term{}
	a.reach(t, func(y *Term) bool {
		if y.Op == "obj" && y.T != nil {
			n := namedOf(deptr(y.T))
			switch n {
			case vmPkg + "VmDbLoadOfSql", vmPkg + "VmDbLoad", vmPkg + "VmTimeDbLoad":
				objs[n] = append(objs[n], y)
			}
		}
		return true
	})
	loads, dbs, hours := objs[vmPkg+"VmDbLoadOfSql"], objs[vmPkg+"VmDbLoad"], objs[vmPkg+"VmTimeDbLoad"]
	if len(loads) == 0 || len(dbs) == 0 || len(hours) == 0 {
		bad("the loads are missing from the report")
		return
	}
	var q *piRequest
	of := func(what string, v *Term, path string) *deepPath {
		p, ok := w.deep(v)
		r.count("members traced", 1)
		if !ok {
			bad("%s does not come from the answers", what)
			return nil
		}
		var mine *piRequest
		for _, x := range reqs {
			if w.isCallOf(p.base, x.page) {
				mine = x
			}
		}
		if mine == nil {
			bad("%s does not come from the answers of Performance Insights", what)
			return nil
		}
		if mine.group != group {
			bad("%s comes from the load grouped by %s", what, mine.group)
		}
		if p.path != path {
			bad("%s is %s instead of %s", what, p.path, path)
		}
		q = mine
		return p
	}
	var value *Term
	for _, o := range loads {
		if p := of("sql", a.field(o, "Sql"), ".MetricList[*].Key.Dimensions["+sqlKey+"]"); p != nil {
			w.checkPassed(r, p, bad)
		}
		if p := of("tokenizedId", a.field(o, "TokenizedId"), ".MetricList[*].Key.Dimensions["+idKey+"]"); p != nil {
			w.checkPassed(r, p, bad)
		}
		for _, m := range []string{"LoadMax", "LoadSum"} {
			n := 0
			for _, rec := range a.heap[o][m] {
				if rec.Zero || !w.inLiteral(o, rec) {
					continue
				}
				n++
				if p := of(m, rec.Val, ".MetricList[*].DataPoints[*].Value"); p != nil {
					w.checkPassed(r, p, bad)
					value = rec.Val
				}
			}
			if n != 1 {
				bad("%s does not start with the value", m)
			}
		}
	}
	for _, o := range dbs {
		p, ok := w.deep(a.field(o, "Name"))
		if !ok || !w.isCallOf(p.base, dbPage) || p.path != ".DBInstances[*].DBInstanceIdentifier" {
			bad("the name of the database is not that of its instance")
		}
	}
	if q == nil || value == nil {
		return
	}
	w.checkUpdates(c, r, loads, value, bad)
	w.checkFiling(c, r, loads, dbs, value, bad)
	w.checkHours(c, r, t, hours, q, bad)
}

// inLiteral: the store is part of the making of the object.
func (w *World) inLiteral(o *Term, rec *StoreRec) bool {
	st, ok := rec.In.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	return ok && fa.X == o.Val
}

// updates: the later assignments to a member of the entries made at o (they are found in the list they are kept in).
func (w *World) updates(o *Term, m string) []*StoreRec {
	a := w.A
	tn := namedOf(deptr(o.T))
	in := func(fr *Frame) bool {
		for x := fr; x != nil; x = x.Parent {
			if x == o.Fr {
				return true
			}
		}
		for x := o.Fr; x != nil; x = x.Parent {
			if x == fr {
				return true
			}
		}
		// called by the same function
		return fr.Parent != nil && o.Fr.Parent == fr.Parent && fr.Fn != o.Fr.Fn
	}
	var res []*StoreRec
	seen := map[ssa.Instruction]map[*Frame]bool{}
	for _, fs := range a.heap {
		for _, rec := range fs[m] {
			if rec.Zero || w.inLiteral(o, rec) || seen[rec.In][rec.Fr] || !in(rec.Fr) {
				continue
			}
			st, ok := rec.In.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || namedOf(deptr(fa.X.Type())) != tn {
				continue
			}
			if seen[rec.In] == nil {
				seen[rec.In] = map[*Frame]bool{}
			}
			seen[rec.In][rec.Fr] = true
			res = append(res, rec)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Seq < res[j].Seq })
	return res
}

// checkUpdates: a further value is added to the sum and may raise the maximum of the entry with the same SQL.
func (w *World) checkUpdates(c *Command, r *Report, loads []*Term, value *Term, bad func(string, ...any)) {
	a := w.A
	same := func(x *Term) bool { return x == value || a.val(x) != nil && a.val(x) == a.val(value) }
	for _, o := range loads {
		for _, m := range []string{"LoadMax", "LoadSum"} {
			ups := w.updates(o, m)
			if len(ups) == 0 {
				bad("%s is never updated", m)
			}
			for _, rec := range ups {
				r.count("updates decided", 1)
				st := rec.In.(*ssa.Store)
				base := rec.Fr.eval(st.Addr.(*ssa.FieldAddr).X)
				own := func(x *Term) bool {
					return x.Op == "field" && x.S == m && (x.Args[0] == base || a.val(x.Args[0]) == a.val(base))
				}
				v := rec.Val
				fs := a.factsOnPath(rec.Fr, st.Block(), c.Run)
				if m == "LoadSum" {
					if !(v.Op == "binop" && v.S == "+" && (own(v.Args[0]) && same(v.Args[1]) || own(v.Args[1]) && same(v.Args[0]))) {
						bad("LoadSum is not increased by the value")
					}
				} else {
					ok := v.Op == "call" && v.Callee == "math.Max" && (own(v.Args[0]) && same(v.Args[1]) || own(v.Args[1]) && same(v.Args[0]))
					if same(v) {
						for _, f := range fs {
							if f.T.Op != "binop" {
								continue
							}
							x, y, op := f.T.Args[0], f.T.Args[1], f.T.S
							if !own(x) {
								x, y, op = y, x, swapOpS(op)
							}
							if !f.True {
								op = negOpS(op)
							}
							if own(x) && same(y) && (op == "<" || op == "<=") {
								ok = true
							}
						}
					}
					if !ok {
						bad("LoadMax does not become the value exactly when that is greater")
					}
				}
				// the entry is that of the same SQL
				hit := false
				sql := a.field(o, "Sql")
				for _, f := range fs {
					if f.T.Op != "binop" || (f.T.S == "==") != f.True {
						continue
					}
					for i := 0; i < 2; i++ {
						x, y := f.T.Args[i], f.T.Args[1-i]
						if x.Op == "field" && x.S == "Sql" && (a.val(x.Args[0]) == a.val(base) || x.Args[0] == base) && w.sameDeep(y, sql) {
							hit = true
						}
					}
				}
				if hit {
					continue
				}
				if base.Op == "elem" {
					bad("%s of another SQL's entry may be updated", m)
				} else {
					r.count("entries not followed", 1)
				}
			}
		}
	}
}

func (w *World) sameDeep(x, y *Term) bool {
	p, ok1 := w.deep(x)
	q, ok2 := w.deep(y)
	return ok1 && ok2 && p.base == q.base && p.path == q.path
}

// checkFiling: every value is filed exactly once, under its hour and its database.
func (w *World) checkFiling(c *Command, r *Report, loads, dbs []*Term, value *Term, bad func(string, ...any)) {
	a := w.A
	o := loads[0]
	fr := o.Fr
	// the loop over the values
	var lp *LoopCtx
	ch := a.execChain(o.Val.(ssa.Instruction), fr, fr, fr.Fn.Blocks[0])
	for _, l := range ch.Loops {
		lp = l
	}
	if lp == nil {
		r.count("filings not followed", 1)
		return
	}
	type place struct {
		b *ssa.BasicBlock
	}
	sites := map[place]bool{}
	for _, rec := range w.updates(o, "LoadSum") {
		if rec.Fr != fr {
			r.count("filings not followed", 1)
			return
		}
		sites[place{rec.In.Block()}] = true
	}
	if len(loads) != 1 {
		r.count("filings not followed", 1)
		return
	}
	for _, d := range dbs {
		for _, rec := range a.heap[d]["Sqls"] {
			if rec.Val.Op != "call" || rec.Val.Callee != "append" {
				continue
			}
			if rec.Fr != fr {
				r.count("filings not followed", 1)
				return
			}
			sites[place{rec.In.Block()}] = true
		}
	}
	done, left, ok := a.turns(lp)
	if !ok || len(done) == 0 {
		r.count("filings not followed", 1)
		return
	}
	for _, t := range done {
		n := 0
		for s := range sites {
			if t.Seen[s.b] {
				n++
			}
		}
		r.count("ways to file a value", 1)
		if n == 0 {
			bad("a value may be left out")
			break
		}
		if n > 1 {
			bad("a value may be counted twice")
			break
		}
	}
	for _, t := range left {
		if t.Ret == nil || cfgOf(t.Ret.Parent()).retKind(t.Ret) != retErr {
			bad("values may be left out (the pass may end early)")
			break
		}
	}
	// keys of the maps
	for _, b := range fr.Fn.Blocks {
		for _, in := range b.Instrs {
			var key ssa.Value
			of := ""
			switch x := in.(type) {
			case *ssa.MapUpdate:
				key = x.Key
				of = namedOf(deptr(x.Map.Type().Underlying().(*types.Map).Elem()))
			case *ssa.Lookup:
				if m, isMap := x.X.Type().Underlying().(*types.Map); isMap {
					key = x.Index
					of = namedOf(deptr(m.Elem()))
				}
			}
			if key == nil || !lp.L.Blocks[b] {
				continue
			}
			k := fr.eval(key)
			switch types.TypeString(key.Type(), nil) {
			case "time.Time":
				r.count("keys traced", 1)
				at, why := w.hourOf(k)
				if why != "" {
					bad("%s", why)
					return
				}
				if p, ok := w.deep(at); !ok || p.path != ".MetricList[*].DataPoints[*].Timestamp" {
					bad("a value is filed under another hour than its own")
					return
				}
			case "string":
				r.count("keys traced", 1)
				p, ok := w.deep(k)
				if !ok {
					continue
				}
				isDb := strings.HasSuffix(p.path, ".DBInstanceIdentifier")
				if of == vmPkg+"VmDbLoad" && !isDb || !isDb && !strings.Contains(p.path, ".Dimensions[") {
					bad("a value is filed under another database than its own")
					return
				}
			}
		}
	}
}

// checkHours: the report lists every hour of the period once.
func (w *World) checkHours(c *Command, r *Report, t *Term, hours []*Term, q *piRequest, bad func(string, ...any)) {
	a := w.A
	s := a.seqOf(t)
	var lp *LoopCtx
	sites := map[*ssa.BasicBlock]int{}
	for _, it := range s.Items {
		if it.Splat && len(a.values(it.Body)) == 0 {
			continue
		}
		if len(it.Loops) != 1 || it.Splat || lp != nil && it.Loops[0] != lp {
			r.count("lists of hours not followed", 1)
			return
		}
		lp = it.Loops[0]
		if it.Part || lp.Part {
			bad("hours may be left out")
			return
		}
		if it.Fr == lp.Fr {
			sites[it.At.Block()]++
		}
	}
	if lp == nil || lp.L == nil {
		r.count("lists of hours not followed", 1)
		return
	}
	if done, _, ok := a.turns(lp); ok && len(sites) > 0 {
		for _, o := range done {
			n := 0
			for b, k := range sites {
				if o.Seen[b] {
					n += k
				}
			}
			if n == 0 {
				bad("an hour may be left out")
				break
			}
			if n > 1 {
				bad("an hour may be listed twice")
				break
			}
		}
	}
	for _, o := range hours {
		ts := a.peel(a.field(o, "Timestamp"))
		if at, why := w.hourOf(ts); why == "" {
			if p, ok := w.deep(at); ok && p.path == ".MetricList[*].DataPoints[*].Timestamp" {
				continue
			}
		}
		g, off, why := w.series(ts)
		if why != "" {
			bad("hours: %s", why)
			return
		}
		r.count("series of hours", 1)
		if off != 0 || g.step != 3600*1000*milli {
			bad("the list does not go on hour by hour")
		}
		at, why := w.hourOf(g.start.base)
		if why != "" || g.start.off != 0 || !g.start.plain() {
			bad("the first hour is not that of the start: %s", why)
			return
		}
		if !a.instant(at).same(a, q.g.start) {
			bad("the list does not start with the period")
		}
		if g.end == nil {
			if g.count*g.step < week {
				bad("the list ends before the period")
			}
			return
		}
		e := a.instant(g.end)
		if !(e.plain() && e.off == q.g.start.off+week && (e.base == q.g.start.base || sameSet(a.values(e.base), a.values(q.g.start.base)))) {
			bad("the list does not end with the period")
		}
	}
}

func condText(cd Cond) string {
	if cd.T == nil {
		return "several conditions"
	}
	return fmt.Sprintf("%v %s", cd.True, trim(cd.T.String()))
}
