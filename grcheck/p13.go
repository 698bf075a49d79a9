package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P13", "Each member of the data assigned to window.grParam by the suggest commands is traced back to its source: the given query (and GraphQL query, variables and the SQL of Hasura's answer), the suggestions and the examination's results copied element by element in order and member by member, the command options naming existing flags with the values those flags had, and no examination result exactly without --with-examine.", checkP13)
}

// memb is one member of the report copied from a member of the model.
type memb struct {
	JSON, Field string
	Each        []memb // the member is a list; each element is copied like this
	Obj         []memb // the member is an object copied like this
	Fn          func(w *World, view, src *Term) string
}

var columnCopy = []memb{{JSON: "name", Field: "Name"}}
var targetCopy = []memb{{JSON: "tableName", Field: "TableName"}, {JSON: "columns", Field: "Columns", Each: columnCopy}}
var indexResultCopy = []memb{{JSON: "executionTimeMillis", Field: "ExecutionTimeMillis"}, {JSON: "indexTarget", Field: "IndexTarget", Obj: targetCopy}}
var resultCopy = []memb{{JSON: "originalTimeMillis", Field: "OriginalTimeMillis"}, {JSON: "indexResults", Field: "IndexResults", Each: indexResultCopy}}

// eachOf: t holds exactly one value for each element of the collection accepted by src, in order.
func (w *World) eachOf(t *Term, src func(*Term) bool, body func(el, b *Term) string) string {
	a := w.A
	s := a.seqOf(t)
	n := 0
	for _, it := range s.Items {
		if !it.Splat && len(a.values(it.Body)) == 0 {
			continue
		}
		n++
		switch {
		case it.Splat:
			return "it is not made element by element"
		case len(it.Loops) != 1:
			return "it is not made by one pass over its source"
		case len(it.Conds) > 0:
			return "some elements may be left out"
		case it.Part || it.Loops[0].Part:
			return "some elements may be left out (the pass may end early)"
		case it.Uniq:
			return "equal elements are left out"
		case it.Rev != it.Loops[0].Rev:
			return "the order is reversed"
		}
		lp := it.Loops[0]
		if lp.Coll == nil || lp.L != nil && lp.L.Kind != "slice" && lp.L.Kind != "slice-rev" {
			return "it is not made by one pass over its source"
		}
		if !src(lp.Coll) {
			return "it is made from something else: " + trim(lp.Coll.String())
		}
		if why := body(a.mk("elem", "", 0, lp, lp.Coll), it.Body); why != "" {
			return why
		}
	}
	if n != 1 {
		return "it is made in several ways"
	}
	return ""
}

// sameAny: the non-nil values are the same.
func (w *World) sameAny(x, y *Term) bool {
	a := w.A
	if a.sameVal(x, y) {
		return true
	}
	vx, vy := w.present(x), w.present(y)
	return len(vx) > 0 && sameSet(vx, vy)
}

// present drops what is read from nil.
func (w *World) present(t *Term) []*Term {
	var res []*Term
	for _, x := range w.A.values(t) {
		if x.Op == "field" && x.Args[0].Op == "nil" {
			continue
		}
		res = append(res, x)
	}
	return res
}

// copied: the JSON members of view are those of src.
func (w *World) copied(view, src *Term, ms []memb, r *Report) string {
	a := w.A
	fs := a.jsonFields(view)
	for _, m := range ms {
		v := fs[m.JSON]
		if v == nil {
			return "there is no " + m.JSON
		}
		r.count("members traced", 1)
		s := a.field(src, m.Field)
		switch {
		case m.Fn != nil:
			if why := m.Fn(w, v, src); why != "" {
				return m.JSON + ": " + why
			}
		case m.Each != nil:
			if why := w.eachOf(v, func(c *Term) bool { return w.sameAny(c, s) || a.sameCollection(c, s) }, func(el, b *Term) string { return w.copied(b, el, m.Each, r) }); why != "" {
				return m.JSON + ": " + why
			}
		case m.Obj != nil:
			if why := w.copied(v, s, m.Obj, r); why != "" {
				return m.JSON + ": " + why
			}
		default:
			if !w.sameAny(v, s) {
				return m.JSON + " is not the " + m.Field + " of what is reported: " + trim(v.String())
			}
		}
	}
	return ""
}

func checkP13(w *World, r *Report) {
	a := w.A
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		roots := w.reportRoots(c)
		if len(roots) != 1 {
			r.missing("the report of %q", name)
			continue
		}
		at := func(p string) *Term { return a.jsonAt(roots[0], suggestPaths[name]+"."+p) }
		bad := func(p, f string, args ...interface{}) {
			pos := "?"
			if t := at(p); t != nil {
				for _, x := range a.resolve(t) {
					if x.Val != nil && pos == "?" {
						pos = w.P.pos(x.Val.Pos())
					}
				}
			}
			r.failAt(pos, name+" "+p, f, args...)
		}
		q := c.flag("query")
		if q == nil {
			r.missing("--query of %q", name)
			continue
		}
		gql := strings.Contains(name, "hasura")
		members := []string{"query", "indexTargets", "examinationCommandOptions", "examinationResult", "analyzeNodes"}
		if gql {
			members = append(members, "gql", "gqlVariables")
		}
		ok := true
		for _, m := range members {
			if at(m) == nil {
				r.missing("member %s of the report of %q", m, name)
				ok = false
			}
		}
		if !ok {
			continue
		}
		r.count("members traced", 1)
		if !gql {
			if !w.isFlag(at("query"), q) {
				bad("query", "the reported query is not the one given: %s", trim(at("query").String()))
			}
		} else {
			if !w.isFlag(at("gql"), q) {
				bad("gql", "the reported GraphQL query is not the one given: %s", trim(at("gql").String()))
			}
			for _, x := range a.values(at("gqlVariables")) {
				if x.Op != "out" || x.S != "json" || !w.fromBytes(x.Args[0], c.flag("json-variables")) {
					bad("gqlVariables", "the reported variables are not the ones given: %s", trim(x.String()))
				}
			}
			if vs := a.values(at("gqlVariables")); len(vs) == 0 {
				bad("gqlVariables", "the variables are not reported")
			}
			vs := a.values(at("query"))
			for _, x := range vs {
				if !w.explainMember(x, "sql") {
					bad("query", "the reported SQL is not the one Hasura executes: %s", trim(x.String()))
				}
			}
			if len(vs) == 0 {
				bad("query", "the SQL is not reported")
			}
		}
		// suggestions
		why := w.eachOf(at("indexTargets"), func(coll *Term) bool {
			for _, x := range a.resolve(coll) {
				if x.Op == "slice" && (x.Args[1].Op != "none" || x.Args[2].Op != "none") {
					return false
				}
			}
			return coll.T != nil && strings.HasSuffix(coll.T.String(), "dmodel.IndexTarget")
		}, func(el, b *Term) string { return w.copied(b, el, targetCopy, r) })
		if why != "" {
			bad("indexTargets", "suggestions: %s", why)
		}
		w.checkOptions(c, r, at("examinationCommandOptions"), bad)
		w.checkReportedResult(c, r, at("examinationResult"), bad)
	}
}

// explainMember: the value is that member of the answer to Hasura's explain request.
func (w *World) explainMember(t *Term, name string) bool {
	if t.Op != "field" {
		return false
	}
	b := t.Args[0]
	st := structOf(b.T)
	if st == nil && b.Op == "index" && b.Args[0].T != nil {
		if sl, ok := b.Args[0].T.Underlying().(*types.Slice); ok {
			st = structOf(sl.Elem())
		}
	}
	if st == nil {
		return false
	}
	tag := ""
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == t.S {
			tag, _ = jsonName(st, i)
		}
	}
	if tag != name {
		return false
	}
	hit := false
	w.A.reach(b, func(x *Term) bool {
		if x.Op == "out" && x.S == "json" {
			hit = true
		}
		return !hit
	})
	return hit
}

type badFn func(p, f string, args ...interface{})

func (w *World) checkOptions(c *Command, r *Report, t *Term, bad badFn) {
	a := w.A
	const m = "examinationCommandOptions"
	seen := map[string]bool{}
	for _, it := range a.seqOf(t).Items {
		if it.Splat || len(it.Loops) > 0 || len(it.Conds) > 0 {
			bad(m, "the command's options are not a fixed list")
			return
		}
		fs := a.jsonFields(it.Body)
		n, s := a.one(fs["name"]), a.one(fs["isShort"])
		if n == nil || s == nil {
			bad(m, "an option has no fixed name")
			continue
		}
		name, ok := n.isConstString()
		short, ok2 := s.isConstBool()
		if !ok2 && s.Op == "zero" {
			short, ok2 = false, true
		}
		if !ok || !ok2 {
			bad(m, "an option has no fixed name")
			continue
		}
		r.count("command options", 1)
		fl := c.flag(name)
		if short {
			fl = c.byShort(name)
		}
		if fl == nil {
			bad(m, "the command has no option %q", name)
			continue
		}
		if seen[fl.Name] {
			bad(m, "option %s is listed twice", fl.Name)
		}
		seen[fl.Name] = true
		if fl.Name != "output" {
			if !w.isFlag(fs["value"], fl) {
				bad(m, "option %s has another value than the one given: %s", fl.Name, trim(fs["value"].String()))
			}
			continue
		}
		we := c.flag("with-examine")
		for _, e := range a.edges(fs["value"]) {
			on, off := w.flagFact(a.edgeFacts(e, c.Run), we)
			switch {
			case w.isFlag(e.T, fl):
				if !on {
					bad(m, "the command for an examination would overwrite this report")
				}
			case w.examineName(e.T, fl):
				if !off {
					bad(m, "the output path of a finished examination is changed")
				}
			default:
				bad(m, "the output path is made from something else: %s", trim(e.T.String()))
			}
		}
	}
	need := []string{"query", "output"}
	if c.flag("json-variables") != nil {
		need = append(need, "json-variables")
	}
	for _, n := range need {
		if !seen[n] {
			bad(m, "option %s is not listed", n)
		}
	}
}

// flagFact: what is known about a boolean flag.
func (w *World) flagFact(fs []Fact, fl *Flag) (on, off bool) {
	for _, f := range fs {
		if len(f.Loops) == 0 && w.isFlag(f.T, fl) {
			if f.True {
				on = true
			} else {
				off = true
			}
		}
	}
	return
}

// examineName: path without its extension + "_examine" + extension.
func (w *World) examineName(t *Term, fl *Flag) bool {
	a := w.A
	ts := a.tmpls(t)
	if len(ts) != 1 || len(ts[0]) != 3 || ts[0][1].Lit != "_examine" || ts[0][0].Hole == nil || ts[0][2].Hole == nil {
		return false
	}
	isExt := func(x *Term) bool {
		x = a.one(x)
		return x != nil && x.Op == "call" && x.Callee == "path/filepath.Ext" && w.isFlag(x.Args[0], fl)
	}
	b := a.one(ts[0][0].Hole)
	if b == nil || !isExt(ts[0][2].Hole) {
		return false
	}
	if b.Op == "call" && b.Callee == "strings.TrimSuffix" {
		return w.isFlag(b.Args[0], fl) && isExt(b.Args[1])
	}
	if b.Op == "slice" && w.isFlag(b.Args[0], fl) && b.Args[1].Op == "none" {
		hi := b.Args[2]
		if hi.Op == "binop" && hi.S == "-" && hi.Args[0].Op == "call" && hi.Args[0].Callee == "len" && hi.Args[1].Op == "call" && hi.Args[1].Callee == "len" {
			return w.isFlag(hi.Args[0].Args[0], fl) && isExt(hi.Args[1].Args[0])
		}
	}
	return false
}

func (w *World) checkReportedResult(c *Command, r *Report, t *Term, bad badFn) {
	a := w.A
	const m = "examinationResult"
	we := c.flag("with-examine")
	if we == nil {
		r.missing("--with-examine of %q", c.Path)
		return
	}
	ers := w.objsOf(c, modPath+"/database/dmodel.ExaminationResult")
	if len(ers) == 0 {
		r.missing("the results of the examination of %q", c.Path)
		return
	}
	r.count("examination results", 1)
	if why := w.nilOnlyWithout(c, t, we, 0); why != "" {
		bad(m, "the examination's result may be missing from the report: %s", why)
	}
	for _, x := range a.values(t) {
		if why := w.copied(x, a.alts(ers...), resultCopy, r); why != "" {
			bad(m, "examination: %s", why)
		}
	}
	if len(a.values(t)) == 0 {
		bad(m, "the examination's result is never reported")
	}
}

// nilOnlyWithout: the value is nil only when the flag is off.
func (w *World) nilOnlyWithout(c *Command, t *Term, fl *Flag, depth int) string {
	a := w.A
	if depth > 6 {
		return "cannot be decided"
	}
	for _, e := range a.edges(t) {
		if e.T.Op != "nil" && e.T.Op != "zero" {
			continue
		}
		fs := a.edgeFacts(e, c.Run)
		if _, off := w.flagFact(fs, fl); off {
			continue
		}
		ok := false
		for _, f := range fs {
			if f.T.Op != "binop" || len(f.Loops) > 0 {
				continue
			}
			x, y := f.T.Args[0], f.T.Args[1]
			if x.Op == "nil" {
				x, y = y, x
			}
			if eq, _ := eqFact(f.T.S, f.True); eq && y.Op == "nil" && x.T != nil && !isErrorType(x.T) {
				if w.nilOnlyWithout(c, x, fl, depth+1) == "" {
					ok = true
				}
			}
		}
		if !ok {
			if e.B != nil {
				return w.P.pos(lastInstr(e.B).Pos())
			}
			return "it is left empty"
		}
	}
	return ""
}
