package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P04", "Every database interaction of the suggest commands is classified from its reconstructed text. All but EXPLAIN of the given query and catalog SELECTs must lie on call paths where --with-examine is known to be true (branch facts along the whole path); EXPLAIN statements that execute the query must be preceded on every path by the parse of that very query having exactly one statement whose type is the parser's SELECT.", checkP04)
}

// lenBounds derives the possible lengths of a collection from facts about len(x).
func (a *Analysis) lenBounds(fs []Fact, match func(*Term) bool) (lo, hi int64) {
	lo, hi = 0, 1<<62
	for _, f := range fs {
		if len(f.Loops) > 0 {
			continue
		}
		t := f.T
		if t.Op != "binop" {
			continue
		}
		x, y, op := t.Args[0], t.Args[1], t.S
		if x.Op == "const" {
			x, y = y, x
			op = swapOpS(op)
		}
		n, ok := y.isConstInt()
		if !ok || x.Op != "call" || x.Callee != "len" || !match(x.Args[0]) {
			continue
		}
		if !f.True {
			op = negOpS(op)
		}
		switch op {
		case "==":
			lo, hi = max64(lo, n), min64(hi, n)
		case "!=":
			if n == lo {
				lo = n + 1
			}
			if n == hi {
				hi = n - 1
			}
		case "<":
			hi = min64(hi, n-1)
		case "<=":
			hi = min64(hi, n)
		case ">":
			lo = max64(lo, n+1)
		case ">=":
			lo = max64(lo, n)
		}
	}
	return
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func swapOpS(op string) string {
	switch op {
	case "<":
		return ">"
	case ">":
		return "<"
	case "<=":
		return ">="
	case ">=":
		return "<="
	}
	return op
}

func negOpS(op string) string {
	switch op {
	case "==":
		return "!="
	case "!=":
		return "=="
	case "<":
		return ">="
	case ">=":
		return "<"
	case ">":
		return "<="
	case "<=":
		return ">"
	}
	return op
}

var parseFns = map[string]int{ // library parsers: index of the query argument
	"(*github.com/pingcap/tidb/parser.Parser).Parse":              1,
	"(*github.com/pingcap/tidb/parser.Parser).ParseSQL":           1,
	"(*github.com/pingcap/tidb/parser.Parser).ParseOneStmt":       1,
	"github.com/auxten/postgresql-parser/pkg/sql/parser.Parse":    0,
	"github.com/auxten/postgresql-parser/pkg/sql/parser.ParseOne": 0,
}

const mysqlSelect = "*github.com/pingcap/tidb/parser/ast.SelectStmt"
const pgSelect = "*github.com/auxten/postgresql-parser/pkg/sql/sem/tree.Select"

// parsesOf: library parses a value is computed from.
func (a *Analysis) parsesOf(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	a.reach(t, func(x *Term) bool {
		if x.Op == "call" {
			if _, ok := parseFns[x.Callee]; ok {
				res[x] = true
				return false
			}
		}
		return true
	})
	return res
}

// singleSelect: the facts say that the query held by flag f was parsed, is one statement, and is a SELECT.
func (w *World) singleSelect(fs []Fact, f *Flag) (parsed, one, sel bool) {
	a := w.A
	parses := map[*Term]bool{}
	for _, x := range fs {
		if x.T.Op != "res" || x.T.Idx != 1 || x.T.Args[0].Op != "assert" || !x.True || len(x.Loops) > 0 {
			continue
		}
		as := x.T.Args[0]
		if as.S != mysqlSelect && as.S != pgSelect {
			continue
		}
		for p := range a.parsesOf(as.Args[0]) {
			if w.isFlag(p.Args[parseFns[p.Callee]], f) {
				sel = true
				parses[p] = true
			}
		}
	}
	if !sel {
		return
	}
	for p := range parses {
		if strings.HasSuffix(p.Callee, "ParseOneStmt") || strings.HasSuffix(p.Callee, "ParseOne") {
			return true, true, true
		}
		lo, hi := a.lenBounds(fs, func(t *Term) bool {
			for _, x := range a.resolve(t) {
				if x.Op != "res" || x.Idx != 0 || x.Args[0] != p {
					return false
				}
			}
			return true
		})
		if lo == 1 && hi == 1 {
			one = true
		}
	}
	return true, one, sel
}

// storesAfter: assignments to a flag's cell after the flag was registered.
func (w *World) flagStores(f *Flag) []*StoreRec {
	var res []*StoreRec
	add := func(rs []*StoreRec) {
		for _, r := range rs {
			if r.Seq > f.Ev.Seq {
				res = append(res, r)
			}
		}
	}
	a := w.A
	switch f.Cell.Op {
	case "field":
		for _, b := range a.resolve(f.Cell.Args[0]) {
			add(a.heap[b][f.Cell.S])
			add(a.heap[b]["*"])
		}
		add(a.heap[f.Cell.Args[0]][f.Cell.S])
	case "load":
		for _, b := range a.resolve(f.Cell.Args[0]) {
			add(a.heap[b]["*"])
		}
	}
	return res
}

func checkP04(w *World, r *Report) {
	a := w.A
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		fl, q := c.flag("with-examine"), c.flag("query")
		if fl == nil || q == nil {
			r.missing("flags --with-examine and --query of %q", name)
			continue
		}
		if b, ok := fl.Default.isConstBool(); !ok || b {
			r.fail(fl.Ev.In.Pos(), "examination is on by default")
		}
		for _, s := range w.flagStores(fl) {
			r.fail(s.In.Pos(), "--with-examine is overridden here")
		}
		explains := 0
		for _, o := range w.opsOf(c) {
			r.count("database interactions", 1)
			fs := a.factsOnPath(o.Ev.Fr, o.Ev.In.Block(), c.Run)
			r.count("path facts", len(fs))
			guarded := false
			for _, f := range fs {
				if f.True && len(f.Loops) == 0 && w.isFlag(f.T, fl) {
					guarded = true
				}
			}
			switch {
			case o.Kind == "explain" && o.Chan == "sql":
				explains++
				for _, t := range o.Tm {
					if len(t) != 2 || t[1].Hole == nil || !w.isFlag(t[1].Hole, q) {
						r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "explains something else than the given query: %s", trim(t.String()))
					}
					if strings.Contains(t.prefix(), ";") {
						r.fail(o.Site.Pos(), "several statements are sent at once")
					}
				}
				parsed, one, sel := w.singleSelect(fs, q)
				switch {
				case !parsed || !sel:
					r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "EXPLAIN ANALYZE executes the given statement here without it being known to be a SELECT")
				case !one:
					r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "EXPLAIN ANALYZE executes the given text here without it being known to be a single statement")
				default:
					r.fact("%s: EXPLAIN at %s only after the query is known to be one SELECT", name, w.P.pos(o.Site.Pos()))
				}
			case o.Kind == "explain" && o.Chan == "explain":
				explains++
				r.fact("%s: Hasura's explain endpoint at %s", name, w.P.pos(o.Site.Pos()))
			case o.Kind == "select":
				for _, t := range o.Tm {
					if multiStatement(t) {
						r.fail(o.Site.Pos(), "several statements are sent at once: %s", trim(t.String()))
					}
				}
				if o.Chan == "run_sql" && !o.ReadOnly && !guarded {
					r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "catalog query is sent to Hasura without read_only")
				}
			case !guarded:
				r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "%s (%s) can happen without --with-examine", o.Kind, trim(opText(o)))
			default:
				r.count("interactions behind --with-examine", 1)
			}
		}
		if explains == 0 {
			r.missing("the EXPLAIN of the query in %q", name)
		}
		if len(w.opsKind(c, "create-index")) == 0 {
			r.missing("the examination of %q", name)
		}
	}
}

func opText(o *Op) string {
	if len(o.Tm) == 0 {
		return o.Chan
	}
	return o.Tm[0].String()
}

// multiStatement: a semicolon in the literal text followed by more.
func multiStatement(t Tmpl) bool {
	s := strings.TrimRight(strings.TrimSpace(t.String()), ";")
	for _, p := range t {
		if p.Hole == nil && p.Rep == nil && strings.Contains(strings.TrimRight(strings.TrimSpace(p.Lit), ";"), ";") && strings.Contains(s, ";") {
			return true
		}
	}
	return false
}

var _ ssa.Value
