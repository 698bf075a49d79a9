package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P27", "Every text the suggest commands have explained or parse to find indexes is traced back to its source: it must be the value of -q itself after a constant EXPLAIN prefix (Hasura: the explain request carries -q, no session user, and the object decoded from --json-variables, stored on every way and untouched afterwards; what is parsed is the SQL of the only element of that answer). Where the catalog is asked for the indexes of the query's tables, the facts on the call path must include that the parser found exactly one statement.", checkP27)
}

func checkP27(w *World, r *Report) {
	a := w.A
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		q := c.flag("query")
		if q == nil {
			r.missing("flag --query of %q", name)
			continue
		}
		for _, f := range []*Flag{q, c.flag("json-variables")} {
			if f == nil {
				continue
			}
			for _, s := range w.flagStores(f) {
				r.fail(s.In.Pos(), "the value given with --%s is replaced here", f.Name)
			}
		}
		viaHasura := c.flag("json-variables") != nil
		// explained
		n := 0
		for _, o := range w.opsKind(c, "explain") {
			n++
			at := func(f string, args ...interface{}) { r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), f, args...) }
			if o.Chan == "explain" {
				if o.SQL == nil || !w.isFlag(o.SQL, q) {
					at("explains something else than the given query")
				}
				w.checkSentVariables(c, r, o)
				for _, u := range a.values(o.Body["user"]) {
					if !emptyValue(a, u) {
						at("the query is explained for another user than it is run as: %s", trim(u.String()))
					}
				}
				continue
			}
			for _, t := range o.Tm {
				if len(t) != 2 || t[1].Hole == nil || !w.isFlag(t[1].Hole, q) {
					at("explains something else than the given query: %s", trim(t.String()))
					continue
				}
				if why := explainPrefix(t.prefix()); why != "" {
					at("%s: %s", why, trim(t.prefix()))
				}
			}
		}
		if n == 0 {
			r.missing("the EXPLAIN of the query in %q", name)
		}
		r.count("explained texts", n)
		// the measured request carries the same variables
		for _, o := range w.opsKind(c, "query") {
			if o.Chan == "graphql" {
				w.checkSentVariables(c, r, o)
			}
		}
		// parsed
		parses := map[*Term]bool{}
		for _, e := range c.events {
			k, ok := parseFns[e.Callee]
			if !ok || k >= len(e.Args) {
				continue
			}
			r.count("parsed texts", 1)
			parses[e.Call] = true
			at := func(f string, args ...interface{}) { r.failAt(w.P.pos(e.In.Pos()), e.Fr.String(), f, args...) }
			if !viaHasura {
				if !w.isFlag(e.Args[k], q) {
					at("parses something else than the given query: %s", trim(e.Args[k].String()))
				}
				continue
			}
			vs := a.values(e.Args[k])
			if len(vs) == 0 {
				at("parses something else than the SQL Hasura runs")
			}
			for _, x := range vs {
				if !w.explainMember(x, "sql") {
					at("parses something else than the SQL Hasura runs: %s", trim(x.String()))
					continue
				}
				if !w.onlyAnswer(a.factsOnPath(e.Fr, e.In.Block(), c.Run)) {
					at("the indexes are searched for one of the SQLs although the query may run several")
				}
			}
		}
		if len(parses) == 0 {
			r.missing("the parser of the query in %q", name)
			continue
		}
		// used
		for _, o := range w.opsKind(c, "select") {
			fs := a.factsOnPath(o.Ev.Fr, o.Ev.In.Block(), c.Run)
			r.count("uses of the parsed query", 1)
			if !w.oneStatement(fs, parses) {
				r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "indexes are searched without the given text being known to be one statement")
			}
		}
	}
}

// explainPrefix: the words before the query ask for a complete measured plan.
func explainPrefix(s string) string {
	ws := strings.Fields(strings.ToUpper(strings.NewReplacer("(", " ", ")", " ", ",", " ", "=", " = ").Replace(s)))
	analyze := false
	for i, x := range ws {
		switch x {
		case "ANALYZE", "ANALYSE":
			analyze = true
		case "OFF", "FALSE", "0":
			if i > 0 {
				return "EXPLAIN leaves out " + ws[i-1]
			}
		}
		if strings.Contains(x, ";") {
			return "several statements are sent at once"
		}
	}
	if len(ws) == 0 || ws[0] != "EXPLAIN" || !analyze {
		return "the plan is not measured"
	}
	if s != "" && !strings.ContainsAny(s[len(s)-1:], " \t\n)") {
		return "nothing separates the query from what precedes it"
	}
	return ""
}

// emptyValue: nil, or a map nothing is put into.
func emptyValue(a *Analysis, t *Term) bool {
	switch t.Op {
	case "none":
		return true
	case "const":
		return t.S == "nil" || strings.HasPrefix(t.S, "nil")
	case "makemap":
		return len(a.heap[t]["[]"]) == 0
	}
	return false
}

// checkSentVariables: the variables are those decoded from --json-variables, in any case and as they were.
func (w *World) checkSentVariables(c *Command, r *Report, o *Op) {
	a := w.A
	fl := c.flag("json-variables")
	if fl == nil {
		r.missing("flag --json-variables")
		return
	}
	at := func(f string, args ...interface{}) { r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), f, args...) }
	v := o.Body["variables"]
	if b := o.Body["query"]; o.Chan == "explain" && b != nil {
		v = a.jsonFields(b)["variables"]
	}
	if v == nil {
		at("the request does not carry the variables given with --json-variables")
		return
	}
	r.count("requests with variables", 1)
	vs := a.values(v)
	if len(vs) == 0 {
		at("the request does not carry the variables given with --json-variables")
	}
	for _, x := range vs {
		if x.Op != "out" || x.S != "json" || !w.fromBytes(x.Args[0], fl) {
			at("the request does not carry the variables given with --json-variables: %s", trim(x.String()))
			continue
		}
		for _, s := range a.heap[x]["[]"] {
			r.fail(s.In.Pos(), "a variable given with --json-variables is replaced or added here")
		}
	}
	for _, e := range c.events {
		if e.Callee != "delete" && e.Callee != "clear" || len(e.Args) == 0 {
			continue
		}
		for _, x := range a.values(e.Args[0]) {
			for _, y := range vs {
				if x == y {
					r.fail(e.In.Pos(), "variables given with --json-variables are removed here")
				}
			}
		}
	}
	// the members and variables they are kept in on the way are set in any case
	fs := a.factsOnPath(o.Ev.Fr, o.Ev.In.Block(), c.Run)
	for _, cell := range w.cellsOf(v) {
		for _, s := range cell {
			if s.Zero || s.Fr == nil || s.In == nil || s.In.Block() == nil {
				continue
			}
			for _, f := range a.factsOnPath(s.Fr, s.In.Block(), c.Run) {
				if !hasFact(fs, f) && !errFact(f) {
					r.failAt(w.P.pos(s.In.Pos()), s.Fr.String(), "the variables are only kept when %s", trim(f.T.String()))
				}
			}
		}
	}
}

// cellsOf: the assignments of the members a value is read from.
func (w *World) cellsOf(t *Term) [][]*StoreRec {
	a := w.A
	var res [][]*StoreRec
	seen := map[*Term]bool{}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if t == nil || seen[t] || d > 12 {
			return
		}
		seen[t] = true
		switch t.Op {
		case "field":
			for _, b := range a.resolve(t.Args[0]) {
				if rs := a.heap[b][t.S]; len(rs) > 0 {
					res = append(res, rs)
					for _, s := range rs {
						walk(s.Val, d+1)
					}
				}
			}
		case "alts", "conv":
			for _, x := range t.Args {
				walk(x, d+1)
			}
		}
		for _, x := range a.resolveStep(t) {
			walk(x, d+1)
		}
	}
	walk(t, 0)
	return res
}

func hasFact(fs []Fact, f Fact) bool {
	for _, x := range fs {
		if x.T == f.T && x.True == f.True {
			return true
		}
	}
	return false
}

// errFact: something failed or did not.
func errFact(f Fact) bool {
	t := f.T
	if t.Op != "binop" || t.S != "==" && t.S != "!=" {
		return false
	}
	for _, x := range t.Args {
		if x.T != nil && types.Identical(x.T, types.Universe.Lookup("error").Type()) {
			return true
		}
		if x.Op == "const" && strings.HasPrefix(x.S, "nil") {
			return true
		}
	}
	return false
}

// onlyAnswer: the explain answer is known to have one element.
func (w *World) onlyAnswer(fs []Fact) bool {
	lo, hi := w.A.lenBounds(fs, func(t *Term) bool {
		hit := false
		for _, x := range w.A.resolve(t) {
			if x.Op != "out" || x.S != "json" {
				return false
			}
			hit = true
		}
		return hit
	})
	return lo == 1 && hi == 1
}

// oneStatement: one of the parses is known to have found exactly one statement.
func (w *World) oneStatement(fs []Fact, parses map[*Term]bool) bool {
	for p := range parses {
		if strings.HasSuffix(p.Callee, "ParseOneStmt") || strings.HasSuffix(p.Callee, "ParseOne") {
			return true
		}
	}
	lo, hi := w.A.lenBounds(fs, func(t *Term) bool {
		hit := false
		for _, x := range w.A.resolve(t) {
			if x.Op != "res" || x.Idx != 0 || !parses[x.Args[0]] {
				return false
			}
			hit = true
		}
		return hit
	})
	return lo == 1 && hi == 1
}
