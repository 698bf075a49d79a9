package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P15", "Each call opening a SQL database gets a connection string whose parts are traced to the documented environment variables: for MySQL the fields of the driver's configuration (user, password, protocol with tcp by default, address when given, database name) formatted by the driver, followed by ? and DB_PARAM_TEXT; for PostgreSQL every key of the text, each value quoted and escaped, left out only when empty, the default sslmode before DB_PARAM_TEXT. Both are reached only when user and database are set.", checkP15)
}

// shape is one form a string can take and what is known when it takes it.
type shape struct {
	T  Tmpl
	Fs []Fact
}

// shapes: like tmpls, keeping what is known where each alternative is chosen.
func (a *Analysis) shapes(t *Term, top *Frame, depth int) []shape {
	var res []shape
	with := func(xs []shape, fs []Fact) {
		for _, x := range xs {
			res = append(res, shape{x.T, append(append([]Fact{}, fs...), x.Fs...)})
		}
	}
	if depth < 24 {
		switch t.Op {
		case "phi":
			ph := t.Val.(*ssa.Phi)
			loop := false
			for _, l := range cfgOf(t.Fr.Fn).loops {
				loop = loop || l.Header == ph.Block()
			}
			if !loop {
				for i, x := range t.Args {
					e := edge{x, t.Fr, ph.Block().Preds[i], ph.Block()}
					with(a.shapes(x, top, depth+1), a.edgeFacts(e, top))
				}
				return res
			}
		case "binop":
			if t.S == "+" {
				for _, x := range a.shapes(t.Args[0], top, depth+1) {
					for _, y := range a.shapes(t.Args[1], top, depth+1) {
						if len(res) < 512 {
							res = append(res, shape{x.T.add(y.T), append(append([]Fact{}, x.Fs...), y.Fs...)})
						}
					}
				}
				return res
			}
		case "res", "call":
			cl, idx := t, 0
			if t.Op == "res" {
				cl, idx = t.Args[0], t.Idx
			}
			if cl.Op == "call" && len(cl.Inls) > 0 {
				for _, fr := range cl.Inls {
					slot := errSlot(fr.Fn.Signature)
					for _, ret := range fr.rets {
						if slot >= 0 && idx != slot && cfgOf(fr.Fn).retKind(ret) == retErr {
							continue
						}
						with(a.shapes(fr.eval(ret.Results[idx]), top, depth+1), a.factsOnPath(fr, ret.Block(), top))
					}
				}
				return res
			}
		}
	}
	for _, x := range a.tmpls(t) {
		res = append(res, shape{x, nil})
	}
	return res
}

func (w *World) envIs(t *Term, name string) bool {
	vs := w.A.values(t)
	for _, x := range vs {
		if n, ok := envName(x); !ok || n != name {
			return false
		}
	}
	return len(vs) > 0
}

// envKnown: whether an environment variable is known to be empty or not.
func (w *World) envKnown(fs []Fact, name string) (empty, set bool) {
	for _, f := range fs {
		if len(f.Loops) > 0 {
			continue
		}
		e, ok := w.emptyTest(f.T, func(t *Term) bool { return w.envIs(t, name) })
		if !ok {
			continue
		}
		if e == f.True {
			empty = true
		} else {
			set = true
		}
	}
	return
}

const mysqlCfg = "github.com/go-sql-driver/mysql.Config"

func checkP15(w *World, r *Report) {
	for _, x := range []struct{ cmd, driver string }{{"db suggest mysql", "mysql"}, {"db suggest postgres", "postgres"}} {
		c := w.Cmds[x.cmd]
		if c == nil {
			r.missing("command %q", x.cmd)
			continue
		}
		n := 0
		for _, e := range c.events {
			switch e.Callee {
			case "github.com/jmoiron/sqlx.Open", "github.com/jmoiron/sqlx.Connect", "github.com/jmoiron/sqlx.MustConnect", "github.com/jmoiron/sqlx.MustOpen", "database/sql.Open":
			default:
				continue
			}
			n++
			r.count("connections", 1)
			bad := func(f string, args ...any) { r.failAt(w.P.pos(e.In.Pos()), c.Path, f, args...) }
			ds := w.A.tmpls(e.Args[0])
			if len(ds) != 1 || ds[0].String() != x.driver {
				bad("%q connects with the driver %s", c.Path, ds[0])
				continue
			}
			fs := w.A.factsOnPath(e.Fr, e.In.Block(), c.Run)
			for _, env := range []string{"DB_USERNAME", "DB_DATABASE"} {
				if _, set := w.envKnown(fs, env); !set {
					bad("the connection is opened although %s may be missing", env)
				}
			}
			sh := w.A.shapes(e.Args[1], c.Run, 0)
			if len(sh) == 0 {
				bad("the connection string is unknown")
			}
			for _, s := range sh {
				s.Fs = append(s.Fs, fs...)
				if contradictory(s.Fs) {
					continue
				}
				r.count("forms of connection strings", 1)
				if x.driver == "mysql" {
					w.mysqlDSN(r, c, s, bad)
				} else {
					w.postgresDSN(r, c, s, bad)
				}
			}
		}
		if n == 0 {
			r.missing("the call of %q that opens the database", x.cmd)
		}
	}
}

func contradictory(fs []Fact) bool {
	m := map[*Term]bool{}
	for _, f := range fs {
		if len(f.Loops) > 0 {
			continue
		}
		if v, ok := m[f.T]; ok && v != f.True {
			return true
		}
		m[f.T] = f.True
	}
	return false
}

func (w *World) mysqlDSN(r *Report, c *Command, s shape, bad func(string, ...any)) {
	a := w.A
	t := s.T
	if len(t) == 0 || t[0].Hole == nil || t[0].Hole.Op != "call" || !strings.HasSuffix(t[0].Hole.Callee, mysqlCfg+").FormatDSN") {
		bad("the connection string is not the driver's own text of the configuration: %s", trim(t.String()))
		return
	}
	rest := t[1:]
	empty, _ := w.envKnown(s.Fs, "DB_PARAM_TEXT")
	switch {
	case len(rest) == 0:
		if !empty {
			bad("DB_PARAM_TEXT is left out of the connection string although it may be set")
		}
	case len(rest) == 2 && rest[0].Lit == "?" && rest[1].Hole != nil && w.envIs(rest[1].Hole, "DB_PARAM_TEXT"):
	default:
		bad("the configuration is followed by %s, not by ? and DB_PARAM_TEXT", trim(rest.String()))
	}
	cfgs := a.values(t[0].Hole.Args[0])
	if len(cfgs) == 0 {
		bad("the driver's configuration is unknown")
	}
	for _, cfg := range cfgs {
		if cfg.Op == "load" {
			cfg = a.val(cfg.Args[0])
		}
		if !(cfg.Op == "call" && cfg.Callee == "github.com/go-sql-driver/mysql.NewConfig") {
			bad("the driver's configuration is not made by mysql.NewConfig: %s", trim(cfg.String()))
			continue
		}
		fields := a.heap[cfg]
		env := map[string]string{"User": "DB_USERNAME", "Passwd": "DB_PASSWORD", "Net": "DB_PROTOCOL", "Addr": "DB_ADDRESS", "DBName": "DB_DATABASE"}
		for _, f := range sortedFields(fields) {
			if env[f] == "" {
				for _, st := range fields[f] {
					r.failAt(w.P.pos(st.In.Pos()), c.Path, "the setting %s of the connection is not a documented one", f)
				}
			}
		}
		for _, f := range []string{"User", "Passwd", "Net", "Addr", "DBName"} {
			r.count("settings traced", 1)
			if len(fields[f]) == 0 {
				bad("%s is not used for the connection", env[f])
				continue
			}
			covered := false // used whenever set
			for _, st := range fields[f] {
				where := w.P.pos(st.In.Pos())
				fail := func(x string, args ...any) { r.failAt(where, c.Path, x, args...) }
				var cfs []Fact
				always := true
				ch := a.execChain(st.In, st.Fr, cfg.Fr, cfg.Val.(ssa.Instruction).Block())
				if len(ch.Loops) > 0 {
					always = false
				}
				for _, cd := range ch.Conds {
					fs := a.condFacts([]Cond{cd})
					_, set := w.envKnown(fs, env[f])
					always = always && set
					cfs = append(cfs, fs...)
				}
				for _, e := range a.edges(st.Val) {
					fs := append(append([]Fact{}, cfs...), a.edgeFacts(e, c.Run)...)
					empty, set := w.envKnown(fs, env[f])
					if w.envIs(e.T, env[f]) {
						if f == "Net" && !set {
							fail("an empty %s is used although tcp is the default", env[f])
						}
						covered = covered || always
						continue
					}
					v, ok := e.T.isConstString()
					if ok && (v == "" && f != "Net" || v == "tcp" && f == "Net") && (empty || w.overridden(cfg, fields[f], st, env[f])) {
						continue
					}
					fail("%s of the connection is %s, not %s", f, trim(e.T.String()), env[f])
				}
			}
			if !covered {
				bad("%s may be set and still not be used for the connection", env[f])
			}
		}
	}
}

// overridden: a later store puts the variable in whenever it is set.
func (w *World) overridden(cfg *Term, all []*StoreRec, st *StoreRec, env string) bool {
	for _, o := range all {
		if o == st || o.Fr != st.Fr || !reaches(st.In, o.In) || reaches(o.In, st.In) || !w.envIs(o.Val, env) {
			continue
		}
		ch := w.A.execChain(o.In, o.Fr, cfg.Fr, cfg.Val.(ssa.Instruction).Block())
		ok := len(ch.Loops) == 0
		for _, cd := range ch.Conds {
			_, set := w.envKnown(w.A.condFacts([]Cond{cd}), env)
			ok = ok && set
		}
		if ok {
			return true
		}
	}
	return false
}

type connTok struct {
	r     rune
	hole  *Term
	conds []Cond
}

// flatten writes a template out as characters and holes.
func (a *Analysis) flatten(t Tmpl, conds []Cond) ([]connTok, bool) {
	var res []connTok
	for i, p := range t {
		switch {
		case p.Rep != nil:
			if len(p.Rep.Loops) > 0 {
				return nil, false
			}
			cs := append(append([]Cond{}, conds...), p.Rep.Conds...)
			in, ok := a.flatten(p.Rep.Body, cs)
			if !ok {
				return nil, false
			}
			res = append(res, in...)
			if p.Rep.Sep != "" && i+1 < len(t) {
				for _, c := range p.Rep.Sep {
					res = append(res, connTok{r: c})
				}
			}
		case p.Hole != nil:
			res = append(res, connTok{hole: p.Hole, conds: conds})
		default:
			for _, c := range p.Lit {
				res = append(res, connTok{r: c, conds: conds})
			}
		}
	}
	return res, true
}

// kvEscaped: the value whose backslashes and single quotes were escaped.
func (a *Analysis) kvEscaped(t *Term) *Term {
	t = a.one(t)
	if t == nil || t.Op != "call" {
		return nil
	}
	switch t.Callee {
	case "(*strings.Replacer).Replace":
		nr := a.one(t.Args[0])
		if nr == nil || nr.Op != "call" || nr.Callee != "strings.NewReplacer" {
			return nil
		}
		els, ok := a.elements(nr.Args[0])
		if !ok || len(els) != 4 {
			return nil
		}
		m := map[string]string{}
		for i := 0; i < 4; i += 2 {
			x, ok1 := a.val(els[i]).isConstString()
			y, ok2 := a.val(els[i+1]).isConstString()
			if !ok1 || !ok2 {
				return nil
			}
			m[x] = y
		}
		if len(m) == 2 && m[`\`] == `\\` && m[`'`] == `\'` {
			return t.Args[1]
		}
	case "strings.ReplaceAll":
		inner := a.one(t.Args[0])
		if inner == nil || inner.Op != "call" || inner.Callee != "strings.ReplaceAll" {
			return nil
		}
		is := func(x *Term, s string) bool { v, ok := a.val(x).isConstString(); return ok && v == s }
		if is(t.Args[1], `'`) && is(t.Args[2], `\'`) && is(inner.Args[1], `\`) && is(inner.Args[2], `\\`) {
			return inner.Args[0]
		}
	}
	return nil
}

var pgKeys = map[string]string{"user": "DB_USERNAME", "password": "DB_PASSWORD", "host": "DB_HOST", "port": "DB_PORT", "dbname": "DB_DATABASE"}

func (w *World) postgresDSN(r *Report, c *Command, s shape, bad func(string, ...any)) {
	a := w.A
	toks, ok := a.flatten(s.T, nil)
	if !ok {
		bad("the keys of the connection string are not known: %s", trim(s.T.String()))
		return
	}
	seen := map[string]bool{}
	free := false
	// conditions may only ask whether the value itself is there
	conds := func(env string, cs []Cond) {
		for _, cd := range cs {
			fs := a.condFacts([]Cond{cd})
			if _, set := w.envKnown(fs, env); !set {
				bad("%s is passed on a condition other than being set", env)
			}
		}
	}
	i := 0
	for i < len(toks) {
		t := toks[i]
		if t.hole == nil && (t.r == ' ' || t.r == '\n' || t.r == '\t') {
			i++
			continue
		}
		if t.hole != nil {
			if !w.envIs(t.hole, "DB_PARAM_TEXT") {
				bad("%s is inserted into the connection string as it is", trim(t.hole.String()))
				return
			}
			conds("DB_PARAM_TEXT", t.conds)
			free = true
			i++
			if i < len(toks) && toks[i].hole != nil || i < len(toks) && toks[i].r != ' ' {
				bad("DB_PARAM_TEXT runs into the following text")
				return
			}
			continue
		}
		key := ""
		for i < len(toks) && toks[i].hole == nil && toks[i].r != '=' && toks[i].r != ' ' {
			key += string(toks[i].r)
			i++
		}
		if i >= len(toks) || toks[i].hole != nil || toks[i].r != '=' {
			bad("the connection string has %q without a value", key)
			return
		}
		i++
		var val []connTok
		quoted := i < len(toks) && toks[i].hole == nil && toks[i].r == '\''
		if quoted {
			i++
			for i < len(toks) && !(toks[i].hole == nil && toks[i].r == '\'') {
				if toks[i].hole == nil && toks[i].r == '\\' {
					i++
				}
				if i < len(toks) {
					val = append(val, toks[i])
					i++
				}
			}
			if i >= len(toks) {
				bad("the value of %s is not closed", key)
				return
			}
			i++
		} else {
			for i < len(toks) && !(toks[i].hole == nil && toks[i].r == ' ') {
				val = append(val, toks[i])
				i++
			}
		}
		if i < len(toks) && !(toks[i].hole == nil && toks[i].r == ' ') {
			bad("the value of %s runs into the following text", key)
			return
		}
		r.count("settings traced", 1)
		if seen[key] {
			bad("the connection string has %s twice", key)
		}
		seen[key] = true
		env := pgKeys[key]
		if env == "" {
			for _, v := range val {
				if v.hole != nil {
					bad("the connection string passes %s, which no documented setting is for", key)
					break
				}
			}
			if free {
				bad("%s after DB_PARAM_TEXT overrides what it chooses", key)
			}
			if key == "sslmode" && !valIs(val, "disable") {
				bad("sslmode is not disable by default")
			}
			continue
		}
		conds(env, t.conds)
		if len(val) != 1 || val[0].hole == nil {
			bad("%s of the connection string is not just %s", key, env)
			continue
		}
		src := a.kvEscaped(val[0].hole)
		if !quoted || src == nil {
			bad("%s is inserted into the connection string without quoting and escaping: %s", key, trim(val[0].hole.String()))
			src = val[0].hole
		}
		if !w.envIs(src, env) {
			bad("%s of the connection is %s, not %s", key, trim(a.val(src).String()), env)
		}
	}
	for _, k := range []string{"user", "password", "host", "port", "dbname"} {
		if seen[k] {
			continue
		}
		if e, _ := w.envKnown(s.Fs, pgKeys[k]); !e {
			bad("the connection string may lack %s although %s is set", k, pgKeys[k])
		}
	}
	if !seen["sslmode"] {
		bad("sslmode has no default")
	}
	if !free {
		if e, _ := w.envKnown(s.Fs, "DB_PARAM_TEXT"); !e {
			bad("the connection string may lack DB_PARAM_TEXT although it is set")
		}
	}
}

func valIs(v []connTok, s string) bool {
	x := ""
	for _, t := range v {
		if t.hole != nil {
			return false
		}
		x += string(t.r)
	}
	return x == s
}
