package main

import (
	"fmt"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", "The statement text of every index creation and removal is reconstructed as a template and parsed: creation must name the candidate's table and all of its columns in order, once, quoted; removal must name the same index (and table) as the creation in the same context, and the name must not change in between.", checkP02)
	register("P03", "Every value spliced into DDL or into catalog queries sent as text must be word characters only: by construction, by replacement of all other characters, or because every path from its source passes an anchored word-only match.", checkP03)
}

// ---------------------------------------------------------------- DDL

type sqlTok struct {
	Kind  string // word, punct, ident, rep, hole
	S     string
	Quote byte
	Parts Tmpl
	Rep   *TRep
}

func lexSQL(t Tmpl) ([]sqlTok, error) {
	var toks []sqlTok
	var cur *sqlTok // open quoted identifier
	word := ""
	flush := func() {
		if word != "" {
			toks = append(toks, sqlTok{Kind: "word", S: strings.ToUpper(word)})
			word = ""
		}
	}
	for _, p := range t {
		switch {
		case p.Hole != nil || p.Rep != nil:
			if cur != nil {
				cur.Parts = append(cur.Parts, p)
				continue
			}
			if word != "" {
				return nil, fmt.Errorf("text %q runs into a value", word)
			}
			if p.Rep != nil {
				toks = append(toks, sqlTok{Kind: "rep", Rep: p.Rep})
			} else {
				toks = append(toks, sqlTok{Kind: "hole", Parts: Tmpl{p}})
			}
		default:
			for _, r := range p.Lit {
				if cur != nil {
					if byte(r) == cur.Quote {
						toks = append(toks, *cur)
						cur = nil
					} else {
						cur.Parts = cur.Parts.add(lit(string(r)))
					}
					continue
				}
				switch {
				case r == '`' || r == '"' || r == '\'':
					flush()
					cur = &sqlTok{Kind: "ident", Quote: byte(r)}
				case unicode.IsSpace(r):
					flush()
				case r == '_' || unicode.IsLetter(r) || unicode.IsDigit(r):
					word += string(r)
				default:
					flush()
					toks = append(toks, sqlTok{Kind: "punct", S: string(r)})
				}
			}
			if cur == nil {
				// words never continue over a value
			}
		}
	}
	flush()
	if cur != nil {
		return nil, fmt.Errorf("unterminated quote")
	}
	return toks, nil
}

type DDL struct {
	Create bool
	Table  Tmpl
	Name   Tmpl
	Cols   *TRep
}

func (o *Op) quote() byte {
	if strings.Contains(o.Cmd.Path, "mysql") {
		return '`'
	}
	return '"'
}

func parseDDL(o *Op, t Tmpl) (*DDL, error) {
	toks, err := lexSQL(t)
	if err != nil {
		return nil, err
	}
	q := o.quote()
	i := 0
	peek := func(s string) bool {
		return i < len(toks) && (toks[i].Kind == "word" || toks[i].Kind == "punct") && toks[i].S == s
	}
	eat := func(ss ...string) bool {
		j := i
		for _, s := range ss {
			if !peek(s) {
				i = j
				return false
			}
			i++
		}
		return true
	}
	ident := func() (Tmpl, error) {
		if i < len(toks) && toks[i].Kind == "ident" && toks[i].Quote == q {
			i++
			return toks[i-1].Parts, nil
		}
		return nil, fmt.Errorf("expected an identifier quoted with %c", q)
	}
	cols := func() (*TRep, error) {
		if !eat("(") {
			return nil, fmt.Errorf("expected the list of columns")
		}
		if i >= len(toks) || toks[i].Kind != "rep" {
			return nil, fmt.Errorf("the columns are not listed from the candidate")
		}
		rep := toks[i].Rep
		i++
		if !eat(")") {
			return nil, fmt.Errorf("the list of columns contains something else than the candidate's columns")
		}
		eat("USING", "BTREE")
		return rep, nil
	}
	end := func() error {
		eat(";")
		if i != len(toks) {
			return fmt.Errorf("unexpected text %q", toks[i].S)
		}
		return nil
	}
	d := &DDL{}
	switch {
	case eat("ALTER", "TABLE"):
		if q != '`' {
			return nil, fmt.Errorf("ALTER TABLE does not manage indexes in PostgreSQL")
		}
		if d.Table, err = ident(); err != nil {
			return nil, err
		}
		switch {
		case eat("ADD", "INDEX"), eat("ADD", "KEY"):
			d.Create = true
			if d.Name, err = ident(); err != nil {
				return nil, err
			}
			if d.Cols, err = cols(); err != nil {
				return nil, err
			}
		case eat("DROP", "INDEX"), eat("DROP", "KEY"):
			if d.Name, err = ident(); err != nil {
				return nil, err
			}
		default:
			return nil, fmt.Errorf("expected ADD INDEX or DROP INDEX")
		}
	case eat("CREATE", "INDEX"):
		d.Create = true
		eat("CONCURRENTLY")
		if d.Name, err = ident(); err != nil {
			return nil, err
		}
		if !eat("ON") {
			return nil, fmt.Errorf("expected ON")
		}
		if d.Table, err = ident(); err != nil {
			return nil, err
		}
		if d.Cols, err = cols(); err != nil {
			return nil, err
		}
	case eat("DROP", "INDEX"):
		eat("CONCURRENTLY")
		eat("IF", "EXISTS")
		if d.Name, err = ident(); err != nil {
			return nil, err
		}
		if q == '`' {
			if !eat("ON") {
				return nil, fmt.Errorf("expected ON")
			}
			if d.Table, err = ident(); err != nil {
				return nil, err
			}
		}
	default:
		return nil, fmt.Errorf("not a plain creation or removal of an index")
	}
	return d, end()
}

// key identifies the text a template produces in one context.
func (a *Analysis) key(t Tmpl) string {
	var sb strings.Builder
	for _, p := range t {
		switch {
		case p.Rep != nil:
			fmt.Fprintf(&sb, "⟪%s⟫%q", p.Rep.Body.String(), p.Rep.Sep)
		case p.Hole != nil:
			rs := a.resolve(p.Hole)
			for _, x := range rs {
				fmt.Fprintf(&sb, "⟨%d⟩", x.ID)
			}
		default:
			sb.WriteString(p.Lit)
		}
	}
	return sb.String()
}

// sameVal: two terms stand for the same value.
func (a *Analysis) sameVal(x, y *Term) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil {
		return false
	}
	rx, ry := a.resolve(x), a.resolve(y)
	if len(rx) == 1 && sameSet(rx, ry) {
		return true
	}
	if len(rx) == 1 && len(ry) == 1 && rx[0].Op == "field" && ry[0].Op == "field" && rx[0].S == ry[0].S {
		return a.sameVal(rx[0].Args[0], ry[0].Args[0])
	}
	if len(rx) == 1 && len(ry) == 1 && rx[0].Op == "elem" && ry[0].Op == "elem" && rx[0].Loop == ry[0].Loop {
		return true
	}
	return false
}

// sameColl: the same collection, possibly read twice.
func (a *Analysis) sameCollection(x, y *Term) bool {
	if a.sameVal(x, y) {
		return true
	}
	nx, ny := a.norm(x), a.norm(y)
	return len(nx) > 0 && sameSet(nx, ny)
}

// holeField: the template is exactly field name of some value; returns that value.
func (a *Analysis) holeField(t Tmpl, name string) *Term {
	if len(t) != 1 || t[0].Hole == nil {
		return nil
	}
	rs := a.resolve(t[0].Hole)
	if len(rs) == 1 && rs[0].Op == "field" && rs[0].S == name {
		return rs[0].Args[0]
	}
	return nil
}

func checkP02(w *World, r *Report) {
	a := w.A
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		creates, drops := w.opsKind(c, "create-index"), w.opsKind(c, "drop-index")
		if len(creates) == 0 || len(drops) == 0 {
			r.missing("creation and removal of examined indexes in %q", name)
			continue
		}
		type side struct {
			op    *Op
			names map[string]bool
			table *Term
		}
		eval := func(o *Op) *side {
			s := &side{op: o, names: map[string]bool{}}
			for _, t := range o.Tm {
				r.count("statement templates", 1)
				d, err := parseDDL(o, t)
				if err != nil {
					r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "statement %q: %v", trim(t.String()), err)
					continue
				}
				if d.Create != (o.Kind == "create-index") {
					r.fail(o.Site.Pos(), "statement %q does the opposite", trim(t.String()))
				}
				s.names[a.key(d.Name)] = true
				if len(d.Name) == 0 {
					r.fail(o.Site.Pos(), "index has no name")
				}
				if d.Table != nil {
					b := a.holeField(d.Table, "TableName")
					if b == nil {
						r.fail(o.Site.Pos(), "table in %q is not the table of the candidate", trim(t.String()))
						continue
					}
					s.table = b
				}
				if d.Create {
					w.checkColumns(r, o, d, s.table)
				}
			}
			return s
		}
		var cs, ds []*side
		for _, o := range creates {
			cs = append(cs, eval(o))
		}
		for _, o := range drops {
			ds = append(ds, eval(o))
		}
		for _, x := range cs {
			best := -1
			var partner *side
			for _, y := range ds {
				if f := lca(x.op.Ev.Fr, y.op.Ev.Fr); f != nil && f.depth > best {
					best, partner = f.depth, y
				}
			}
			if partner == nil {
				continue
			}
			r.count("creation/removal pairs", 1)
			if fmt.Sprint(sortedKeys(x.names)) != fmt.Sprint(sortedKeys(partner.names)) {
				r.failAt(w.P.pos(partner.op.Site.Pos()), partner.op.Ev.Fr.String(), "removes an index of another name than the one created at %s", w.P.pos(x.op.Site.Pos()))
			}
			if partner.table != nil && x.table != nil && !a.sameVal(x.table, partner.table) {
				r.fail(partner.op.Site.Pos(), "removes the index from another table than the one it was created on")
			}
			w.stableName(r, x.op, partner.op)
			r.fact("%s: %s", name, trim(fmt.Sprint(x.op.Tm[0])))
		}
	}
}

func trim(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 300 {
		s = strings.ToValidUTF8(s[:300], "") + "…"
	}
	return s
}

func (w *World) checkColumns(r *Report, o *Op, d *DDL, table *Term) {
	a := w.A
	rep := d.Cols
	pos := o.Site.Pos()
	if rep.Sep != "," && strings.TrimSpace(rep.Sep) != "," {
		r.fail(pos, "columns are separated by %q", rep.Sep)
	}
	if len(rep.Conds) > 0 || rep.Part || rep.Rev || rep.Uniq || len(rep.Loops) != 1 {
		r.fail(pos, "not all columns of the candidate are indexed once in their order")
		return
	}
	lp := rep.Loops[0]
	if lp.Rev || lp.Part || lp.Coll == nil {
		r.fail(pos, "not all columns of the candidate are indexed once in their order")
		return
	}
	cb := a.resolve(lp.Coll)
	var owner *Term
	if len(cb) == 1 && cb[0].Op == "field" && cb[0].S == "Columns" {
		owner = cb[0].Args[0]
	} else if lp.Coll.Op == "field" && lp.Coll.S == "Columns" {
		owner = lp.Coll.Args[0]
	}
	if owner == nil || table == nil || !a.sameVal(owner, table) {
		r.fail(pos, "columns of the index are not the columns of the candidate whose table is indexed")
		return
	}
	toks, err := lexSQL(rep.Body)
	if err != nil || len(toks) != 1 || toks[0].Kind != "ident" || toks[0].Quote != o.quote() || len(toks[0].Parts) != 1 || toks[0].Parts[0].Hole == nil {
		r.fail(pos, "each column must be written as one quoted identifier, found %q", rep.Body.String())
		return
	}
	for _, x := range a.resolve(toks[0].Parts[0].Hole) {
		if x.Op == "call" && x.Callee == "(*regexp.Regexp).ReplaceAllString" {
			pat, ok := a.regexpOf(x.Args[0])
			_, keeps := replacesExactlyNonWord(pat)
			if !ok || !keeps {
				r.fail(pos, "names of columns made of word characters may be altered by pattern %q", pat)
			}
			y := a.resolve(x.Args[1])
			if len(y) != 1 {
				r.fail(pos, "column name has several sources")
				continue
			}
			x = y[0]
		}
		if x.Op != "field" || x.S != "Name" || !isElemOf(a, x.Args[0], lp) {
			r.fail(pos, "column in the statement is %s instead of the name of the candidate's column", trim(x.String()))
		}
	}
}

func isElemOf(a *Analysis, t *Term, lp *LoopCtx) bool {
	for _, x := range a.resolve(t) {
		if x.Op == "elem" && x.Loop == lp {
			return true
		}
	}
	return t.Op == "elem" && t.Loop == lp
}

// stableName: variables the removal reads are not assigned after the creation.
func (w *World) stableName(r *Report, cr, d *Op) {
	a := w.A
	f := lca(cr.Ev.Fr, d.Ev.Fr)
	ic := pathTo(f, cr.Ev.Fr, cr.Ev.In)[0].In
	cells := map[*Term]bool{}
	a.reach(d.SQL, func(t *Term) bool {
		if t.Op == "load" {
			for _, b := range a.resolve(t.Args[0]) {
				if b.Op == "obj" {
					cells[b] = true
				}
			}
		}
		return true
	})
	for _, cell := range sortedTerms(cells) {
		if cell.Fr != f {
			continue
		}
		al, _ := cell.Val.(*ssa.Alloc)
		for _, s := range a.heap[cell]["*"] {
			if s.Fr != f {
				// stored in a closure or callee: entered after the creation?
				if isAncestor(f, s.Fr) {
					site := pathTo(f, s.Fr, s.In)[0].In
					if reachesAvoiding(ic, site, al) {
						r.fail(s.In.Pos(), "a value used to drop the index is changed after the index was created")
					}
				}
				continue
			}
			r.count("assignments checked", 1)
			if reachesAvoiding(ic, s.In, al) {
				r.fail(s.In.Pos(), "a value used to drop the index is changed after the index was created")
			}
		}
	}
}

// reachesAvoiding: control flows from a to b without passing (re-executing) instruction c.
func reachesAvoiding(a, b ssa.Instruction, c ssa.Instruction) bool {
	type node struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []node{{a.Block(), instrIndex(a) + 1}}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		stop := false
		for _, in := range n.b.Instrs[n.i:] {
			if in == b {
				return true
			}
			if in == c {
				stop = true
				break
			}
		}
		if stop {
			continue
		}
		for _, s := range n.b.Succs {
			if !seen[s] {
				seen[s] = true
				st = append(st, node{s, 0})
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- P03

func checkP03(w *World, r *Report) {
	a := w.A
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		n := 0
		for _, o := range w.opsOf(c) {
			switch o.Kind {
			case "create-index", "drop-index":
			case "select":
			default:
				continue
			}
			n++
			facts := a.factsOnPath(o.Ev.Fr, o.Ev.In.Block(), c.Run)
			for _, t := range o.Tm {
				for _, h := range t.holes() {
					r.count("spliced values", 1)
					s := &safety{w: w, facts: facts, seen: map[*Term]bool{}}
					if !s.word(h) {
						r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "value spliced into %q may contain other than word characters: %s", trim(t.prefix()), trim(s.why))
					}
				}
			}
		}
		if n == 0 {
			r.missing("statements of %q", name)
		}
		// every candidate that is examined
		for _, o := range w.opsKind(c, "create-index") {
			for _, t := range o.Tm {
				d, err := parseDDL(o, t)
				if err != nil || !d.Create {
					continue
				}
				if x := a.holeField(d.Table, "TableName"); x != nil {
					r.count("candidates examined", 1)
					s := &safety{w: w, seen: map[*Term]bool{}}
					if !s.columns(x) {
						r.failAt(w.P.pos(o.Site.Pos()), o.Ev.Fr.String(), "a candidate having a column with other than word characters may be examined: %s", trim(s.why))
					}
				}
			}
		}
	}
}

type safety struct {
	w     *World
	facts []Fact
	seen  map[*Term]bool
	why   string
}

// word: the string consists of word characters only.
func (s *safety) word(t *Term) bool {
	a := s.w.A
	if s.seen[t] {
		return true
	}
	s.seen[t] = true
	if s.fact(t, s.facts) {
		return true
	}
	for _, tm := range a.tmpls(t) {
		for _, p := range tm {
			switch {
			case p.Rep != nil:
				if !wordText(p.Rep.Sep) {
					s.why = fmt.Sprintf("separator %q", p.Rep.Sep)
					return false
				}
				for _, q := range p.Rep.Body {
					if q.Hole == nil && q.Rep == nil && !wordText(q.Lit) {
						s.why = q.Lit
						return false
					}
				}
				for _, h := range p.Rep.Body.holes() {
					if !s.word(h) {
						return false
					}
				}
			case p.Hole != nil:
				if !s.wordHole(p.Hole) {
					return false
				}
			default:
				if !wordText(p.Lit) {
					s.why = fmt.Sprintf("text %q", p.Lit)
					return false
				}
			}
		}
	}
	return true
}

func wordText(s string) bool {
	for _, r := range s {
		if !isWordRune(r) {
			return false
		}
	}
	return true
}

func (s *safety) wordHole(h *Term) bool {
	a := s.w.A
	for _, x := range a.resolve(h) {
		if x != h {
			if s.seen[x] {
				continue
			}
			s.seen[x] = true
		}
		if s.fact(x, s.facts) {
			continue
		}
		if x.T != nil && basicInfo(x.T)&2 != 0 { // integers
			continue
		}
		switch x.Op {
		case "slice":
			if !s.word(x.Args[0]) {
				return false
			}
			continue
		case "zero":
			continue
		case "binop":
			if x != h && x.S == "+" {
				if !s.word(x.Args[0]) || !s.word(x.Args[1]) {
					return false
				}
				continue
			}
		case "call":
			if x != h && x.Callee == "fmt.Sprintf" {
				// a text composed before it was stored
				delete(s.seen, x)
				if !s.word(x) {
					return false
				}
				continue
			}
			switch x.Callee {
			case "strconv.FormatInt", "strconv.Itoa", "strconv.FormatUint":
				continue
			case "strings.ToLower", "strings.ToUpper":
				if s.word(x.Args[0]) {
					continue
				}
				return false
			case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
				pat, ok := a.regexpOf(x.Args[0])
				rem, _ := replacesExactlyNonWord(pat)
				rep, okr := x.Args[2].isConstString()
				if ok && rem && okr && wordText(rep) {
					continue
				}
				s.why = fmt.Sprintf("pattern %q", pat)
				return false
			}
		case "field":
			if x.S == "TableName" && s.table(x.Args[0], map[*Term]bool{}) {
				continue
			}
		case "elem":
			// any element of a collection all of whose elements were checked
			ok := false
			for _, f := range s.facts {
				if len(f.Loops) == 1 && f.True && f.Loops[0].Coll != nil && a.sameCollection(f.Loops[0].Coll, x.Args[0]) {
					if arg := a.wordMatch(f.T); arg != nil && isElemOf(a, arg, f.Loops[0]) {
						ok = true
					}
				}
			}
			if ok {
				continue
			}
			// elements of a built collection
			items := a.seqOf(x.Args[0]).Items
			if len(items) > 0 {
				all := true
				for _, it := range items {
					if it.Splat {
						if it.Body == x.Args[0] {
							all = false
							break
						}
						if !s.wordHole(a.mk("elem", "", 0, nil, it.Body)) {
							all = false
						}
						continue
					}
					sub := &safety{w: s.w, facts: append(a.condFacts(it.Conds), s.facts...), seen: s.seen}
					if !sub.word(it.Body) {
						all = false
						s.why = sub.why
					}
				}
				if all {
					continue
				}
			}
		}
		s.why = x.String()
		return false
	}
	return true
}

// wordMatch: t is a successful whole-text word match; returns the text.
func (a *Analysis) wordMatch(t *Term) *Term {
	if t.Op == "call" && t.Callee == "(*regexp.Regexp).MatchString" {
		if pat, ok := a.regexpOf(t.Args[0]); ok && onlyWord(pat) {
			return t.Args[1]
		}
	}
	return nil
}

func (s *safety) fact(t *Term, facts []Fact) bool {
	a := s.w.A
	for _, f := range facts {
		if f.True && len(f.Loops) == 0 {
			if arg := a.wordMatch(f.T); arg != nil && a.sameVal(arg, t) {
				return true
			}
		}
	}
	return false
}

// table: the table name of the index target is made of word characters.
func (s *safety) table(x *Term, seen map[*Term]bool) bool {
	return s.target(x, nil, seen, func(t *Term, facts []Fact) bool {
		return s.fact(s.w.A.field(t, "TableName"), facts)
	}, func(o *Term) bool {
		a := s.w.A
		recs := a.heap[o]["TableName"]
		if len(recs) == 0 {
			s.why = "table name of " + o.String()
			return false
		}
		for _, rec := range recs {
			fs := a.factsAt(rec.Fr, rec.In.Block())
			if !s.fact(rec.Val, fs) && !(&safety{w: s.w, facts: fs, seen: map[*Term]bool{}}).constWord(rec.Val) {
				s.why = "table name stored at " + s.w.P.pos(rec.In.Pos())
				return false
			}
		}
		return true
	})
}

func (s *safety) constWord(t *Term) bool {
	c, ok := t.isConstString()
	return ok && wordText(c)
}

// columns: every column name of the index target is made of word characters.
func (s *safety) columns(x *Term) bool {
	a := s.w.A
	return s.target(x, nil, map[*Term]bool{}, func(t *Term, facts []Fact) bool {
		cols := a.field(t, "Columns")
		for _, f := range facts {
			if len(f.Loops) != 1 || f.Loops[0].Coll == nil || !a.sameCollection(f.Loops[0].Coll, cols) {
				continue
			}
			if arg := a.wordMatch(f.T); arg != nil && f.True && isNameOfElem(a, arg, f.Loops[0]) {
				return true
			}
			// Name == SafeName
			if f.T.Op == "binop" && (f.T.S == "==" && f.True || f.T.S == "!=" && !f.True) {
				for k := 0; k < 2; k++ {
					n, sn := f.T.Args[k], f.T.Args[1-k]
					if !isNameOfElem(a, n, f.Loops[0]) {
						continue
					}
					ok := true
					for _, y := range a.resolve(sn) {
						if y.Op != "call" || !strings.HasPrefix(y.Callee, "(*regexp.Regexp).ReplaceAll") || !isNameOfElem(a, y.Args[1], f.Loops[0]) {
							ok = false
							continue
						}
						pat, _ := a.regexpOf(y.Args[0])
						rem, _ := replacesExactlyNonWord(pat)
						rep, okr := y.Args[2].isConstString()
						if !rem || !okr || !wordText(rep) {
							ok = false
						}
					}
					if ok {
						return true
					}
				}
			}
		}
		return false
	}, func(o *Term) bool {
		items := a.seqOf(a.field(o, "Columns")).Items
		if len(items) == 0 {
			s.why = "columns of " + o.String()
			return false
		}
		for _, it := range items {
			if it.Splat {
				s.why = "columns taken from " + it.Body.String()
				return false
			}
			for _, col := range a.resolve(it.Body) {
				recs := a.heap[col]["Name"]
				if len(recs) == 0 {
					s.why = "column " + col.String()
					return false
				}
				for _, rec := range recs {
					fs := a.factsAt(rec.Fr, rec.In.Block())
					fs = append(fs, a.condFacts(it.Conds)...)
					if !s.fact(rec.Val, fs) {
						s.why = "column name stored at " + s.w.P.pos(rec.In.Pos())
						return false
					}
				}
			}
		}
		return true
	})
}

func isNameOfElem(a *Analysis, t *Term, lp *LoopCtx) bool {
	for _, x := range a.resolve(t) {
		if x.Op == "field" && x.S == "Name" && isElemOf(a, x.Args[0], lp) {
			return true
		}
	}
	return false
}

// target follows an index target to where it comes from until a guard settles the question.
func (s *safety) target(x *Term, facts []Fact, seen map[*Term]bool, guarded func(*Term, []Fact) bool, made func(*Term) bool) bool {
	a := s.w.A
	rs := a.resolve(x)
	if len(rs) == 0 {
		return false
	}
	for _, t := range rs {
		if seen[t] {
			continue
		}
		seen[t] = true
		if guarded(t, append(append([]Fact{}, facts...), s.facts...)) {
			continue
		}
		switch t.Op {
		case "obj":
			if made(t) {
				continue
			}
			return false
		case "elem", "index":
			items := a.seqOf(t.Args[0]).Items
			if len(items) == 0 {
				s.why = "element of " + t.Args[0].String()
				return false
			}
			for _, it := range items {
				fs := a.condFacts(it.Conds)
				if it.Splat {
					if it.Body == t.Args[0] {
						s.why = "element of " + it.Body.String()
						return false
					}
					if !s.target(a.mk("elem", "", 0, nil, it.Body), fs, seen, guarded, made) {
						return false
					}
					continue
				}
				if !s.target(it.Body, fs, seen, guarded, made) {
					return false
				}
			}
			continue
		}
		s.why = "candidate " + t.String()
		return false
	}
	return true
}
