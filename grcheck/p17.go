package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P17", "The text of every catalog query is parsed: what it selects, the relations, the conditions (schema and table names only), their placeholders with the values bound to them (database name, search path, tables) and its order; then each value of the schemas and existing indexes made from the rows is traced to the selected column it must come from, for every row, in order, with rows of one index (and only those) gathered.", checkP17)
}

// selectStmt is a parsed catalog query.
type selectStmt struct {
	Items []selectItem
	From  []fromItem
	Where []string
	Order []string
	Vals  []sqlTok // the tokens values were bound to, as «n» in the texts
	Marks int      // placeholders
	mark  map[int]int
}
type selectItem struct{ Expr, Name string }
type fromItem struct {
	Table, Alias, Join string
	On                 []string
}

func tokText(toks []sqlTok, s *selectStmt) string {
	var out []string
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch t.Kind {
		case "ident":
			if c, ok := t.Parts.isConst(); ok && t.Quote == '\'' {
				out = append(out, "'"+c+"'")
				continue
			} else if ok {
				out = append(out, c)
				continue
			}
			s.Vals = append(s.Vals, t)
			out = append(out, fmt.Sprintf("«%d»", len(s.Vals)-1))
		case "hole", "rep":
			s.Vals = append(s.Vals, t)
			out = append(out, fmt.Sprintf("«%d»", len(s.Vals)-1))
		case "punct":
			if t.S == "?" || t.S == "$" {
				x := t
				n := s.Marks
				if t.S == "$" && i+1 < len(toks) && toks[i+1].Kind == "word" {
					fmt.Sscanf(toks[i+1].S, "%d", &n)
					n--
					i++
				}
				s.Marks++
				s.Vals = append(s.Vals, x)
				s.mark[len(s.Vals)-1] = n
				out = append(out, fmt.Sprintf("«%d»", len(s.Vals)-1))
				continue
			}
			out = append(out, t.S)
		default:
			out = append(out, t.S)
		}
	}
	// no spaces around dots, commas and brackets
	r := strings.Join(out, " ")
	for _, x := range []string{".", ",", "(", ")", "::"} {
		r = strings.ReplaceAll(r, " "+x, x)
		r = strings.ReplaceAll(r, x+" ", x)
	}
	r = strings.ReplaceAll(r, ">=", " >= ")
	r = strings.ReplaceAll(r, "> =", " >= ")
	r = strings.ReplaceAll(r, "< =", " <= ")
	return strings.Join(strings.Fields(r), " ")
}

func splitToks(toks []sqlTok, is func(sqlTok) bool) [][]sqlTok {
	var res [][]sqlTok
	d := 0
	cur := []sqlTok{}
	for _, t := range toks {
		if t.Kind == "punct" && t.S == "(" {
			d++
		}
		if t.Kind == "punct" && t.S == ")" {
			d--
		}
		if d == 0 && is(t) {
			res = append(res, cur)
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	return append(res, cur)
}

func isWord(t sqlTok, ws ...string) bool {
	if t.Kind != "word" {
		return false
	}
	for _, w := range ws {
		if t.S == w {
			return true
		}
	}
	return false
}

func parseSelect(t Tmpl) (*selectStmt, error) {
	toks, err := lexSQL(t)
	if err != nil {
		return nil, err
	}
	for len(toks) > 0 && toks[len(toks)-1].Kind == "punct" && toks[len(toks)-1].S == ";" {
		toks = toks[:len(toks)-1]
	}
	s := &selectStmt{mark: map[int]int{}}
	// clauses
	type clause struct {
		name string
		toks []sqlTok
	}
	var cls []clause
	d := 0
	for i, t := range toks {
		if t.Kind == "punct" && t.S == "(" {
			d++
		}
		if t.Kind == "punct" && t.S == ")" {
			d--
		}
		if d == 0 && (isWord(t, "SELECT", "FROM", "WHERE", "ORDER", "GROUP", "HAVING", "LIMIT", "OFFSET", "UNION", "FETCH", "WINDOW", "INTERSECT", "EXCEPT", "FOR")) {
			if t.S == "FROM" && i > 0 && isWord(toks[i-1], "DISTINCT") {
				continue
			}
			cls = append(cls, clause{name: t.S})
			continue
		}
		if len(cls) == 0 {
			return nil, fmt.Errorf("it does not start with SELECT")
		}
		cls[len(cls)-1].toks = append(cls[len(cls)-1].toks, t)
	}
	comma := func(t sqlTok) bool { return t.Kind == "punct" && t.S == "," }
	seen := map[string]bool{}
	for _, c := range cls {
		if seen[c.name] {
			return nil, fmt.Errorf("%s appears twice", c.name)
		}
		seen[c.name] = true
		switch c.name {
		case "SELECT":
			for _, it := range splitToks(c.toks, comma) {
				if len(it) == 0 {
					return nil, fmt.Errorf("empty select item")
				}
				if isWord(it[0], "DISTINCT") {
					return nil, fmt.Errorf("DISTINCT loses rows")
				}
				n := len(it)
				x := selectItem{}
				switch {
				case n >= 3 && isWord(it[n-2], "AS"):
					x.Name = tokText(it[n-1:], s)
					x.Expr = tokText(it[:n-2], s)
				default:
					x.Expr = tokText(it, s)
					x.Name = x.Expr[strings.LastIndex(x.Expr, ".")+1:]
				}
				x.Name = strings.ToLower(x.Name)
				s.Items = append(s.Items, x)
			}
		case "FROM":
			ands := func(t []sqlTok) []string {
				var r []string
				for _, p := range splitToks(t, func(x sqlTok) bool { return isWord(x, "AND") }) {
					r = append(r, tokText(p, s))
				}
				return r
			}
			cur := []sqlTok{}
			join := ""
			add := func() error {
				if len(cur) == 0 {
					return nil
				}
				parts := splitToks(cur, func(x sqlTok) bool { return isWord(x, "ON") })
				f := fromItem{Join: join}
				tb := parts[0]
				var ws []sqlTok
				for _, x := range tb {
					if !isWord(x, "AS") {
						ws = append(ws, x)
					}
				}
				txt := tokText(ws, s)
				fs := strings.Fields(txt)
				if len(fs) == 0 || len(fs) > 2 {
					return fmt.Errorf("the relation %q is not understood", txt)
				}
				f.Table, f.Alias = fs[0], fs[0]
				if len(fs) == 2 {
					f.Alias = fs[1]
				}
				if len(parts) > 1 {
					f.On = ands(parts[1])
				}
				s.From = append(s.From, f)
				cur = nil
				return nil
			}
			for _, t := range c.toks {
				if isWord(t, "INNER", "OUTER", "CROSS") {
					continue
				}
				if isWord(t, "LEFT", "RIGHT", "FULL", "JOIN") || comma(t) {
					if len(cur) > 0 {
						if err := add(); err != nil {
							return nil, err
						}
						join = ""
					}
					if isWord(t, "LEFT", "RIGHT", "FULL") {
						join = t.S
					}
					continue
				}
				cur = append(cur, t)
			}
			if err := add(); err != nil {
				return nil, err
			}
		case "WHERE":
			for _, p := range splitToks(c.toks, func(x sqlTok) bool { return isWord(x, "AND") }) {
				s.Where = append(s.Where, tokText(p, s))
			}
		case "ORDER":
			if len(c.toks) == 0 || !isWord(c.toks[0], "BY") {
				return nil, fmt.Errorf("ORDER without BY")
			}
			for _, p := range splitToks(c.toks[1:], comma) {
				x := strings.TrimSuffix(tokText(p, s), " ASC")
				s.Order = append(s.Order, x)
			}
		default:
			return nil, fmt.Errorf("%s changes which rows are returned", c.name)
		}
	}
	return s, nil
}

// catalog is one catalog query with its canonical parts.
type catalog struct {
	op     *Op
	st     *selectStmt
	kind   string            // columns, indexes
	cols   map[string]string // output name -> meaning: table, column, columns, pk, key, index
	order  []string          // meanings by position
	schema *sqlTok
	tables *sqlTok
	schAt  int
	tabAt  int
}

// canon replaces aliases by roles and returns all conditions that must hold for a row.
func (k *catalog) canon(mysql bool) (conds []string, opt []string, ren func(string) string, err string) {
	st := k.st
	role := map[string]string{}
	for _, f := range st.From {
		role[f.Alias] = strings.ToLower(f.Table)
	}
	ren = func(s string) string {
		var out strings.Builder
		word := ""
		flush := func(next rune) {
			if word != "" {
				if r, ok := role[word]; ok && next == '.' {
					out.WriteString(strings.ToUpper(r))
				} else {
					out.WriteString(word)
				}
			}
			word = ""
		}
		for _, r := range s {
			if r == '_' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
				word += string(r)
				continue
			}
			flush(r)
			out.WriteRune(r)
		}
		flush(0)
		return out.String()
	}
	// two uses of pg_class: the one joined on indexrelid is the index
	n := 0
	for _, f := range st.From {
		if strings.EqualFold(f.Table, "pg_class") {
			n++
		}
	}
	if n > 1 {
		var all []string
		for _, f := range st.From {
			all = append(all, f.On...)
		}
		all = append(all, st.Where...)
		for _, f := range st.From {
			if !strings.EqualFold(f.Table, "pg_class") {
				continue
			}
			for _, c := range all {
				l, r, ok := strings.Cut(c, " = ")
				if !ok {
					continue
				}
				if l == f.Alias+".OID" {
					l, r = r, l
				}
				if r != f.Alias+".OID" {
					continue
				}
				if strings.HasSuffix(l, "INDEXRELID") {
					role[f.Alias] = "idx_class"
				}
				if strings.HasSuffix(l, "INDRELID") {
					role[f.Alias] = "tab_class"
				}
			}
		}
	} else {
		for a, r := range role {
			if r == "pg_class" {
				role[a] = "tab_class"
			}
		}
	}
	for _, f := range st.From {
		for _, c := range f.On {
			if f.Join == "LEFT" {
				opt = append(opt, orient(ren(c)))
			} else {
				conds = append(conds, orient(ren(c)))
			}
		}
		if f.Join == "RIGHT" || f.Join == "FULL" {
			err = f.Join + " JOIN adds rows"
		}
	}
	for _, c := range st.Where {
		conds = append(conds, orient(ren(c)))
	}
	return
}

// orient writes equalities of two columns in one direction.
func orient(c string) string {
	l, r, ok := strings.Cut(c, " = ")
	if ok && !strings.HasPrefix(r, "«") && !strings.HasPrefix(r, "'") && !strings.HasPrefix(r, "ANY(") && l > r {
		return r + " = " + l
	}
	if ok && strings.HasPrefix(l, "«") {
		return r + " = " + l
	}
	return c
}

// holeNum: the number n of "prefix«n»suffix".
func holeNum(s, prefix, suffix string) (int, bool) {
	if !strings.HasPrefix(s, prefix+"«") || !strings.HasSuffix(s, "»"+suffix) {
		return 0, false
	}
	var n int
	if _, err := fmt.Sscanf(s[len(prefix):], "«%d»", &n); err != nil {
		return 0, false
	}
	return n, prefix+fmt.Sprintf("«%d»", n)+suffix == s
}

var pgIndexCols = []string{
	"ARRAY(SELECT PG_GET_INDEXDEF(PG_INDEX.INDEXRELID,%[1]s + 1,TRUE)FROM GENERATE_SUBSCRIPTS(PG_INDEX.INDKEY,1)AS %[1]s ORDER BY %[1]s)",
	"ARRAY(SELECT PG_GET_INDEXDEF(PG_INDEX.INDEXRELID,%[1]s + 1,TRUE)FROM GENERATE_SUBSCRIPTS(PG_INDEX.INDKEY,1)%[1]s ORDER BY %[1]s)",
}

func isPgIndexCols(s string) bool {
	for _, f := range pgIndexCols {
		i := strings.Index(s, "INDEXRELID,")
		if i < 0 {
			return false
		}
		rest := s[i+len("INDEXRELID,"):]
		v := strings.Fields(rest)
		if len(v) > 0 && fmt.Sprintf(f, v[0]) == s {
			return true
		}
	}
	return false
}

func (w *World) parseCatalog(r *Report, o *Op) *catalog {
	bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Ev.In.Pos()), o.Cmd.Path, f, args...) }
	if len(o.Tm) != 1 {
		bad("the catalog query has %d forms", len(o.Tm))
		return nil
	}
	st, err := parseSelect(o.Tm[0])
	if err != nil {
		bad("the catalog query is not understood: %v", err)
		return nil
	}
	k := &catalog{op: o, st: st, cols: map[string]string{}}
	mysql := strings.Contains(o.Cmd.Path, "mysql")
	conds, opt, ren, why := k.canon(mysql)
	if why != "" {
		bad("the catalog query: %s", why)
	}
	has := func(l []string, x ...string) bool {
		for _, c := range l {
			for _, y := range x {
				if c == y {
					return true
				}
			}
		}
		return false
	}
	have := func(t string) bool {
		for _, f := range st.From {
			if strings.EqualFold(f.Table, t) {
				return true
			}
		}
		return false
	}
	allowed := map[string]bool{}
	need := func(x ...string) {
		if !has(conds, x...) {
			bad("the catalog query lacks the condition %s", strings.ToLower(x[0]))
		}
		for _, y := range x {
			allowed[y] = true
		}
	}
	var schemaCol, tableCol []string
	switch {
	case mysql && have("information_schema.columns"):
		k.kind = "columns"
	case mysql && have("information_schema.statistics"):
		k.kind = "indexes"
	case !mysql && have("pg_attribute"):
		k.kind = "columns"
		need("PG_ATTRIBUTE.ATTRELID = TAB_CLASS.OID")
		need("PG_NAMESPACE.OID = TAB_CLASS.RELNAMESPACE")
		need("PG_ATTRIBUTE.ATTNUM >= 0", "PG_ATTRIBUTE.ATTNUM > 0", "PG_ATTRIBUTE.ATTNUM >= 1")
		allowed["TAB_CLASS.RELKIND = 'r'"] = true
		allowed["NOT PG_ATTRIBUTE.ATTISDROPPED"] = true
		if !has(opt, orient("TAB_CLASS.OID = PG_INDEX.INDRELID")) || !has(opt, "PG_ATTRIBUTE.ATTNUM = ANY(PG_INDEX.INDKEY)") {
			bad("the catalog query does not look the column up in the table's indexes")
		}
		for _, c := range opt {
			if c != orient("TAB_CLASS.OID = PG_INDEX.INDRELID") && c != "PG_ATTRIBUTE.ATTNUM = ANY(PG_INDEX.INDKEY)" && c != "PG_INDEX.INDISPRIMARY" {
				bad("the catalog query has the unexpected condition %s", strings.ToLower(c))
			}
		}
	case !mysql && have("pg_index"):
		k.kind = "indexes"
		need(orient("PG_INDEX.INDEXRELID = IDX_CLASS.OID"))
		need(orient("PG_INDEX.INDRELID = TAB_CLASS.OID"))
		need(orient("IDX_CLASS.RELNAMESPACE = PG_NAMESPACE.OID"), orient("TAB_CLASS.RELNAMESPACE = PG_NAMESPACE.OID"))
		for _, c := range opt {
			bad("the catalog query has the unexpected condition %s", strings.ToLower(c))
		}
	default:
		return nil
	}
	if mysql {
		t := strings.ToUpper(st.From[0].Table)
		schemaCol = []string{"TABLE_SCHEMA", t + ".TABLE_SCHEMA"}
		tableCol = []string{"TABLE_NAME", t + ".TABLE_NAME"}
		if len(st.From) != 1 {
			bad("the catalog query joins other relations")
		}
	} else {
		schemaCol = []string{"PG_NAMESPACE.NSPNAME"}
		tableCol = []string{"TAB_CLASS.RELNAME"}
	}
	k.schAt, k.tabAt = -1, -1
	for _, c := range conds {
		if allowed[c] {
			continue
		}
		hit := false
		for _, x := range schemaCol {
			if n, ok := holeNum(c, x+" = ", ""); ok && k.schema == nil {
				k.schema, k.schAt, hit = &st.Vals[n], n, true
			}
			if strings.HasPrefix(c, x+" = '") && k.schema == nil {
				k.schema = &sqlTok{Kind: "ident", Parts: lit(strings.Trim(c[len(x)+3:], "'"))}
				hit = true
			}
		}
		for _, x := range tableCol {
			if n, ok := holeNum(c, x+" IN(", ")"); ok && k.tables == nil {
				k.tables, k.tabAt, hit = &st.Vals[n], n, true
			}
		}
		if !hit {
			bad("the catalog query has the unexpected condition %s", strings.ToLower(c))
		}
	}
	if k.schema == nil {
		bad("the catalog query is not restricted to the schema")
	}
	if k.tables == nil {
		bad("the catalog query is not restricted to the tables")
	}
	// what each output column means
	for _, it := range st.Items {
		e := ren(it.Expr)
		if mysql {
			e = e[strings.LastIndex(e, ".")+1:]
		}
		m := "?"
		switch {
		case has(tableCol, e):
			m = "table"
		case e == "COLUMN_NAME" || e == "PG_ATTRIBUTE.ATTNAME":
			m = "column"
		case e == "COLUMN_KEY":
			m = "key"
		case e == "INDEX_NAME" || e == "IDX_CLASS.RELNAME":
			m = "index"
		case e == "COALESCE(PG_INDEX.INDISPRIMARY,FALSE)":
			m = "pk"
		case isPgIndexCols(e):
			m = "columns"
		}
		k.cols[it.Name] = m
		k.order = append(k.order, m)
		r.count("selected columns", 1)
	}
	// order
	var ord []string
	for _, x := range st.Order {
		e := ren(x)
		if mysql {
			e = e[strings.LastIndex(e, ".")+1:]
		}
		if m := k.cols[strings.ToLower(e)]; m != "" && m != "?" && !mysql {
			e = map[string]string{"table": "TAB_CLASS.RELNAME", "column": "PG_ATTRIBUTE.ATTNAME"}[m]
		}
		ord = append(ord, e)
	}
	pos := func(x string) int {
		for i, y := range ord {
			if x == y {
				return i
			}
		}
		return -1
	}
	switch {
	case k.kind == "columns" && mysql:
		if p := pos("ORDINAL_POSITION"); p < 0 || p > 1 || p == 1 && ord[0] != "TABLE_NAME" {
			bad("the columns of a table are not read in their order")
		}
	case k.kind == "columns":
		if p := pos("PG_ATTRIBUTE.ATTNUM"); p < 0 || p > 1 || p == 1 && ord[0] != "TAB_CLASS.RELNAME" {
			bad("the columns of a table are not read in their order")
		}
	case mysql:
		s, t, i := pos("SEQ_IN_INDEX"), pos("TABLE_NAME"), pos("INDEX_NAME")
		if s != 2 || t < 0 || t > 1 || i < 0 || i > 1 {
			bad("the columns of an index are not read together in the index's order")
		}
	}
	return k
}

// boundTo: what a place of the text is filled with.
func (w *World) boundTo(k *catalog, tok *sqlTok, at int) (val *Term, rep *TRep, text string, ok bool) {
	if n, isMark := k.st.mark[at]; isMark && at >= 0 {
		// sqlx.In's values
		for _, x := range w.A.resolve(k.op.SQL) {
			in := w.findIn(x, 0)
			if in == nil {
				return nil, nil, "", false
			}
			els, okE := w.A.elements(in.Args[1])
			if !okE || n >= len(els) || els[n] == nil {
				return nil, nil, "", false
			}
			// the values are handed to the query
			found := false
			for _, a := range k.op.Args {
				for _, y := range w.A.resolve(a) {
					if y.Op == "res" && y.Idx == 1 && y.Args[0] == in {
						found = true
					}
				}
			}
			return els[n], nil, "", found
		}
		return nil, nil, "", false
	}
	switch tok.Kind {
	case "ident":
		if s, c := tok.Parts.isConst(); c {
			return nil, nil, s, true
		}
		if len(tok.Parts) == 1 && tok.Parts[0].Hole != nil {
			return tok.Parts[0].Hole, nil, "", true
		}
	case "rep":
		return nil, tok.Rep, "", true
	}
	return nil, nil, "", false
}

func (w *World) findIn(t *Term, d int) *Term {
	if d > 8 {
		return nil
	}
	if t.Op == "res" && t.Idx == 0 {
		t = t.Args[0]
	}
	if t.Op != "call" {
		return nil
	}
	switch t.Callee {
	case "github.com/jmoiron/sqlx.In":
		return t
	case "(*github.com/jmoiron/sqlx.DB).Rebind":
		if x := w.A.one(t.Args[1]); x != nil {
			return w.findIn(x, d+1)
		}
	case "github.com/jmoiron/sqlx.Rebind":
		if x := w.A.one(t.Args[1]); x != nil {
			return w.findIn(x, d+1)
		}
	}
	return nil
}

func (w *World) rebound(t *Term) bool {
	for _, x := range w.A.resolve(t) {
		if !(x.Op == "call" && strings.HasSuffix(x.Callee, ".Rebind")) {
			return false
		}
	}
	return true
}

// schemaOK: the value restricting the catalog is the documented one.
func (w *World) schemaOK(c *Command, val *Term, text string) string {
	a := w.A
	if strings.Contains(c.Path, "hasura") {
		if val != nil {
			if x := a.one(val); x != nil {
				text, _ = x.isConstString()
			}
		}
		if text != "public" {
			return "public"
		}
		return ""
	}
	if val == nil {
		return "the configured one"
	}
	if strings.Contains(c.Path, "mysql") {
		if !w.envIs(val, "DB_DATABASE") {
			return "DB_DATABASE"
		}
		return ""
	}
	n := 0
	for _, e := range a.edges(val) {
		fs := a.edgeFacts(e, c.Run)
		empty, _ := w.envKnown(fs, "DB_SEARCH_PATH")
		if w.envIs(e.T, "DB_SEARCH_PATH") {
			if empty {
				return "DB_SEARCH_PATH"
			}
			n++
			continue
		}
		if s, ok := e.T.isConstString(); ok && s == "public" && empty {
			continue
		}
		return "DB_SEARCH_PATH, or public when it is empty"
	}
	if n == 0 {
		return "DB_SEARCH_PATH"
	}
	return ""
}

func checkP17(w *World, r *Report) {
	for _, path := range examineCmds {
		c := w.Cmds[path]
		if c == nil {
			r.missing("command %q", path)
			continue
		}
		cats := map[string]*catalog{}
		for _, o := range w.opsOf(c) {
			if o.Kind != "select" {
				continue
			}
			k := w.parseCatalog(r, o)
			if k == nil {
				continue
			}
			r.count("catalog queries", 1)
			bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Ev.In.Pos()), c.Path, f, args...) }
			if k.schema != nil {
				v, _, txt, ok := w.boundTo(k, k.schema, k.schAt)
				if !ok {
					bad("what restricts the catalog query to a schema is unknown")
				} else if want := w.schemaOK(c, v, txt); want != "" {
					bad("the catalog query asks about a schema other than %s", want)
				}
			}
			if k.tables != nil {
				v, rep, _, ok := w.boundTo(k, k.tables, k.tabAt)
				if !ok {
					bad("what restricts the catalog query to tables is unknown")
				} else if why := w.allTables(v, rep); why != "" {
					bad("the catalog query: %s", why)
				}
			}
			if o.Chan == "sql" && strings.Contains(c.Path, "postgres") && len(k.st.mark) > 0 && !w.rebound(o.SQL) {
				if o.Tm[0].String() != "" && strings.Contains(o.Tm[0].String(), "?") {
					bad("the placeholders of the catalog query are not those of PostgreSQL")
				}
			}
			cats[k.kind] = k
		}
		for _, kind := range []string{"columns", "indexes"} {
			if cats[kind] == nil {
				r.missing("the catalog query for %s of %q", kind, path)
			}
		}
		if cats["columns"] != nil {
			w.checkSchemas(c, r, cats["columns"])
		}
		if cats["indexes"] != nil {
			w.checkIndexRows(c, r, cats["indexes"])
		}
	}
}

// allTables: the list of tables is handed over whole.
func (w *World) allTables(v *Term, rep *TRep) string {
	a := w.A
	if rep != nil {
		if len(rep.Loops) != 1 || len(rep.Conds) > 0 || rep.Part {
			return "some tables may be left out"
		}
		b := rep.Body
		if len(b) != 3 || b[0].Lit != "'" || b[2].Lit != "'" || b[1].Hole == nil {
			return "the tables are not listed as texts"
		}
		if x := a.val(b[1].Hole); x == nil || x.Op != "elem" || x.Loop != rep.Loops[0] && rep.Loops[0].L != nil {
			return "the listed names are not the tables' names"
		}
		if s := strings.TrimSpace(rep.Sep); s != "," {
			return "the tables are not separated by commas"
		}
		return ""
	}
	for _, x := range a.values(v) {
		if x.Op == "slice" && (x.Args[1].Op != "none" || x.Args[2].Op != "none") {
			return "only some of the tables are asked for"
		}
	}
	return ""
}

// rowCol: the meaning of a value read from a row of a catalog query, and the pass over the rows it belongs to.
func (w *World) rowCol(k *catalog, t *Term, depth int) (string, *LoopCtx) {
	a := w.A
	if depth > 12 {
		return "", nil
	}
	meaning, loop := "", (*LoopCtx)(nil)
	for _, x := range a.values(t) {
		if els, ok := a.elements(x); ok && len(els) == 0 && x.Op == "slice" {
			continue // not filled yet
		}
		m, l := w.rowCol1(k, x, depth)
		if m == "" || meaning != "" && m != meaning {
			return "", nil
		}
		meaning, loop = m, l
	}
	return meaning, loop
}

func (w *World) rowCol1(k *catalog, x *Term, depth int) (string, *LoopCtx) {
	a := w.A
	switch x.Op {
	case "out":
		if x.S == "pqarray" && len(x.Args) > 0 {
			return w.rowCol(k, x.Args[len(x.Args)-1], depth+1)
		}
	case "index":
		// Hasura's rows
		n, ok := x.Args[1].isConstInt()
		el := a.val(x.Args[0])
		if ok && el != nil && el.Op == "elem" && w.isHasuraRows(k, el.Args[0]) && int(n) < len(k.order) {
			return k.order[n], el.Loop
		}
	case "field":
		el := a.val(x.Args[0])
		if el == nil || el.Op != "elem" {
			return "", nil
		}
		if rows, st := w.isRows(k, el.Args[0]); rows {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == x.S {
					name := reflectTag(st.Tag(i), "db")
					if name == "" {
						name = strings.ToLower(x.S)
					}
					return k.cols[strings.ToLower(name)], el.Loop
				}
			}
			return "", nil
		}
		// a list made of the rows
		s := a.seqOf(el.Args[0])
		if len(s.Items) != 1 || s.Items[0].Splat {
			return "", nil
		}
		it := s.Items[0]
		m, l := w.rowCol(k, a.field(it.Body, x.S), depth+1)
		if m == "" || !w.wholePass(k, it, l) {
			return "", nil
		}
		return m, l
	}
	return "", nil
}

func (w *World) isRows(k *catalog, coll *Term) (bool, *types.Struct) {
	for _, x := range w.A.values(coll) {
		hit := false
		if x.Op == "out" && x.S == "rows" {
			hit = len(x.Args) > 0 && w.sameCall(x.Args, k)
		}
		if !hit {
			return false, nil
		}
	}
	t := coll.T
	for _, x := range append([]*Term{coll}, w.A.values(coll)...) {
		if x.T != nil {
			t = x.T
		}
		if t == nil {
			continue
		}
		u := t.Underlying()
		if p, ok := u.(*types.Pointer); ok {
			u = p.Elem().Underlying()
		}
		if sl, ok := u.(*types.Slice); ok {
			if st := structOf(sl.Elem()); st != nil {
				return true, st
			}
		}
	}
	return false, nil
}

// sameCall: the value was filled by the catalog query's own call.
func (w *World) sameCall(args []*Term, k *catalog) bool {
	for _, x := range args {
		if x == k.op.Ev.Call {
			return true
		}
	}
	return false
}

func (w *World) isHasuraRows(k *catalog, coll *Term) bool {
	n := 0
	for _, x := range w.A.values(coll) {
		if x.Op == "slice" && w.tail(k, x) {
			if y := w.A.val(x.Args[0]); y != nil {
				x = y
			}
		}
		if x.Op != "field" || x.S != "Result" {
			return false
		}
		ok := false
		w.A.reach(x.Args[0], func(y *Term) bool {
			if y == k.op.Ev.Call {
				ok = true
			}
			return !ok
		})
		if !ok {
			return false
		}
		n++
	}
	return n > 0
}

// tail: everything but Hasura's row of column names.
func (w *World) tail(k *catalog, x *Term) bool {
	if k.op.Chan == "sql" || x == nil || x.Op != "slice" || x.Args[2].Op != "none" {
		return false
	}
	n, ok := x.Args[1].isConstInt()
	return ok && n == 1
}

// firstRow: the condition only leaves out Hasura's row of column names.
func (w *World) firstRow(k *catalog, cd Cond) bool {
	if k.op.Chan == "sql" {
		return false
	}
	for _, f := range w.A.condFacts([]Cond{cd}) {
		if w.notFirst(f) {
			return true
		}
	}
	return false
}

func (w *World) notFirst(f Fact) bool {
	t := f.T
	if t.Op != "binop" {
		return false
	}
	x, y, op := t.Args[0], t.Args[1], t.S
	if x.Op == "const" {
		x, y = y, x
		op = swapOpS(op)
	}
	if x.Op != "rangeidx" {
		return false
	}
	n, ok := y.isConstInt()
	if !ok {
		return false
	}
	if !f.True {
		op = negOpS(op)
	}
	return n == 0 && (op == "!=" || op == ">") || n == 1 && op == ">="
}

// wholePass: the item is made once for every row.
func (w *World) wholePass(k *catalog, it *SeqItem, l *LoopCtx) bool {
	a := w.A
	loops, conds := it.Loops, it.Conds
	if it.At != nil && it.Fr != nil {
		ch := a.execChain(it.At, it.Fr, it.Fr, it.Fr.Fn.Blocks[0])
		if len(ch.Loops) >= len(loops) {
			loops, conds = ch.Loops, ch.Conds
		}
	}
	if len(loops) != 1 || loops[0].Part || it.Part || it.Uniq || it.Rev {
		return false
	}
	if l != nil && loops[0] != l {
		return false
	}
	if lp := loops[0]; lp.L != nil && lp.L.Kind != "slice" {
		if !(lp.L.Kind == "slice-tail" && k.op.Chan != "sql") {
			return false
		}
	}
	lead := k.op.Chan == "sql" || !w.isHasuraRows(k, loops[0].Coll) || w.tail(k, w.A.val(loops[0].Coll))
	for _, cd := range conds {
		if w.nonEmpty(cd, loops[0].Coll) {
			continue
		}
		if !w.firstRow(k, cd) {
			return false
		}
		lead = true
	}
	return lead
}

// nonEmpty: the condition holds whenever the collection has something to offer.
func (w *World) nonEmpty(cd Cond, coll *Term) bool {
	if cd.T == nil || cd.Complex || coll == nil {
		return false
	}
	v := w.A.val(coll)
	empty, ok := w.emptyTest(cd.T, func(x *Term) bool {
		y := w.A.val(x)
		return x == coll || v != nil && (y == v || v.Op == "slice" && y == w.A.val(v.Args[0]))
	})
	return ok && empty != cd.True
}

// pkTest: the condition holds exactly for columns of the primary key.
func (w *World) pkTest(k *catalog, cd Cond) bool {
	if cd.T == nil || cd.Complex {
		return false
	}
	return w.pkTerm(k, cd.T, cd.True, 0)
}

func (w *World) pkTerm(k *catalog, t *Term, pol bool, depth int) bool {
	a := w.A
	if depth > 10 {
		return false
	}
	if m, _ := w.rowCol(k, t, 0); m == "pk" {
		return pol
	}
	vs := a.values(t)
	if len(vs) == 1 {
		t = vs[0]
	}
	switch t.Op {
	case "unop":
		return t.S == "!" && w.pkTerm(k, t.Args[0], !pol, depth+1)
	case "binop":
		x, y, op := t.Args[0], t.Args[1], t.S
		if x.Op == "const" {
			x, y = y, x
		}
		m, _ := w.rowCol(k, x, 0)
		s, ok := y.isConstString()
		if !ok || op != "==" && op != "!=" {
			return false
		}
		return (m == "key" && s == "PRI" || m == "pk" && s == "t" && k.op.Chan != "sql") && (op == "==") == pol
	case "field":
		// a member of a list made of the rows
		el := a.val(t.Args[0])
		if el == nil || el.Op != "elem" {
			break
		}
		s := a.seqOf(el.Args[0])
		if len(s.Items) != 1 || s.Items[0].Splat {
			return false
		}
		return w.pkTerm(k, a.field(s.Items[0].Body, t.S), pol, depth+1)
	}
	// chosen by branches
	edges := a.edges(t)
	if len(edges) == 1 && edges[0].T != t {
		return w.pkTerm(k, edges[0].T, pol, depth+1)
	}
	if len(edges) < 2 {
		return false
	}
	for _, e := range edges {
		b, ok := e.T.isConstBool()
		if !ok || e.Fr == nil {
			return false
		}
		good := false
		fs := a.edgeFacts(e, e.Fr)
		for _, f := range fs {
			if w.pkTerm(k, f.T, f.True == (b == pol), depth+1) {
				good = true
			}
		}
		if !good {
			return false
		}
	}
	return true
}

func (w *World) checkSchemas(c *Command, r *Report, k *catalog) {
	a := w.A
	objs := w.objsOf(c, modPath+"/database/dservice/dparser.TableSchema")
	if len(objs) == 0 {
		r.missing("the table schemas of %q", c.Path)
	}
	for _, o := range objs {
		bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Val.Pos()), c.Path, f, args...) }
		r.count("schemas", 1)
		if m, _ := w.rowCol(k, a.field(o, "Name"), 0); m != "table" {
			bad("the name of a table's schema is not the table name of its row")
		}
		// lists
		list := func(f string, pk bool, name func(*Term) *Term) {
			s := a.seqOf(a.field(o, f))
			if len(s.Items) != 1 || s.Items[0].Splat {
				bad("the %s of a table are not made row by row", strings.ToLower(f))
				return
			}
			it := s.Items[0]
			m, l := w.rowCol(k, name(it.Body), 0)
			if m != "column" {
				bad("the %s of a table are not the column names of its rows", strings.ToLower(f))
				return
			}
			n := *it
			if it.At == nil || it.Fr == nil {
				bad("the %s of a table are not made row by row", strings.ToLower(f))
				return
			}
			ch := a.execChain(it.At, it.Fr, it.Fr, it.Fr.Fn.Blocks[0])
			n.Loops, n.Conds, n.At = ch.Loops, ch.Conds, nil
			if pk {
				var rest []Cond
				found := false
				for _, cd := range n.Conds {
					if w.pkTest(k, cd) {
						found = true
						continue
					}
					rest = append(rest, cd)
				}
				if !found {
					bad("the primary key of a table is not made of exactly the columns marked so")
				}
				n.Conds = rest
			}
			if !w.wholePass(k, &n, w.passOf(l, n.Loops)) {
				bad("the %s of a table may lack a row", strings.ToLower(f))
			}
		}
		list("Columns", false, func(b *Term) *Term { return a.field(b, "Name") })
		list("PrimaryKeys", true, func(b *Term) *Term { return b })
	}
	// schemas are filed under their names
	for m, fs := range a.heap {
		if m.Op != "makemap" || m.Fr == nil || rootOf(m.Fr) != c.Run {
			continue
		}
		for _, s := range fs["[]"] {
			for _, o := range objs {
				if a.val(s.Val) != o || s.Key == nil {
					continue
				}
				if x, _ := w.rowCol(k, s.Key, 0); x != "table" {
					r.failAt(w.P.pos(s.In.Pos()), c.Path, "a table's schema is filed under something other than the table's name")
				}
				r.count("schemas filed", 1)
			}
		}
	}
}

// passOf: rows converted first are passed over again; the second pass counts.
func (w *World) passOf(l *LoopCtx, loops []*LoopCtx) *LoopCtx {
	if len(loops) == 1 {
		return loops[0]
	}
	return l
}

func (w *World) checkIndexRows(c *Command, r *Report, k *catalog) {
	a := w.A
	n := 0
	for _, o := range w.objsOf(c, modPath+"/database/dmodel.IndexTarget") {
		tab := a.field(o, "TableName")
		if !w.fromOp(tab, k) {
			continue
		}
		n++
		bad := func(f string, args ...any) { r.failAt(w.P.pos(o.Val.Pos()), c.Path, f, args...) }
		if m, _ := w.rowColIdx(k, tab); m != "table" {
			bad("the table of an existing index is not the table name of its row")
		}
		s := a.seqOf(a.field(o, "Columns"))
		if len(s.Items) != 1 || s.Items[0].Splat || len(s.Items[0].Loops) != 1 || len(s.Items[0].Conds) > 0 || s.Items[0].Part || s.Items[0].Uniq || s.Items[0].Rev || s.Items[0].Loops[0].Rev {
			bad("the columns of an existing index are not taken over one by one in order")
			continue
		}
		it := s.Items[0]
		name := a.val(a.field(it.Body, "Name"))
		lp := it.Loops[0]
		if name == nil || name.Op != "elem" || name.Loop != lp {
			bad("the columns of an existing index do not have the names of its columns")
			continue
		}
		w.indexColumns(c, r, k, lp.Coll, bad)
	}
	if n == 0 {
		r.missing("the existing indexes made from the catalog of %q", c.Path)
	}
	r.count("existing indexes traced", n)
}

func (w *World) fromOp(t *Term, k *catalog) bool {
	hit := false
	w.A.reach(t, func(y *Term) bool {
		if y == k.op.Ev.Call {
			hit = true
		}
		return !hit
	})
	return hit
}

// rowColIdx: like rowCol, for lists that gather several rows.
func (w *World) rowColIdx(k *catalog, t *Term) (string, *LoopCtx) {
	if m, l := w.rowCol(k, t, 0); m != "" {
		return m, l
	}
	a := w.A
	for _, x := range a.values(t) {
		if x.Op != "field" {
			return "", nil
		}
		el := a.val(x.Args[0])
		if el == nil || el.Op != "elem" {
			return "", nil
		}
		s := a.seqOf(el.Args[0])
		m := ""
		var lp *LoopCtx
		for _, it := range s.Items {
			if it.Splat {
				return "", nil
			}
			y, l := w.rowCol(k, a.field(it.Body, x.S), 0)
			if y == "" || m != "" && m != y {
				return "", nil
			}
			m, lp = y, l
		}
		return m, lp
	}
	return "", nil
}

// indexColumns: coll lists the columns of one index.
func (w *World) indexColumns(c *Command, r *Report, k *catalog, coll *Term, bad func(string, ...any)) {
	a := w.A
	if m, _ := w.rowCol(k, coll, 0); m == "columns" {
		return
	}
	if k.cols["column_name"] != "column" {
		bad("the columns of an existing index are not those of its row")
		return
	}
	// rows of one column each are gathered: coll is the Columns member of an element of a list made from the rows
	vs := a.values(coll)
	if len(vs) != 1 || vs[0].Op != "field" {
		bad("the columns of an existing index are not those of its rows")
		return
	}
	el := a.val(vs[0].Args[0])
	if el == nil || el.Op != "elem" {
		bad("the columns of an existing index are not those of its rows")
		return
	}
	s := a.seqOf(el.Args[0])
	if len(s.Items) != 1 || s.Items[0].Splat {
		bad("existing indexes are not made from the rows")
		return
	}
	it := s.Items[0]
	obj := a.val(it.Body)
	if obj == nil || obj.Op != "obj" {
		bad("existing indexes are not made from the rows")
		return
	}
	ch := a.execChain(it.At, it.Fr, it.Fr, it.Fr.Fn.Blocks[0])
	if len(ch.Loops) != 1 || ch.Loops[0].Part || ch.Loops[0].L == nil || ch.Loops[0].L.Kind != "slice" {
		bad("existing indexes are not made by one pass over the rows")
		return
	}
	lp := ch.Loops[0]
	if rows, _ := w.isRows(k, lp.Coll); !rows {
		bad("existing indexes are not made by one pass over the rows")
		return
	}
	fr := lp.Fr
	row := func(t *Term, m string) bool {
		x := a.val(t)
		if x == nil {
			return false
		}
		y, l := w.rowCol(k, x, 0)
		return y == m && l == lp
	}
	// blocks adding a column to an index, and what they add
	adds := map[*ssa.BasicBlock]bool{}
	addAt := map[*ssa.BasicBlock]ssa.Instruction{}
	starts := 0
	seen := map[ssa.Instruction]bool{}
	for _, fs := range a.heap {
		for _, s := range fs[vs[0].S] {
			if s.Zero || seen[s.In] || !isAncestor(fr, s.Fr) {
				continue
			}
			st, ok := s.In.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldNameOf(fa.X.Type(), fa.Field) != vs[0].S || !types.Identical(deptr(fa.X.Type()), deptr(obj.Val.Type())) {
				continue
			}
			seen[s.In] = true
			tgt := s.Fr.eval(fa.X)
			fresh := tgt == obj
			list := s.Fr.eval(st.Val)
			if call, ok := st.Val.(*ssa.Call); ok && s.Val.Op == "call" && s.Val.Callee == "append" {
				ld, ok := call.Call.Args[0].(*ssa.UnOp)
				var src *ssa.FieldAddr
				if ok {
					src, ok = ld.X.(*ssa.FieldAddr)
				}
				own := ok && src.Field == fa.Field && s.Fr.eval(src.X) == tgt
				none := false
				if els, k := a.elements(s.Val.Args[0]); k && len(els) == 0 {
					none = true
				}
				if !own && !(fresh && none) {
					bad("a column is not added at the end of an existing index")
					return
				}
				list = s.Val.Args[1]
			} else if !fresh {
				bad("the columns of an existing index are replaced")
				return
			}
			in := a.seqOf(list)
			if len(in.Items) == 0 && fresh && st.Val != nil && s.Val.Op != "call" {
				continue // an empty list to begin with
			}
			if len(in.Items) != 1 || in.Items[0].Splat || !row(in.Items[0].Body, "column") {
				bad("what is added to an existing index is not the column of the row")
				return
			}
			if s.Fr != fr {
				if ch := a.execChain(s.In, s.Fr, s.Fr, s.Fr.Fn.Blocks[0]); len(ch.Loops) > 0 || len(ch.Conds) > 0 {
					bad("a row of an index may be lost")
					return
				}
			}
			if fresh {
				starts++
				continue
			}
			var at ssa.Instruction = s.In
			for f := s.Fr; f != fr; f = f.Parent {
				at = f.Site
			}
			if adds[at.Block()] {
				bad("a row of an index may be used twice")
				return
			}
			adds[at.Block()] = true
			addAt[at.Block()] = at
		}
	}
	if starts > 1 || starts == 0 && len(adds) == 0 {
		bad("an existing index does not start with the column of its row")
		return
	}
	var at ssa.Instruction = it.At
	for f := it.Fr; f != fr && f != nil; f = f.Parent {
		at = f.Site
	}
	mk := at.Block()
	done, left, ok := a.turns(lp)
	if !ok || len(left) > 0 || len(done) == 0 {
		bad("the pass over the rows of indexes may end early")
		return
	}
	for _, o := range done {
		r.count("ways to treat a row of an index", 1)
		made, added := o.Seen[mk], false
		for b := range adds {
			added = added || o.Seen[b]
		}
		if !added && !(made && starts == 1) {
			bad("a row of an index may be lost")
			return
		}
		if made && added && starts == 1 {
			bad("a row of an index may be used twice")
			return
		}
		sameT, diffT := w.sameAsLast(o.Facts, lp, func(t *Term) bool { return row(t, "table") }, func(x *Term) string { m, _ := w.rowCol(k, x, 0); return m }, "table")
		sameI, diffI := w.sameAsLast(o.Facts, lp, func(t *Term) bool { return row(t, "index") }, func(x *Term) string { m, _ := w.rowCol(k, x, 0); return m }, "index")
		first := false
		for _, f := range o.Facts {
			if (f.T.Op == "binop") && (w.firstTurn(f) || w.noRowBefore(f, lp)) {
				first = true
			}
		}
		inMap, notIn := w.filedRow(o.Facts, func(key *Term) bool {
			t, i := false, false
			a.reach(key, func(y *Term) bool {
				switch m, _ := w.rowCol(k, y, 0); m {
				case "table":
					t = true
				case "index":
					i = true
				}
				return true
			})
			return t && i
		})
		if made && added {
			// made empty; the column follows
			for b := range adds {
				if o.Seen[b] && (b == mk && !precedes(at, addAt[b]) || b != mk && !blockReaches(mk, b, lp.L)) {
					bad("a column may be added to another index than its own")
					return
				}
			}
		}
		if added && !made && !(sameT && sameI) && !inMap {
			bad("a column may be added to another index than its own")
			return
		}
		if made && !diffT && !diffI && !first && !notIn {
			bad("the columns of one index may be taken for several indexes")
			return
		}
	}
}

func (w *World) noRowBefore(f Fact, lp *LoopCtx) bool {
	x, y := f.T.Args[0], f.T.Args[1]
	if x.Op == "nil" {
		x, y = y, x
	}
	return y.Op == "nil" && (f.T.S == "==") == f.True && (f.T.S == "==" || f.T.S == "!=") && w.rowBefore(x, lp) != nil
}

func (w *World) firstTurn(f Fact) bool {
	t := f.T
	x, y, op := t.Args[0], t.Args[1], t.S
	if x.Op == "const" {
		x, y = y, x
		op = swapOpS(op)
	}
	if !f.True {
		op = negOpS(op)
	}
	n, ok := y.isConstInt()
	if !ok {
		return false
	}
	isLen := x.Op == "call" && x.Callee == "len"
	return (x.Op == "rangeidx" || isLen) && (n == 0 && (op == "==" || op == "<=") || n == 1 && op == "<")
}

// rowBefore: a variable holding the row of the turn before (nothing on the first); returns the current row.
func (w *World) rowBefore(t *Term, lp *LoopCtx) *Term {
	if t.Op != "phi" || lp.L == nil {
		return nil
	}
	ph, ok := t.Val.(*ssa.Phi)
	if !ok || ph.Block() != lp.L.Header {
		return nil
	}
	var row *Term
	for i, e := range t.Args {
		if !lp.L.Blocks[ph.Block().Preds[i]] {
			if e.Op != "nil" && e.Op != "zero" {
				return nil
			}
			continue
		}
		e = w.A.peel(e)
		if e.Op != "elem" || e.Loop != lp || row != nil && row != e {
			return nil
		}
		row = e
	}
	return row
}

// filedRow: a lookup under a key made of the row's table and index names succeeded (or not).
func (w *World) filedRow(fs []Fact, key func(*Term) bool) (in, out bool) {
	for _, f := range fs {
		t := f.T
		if t.Op == "res" && t.Idx == 1 && t.Args[0].Op == "mapget" && key(t.Args[0].Args[1]) {
			if f.True {
				in = true
			} else {
				out = true
			}
		}
	}
	return
}

// sameAsLast: comparisons of the row's value with that of the row before.
func (w *World) sameAsLast(fs []Fact, lp *LoopCtx, cur func(*Term) bool, col func(*Term) string, what string) (same, diff bool) {
	a := w.A
	for _, f := range fs {
		t := f.T
		if t.Op != "binop" || t.S != "==" && t.S != "!=" {
			continue
		}
		x, y := t.Args[0], t.Args[1]
		if !cur(x) {
			x, y = y, x
		}
		if !cur(x) || y == x || cur(y) && y.Op != "phi" {
			continue
		}
		ok := false
		switch y.Op {
		case "phi":
			// a variable updated with every row
			ph := y.Val.(*ssa.Phi)
			if lp.L != nil && ph.Block() == lp.L.Header {
				ok = true
				for i, e := range y.Args {
					if !lp.L.Blocks[ph.Block().Preds[i]] {
						continue
					}
					if e == y {
						// unchanged, as it was equal
						if !w.knownSame(edge{e, y.Fr, ph.Block().Preds[i], ph.Block()}, y.Fr, t) {
							ok = false
						}
					} else if !w.keeps(e, y, cur, t, 0) {
						ok = false
					}
				}
			}
		case "field":
			// the row before, or the index made last
			if row := w.rowBefore(y.Args[0], lp); row != nil && cur(a.field(row, y.S)) {
				ok = true
				break
			}
			b := a.val(y.Args[0])
			if b != nil && b.Op == "index" && (y.S != "" && strings.Contains(strings.ToLower(y.S), what)) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		if (t.S == "==") == f.True {
			same = true
		} else {
			diff = true
		}
	}
	return
}

func (w *World) knownSame(e edge, fr *Frame, test *Term) bool {
	for _, f := range w.A.edgeFacts(e, fr) {
		if f.T == test && f.True == (test.S == "==") {
			return true
		}
	}
	return false
}

// keeps: after a turn the variable holds the row's value (or is unchanged because it was equal).
func (w *World) keeps(e, self *Term, cur func(*Term) bool, test *Term, depth int) bool {
	if depth > 6 {
		return false
	}
	if e == self {
		return false
	}
	if e.Op == "phi" {
		ph := e.Val.(*ssa.Phi)
		for i, x := range e.Args {
			if x == self {
				if !w.knownSame(edge{x, e.Fr, ph.Block().Preds[i], ph.Block()}, e.Fr, test) {
					return false
				}
				continue
			}
			if !w.keeps(x, self, cur, test, depth+1) {
				return false
			}
		}
		return true
	}
	return cur(e)
}

// precedes: within one block.
func precedes(x, y ssa.Instruction) bool {
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}
