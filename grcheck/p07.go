package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", "Every case of every type switch over the parsers' syntax trees in the functions that collect columns, tables and subqueries: each member of the case's type that can hold an expression, a table or a subquery (computed from the parser's type declarations) must on every way through the case be handed to a collector that dispatches on it, recorded as a column, or make the query refused; its result must be kept, in the role (condition or reference) of its clause.", checkP07)
}

const (
	astMy   = "github.com/pingcap/tidb/parser/ast"
	astPg   = "github.com/auxten/postgresql-parser/pkg/sql/sem/tree"
	dparser = "github.com/mrasu/GravityR/database/dservice/dparser"
)

// astLeaf: interfaces of the syntax trees under which columns, tables or subqueries are found.
var astLeaf = map[string]bool{
	astMy + ".ExprNode": true, astMy + ".ResultSetNode": true, astMy + ".FuncNode": true,
	astPg + ".Expr": true, astPg + ".TypedExpr": true, astPg + ".TableExpr": true, astPg + ".JoinCond": true, astPg + ".SelectStatement": true, astPg + ".Statement": true,
	astPg + ".Datum": true,
}

// astColumn: types that are a column themselves.
var astColumn = map[string]bool{
	astMy + ".ColumnName": true, astMy + ".ColumnNameExpr": true,
	astPg + ".UnresolvedName": true, astPg + ".ColumnItem": true, astPg + ".AllColumnsSelector": true,
}

// notInQuery: members that cannot hold a column of a SELECT the tool accepts, with the reason.
var notInQuery = map[string]string{
	astMy + ".ResultField":                     "filled by TiDB's planner, not by the parser",
	astMy + ".ColumnNameExpr.Refer":            "filled by TiDB's planner",
	astMy + ".PositionExpr.P":                  "parameter marker",
	astMy + ".TableName.TableSample":           "TiDB only",
	astMy + ".TableName.AsOf":                  "TiDB only",
	astMy + ".SelectStmt.LockInfo":             "names tables that are in FROM already",
	astMy + ".SelectStmt.TableHints":           "optimizer hints",
	astMy + ".SelectStmt.SelectIntoOpt":        "target of the result",
	astMy + ".SelectStmt.SelectStmtOpts":       "optimizer hints",
	astMy + ".SelectStmt.Lists":                "only with Kind VALUES, which is refused",
	astMy + ".SubqueryExpr.Query":              "subqueries of MySQL are ignored (known limitation, fixed by the existing tests)",
	astMy + ".WindowFuncExpr.Spec.Frame":       "literals only, by MySQL's grammar",
	astMy + ".TableNameExpr.Name":              "DDL only",
	astPg + ".From.AsOf":                       "CockroachDB only",
	astPg + ".SelectClause.From.AsOf":          "CockroachDB only",
	astPg + ".IndirectionExpr.Indirection":     "refused by the walker of the syntax tree",
	astPg + ".CommentOnColumn":                 "a statement",
	astPg + ".Order.Table":                     "CockroachDB only",
	astPg + ".AliasedTableExpr.IndexFlags":     "CockroachDB only",
	astPg + ".CTE.Name":                        "a name",
	astPg + ".CreateTable":                     "a statement",
	astPg + ".SetVar":                          "a statement",
	astPg + ".ColumnTableDef":                  "part of a statement",
	astPg + ".IndexTableDef":                   "part of a statement",
	astPg + ".FamilyTableDef":                  "part of a statement",
	astPg + ".UniqueConstraintTableDef":        "part of a statement",
	astPg + ".FuncExpr.Func":                   "a name",
	astPg + ".Placeholder":                     "a parameter",
	astPg + ".SelectClause.Window":             "refused by the collector",
	astPg + ".ParenSelect.Select":              "",
	astPg + ".Subquery.Select@pservice/parser": "",
}

func init() {
	delete(notInQuery, astPg+".ParenSelect.Select")
	delete(notInQuery, astPg+".Subquery.Select@pservice/parser")
}

// sc07 looks at the collectors.
type sc07 struct {
	w          *World
	r          *Report
	fns        []*ssa.Function
	inRepo     map[*ssa.Function]bool
	targets    map[ssa.CallInstruction][]*ssa.Function
	visits     map[string]bool // fn#param dispatches on the parameter
	covMemo    map[string]map[string]bool
	derMemo    map[string]*derived
	consMemo   map[string][]string
	noGather   int
	busy       map[string]bool
	makesCols  map[string]bool
	refuseMemo map[*ssa.Function]bool
}

func astPkg(t types.Type) bool {
	n := namedOf(t)
	return strings.HasPrefix(n, astMy+".") || strings.HasPrefix(n, astPg+".")
}

func isLeafType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if _, isI := n.Underlying().(*types.Interface); isI {
			return astLeaf[namedOf(n)]
		}
	}
	return false
}

// leaves lists the members below t that can hold an expression, table or subquery.
func leaves(t types.Type, owner string, depth int) []string {
	var res []string
	rootName := namedOf(t)
	seen := map[string]bool{}
	var rec func(t types.Type, path string, own string, depth int)
	rec = func(t types.Type, path, own string, depth int) {
		if isLeafType(t) {
			res = append(res, path)
			return
		}
		if n := namedOf(t); n != "" && path != "" {
			if _, skip := notInQuery[n]; skip {
				return
			}
			if astColumn[n] {
				res = append(res, path)
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				rec(u.Elem(), path, own, depth)
			}
		case *types.Slice:
			rec(u.Elem(), path+"[]", own, depth)
		case *types.Struct:
			n := namedOf(t)
			if n != "" && !astPkg(t) {
				return
			}
			if n != "" {
				if seen[n] || depth > 6 {
					return
				}
				seen[n] = true
				defer func() { seen[n] = false }()
			}
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() {
					continue
				}
				p := path + "." + f.Name()
				if _, skip := notInQuery[n+"."+f.Name()]; skip {
					continue
				}
				if _, skip := notInQuery[rootName+p]; skip {
					continue
				}
				rec(f.Type(), p, n, depth+1)
			}
		}
	}
	rec(t, "", owner, depth)
	sort.Strings(res)
	return res
}

// derived: values of a function that are members of one value.
type derived struct {
	of map[ssa.Value]map[string]bool
}

func (d *derived) add(v ssa.Value, p string) bool {
	if len(p) > 160 || strings.Count(p, ".") > 12 {
		return false
	}
	m := d.of[v]
	if m == nil {
		m = map[string]bool{}
		d.of[v] = m
	}
	if m[p] {
		return false
	}
	m[p] = true
	return true
}

func (d *derived) paths(v ssa.Value) []string {
	var res []string
	for p := range d.of[v] {
		res = append(res, p)
	}
	sort.Strings(res)
	return res
}

func (s *sc07) derive(fn *ssa.Function, root ssa.Value) *derived {
	key := fmt.Sprintf("%p/%p", fn, root)
	if d, ok := s.derMemo[key]; ok {
		return d
	}
	d := &derived{of: map[ssa.Value]map[string]bool{}}
	s.derMemo[key] = d
	work := []ssa.Value{root}
	d.add(root, "")
	push := func(v ssa.Value, p string) {
		if d.add(v, p) {
			work = append(work, v)
		}
	}
	ci := cfgOf(fn)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if v.Referrers() == nil {
			continue
		}
		for _, p := range d.paths(v) {
			for _, u := range *v.Referrers() {
				switch x := u.(type) {
				case *ssa.FieldAddr:
					push(x, p+"."+fieldNameOf(x.X.Type(), x.Field))
				case *ssa.Field:
					push(x, p+"."+fieldNameOf(x.X.Type(), x.Field))
				case *ssa.UnOp:
					if x.Op == token.MUL {
						push(x, p)
					}
				case *ssa.IndexAddr:
					if x.X == v {
						push(x, p+idxStep(ci, x.Block(), x.Index, x.X))
					}
				case *ssa.Index:
					if x.X == v {
						push(x, p+idxStep(ci, x.Block(), x.Index, x.X))
					}
				case *ssa.Slice:
					if x.X == v && x.Low == nil && x.High == nil {
						push(x, p)
					}
				case *ssa.MakeInterface:
					push(x, p)
				case *ssa.ChangeInterface:
					push(x, p)
				case *ssa.ChangeType:
					push(x, p)
				case *ssa.Convert:
					push(x, p)
				case *ssa.Phi:
					same := true
					for _, e := range x.Edges {
						if e != v && !d.of[e][p] {
							if c, ok := e.(*ssa.Const); !ok || !c.IsNil() {
								same = false
							}
						}
					}
					if same {
						push(x, p)
					}
				case *ssa.TypeAssert:
					if types.IsInterface(x.AssertedType) {
						if x.CommaOk {
							for _, e := range *x.Referrers() {
								if ex, ok := e.(*ssa.Extract); ok && ex.Index == 0 {
									push(ex, p)
								}
							}
						} else {
							push(x, p)
						}
					}
				case *ssa.Store:
					if x.Val != v {
						continue
					}
					switch a := x.Addr.(type) {
					case *ssa.Alloc:
						if oneStore(a) {
							push(a, p)
						}
					case *ssa.IndexAddr:
						// a list made of members
						if al, ok := a.X.(*ssa.Alloc); ok {
							if _, arr := deptr(al.Type()).Underlying().(*types.Array); arr {
								push(al, "{"+p)
							}
						}
					}
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) == 1 && x.Call.Args[0] == v && !isAppFn(f) && isString(x.Type()) {
						push(x, p+"."+f.Name()+"()")
					}
				}
			}
		}
	}
	return d
}

func oneStore(a *ssa.Alloc) bool {
	n := 0
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
			n++
		}
	}
	return n == 1
}

func idxStep(ci *cfgInfo, b *ssa.BasicBlock, idx, coll ssa.Value) string {
	if c, ok := idx.(*ssa.Const); ok && c.Value != nil {
		return "[" + c.Value.String() + "]"
	}
	for _, l := range ci.loopChain(b) {
		if l.Idx == idx && (l.Kind == "slice" || l.Kind == "slice-rev") {
			return "[]"
		}
	}
	return "[?]"
}

// listOf: the members put into a list literal.
func listPaths(ps []string) (elems []string, lit bool) {
	for _, p := range ps {
		if strings.HasPrefix(p, "{") {
			lit = true
			p = strings.TrimPrefix(p, "{")
			elems = append(elems, p)
		}
	}
	return
}

// norm: an element of a list made of members is the member.
func norm(p string) string {
	if strings.HasPrefix(p, "{") {
		q := strings.TrimPrefix(p, "{")
		if i := strings.Index(q, "[]"); i >= 0 && strings.HasSuffix(q, "[]") {
			return strings.TrimSuffix(q, "[]")
		}
		return p
	}
	return p
}

type cover struct {
	in   ssa.Instruction
	path string
	lit  bool
}

// covers lists the places where members of root are handed to collectors.
func (s *sc07) covers(fn *ssa.Function, root ssa.Value) []cover {
	d := s.derive(fn, root)
	var res []cover
	add := func(in ssa.Instruction, p string) {
		res = append(res, cover{in: in, path: norm(p)})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				for _, cv := range s.callCovers(d, x) {
					add(in, cv)
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && s.noGather == 0 {
					for _, cv := range s.gathered(fn, d, x, d.paths(x.Call.Args[1])) {
						add(in, cv)
					}
				}
			case *ssa.Slice:
				if s.noGather > 0 {
					continue
				}
				if _, ok := x.X.(*ssa.Alloc); ok {
					var ps []string
					for _, p := range d.paths(x) {
						if strings.HasPrefix(p, "{") {
							ps = append(ps, p)
						}
					}
					for _, cv := range s.gathered(fn, d, x, ps) {
						add(in, cv)
					}
				}
			case *ssa.MapUpdate:
				for _, p := range d.paths(x.Key) {
					if p != "" {
						add(in, p)
					}
				}
			case *ssa.TypeAssert:
				if !types.IsInterface(x.AssertedType) && astPkg(x.AssertedType) {
					for _, p := range d.paths(x.X) {
						if p != "" {
							add(in, p)
						}
					}
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if strings.HasPrefix(fieldKey(fa.X, fa.Field), dparser+".") {
					for _, p := range d.paths(x.Val) {
						add(in, columnPath(norm(p)))
					}
				}
			}
		}
	}
	return res
}

// columnPath: the column a name belongs to.
func columnPath(p string) string {
	for _, suf := range []string{".Normalize()", ".L", ".O", ".Name", ".Table", ".Parts[0]", ".Parts[1]", ".ColumnName", ".TableName"} {
		if strings.HasSuffix(p, suf) {
			return columnPath(strings.TrimSuffix(p, suf))
		}
	}
	return p
}

func (s *sc07) callees(x *ssa.Call) []*ssa.Function {
	if f := x.Call.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil && len(f.Blocks) == 0 {
			f = o
		}
		return []*ssa.Function{f}
	}
	return s.targets[x]
}

func (s *sc07) callCovers(d *derived, x *ssa.Call) []string {
	var res []string
	if x.Call.IsInvoke() {
		if x.Call.Method.Name() == "Accept" {
			res = append(res, d.paths(x.Call.Value)...)
		}
	}
	if _, ok := x.Call.Value.(*ssa.Builtin); ok {
		return nil
	}
	fs := s.callees(x)
	if len(fs) == 0 && !x.Call.IsInvoke() {
		// a function that is not known
		for _, a := range x.Call.Args {
			for _, p := range d.paths(a) {
				res = append(res, strings.TrimPrefix(p, "{"))
			}
		}
		return res
	}
	for _, f := range fs {
		off := 0
		if x.Call.IsInvoke() {
			off = 1
		}
		n := fnName(f)
		if strings.HasPrefix(n, "github.com/samber/lo.") && len(x.Call.Args) > 1 {
			ps := d.paths(x.Call.Args[0])
			for _, a := range x.Call.Args[1:] {
				cf := funcOf(a)
				if cf == nil || len(cf.Params) == 0 || len(ps) == 0 {
					continue
				}
				for _, sub := range s.sub(cf, 0) {
					for _, p := range ps {
						if strings.HasPrefix(p, "{") {
							res = append(res, strings.TrimPrefix(p, "{")+sub)
						} else {
							res = append(res, p+"[]"+sub)
						}
					}
				}
			}
			continue
		}
		if f.Name() == "Accept" && len(x.Call.Args) == 2 && !s.inRepo[f] {
			res = append(res, d.paths(x.Call.Args[0])...)
			continue
		}
		if !s.inRepo[f] {
			continue
		}
		for i, a := range x.Call.Args {
			for _, p := range d.paths(a) {
				p = norm(p)
				for _, sub := range s.sub(f, i+off) {
					if strings.HasPrefix(p, "{") {
						// members given as a list
						if strings.HasPrefix(sub, "[]") {
							res = append(res, strings.TrimPrefix(p, "{")+strings.TrimPrefix(sub, "[]"))
						}
						continue
					}
					res = append(res, p+sub)
					if sub == "" && astColumn[namedOf(a.Type())] {
						res = append(res, columnPath(p))
					}
				}
			}
		}
	}
	return res
}

// gathered: members put into a list that is handed to collectors later, whatever happens in between.
func (s *sc07) gathered(fn *ssa.Function, d *derived, list ssa.Value, ps []string) []string {
	sl, ok := list.Type().Underlying().(*types.Slice)
	if !ok || len(ps) == 0 {
		return nil
	}
	var res []string
	ls := s.consumed(fn, list, sl.Elem())
	for _, p := range ps {
		if strings.HasPrefix(p, "{") {
			p = strings.TrimPrefix(p, "{")
		} else {
			p += "[]"
		}
		for _, l := range ls {
			res = append(res, p+l)
		}
	}
	return res
}

// consumed: what is collected of the elements of a list that is being put together.
func (s *sc07) consumed(fn *ssa.Function, list ssa.Value, elem types.Type) []string {
	key := fmt.Sprintf("%p/%p", fn, list)
	if m, ok := s.consMemo[key]; ok {
		return m
	}
	s.consMemo[key] = nil
	var ls []string
	if types.IsInterface(elem) {
		ls = []string{""}
	} else {
		ls = leaves(elem, "", 0)
		if astColumn[namedOf(elem)] {
			ls = append(ls, "")
		}
	}
	if len(ls) == 0 {
		return nil
	}
	// the list as it grows
	grow := map[ssa.Value]bool{}
	work := []ssa.Value{list}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if grow[v] || v.Referrers() == nil {
			continue
		}
		grow[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				work = append(work, x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
					work = append(work, x)
				}
			}
		}
	}
	ci := cfgOf(fn)
	var res []string
	for _, l := range ls {
		ends := map[ssa.Instruction]bool{}
		for _, lp := range ci.loops {
			if lp.Coll == nil || !grow[lp.Coll] || lp.Kind != "slice" && lp.Kind != "slice-rev" || lp.Body == nil {
				continue
			}
			s.noGather++
			cs := s.covers(fn, lp.Coll)
			in := s.covered(fn, lp.Coll, lastInstr(lp.Header), cs, "[]"+l)
			s.noGather--
			if in == nil {
				ends[lastInstr(lp.Header)] = true
			}
		}
		for v := range grow {
			for _, u := range *v.Referrers() {
				x, ok := u.(*ssa.Call)
				if !ok {
					continue
				}
				for _, f := range s.callees(x) {
					for i, a := range x.Call.Args {
						if a != v || !s.inRepo[f] {
							continue
						}
						for _, sub := range s.sub(f, i) {
							if sub == "[]"+l {
								ends[x] = true
							}
						}
					}
				}
			}
		}
		if len(ends) > 0 && alwaysReaches(list, ends) {
			res = append(res, l)
		}
	}
	s.consMemo[key] = res
	return res
}

// alwaysReaches: every way on from where the value is made that ends without an error comes to one of the ends.
func alwaysReaches(v ssa.Value, ends map[ssa.Instruction]bool) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	ci := cfgOf(in.Parent())
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for i := from; i < len(b.Instrs); i++ {
			if ends[b.Instrs[i]] {
				return true
			}
		}
		if seen[b] {
			return true
		}
		if from == 0 {
			seen[b] = true
		}
		if ret, ok := lastInstr(b).(*ssa.Return); ok {
			return ci.retKind(ret) == retErr
		}
		for _, t := range b.Succs {
			if !walk(t, 0) {
				return false
			}
		}
		return true
	}
	return walk(in.Block(), instrIndex(in)+1)
}

// sub: the members of its parameter which the function hands to collectors on every way.
func (s *sc07) sub(f *ssa.Function, i int) []string {
	if i >= len(f.Params) {
		return nil
	}
	p := f.Params[i]
	key := fmt.Sprintf("%p#%d", f, i)
	if m, ok := s.covMemo[key]; ok {
		return keysOf(m)
	}
	if s.visits[key] {
		m := map[string]bool{"": true}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
			m = map[string]bool{"[]": true, "": true}
		}
		s.covMemo[key] = m
		return keysOf(m)
	}
	if s.busy[key] {
		return nil
	}
	s.busy[key] = true
	defer delete(s.busy, key)
	m := map[string]bool{}
	var ls []string
	if types.IsInterface(p.Type()) {
		ls = []string{""}
	} else {
		ls = leaves(p.Type(), "", 0)
		if astColumn[namedOf(p.Type())] {
			ls = append(ls, "")
		}
	}
	if len(ls) > 0 && len(f.Blocks) > 0 {
		cs := s.covers(f, p)
		for _, l := range ls {
			if s.covered(f, p, nil, cs, l) == nil {
				m[l] = true
			}
		}
	}
	s.covMemo[key] = m
	return keysOf(m)
}

func keysOf(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// prefixOf: q is p or one of the members leading to p.
func prefixOf(q, p string) bool {
	if q == p || q == "" {
		return true
	}
	return strings.HasPrefix(p, q) && (p[len(q)] == '.' || p[len(q)] == '[')
}

// refuses: the block makes an error or records the node as unknown.
func (s *sc07) refuses(b *ssa.BasicBlock, d *derived) ssa.Instruction {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				continue
			}
			if s.inRepo[f] && s.mustRefuse(f, 0) {
				return in
			}
			if res := f.Signature.Results(); res.Len() == 1 && (isErrorType(res.At(0).Type()) || implementsError(res.At(0).Type())) {
				if s.inRepo[f] && isErrorType(res.At(0).Type()) && !alwaysNonNilErr(f) {
					continue
				}
				n := fnName(f)
				if strings.HasSuffix(n, "errors.Wrap") || strings.HasSuffix(n, "errors.Wrapf") || strings.HasSuffix(n, "errors.WithStack") {
					continue
				}
				if !s.errorKept(x) {
					continue
				}
				return in
			}
		case *ssa.Panic:
			return in
		case *ssa.Store:
			// recorded in a list of unknown nodes
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok || d == nil {
				continue
			}
			_ = fa
			if call, ok := x.Val.(*ssa.Call); ok && grows(x.Val, x.Addr) && len(call.Call.Args) == 2 {
				if v := appendedValue(call.Call.Args[1]); v != nil && len(d.of[v]) > 0 {
					return in
				}
			}
		}
	}
	return nil
}

// mustRefuse: calling the function is to refuse the query; it records an error in any case.
func (s *sc07) mustRefuse(f *ssa.Function, depth int) bool {
	if v, ok := s.refuseMemo[f]; ok {
		return v
	}
	if depth > 3 || len(f.Blocks) == 0 {
		return false
	}
	if res := f.Signature.Results(); res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
		return false
	}
	s.refuseMemo[f] = false
	seen := map[*ssa.BasicBlock]bool{}
	reached := false
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || reached || s.refuses(b, nil) != nil {
			return
		}
		seen[b] = true
		if _, ok := lastInstr(b).(*ssa.Return); ok {
			reached = true
		}
		for _, t := range b.Succs {
			walk(t)
		}
	}
	walk(f.Blocks[0])
	s.refuseMemo[f] = !reached
	return !reached
}

// errorKept: the error made is used.
func (s *sc07) errorKept(x *ssa.Call) bool {
	return x.Referrers() != nil && len(*x.Referrers()) > 0
}

func implementsError(t types.Type) bool {
	it := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	return types.Implements(t, it)
}

// covered: every way from the start on hands the member to a collector or refuses. Otherwise the place where a way ends without.
func (s *sc07) covered(fn *ssa.Function, root ssa.Value, start ssa.Instruction, cs []cover, leaf string) ssa.Instruction {
	d := s.derive(fn, root)
	kill := map[ssa.Instruction]bool{}
	for _, c := range cs {
		if prefixOf(c.path, leaf) && (c.path != "" || leaf == "") {
			kill[c.in] = true
		}
	}
	return s.escape(fn, d, start, kill, nil, leaf)
}

// escape looks for a way on which nothing of kill happens.
func (s *sc07) escape(fn *ssa.Function, d *derived, start ssa.Instruction, kill map[ssa.Instruction]bool, asserts map[*ssa.TypeAssert]bool, leaf string) ssa.Instruction {
	ci := cfgOf(fn)
	var sb *ssa.BasicBlock
	if start == nil {
		sb = fn.Blocks[0]
	} else {
		sb = start.Block()
	}
	inner := map[*Loop]bool{}
	for _, l := range ci.loopChain(sb) {
		inner[l] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int, within *Loop) ssa.Instruction
	edge := func(b *ssa.BasicBlock, k int) bool { // may the edge be taken?
		iff, ok := lastInstr(b).(*ssa.If)
		if !ok {
			return true
		}
		c := stripNot(iff.Cond, k == 0)
		if v, nonNil, ok := nilTest(c.v); ok {
			isNil := nonNil != c.t
			for _, q := range d.paths(v) {
				q = norm(q)
				if prefixOf(q, leaf) {
					return !isNil
				}
			}
			if isErrorType(v.Type()) && !isNil {
				return false
			}
			if isNil && s.recordsIn(v, b.Succs[1-k], d) {
				return false
			}
		}
		if ex, ok := c.v.(*ssa.Extract); ok && ex.Index == 1 {
			if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
				if asserts[ta] {
					return !c.t
				}
				if root := assertRoot(d, ta); root {
					return c.t
				}
				if !types.IsInterface(ta.AssertedType) {
					for _, q := range d.paths(ta.X) {
						if prefixOf(norm(q), leaf) && norm(q) != "" {
							return !c.t // looked at as a case of its own
						}
					}
				}
			}
		}
		if bo, ok := c.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && asserts != nil {
			// the one type that can only be told by its name
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.String() == `"dNull"` {
					return (bo.Op == token.EQL) != c.t
				}
			}
		}
		return true
	}
	walk = func(b *ssa.BasicBlock, from int, within *Loop) ssa.Instruction {
		for i := from; i < len(b.Instrs); i++ {
			if kill[b.Instrs[i]] {
				return nil
			}
		}
		if from == 0 || true {
			if r := s.refuses(b, d); r != nil && instrIndex(r) >= from {
				return nil
			}
		}
		if seen[b] {
			return nil
		}
		seen[b] = true
		switch x := lastInstr(b).(type) {
		case *ssa.Return:
			if ci.retKind(x) == retErr {
				return nil
			}
			return x
		case *ssa.Panic:
			return nil
		}
		if callsNoReturn(b) {
			return nil
		}
		for k, t := range b.Succs {
			if !edge(b, k) {
				continue
			}
			// the turn of the loop around the case ends
			if l := loopAt(ci, t); l != nil && inner[l] && (within == nil || l != within) {
				return lastInstr(b)
			}
			if within != nil && !within.Blocks[t] {
				if ci.errOnly[t] || s.refuses(t, d) != nil {
					continue
				}
				return lastInstr(b)
			}
			if within != nil && t == within.Header {
				return lastInstr(b)
			}
			// a loop over the member itself
			if l := loopAt(ci, t); l != nil && !inner[l] && l.Coll != nil && l.Body != nil && t != b && !l.Blocks[b] {
				hit, lit := false, false
				for _, q := range d.paths(l.Coll) {
					if strings.HasPrefix(q, "{") {
						if e := strings.TrimPrefix(q, "{"); prefixOf(e, leaf) {
							hit, lit = true, true
						}
					} else if prefixOf(q+"[]", leaf) && (l.Kind == "slice" || l.Kind == "slice-rev") {
						hit = true
					}
				}
				_ = lit
				if hit {
					if in := s.turn(fn, d, l, kill, asserts, leaf, walk, seen); in != nil {
						return in
					}
					continue
				}
			}
			if in := walk(t, 0, within); in != nil {
				return in
			}
		}
		return nil
	}
	from := 0
	if start != nil {
		from = instrIndex(start) + 1
	}
	for _, l := range ci.loops {
		if start != nil && l.Header == sb && start == lastInstr(sb) {
			// the loop itself
			return s.turn(fn, d, l, kill, asserts, leaf, walk, seen)
		}
	}
	return walk(sb, from, nil)
}

// checkGathered: everything collected for a scope is put into it, but for what has no columns.
func (s *sc07) checkGathered(f *ssa.Function) {
	ci := cfgOf(f)
	for _, l := range ci.loops {
		if l.Coll == nil || !strings.HasPrefix(l.Kind, "slice") || !collected(l.Coll.Type()) || l.Body == nil {
			continue
		}
		d := s.derive(f, l.Coll)
		kill := map[ssa.Instruction]bool{}
		what := ""
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || namedOf(deptr(fa.X.Type())) != dparser+".StmtScope" || !grows(x.Val, x.Addr) {
						continue
					}
					if v := appendedValue(x.Val.(*ssa.Call).Call.Args[1]); v != nil && d.of[v]["[]"] {
						kill[in] = true
						what = fieldNameOf(fa.X.Type(), fa.Field)
					}
				}
			}
		}
		if len(kill) == 0 {
			continue
		}
		s.r.count("scope lists", 1)
		if in := s.escape(f, d, lastInstr(l.Header), kill, nil, "[].Columns[]"); in != nil {
			s.r.failAt(s.w.P.pos(lastInstr(l.Header).Pos()), fnName(f), "something collected may be left out of the scope's %s", what)
		}
	}
}

// recordsIn: the list is one of unknown nodes, made before.
func (s *sc07) recordsIn(v ssa.Value, b *ssa.BasicBlock, d *derived) bool {
	st, ok := s.refuses(b, d).(*ssa.Store)
	if !ok {
		return false
	}
	ld, ok := v.(*ssa.UnOp)
	return ok && samePlace(ld.X, st.Addr, 0)
}

// assertRoot: the assertion whose result is the value looked at.
func assertRoot(d *derived, ta *ssa.TypeAssert) bool {
	for _, u := range *ta.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == 0 && d.of[ex][""] {
			return true
		}
	}
	return false
}

func loopAt(ci *cfgInfo, b *ssa.BasicBlock) *Loop {
	for _, l := range ci.loops {
		if l.Header == b {
			return l
		}
	}
	return nil
}

// turn: every turn of a loop over the member hands the element on, and no turn ends the loop.
func (s *sc07) turn(fn *ssa.Function, d *derived, l *Loop, kill map[ssa.Instruction]bool, asserts map[*ssa.TypeAssert]bool, leaf string,
	walk func(*ssa.BasicBlock, int, *Loop) ssa.Instruction, seen map[*ssa.BasicBlock]bool) ssa.Instruction {
	if seen[l.Header] {
		return nil
	}
	ci := cfgOf(fn)
	if in := walk(l.Body, 0, l); in != nil {
		return in
	}
	for b := range l.Blocks {
		if b == l.Header {
			continue
		}
		for _, t := range b.Succs {
			if l.Blocks[t] || ci.errOnly[t] || s.refuses(t, d) != nil || s.refuses(b, d) != nil {
				continue
			}
			return lastInstr(b)
		}
		if ret, ok := lastInstr(b).(*ssa.Return); ok && ci.retKind(ret) != retErr && s.refuses(b, d) == nil {
			return ret
		}
	}
	return nil
}

func newSc07(w *World, r *Report) *sc07 {
	s := &sc07{w: w, r: r, inRepo: map[*ssa.Function]bool{}, targets: map[ssa.CallInstruction][]*ssa.Function{}, visits: map[string]bool{}, covMemo: map[string]map[string]bool{}, refuseMemo: map[*ssa.Function]bool{}, derMemo: map[string]*derived{}, busy: map[string]bool{}, consMemo: map[string][]string{}}
	for _, f := range w.appFuncs() {
		s.inRepo[f] = true
		s.fns = append(s.fns, f)
	}
	seenT := map[string]bool{}
	for _, fr := range w.A.Frames {
		if fr.Site == nil {
			continue
		}
		k := fmt.Sprintf("%p/%p", fr.Site, fr.Fn)
		if !seenT[k] {
			seenT[k] = true
			s.targets[fr.Site] = append(s.targets[fr.Site], fr.Fn)
		}
	}
	s.makesCols = map[string]bool{}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && namedOf(al.Type()) == dparser+".FieldColumn" {
					s.makesCols[pkgPathOf(f)] = true
				}
			}
		}
	}
	return s
}

func checkP07(w *World, r *Report) {
	s := newSc07(w, r)
	s.closureTargets()
	s.findVisitors()
	if len(s.visits) == 0 {
		r.missing("functions that dispatch on the type of a syntax tree's node")
		return
	}
	r.count("dispatching parameters", len(s.visits))
	for _, f := range s.fns {
		s.checkFn(f)
		s.checkRoles(f)
		s.checkGathered(f)
	}
}

// closureTargets resolves calls of local function variables.
func (s *sc07) closureTargets() {
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok || x.Call.IsInvoke() || x.Call.StaticCallee() != nil {
					continue
				}
				if g := closureOf(x.Call.Value, f); g != nil {
					has := false
					for _, t := range s.targets[x] {
						has = has || t == g
					}
					if !has {
						s.targets[x] = append(s.targets[x], g)
					}
				}
			}
		}
	}
}

// closureOf: the function a variable holds that is set once.
func closureOf(v ssa.Value, in *ssa.Function) *ssa.Function {
	if f := funcOf(v); f != nil {
		return f
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	switch a := ld.X.(type) {
	case *ssa.Alloc:
		var res *ssa.Function
		for _, u := range *a.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				if res != nil {
					return nil
				}
				res = funcOf(st.Val)
			}
		}
		return res
	case *ssa.FreeVar:
		p := in.Parent()
		if p == nil {
			return nil
		}
		for _, b := range p.Blocks {
			for _, i := range b.Instrs {
				mc, ok := i.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(in) {
					continue
				}
				for k, fv := range in.FreeVars {
					if fv == a && k < len(mc.Bindings) {
						al, ok := mc.Bindings[k].(*ssa.Alloc)
						if !ok {
							return nil
						}
						for _, u := range *al.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
								return funcOf(st.Val)
							}
						}
					}
				}
			}
		}
	}
	return nil
}

type tswitch struct {
	x       ssa.Value
	asserts []*ssa.TypeAssert
}

// dispatches: the type decides between several treatments.
func (t *tswitch) dispatches() bool {
	return len(t.asserts) >= 3 || len(t.asserts) == 2 && isLeafType(t.x.Type())
}

// switches: the dispatches on the type of a node in a function.
func switches(f *ssa.Function) []*tswitch {
	by := map[ssa.Value]*tswitch{}
	var res []*tswitch
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || types.IsInterface(ta.AssertedType) || !astCase(ta.AssertedType) {
				continue
			}
			t := by[ta.X]
			if t == nil {
				t = &tswitch{x: ta.X}
				by[ta.X] = t
				res = append(res, t)
			}
			t.asserts = append(t.asserts, ta)
		}
	}
	return res
}

func astCase(t types.Type) bool {
	n := namedOf(t)
	return astPkg(t) || strings.HasPrefix(n, "github.com/pingcap/tidb/")
}

// findVisitors: parameters whose node's type decides what is done.
func (s *sc07) findVisitors() {
	for _, f := range s.fns {
		for _, sw := range switches(f) {
			if !sw.dispatches() {
				continue
			}
			for i, p := range f.Params {
				d := s.derive(f, p)
				for _, q := range d.paths(sw.x) {
					if q == "" || q == "[]" {
						s.visits[fmt.Sprintf("%p#%d", f, i)] = true
					}
				}
			}
		}
	}
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (s *sc07) checkFn(f *ssa.Function) {
	for _, sw := range switches(f) {
		dispatch := sw.dispatches()
		outer, at := s.nestedIn(f, sw)
		nested := outer != nil
		asserts := map[*ssa.TypeAssert]bool{}
		for _, ta := range sw.asserts {
			asserts[ta] = true
			s.checkCase(f, ta, dispatch || nested, nested)
		}
		if dispatch || nested {
			s.checkDefault(f, sw, asserts, outer, at)
		}
	}
	// nodes got from helpers
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				s.checkKept(f, x)
				if astPkg(x.Type()) && s.isNode(x.Type()) && !isOwn(x) {
					s.checkRoot(f, x, x, x.Type(), false)
				}
			case *ssa.Extract:
				if call, ok := x.Tuple.(*ssa.Call); ok && astPkg(x.Type()) && s.isNode(x.Type()) {
					s.checkRoot(f, x, call, x.Type(), false)
				}
			}
		}
	}
}

func isOwn(x *ssa.Call) bool {
	f := x.Call.StaticCallee()
	return f == nil || !isAppFn(f)
}

func (s *sc07) isNode(t types.Type) bool {
	_, ok := deptr(t).Underlying().(*types.Struct)
	return ok
}

// nestedIn: the node whose type is asked for is a member of a node looked at here.
func (s *sc07) nestedIn(f *ssa.Function, sw *tswitch) (ssa.Value, string) {
	for _, o := range switches(f) {
		for _, ta := range o.asserts {
			if o == sw {
				continue
			}
			v := asserted(ta)
			if v == nil {
				continue
			}
			for _, p := range s.derive(f, v).paths(sw.x) {
				if p == "" {
					continue
				}
				// in a function handing something on
				for _, c := range s.covers(f, v) {
					if _, isTA := c.in.(*ssa.TypeAssert); !isTA {
						return v, p
					}
				}
			}
		}
	}
	return nil, ""
}

func asserted(ta *ssa.TypeAssert) ssa.Value {
	if !ta.CommaOk {
		return ta
	}
	for _, u := range *ta.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == 0 {
			return ex
		}
	}
	return nil
}

func (s *sc07) checkCase(f *ssa.Function, ta *ssa.TypeAssert, dispatch, nested bool) {
	n := namedOf(ta.AssertedType)
	if n == astPg+".Subquery" && namedOf(ta.X.Type()) == astPg+".TableExpr" && !nested {
		return // the grammar wraps every subquery of FROM in an AliasedTableExpr
	}
	if _, skip := notInQuery[n]; skip {
		return
	}
	v := asserted(ta)
	if v == nil {
		// nothing of the node is used: a value for the same bookkeeping
		v = ta
	}
	s.checkRoot(f, v, ta, ta.AssertedType, dispatch && n != astMy+".SelectStmt" && n != astPg+".Select")
}

func (s *sc07) checkRoot(f *ssa.Function, v ssa.Value, start ssa.Instruction, t types.Type, always bool) {
	ls := s.leavesIn(f, t)
	if len(ls) == 0 {
		return
	}
	if _, sl := t.Underlying().(*types.Slice); sl && !always {
		return
	}
	cs := s.covers(f, v)
	if !always {
		any := false
		for _, c := range cs {
			if _, isTA := c.in.(*ssa.TypeAssert); !isTA && c.path != "" && (inLeaves(c.path, ls)) {
				any = true
			}
		}
		if !any {
			return
		}
	}
	for _, l := range ls {
		s.r.count("members", 1)
		if in := s.covered(f, v, start, cs, l); in != nil {
			pos := start.Pos()
			if !pos.IsValid() {
				pos = in.Pos()
			}
			s.r.failAt(s.w.P.pos(pos), fnName(f), "%s%s may be left out when columns, tables and subqueries are collected", typeShort(deptr(t)), l)
		}
	}
}

// leavesIn: the members which the function is to hand on.
func (s *sc07) leavesIn(f *ssa.Function, t types.Type) []string {
	if !s.makesCols[pkgPathOf(f)] {
		old := astColumn
		astColumn = nil
		defer func() { astColumn = old }()
		return leaves(t, "", 0)
	}
	if astColumn[namedOf(t)] {
		return []string{""}
	}
	return leaves(t, "", 0)
}

func inLeaves(p string, ls []string) bool {
	for _, l := range ls {
		if prefixOf(p, l) {
			return true
		}
	}
	return false
}

// checkDefault: nodes of any other type make the query refused.
func (s *sc07) checkDefault(f *ssa.Function, sw *tswitch, asserts map[*ssa.TypeAssert]bool, outer ssa.Value, at string) {
	it, ok := sw.x.Type().(*types.Named)
	if ok {
		if iface, ok := it.Underlying().(*types.Interface); ok && iface.NumMethods() > 0 && it.Obj().Pkg() != nil {
			all := closedIn(iface)
			for _, t := range implementersIn(it, iface) {
				has := false
				for ta := range asserts {
					if types.Identical(ta.AssertedType, t) {
						has = true
					}
				}
				all = all && has
			}
			if all {
				return
			}
		}
	}
	root := sw.x
	if outer != nil {
		root = outer
	}
	d := s.derive(f, root)
	kill := map[ssa.Instruction]bool{}
	for _, c := range s.covers(f, root) {
		if _, isTA := c.in.(*ssa.TypeAssert); !isTA && prefixOf(c.path, at) && (c.path != "" || at == "") {
			kill[c.in] = true
		}
	}
	first := sw.asserts[0]
	for _, ta := range sw.asserts {
		if instrDominates(ta, first) {
			first = ta
		}
	}
	s.r.count("dispatches", 1)
	if in := s.escape(f, d, beforeOf(first), kill, asserts, at); in != nil {
		s.r.failAt(s.w.P.pos(first.Pos()), fnName(f), "a node of a type not listed is passed over instead of making the query refused")
	}
}

func beforeOf(in ssa.Instruction) ssa.Instruction {
	return in
}

// closedIn: types of other packages cannot have the method set.
func closedIn(iface *types.Interface) bool {
	for i := 0; i < iface.NumMethods(); i++ {
		if !iface.Method(i).Exported() {
			return true
		}
	}
	return false
}

func implementersIn(it *types.Named, iface *types.Interface) []types.Type {
	var res []types.Type
	sc := it.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), iface) {
			res = append(res, tn.Type())
		} else if p := types.NewPointer(tn.Type()); types.Implements(p, iface) {
			res = append(res, p)
		}
	}
	return res
}

// checkKept: what a collector found is kept, and collected in the role of its clause.
func (s *sc07) checkKept(f *ssa.Function, x *ssa.Call) {
	visiting := false
	for _, g := range s.callees(x) {
		if !s.inRepo[g] {
			continue
		}
		for i := range g.Params {
			if a := i; a < len(x.Call.Args) && astArg(x.Call.Args[a].Type()) && len(s.sub(g, i)) > 0 {
				visiting = true
			}
		}
	}
	if !visiting || !s.collects(f) {
		return
	}
	res := x.Call.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		if !collected(res.At(i).Type()) {
			continue
		}
		s.r.count("results", 1)
		var v ssa.Value = x
		if res.Len() > 1 {
			v = nil
			for _, u := range *x.Referrers() {
				if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
					v = ex
				}
			}
		}
		if v == nil || !flowsOn(v, map[ssa.Value]bool{}) {
			s.r.failAt(s.w.P.pos(x.Pos()), fnName(f), "what was collected is dropped")
		}
	}
}

// collects: the function gathers columns or tables.
func (s *sc07) collects(f *ssa.Function) bool {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if collected(res.At(i).Type()) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && strings.HasPrefix(namedOf(al.Type()), dparser+".") {
				return true
			}
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && strings.HasPrefix(fieldKey(fa.X, fa.Field), dparser+".") {
					return true
				}
			}
		}
	}
	return false
}

func astArg(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return astPkg(sl.Elem()) || astPkg(t)
	}
	return astPkg(t)
}

// collected: lists (or single ones) of what collectors make.
func collected(t types.Type) bool {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	return strings.HasPrefix(namedOf(t), dparser+".") && !types.IsInterface(t)
}

// flowsOn: the value is returned, stored in an object or given to another function.
func flowsOn(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] || v.Referrers() == nil {
		return false
	}
	seen[v] = true
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.Return:
			return true
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				if flowsOn(a, seen) {
					return true
				}
			case *ssa.IndexAddr:
				if flowsOn(a.X, seen) {
					return true
				}
			default:
				return true
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && flowsOn(x, seen) {
					return true
				}
				continue
			}
			return true
		case *ssa.MapUpdate, *ssa.MakeClosure, *ssa.Send:
			return true
		case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Phi, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeType, *ssa.UnOp, *ssa.Convert, *ssa.Extract, *ssa.Range, *ssa.Next:
			if flowsOn(x.(ssa.Value), seen) {
				return true
			}
		}
	}
	return false
}

type root07 struct {
	v      ssa.Value
	t      types.Type
	nested bool
}

// rootsOf: the nodes a function looks at.
func (s *sc07) rootsOf(f *ssa.Function) []root07 {
	var res []root07
	for _, p := range f.Params {
		if astArg(p.Type()) {
			res = append(res, root07{v: p, t: p.Type()})
		}
	}
	for _, sw := range switches(f) {
		outer, _ := s.nestedIn(f, sw)
		for _, ta := range sw.asserts {
			if v := asserted(ta); v != nil {
				res = append(res, root07{v, ta.AssertedType, outer != nil})
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && astPkg(v.Type()) {
				switch x := in.(type) {
				case *ssa.Call:
					res = append(res, root07{v: v, t: v.Type()})
				case *ssa.Extract:
					if _, ok := x.Tuple.(*ssa.Call); ok {
						res = append(res, root07{v: v, t: v.Type()})
					}
				}
			}
		}
	}
	return res
}

type origin07 struct {
	root root07
	path string
}

func (o origin07) String() string {
	return typeShort(deptr(o.root.t)) + o.path
}

// originsOf: the members of nodes a value is.
func (s *sc07) originsOf(f *ssa.Function, roots []root07, v ssa.Value) []origin07 {
	var res []origin07
	for _, rt := range roots {
		for _, p := range s.derive(f, rt.v).paths(v) {
			if !strings.HasPrefix(p, "{") {
				res = append(res, origin07{rt, p})
			}
		}
	}
	return res
}

func isFieldType(t types.Type) bool {
	return namedOf(t) == dparser+".FieldType"
}

// role: condition or reference, when the value says so.
func (s *sc07) role(v ssa.Value) string {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return ""
	}
	n, ok := c.Type().(*types.Named)
	if !ok {
		return ""
	}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if k, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(k.Type(), c.Type()) && k.Val().String() == c.Value.String() {
			return nm
		}
	}
	return ""
}

// conditionClause: the member belongs to a clause deciding which rows are looked at.
func conditionClause(o origin07) bool {
	p := typeShort(deptr(o.root.t)) + o.path
	if nameList(o) {
		return true // of USING only
	}
	for _, c := range []string{"SelectStmt.Where", "SelectClause.Where", "Join.On", "OnCondition.Expr", "OnJoinCond.Expr", ".TableRefs.On", "Join.Using", ".TableRefs.Using", "UsingJoinCond.Cols"} {
		if i := strings.Index(p, c); i >= 0 {
			rest := p[i+len(c):]
			if rest == "" || rest[0] == '.' || rest[0] == '[' {
				return true
			}
		}
	}
	return false
}

// generalNode: from the node alone one cannot tell the clause.
func generalNode(o origin07) bool {
	switch namedOf(o.root.t) {
	case astMy + ".SelectStmt", astPg + ".SelectClause", astPg + ".Select", astMy + ".Join", astMy + ".OnCondition", astPg + ".OnJoinCond", astPg + ".UsingJoinCond", astPg + ".JoinTableExpr", astMy + ".TableRefsClause",
		astMy + ".GroupByClause", astMy + ".OrderByClause", astMy + ".HavingClause", astMy + ".Limit", astPg + ".Limit", astPg + ".GroupBy", astPg + ".OrderBy", astPg + ".RowsFromExpr", astPg + ".SelectExpr", astMy + ".SelectField", astMy + ".FieldList":
		return false
	}
	return true
}

func (s *sc07) checkRoles(f *ssa.Function) {
	if !s.makesCols[pkgPathOf(f)] {
		return
	}
	roots := s.rootsOf(f)
	if len(roots) == 0 {
		return
	}
	var own []ssa.Value
	for _, p := range f.Params {
		if isFieldType(p.Type()) {
			own = append(own, p)
		}
	}
	for _, fv := range f.FreeVars {
		if isFieldType(deptr(fv.Type())) {
			own = append(own, fv)
		}
	}
	isOwnRole := func(v ssa.Value) bool {
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			v = ld.X
			if al, ok := v.(*ssa.Alloc); ok && oneStore(al) {
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						v = st.Val
					}
				}
			}
		}
		for _, o := range own {
			if v == o {
				return true
			}
		}
		return false
	}
	judge := func(pos token.Pos, v ssa.Value, os []origin07, what string) {
		s.r.count("roles", 1)
		if len(own) > 0 {
			if !isOwnRole(v) {
				if c, ok := v.(*ssa.Const); ok && (s.role(c) == "FieldStar" || s.role(c) == "FieldSubquery") {
					return
				}
				if _, ok := v.(*ssa.Const); ok {
					s.r.failAt(s.w.P.pos(pos), fnName(f), "%s is collected in another role than the one asked for", what)
				}
			}
			return
		}
		role := s.role(v)
		if role == "" || len(os) == 0 {
			return
		}
		cond, general := false, true
		for _, o := range os {
			if conditionClause(o) {
				cond = true
			}
			if !generalNode(o) {
				general = false
			}
		}
		if general && !cond {
			return
		}
		if cond && role != "FieldCondition" {
			s.r.failAt(s.w.P.pos(pos), fnName(f), "%s is a condition but is collected as %s", what, role)
		}
		if !cond && role == "FieldCondition" {
			s.r.failAt(s.w.P.pos(pos), fnName(f), "%s is no condition but is collected as one", what)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				var ft ssa.Value
				var os []origin07
				for _, a := range x.Call.Args {
					if isFieldType(a.Type()) {
						ft = a
					} else {
						os = append(os, s.originsOf(f, roots, a)...)
					}
				}
				if ft != nil {
					what := "an expression"
					if len(os) > 0 {
						what = os[0].String()
					}
					judge(x.Pos(), ft, os, what)
				}
			case *ssa.Alloc:
				switch namedOf(x.Type()) {
				case dparser + ".FieldColumn":
					s.checkColumn(f, roots, x, judge)
				case dparser + ".Table":
					s.checkTable(f, roots, x)
				case dparser + ".Field":
					s.checkField(f, roots, x)
				}
			}
		}
	}
}

// storedIn: what is put into the members of an object made here.
func storedIn(x *ssa.Alloc) map[string]ssa.Value {
	res := map[string]ssa.Value{}
	for _, u := range *x.Referrers() {
		fa, ok := u.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		for _, u2 := range *fa.Referrers() {
			if st, ok := u2.(*ssa.Store); ok && st.Addr == ssa.Value(fa) {
				res[fieldNameOf(fa.X.Type(), fa.Field)] = st.Val
			}
		}
	}
	return res
}

func anySuffix(p string, sufs ...string) (string, bool) {
	for _, x := range sufs {
		if strings.HasSuffix(p, x) {
			return strings.TrimSuffix(p, x), true
		}
	}
	return "", false
}

func (s *sc07) checkColumn(f *ssa.Function, roots []root07, x *ssa.Alloc, judge func(token.Pos, ssa.Value, []origin07, string)) {
	st := storedIn(x)
	if len(st) == 0 {
		return
	}
	s.r.count("columns made", 1)
	name, table, typ := st["Name"], st["Table"], st["Type"]
	nos := s.originsOf(f, roots, name)
	tos := s.originsOf(f, roots, table)
	pos := x.Pos()
	bad := func(msg string, o origin07) {
		s.r.failAt(s.w.P.pos(pos), fnName(f), "%s (%s)", msg, o.String())
	}
	var bases []string
	for _, o := range nos {
		base, ok := anySuffix(o.path, ".Name.L", ".Parts[0]", ".ColumnName.Normalize()", ".ColumnName", ".ColName", ".Cols[].Normalize()", ".Cols[]")
		if !ok && (nameList(o) || namedOf(o.root.t) == astPg+".Name") {
			switch o.path {
			case "", ".Normalize()", "[]", "[].Normalize()":
				base, ok = "", true
			}
		}
		if !ok || o.root.nested && strings.HasSuffix(o.path, ".Parts[0]") {
			bad("a column is collected under something else than its name", o)
			return
		}
		bases = append(bases, fmt.Sprintf("%p%s", o.root.v, base))
	}
	for _, o := range tos {
		base, ok := anySuffix(o.path, ".Table.L", ".TableName.Parts[0]")
		if !ok && namedOf(o.root.t) == astPg+".UnresolvedName" {
			want := ".Parts[1]"
			if o.root.nested {
				want = ".Parts[0]"
			}
			base, ok = anySuffix(o.path, want)
		}
		if !ok {
			bad("a column is collected under something else than its table", o)
			return
		}
		if len(bases) > 0 && !o.root.nested {
			same := false
			for _, b := range bases {
				same = same || b == fmt.Sprintf("%p%s", o.root.v, base)
			}
			if !same {
				bad("name and table of a column are not of the same column", o)
				return
			}
		}
	}
	if len(nos) > 0 && len(tos) == 0 && !unqualified(nos) {
		if _, isC := table.(*ssa.Const); isC || table == nil {
			bad("the table a column is qualified with is left out", nos[0])
			return
		}
	}
	if len(nos) > 0 {
		if typ == nil {
			bad("a column is collected without its role", nos[0])
			return
		}
		if r := s.role(typ); r == "FieldStar" || r == "FieldSubquery" {
			bad("a column is collected as "+r, nos[0])
			return
		}
		judge(pos, typ, nos, nos[0].String())
	}
}

// unqualified: the columns have no table in the syntax.
func unqualified(os []origin07) bool {
	for _, o := range os {
		if !strings.Contains(o.path, ".Cols[]") && !nameList(o) && namedOf(o.root.t) != astPg+".Name" {
			return false
		}
	}
	return true
}

func (s *sc07) checkTable(f *ssa.Function, roots []root07, x *ssa.Alloc) {
	st := storedIn(x)
	if len(st) == 0 {
		return
	}
	s.r.count("tables made", 1)
	pos := s.w.P.pos(x.Pos())
	as := s.originsOf(f, roots, st["AsName"])
	if _, isC := st["AsName"].(*ssa.Const); st["AsName"] == nil || isC {
		s.r.failAt(pos, fnName(f), "a table is collected without its alias")
		return
	}
	for _, o := range as {
		if _, ok := anySuffix(o.path, ".AsName.L", ".As.Alias.Normalize()", ".As.Alias", ".Alias.Normalize()", ".Alias"); !ok {
			s.r.failAt(pos, fnName(f), "a table is collected under something else than its alias (%s)", o.String())
			return
		}
	}
	no := s.originsOf(f, roots, st["Name"])
	for _, o := range no {
		if _, ok := anySuffix(o.path, ".Name.L", ".Parts[0]", ".Table()", ".TableName.Normalize()", ".TableName", ".ObjectName.Normalize()"); !ok {
			s.r.failAt(pos, fnName(f), "a table is collected under something else than its name (%s)", o.String())
			return
		}
	}
	if len(no) == 0 && st["Name"] != nil {
		if _, isC := st["Name"].(*ssa.Const); isC {
			s.r.failAt(pos, fnName(f), "a table is collected without its name")
			return
		}
		// a subquery: may be LATERAL
		lo := s.originsOf(f, roots, st["IsLateral"])
		ok := false
		for _, o := range lo {
			if strings.HasSuffix(o.path, ".Lateral") {
				ok = true
			}
		}
		if _, isC := st["IsLateral"].(*ssa.Const); st["IsLateral"] == nil || isC || len(lo) > 0 && !ok {
			s.r.failAt(pos, fnName(f), "whether a subquery is LATERAL is lost")
		}
	}
}

func (s *sc07) checkField(f *ssa.Function, roots []root07, x *ssa.Alloc) {
	st := storedIn(x)
	if len(st) == 0 {
		return
	}
	pos := s.w.P.pos(x.Pos())
	as := s.originsOf(f, roots, st["AsName"])
	for _, o := range as {
		if _, ok := anySuffix(o.path, ".AsName.L", ".As", ".As.Normalize()"); !ok {
			s.r.failAt(pos, fnName(f), "an output column is named after something else than its alias (%s)", o.String())
			return
		}
	}
	// of the SELECT list
	sel := false
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				rec(e)
			}
		case *ssa.Call:
			for _, a := range y.Call.Args {
				for _, o := range s.originsOf(f, roots, a) {
					p := typeShort(deptr(o.root.t)) + o.path
					if strings.HasSuffix(p, "SelectField.Expr") || strings.HasSuffix(p, "SelectExpr.Expr") || strings.HasSuffix(p, ".Fields[].Expr") || strings.HasSuffix(p, ".Exprs[].Expr") && strings.HasPrefix(p, "tree.SelectClause") {
						sel = true
					}
				}
			}
		}
	}
	rec(st["Columns"])
	if sel {
		s.r.count("output columns", 1)
		if _, isC := st["AsName"].(*ssa.Const); st["AsName"] == nil || isC {
			s.r.failAt(pos, fnName(f), "the alias of an output column is lost")
		}
	}
}

// nameList: the columns of USING on their own.
func nameList(o origin07) bool {
	return namedOf(o.root.t) == astPg+".NameList"
}
