package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P08: queries with something the collectors do not model are refused.

func init() {
	register("P08", "For every construct the collectors do not model (set operations, VALUES, WINDOW and WITH clauses, NATURAL JOIN, other table sources, further qualifiers of names) every function looking at such a node is followed on all ways consistent with the construct being there, through its helpers: one of them must refuse the query on all of these ways, and a qualified name may be recorded only where the qualifier has been ruled out. Tables the catalog does not list and columns no table has must end in an error.", checkP08)
}

// given08: something assumed about a member of a node.
type given08 struct {
	path string // member of the root, compared by suffix of its names
	kind string // "true", "some" (not nil, not empty), "other" (a text equal to no other), "int", "const", "nottype", "nil"
	n    int64
	not  []string // types it does not have
}

type env08 struct {
	s      *sc08
	fn     *ssa.Function
	d      *derived
	bind   map[ssa.Value]string // paths of parameters and roots
	consts map[ssa.Value]constant.Value
	oks    map[*ssa.TypeAssert]bool
	nonnil map[ssa.Value]bool
	given  []given08
	depth  int
	stop   ssa.Instruction // not to be reached without refusing, when set
}

type sc08 struct {
	*sc07
}

type val08 struct {
	c      constant.Value
	other  bool
	some   bool // a number over 0
	nonnil bool
	null   bool
}

// hist08: the blocks passed, last first.
type hist08 struct {
	b, prev *ssa.BasicBlock
	up      *hist08
}

// path: which member of the root a value is.
func (e *env08) path(v ssa.Value) (string, bool) {
	if p, ok := e.bind[v]; ok {
		return p, true
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if p, ok := e.path(x.X); ok {
			return p + "." + fieldNameOf(x.X.Type(), x.Field), true
		}
	case *ssa.Field:
		if p, ok := e.path(x.X); ok {
			return p + "." + fieldNameOf(x.X.Type(), x.Field), true
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok && oneStore(al) {
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						return e.path(st.Val)
					}
				}
			}
			return e.path(x.X)
		}
	case *ssa.IndexAddr:
		if p, ok := e.path(x.X); ok {
			if k, ok := e.eval(x.Index, nil).int(); ok {
				return fmt.Sprintf("%s[%d]", p, k), true
			}
			return p + "[?]", true
		}
	case *ssa.Index:
		if p, ok := e.path(x.X); ok {
			if k, ok := e.eval(x.Index, nil).int(); ok {
				return fmt.Sprintf("%s[%d]", p, k), true
			}
			return p + "[?]", true
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return e.path(x.X)
		}
	case *ssa.ChangeType:
		return e.path(x.X)
	case *ssa.Convert:
		return e.path(x.X)
	case *ssa.MakeInterface:
		return e.path(x.X)
	case *ssa.ChangeInterface:
		return e.path(x.X)
	case *ssa.Alloc:
		// a copy of the value
		if oneStore(x) {
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
					return e.path(st.Val)
				}
			}
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			if p, ok := e.path(ta.X); ok {
				return p, true
			}
		}
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return e.path(x.X)
		}
	case *ssa.Call:
		// the text of a name
		if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) == 1 && !isAppFn(f) && isString(x.Type()) {
			if p, ok := e.path(x.Call.Args[0]); ok {
				return p + "." + f.Name() + "()", true
			}
		}
	}
	return "", false
}

func (v val08) int() (int64, bool) {
	if v.c == nil || v.c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.c)
}

// members: the names in a path, without calls that only give the text.
func members08(p string) []string {
	var res []string
	for _, m := range strings.Split(p, ".") {
		if m != "" && !strings.HasSuffix(m, "()") {
			res = append(res, m)
		}
	}
	return res
}

// within: the member of the path is the given one or a part of it.
func within08(p, given string) bool {
	a, b := members08(p), members08(given)
	for i := 0; i+len(b) <= len(a); i++ {
		ok := true
		for k := range b {
			ok = ok && a[i+k] == b[k]
		}
		if ok {
			return true
		}
	}
	return false
}

func exact08(p, given string) bool {
	a, b := members08(p), members08(given)
	if len(a) < len(b) {
		return false
	}
	a = a[len(a)-len(b):]
	for k := range b {
		if a[k] != b[k] {
			return false
		}
	}
	return true
}

func (e *env08) eval(v ssa.Value, prev *hist08) val08 {
	if c, ok := e.consts[v]; ok {
		return val08{c: c}
	}
	if e.nonnil[v] {
		return val08{nonnil: true}
	}
	if p, ok := e.path(v); ok {
		for _, g := range e.given {
			switch g.kind {
			case "true":
				if exact08(p, g.path) {
					return val08{c: constant.MakeBool(true)}
				}
			case "int", "const":
				if exact08(p, g.path) {
					return val08{c: constant.MakeInt64(g.n)}
				}
			case "some":
				if exact08(p, g.path) {
					return val08{nonnil: true}
				}
			case "other":
				if within08(p, g.path) && isString(v.Type()) {
					return val08{other: true}
				}
			case "nottype":
				if exact08(p, g.path) {
					return val08{nonnil: true}
				}
			}
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			return val08{c: x.Value}
		}
		if x.IsNil() {
			return val08{null: true}
		}
	case *ssa.MakeInterface:
		if isErrorType(x.Type()) {
			return val08{nonnil: true}
		}
		return e.eval(x.X, prev)
	case *ssa.Convert:
		return e.eval(x.X, prev)
	case *ssa.ChangeType:
		return e.eval(x.X, prev)
	case *ssa.Phi:
		for h := prev; h != nil; h = h.up {
			if h.b != x.Block() {
				continue
			}
			for i, pb := range x.Block().Preds {
				if pb == h.prev {
					return e.eval(x.Edges[i], h.up)
				}
			}
			break
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			if c := e.eval(x.X, prev).c; c != nil && c.Kind() == constant.Bool {
				return val08{c: constant.MakeBool(!constant.BoolVal(c))}
			}
		}
	case *ssa.BinOp:
		return e.binop(x, e.eval(x.X, prev), e.eval(x.Y, prev))
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			if ok, known := e.oks[ta]; known {
				return val08{c: constant.MakeBool(ok)}
			}
			if p, ok := e.path(ta.X); ok {
				for _, g := range e.given {
					if g.kind == "nottype" && exact08(p, g.path) {
						for _, n := range g.not {
							if namedOf(ta.AssertedType) == n {
								return val08{c: constant.MakeBool(false)}
							}
						}
					}
				}
			}
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return e.call(call, x.Index)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if p, ok := e.path(x.Call.Args[0]); ok {
				for _, g := range e.given {
					if g.kind == "some" && exact08(p, g.path) {
						return val08{some: true}
					}
					if g.kind == "other" && within08(p, g.path) && isString(x.Call.Args[0].Type()) {
						return val08{some: true}
					}
				}
			}
			return val08{}
		}
		return e.call(x, 0)
	}
	return val08{}
}

func (e *env08) binop(x *ssa.BinOp, a, b val08) val08 {
	bl := func(t bool) val08 { return val08{c: constant.MakeBool(t)} }
	switch x.Op {
	case token.ADD, token.SUB:
		if a.c != nil && b.c != nil && a.c.Kind() == constant.Int && b.c.Kind() == constant.Int {
			return val08{c: constant.BinaryOp(a.c, x.Op, b.c)}
		}
		return val08{}
	case token.EQL, token.NEQ:
		if a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() {
			return bl(constant.Compare(a.c, x.Op, b.c))
		}
		if (a.other || b.other) && isString(x.X.Type()) {
			return bl(x.Op == token.NEQ)
		}
		if a.nonnil && b.null || b.nonnil && a.null {
			return bl(x.Op == token.NEQ)
		}
		if a.null && b.null {
			return bl(x.Op == token.EQL)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if a.c != nil && b.c != nil && a.c.Kind() == b.c.Kind() {
			return bl(constant.Compare(a.c, x.Op, b.c))
		}
	}
	// a number over 0
	op, k, ok := x.Op, val08{}, false
	if a.some && b.c != nil {
		k, ok = b, true
	} else if b.some && a.c != nil {
		k, ok = a, true
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if ok {
		if n, isInt := k.int(); isInt && n <= 0 {
			switch op {
			case token.EQL, token.LEQ:
				return bl(false)
			case token.LSS:
				return bl(false)
			case token.NEQ, token.GTR, token.GEQ:
				return bl(true)
			}
		} else if isInt && n == 1 {
			switch op {
			case token.GEQ:
				return bl(true)
			case token.LSS:
				return bl(false)
			}
		}
	}
	return val08{}
}

// inner: the function called with members of the root.
func (e *env08) inner(x *ssa.Call) *env08 {
	if e.depth > 4 {
		return nil
	}
	f := x.Call.StaticCallee()
	if f == nil {
		if f = closureOf(x.Call.Value, e.fn); f == nil {
			return nil
		}
	}
	if !isAppFn(f) || len(f.Blocks) == 0 || len(f.Params) != len(x.Call.Args) {
		return nil
	}
	in := &env08{s: e.s, fn: f, d: nil, bind: map[ssa.Value]string{}, consts: map[ssa.Value]constant.Value{}, oks: map[*ssa.TypeAssert]bool{},
		nonnil: map[ssa.Value]bool{}, given: e.given, depth: e.depth + 1}
	any := false
	for i, p := range f.Params {
		if q, ok := e.path(x.Call.Args[i]); ok {
			in.bind[p] = q
			any = true
			if in.d == nil {
				in.d = e.s.derive(f, p)
			}
			if q == "" {
				in.nonnil[p] = true
			}
		}
		if c := e.eval(x.Call.Args[i], nil).c; c != nil {
			in.consts[p] = c
		}
	}
	if !any {
		return nil
	}
	return in
}

// call: what a function tells about the members handed to it.
func (e *env08) call(x *ssa.Call, k int) val08 {
	in := e.inner(x)
	if in == nil {
		return val08{}
	}
	var res *val08
	same := true
	in.walk(nil, func(ret *ssa.Return, prev *hist08) bool {
		if k >= len(ret.Results) {
			same = false
			return true
		}
		v := in.eval(ret.Results[k], prev)
		if isErrorType(ret.Results[k].Type()) && cfgOf(in.fn).retKind(ret) == retErr {
			v = val08{nonnil: true}
		}
		if res == nil {
			res = &v
		} else if fmt.Sprint(*res) != fmt.Sprint(v) {
			same = false
		}
		return false
	}, nil)
	if res == nil || !same {
		return val08{}
	}
	return *res
}

// walk follows the ways possible under what is given; it stops where the query is refused.
func (e *env08) walk(start ssa.Instruction, ret func(*ssa.Return, *hist08) bool, turn func(ssa.Instruction)) {
	type key struct{ b, prev, pprev, ppprev *ssa.BasicBlock }
	seen := map[key]bool{}
	ci := cfgOf(e.fn)
	var around map[*Loop]bool
	sb, from := e.fn.Blocks[0], 0
	if start != nil {
		sb, from = start.Block(), instrIndex(start)+1
		around = map[*Loop]bool{}
		for _, l := range ci.loopChain(sb) {
			around[l] = true
		}
	}
	done := false
	var rec func(b *ssa.BasicBlock, prev *hist08, from int)
	rec = func(b *ssa.BasicBlock, prev *hist08, from int) {
		k := key{b: b}
		if prev != nil {
			k.prev = prev.prev
			if prev.up != nil {
				k.pprev = prev.up.prev
				if prev.up.up != nil {
					k.ppprev = prev.up.up.prev
				}
			}
		}
		if done || seen[k] && from == 0 {
			return
		}
		seen[k] = true
		refused := e.s.refuses(b, e.d)
		for i := from; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == refused && turn != nil {
				return
			}
			if in == e.stop {
				turn(in)
				return
			}
			switch x := in.(type) {
			case *ssa.Call:
				if turn != nil && e.refusing(x) {
					return
				}
			case *ssa.Return:
				done = ret(x, prev)
				return
			case *ssa.Panic:
				return
			}
		}
		if callsNoReturn(b) {
			return
		}
		take := func(t *ssa.BasicBlock) {
			if l := loopAt(ci, t); l != nil && around[l] && turn != nil {
				turn(lastInstr(b))
				return
			}
			rec(t, &hist08{t, b, prev}, 0)
		}
		if iff, ok := lastInstr(b).(*ssa.If); ok {
			if c := e.eval(iff.Cond, prev).c; c != nil && c.Kind() == constant.Bool {
				if constant.BoolVal(c) {
					take(b.Succs[0])
				} else {
					take(b.Succs[1])
				}
				return
			}
		}
		for _, t := range b.Succs {
			take(t)
		}
	}
	rec(sb, nil, from)
}

// refusing: the function called refuses the query itself, by recording an error.
func (e *env08) refusing(x *ssa.Call) bool {
	in := e.inner(x)
	if in == nil {
		return false
	}
	res := in.fn.Signature.Results()
	if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
		return false // up to the caller
	}
	all := true
	in.walk(nil, func(ret *ssa.Return, _ *hist08) bool { all = false; return true }, func(ssa.Instruction) { all = false })
	return all
}

// escapes: the query may be accepted although what is given holds.
func (e *env08) escapes(start ssa.Instruction) ssa.Instruction {
	var res ssa.Instruction
	ci := cfgOf(e.fn)
	e.walk(start, func(ret *ssa.Return, prev *hist08) bool {
		if ci.retKind(ret) == retErr || e.stop != nil {
			return false
		}
		n := len(ret.Results)
		if n > 0 {
			last := ret.Results[n-1]
			if isErrorType(last.Type()) && e.eval(last, prev).nonnil {
				return false
			}
			if errList(last.Type()) {
				if c, ok := last.(*ssa.Const); !ok || !c.IsNil() {
					return false
				}
			}
		}
		res = ret
		return true
	}, func(in ssa.Instruction) {
		if e.stop != nil && in != e.stop {
			return
		}
		if res == nil {
			res = in
		}
	})
	return res
}

func errList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(sl.Elem())
}

// env for a node the function looks at.
func (s *sc08) envFor(f *ssa.Function, root ssa.Value, given []given08) (*env08, ssa.Instruction) {
	e := &env08{s: s, fn: f, d: s.derive(f, root), bind: map[ssa.Value]string{root: ""}, consts: map[ssa.Value]constant.Value{},
		oks: map[*ssa.TypeAssert]bool{}, nonnil: map[ssa.Value]bool{root: true}, given: given}
	var start ssa.Instruction
	var ta *ssa.TypeAssert
	switch x := root.(type) {
	case *ssa.Extract:
		ta, _ = x.Tuple.(*ssa.TypeAssert)
	case *ssa.TypeAssert:
		ta = x
	}
	if ta != nil {
		start = ta
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if o, ok := in.(*ssa.TypeAssert); ok && o.X == ta.X {
					if types.Identical(o.AssertedType, ta.AssertedType) {
						e.oks[o] = true
						for _, u := range *o.Referrers() {
							if ex, ok := u.(*ssa.Extract); ok && ex.Index == 0 {
								e.bind[ex] = ""
								e.nonnil[ex] = true
							}
						}
					} else if !types.IsInterface(o.AssertedType) {
						e.oks[o] = false
					}
				}
			}
		}
		e.nonnil[ta.X] = true
		if _, ok := ta.X.(*ssa.Parameter); ok {
			start = nil
		}
	} else if in, ok := root.(ssa.Instruction); ok {
		start = in
	}
	return e, start
}

// nodesOf: the values of a node type that a function looks at.
func (s *sc08) nodesOf(typ string) map[*ssa.Function][]ssa.Value {
	res := map[*ssa.Function][]ssa.Value{}
	for _, f := range s.fns {
		for _, p := range f.Params {
			if namedOf(deptr(p.Type())) == typ {
				res[f] = append(res[f], p)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if namedOf(deptr(x.Type())) == typ {
						res[f] = append(res[f], x)
					}
				case *ssa.Extract:
					if _, ok := x.Tuple.(*ssa.Call); ok && namedOf(deptr(x.Type())) == typ {
						res[f] = append(res[f], x)
					}
				}
				ta, ok := in.(*ssa.TypeAssert)
				if ok && namedOf(deptr(ta.AssertedType)) == typ {
					if v := asserted(ta); v != nil {
						res[f] = append(res[f], v)
					} else {
						res[f] = append(res[f], ta)
					}
				}
			}
		}
	}
	return res
}

type must08 struct {
	typ   string
	given []given08
	what  string
}

func checkP08(w *World, r *Report) {
	s := &sc08{newSc07(w, r)}
	s.closureTargets()

	for _, m := range []must08{
		{astMy + ".SelectStmt", []given08{{path: ".WindowSpecs", kind: "some"}}, "a WINDOW clause (MySQL)"},
		{astMy + ".SelectStmt", []given08{{path: ".With", kind: "some"}}, "a WITH clause (MySQL)"},
		{astMy + ".SelectStmt", []given08{{path: ".Kind", kind: "int", n: s.constOf(astMy, "SelectStmtKindValues")}}, "VALUES in place of SELECT (MySQL)"},
		{astMy + ".Join", []given08{{path: ".NaturalJoin", kind: "true"}}, "a NATURAL JOIN (MySQL)"},
		{astMy + ".TableSource", []given08{{path: ".Source", kind: "nottype", not: []string{astMy + ".TableName", astMy + ".SelectStmt", astMy + ".Join"}}}, "a set operation as a table (MySQL)"},
		{astPg + ".SelectClause", []given08{{path: ".Window", kind: "some"}}, "a WINDOW clause (PostgreSQL)"},
		{astPg + ".Select", []given08{{path: ".With", kind: "some"}}, "a WITH clause (PostgreSQL)"},
		{astPg + ".Select", []given08{{path: ".Select", kind: "nottype", not: []string{astPg + ".SelectClause"}}}, "a set operation, VALUES or nested parentheses (PostgreSQL)"},
		{astPg + ".JoinTableExpr", []given08{{path: ".Cond", kind: "nottype", not: []string{astPg + ".OnJoinCond", astPg + ".UsingJoinCond"}}}, "a NATURAL JOIN (PostgreSQL)"},
		{astPg + ".StatementSource", nil, "[statement] as a table (PostgreSQL)"},
		{astPg + ".TableRef", nil, "a numeric table reference (PostgreSQL)"},
	} {
		nodes := s.nodesOf(m.typ)
		ok := false
		var where *ssa.Function
		var at ssa.Instruction
		n := 0
		for _, f := range s.fns {
			for _, v := range nodes[f] {
				n++
				if m.given != nil {
					if e, start := s.envFor(f, v, nil); e.escapes(start) == nil {
						continue // refused in any case
					}
				}
				e, start := s.envFor(f, v, m.given)
				in := e.escapes(start)
				if in == nil {
					ok = true
				} else if where == nil || s.makesCols[pkgPathOf(f)] && !s.makesCols[pkgPathOf(where)] {
					where, at = f, in
				}
			}
		}
		if n == 0 && m.given == nil {
			continue // a type not listed: P07
		}
		if n == 0 {
			r.missing("a function looking at " + m.typ)
			continue
		}
		r.count("constructs to be refused", 1)
		r.count("functions looking at them", n)
		if !ok {
			pos := where.Pos()
			if at.Pos().IsValid() {
				pos = at.Pos()
			}
			r.failAt(w.P.pos(pos), fnName(where), "a query with %s is not refused", m.what)
		}
	}
	for _, f := range s.fns {
		s.checkQualified(f)
		s.checkUnknownTables(f)
		s.checkFound(f)
	}
}

func (s *sc08) constOf(pkg, name string) int64 {
	for _, p := range s.w.P.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				if n, ok := constant.Int64Val(c.Val()); ok {
					return n
				}
			}
		}
	}
	return -1
}

// checkQualified: a name is recorded only where no further qualifier can be there.
func (s *sc08) checkQualified(f *ssa.Function) {
	var roots []root07
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			n := namedOf(al.Type())
			if n != dparser+".FieldColumn" && n != dparser+".Table" {
				continue
			}
			if roots == nil {
				roots = s.rootsOf(f)
			}
			st := storedIn(al)
			for _, m := range []string{"Name", "Table"} {
				for _, o := range s.originsOf(f, roots, st[m]) {
					s.qualified(f, al, o, m)
				}
			}
		}
	}
}

func (s *sc08) qualified(f *ssa.Function, al *ssa.Alloc, o origin07, member string) {
	if o.root.v == nil {
		return
	}
	var cases [][]given08
	switch t := namedOf(deptr(o.root.t)); {
	case t == astMy+".TableName" || strings.HasSuffix(o.path, ".Name.L") && namedOf(al.Type()) == dparser+".Table":
		cases = append(cases, []given08{{path: ".Schema", kind: "other"}})
	case t == astPg+".TableName":
		cases = append(cases, []given08{{path: ".SchemaName", kind: "other"}, {path: ".ExplicitSchema", kind: "true"}},
			[]given08{{path: ".CatalogName", kind: "other"}, {path: ".ExplicitCatalog", kind: "true"}})
	default:
		i := strings.LastIndex(o.path, ".Parts[")
		if i < 0 {
			return
		}
		var k int64
		if _, err := fmt.Sscanf(o.path[i:], ".Parts[%d]", &k); err != nil {
			return
		}
		if t == astPg+".UnresolvedName" && k == 0 && member == "Name" && namedOf(al.Type()) == dparser+".FieldColumn" {
			return // the table is recorded with it
		}
		base := o.path[:i]
		cases = append(cases, []given08{{path: base + ".NumParts", kind: "int", n: k + 2}, {path: fmt.Sprintf("%s.Parts[%d]", base, k+1), kind: "other"}},
			[]given08{{path: base + ".NumParts", kind: "int", n: k + 3}, {path: fmt.Sprintf("%s.Parts[%d]", base, k+1), kind: "other"}})
	}
	for _, g := range cases {
		s.r.count("qualified names", 1)
		e, start := s.envFor(f, o.root.v, g)
		e.stop = al
		if in := e.escapes(start); in != nil {
			s.r.failAt(s.w.P.pos(al.Pos()), fnName(f), "a name qualified with another schema or database is recorded as if it were not (%s)", o.String())
		}
	}
}

// checkUnknownTables: a table that the catalog does not list makes the query refused.
func (s *sc08) checkUnknownTables(f *ssa.Function) {
	isSchemas := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(deptr(sl.Elem())) == dparser+".TableSchema"
	}
	res := f.Signature.Results()
	if res.Len() != 2 || !isSchemas(res.At(0).Type()) || !isErrorType(res.At(1).Type()) {
		return
	}
	ci := cfgOf(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok || !isSchemas(x.Type()) || x.Call.StaticCallee() == nil || !isAppFn(x.Call.StaticCallee()) && !strings.HasPrefix(fnName(x.Call.StaticCallee()), dparser) {
				continue
			}
			s.r.count("lists of table schemas", 1)
			fail := func(msg string) {
				s.r.failAt(s.w.P.pos(x.Pos()), fnName(f), "%s", msg)
			}
			tests, other := s.elementTests(f, x, 0)
			if other {
				continue // looked at in a way not followed here
			}
			if len(tests) == 0 {
				fail("tables which the catalog does not list are not refused: no schema is compared with nil")
				continue
			}
			bad := ""
			good := false
			for _, t := range tests {
				lc := ci.loopChain(t.iff.Block())
				if len(lc) == 0 {
					good = true // a test of one element
					continue
				}
				l := lc[0]
				nilBlock := t.iff.Block().Succs[t.nilSucc]
				e := &env08{s: s, fn: f, d: s.derive(f, x), bind: map[ssa.Value]string{}, consts: map[ssa.Value]constant.Value{}, oks: map[*ssa.TypeAssert]bool{}, nonnil: map[ssa.Value]bool{}}
				first := nilBlock.Instrs[0]
				esc := false
				if r := s.refuses(nilBlock, e.d); r == nil {
					if ret, ok := first.(*ssa.Return); ok {
						esc = ci.retKind(ret) != retErr
					} else {
						esc = e.escapes(first) != nil
					}
				}
				if esc && s.decidedAfter(f, l, e.d) {
					good = true
					continue
				}
				if esc {
					bad = "a table which the catalog does not list is passed over"
					continue
				}
				good = true
				for _, rb := range f.Blocks {
					if ret, ok := lastInstr(rb).(*ssa.Return); ok && ci.retKind(ret) != retErr && !l.Header.Dominates(rb) && x.Block().Dominates(rb) {
						bad = "the tables are returned before the look for ones the catalog does not list"
					}
				}
				for bl := range l.Blocks {
					for _, su := range bl.Succs {
						if bl != l.Header && !l.Blocks[su] && !ci.errOnly[su] && s.refuses(su, e.d) == nil && s.refuses(bl, e.d) == nil {
							bad = "the look for tables the catalog does not list may end early"
						}
					}
				}
			}
			if !good || bad != "" {
				if bad == "" {
					bad = "tables which the catalog does not list are not refused"
				}
				fail(bad)
			}
		}
	}
}

type nilTest08 struct {
	iff     *ssa.If
	nilSucc int
}

// elementTests: the tests of an element against nil; other: the list is handed to something else that may test it.
func (s *sc08) elementTests(f *ssa.Function, list ssa.Value, depth int) (res []nilTest08, other bool) {
	for _, b := range f.Blocks {
		iff, ok := lastInstr(b).(*ssa.If)
		if !ok {
			continue
		}
		v, nonNil, ok := nilTest(iff.Cond)
		if !ok {
			continue
		}
		e := &env08{s: s, fn: f, bind: map[ssa.Value]string{list: ""}, consts: map[ssa.Value]constant.Value{}, oks: map[*ssa.TypeAssert]bool{}, nonnil: map[ssa.Value]bool{}}
		p, ok := e.path(v)
		if !ok || !strings.HasPrefix(p, "[") || strings.Contains(p, ".") {
			continue
		}
		k := 0
		if nonNil {
			k = 1
		}
		res = append(res, nilTest08{iff, k})
	}
	if list.Referrers() == nil || depth > 2 {
		return res, true
	}
	for _, u := range *list.Referrers() {
		switch x := u.(type) {
		case *ssa.Call:
			g := x.Call.StaticCallee()
			if g == nil {
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					other = true
				}
				continue
			}
			if strings.HasPrefix(fnName(g), "github.com/samber/lo.") {
				other = true
				continue
			}
			for i, a := range x.Call.Args {
				if a == list && i < len(g.Params) && len(g.Blocks) > 0 && isAppFn(g) {
					t, o := s.elementTests(g, g.Params[i], depth+1)
					other = other || o || len(t) > 0
				}
			}
		case *ssa.Store, *ssa.Phi, *ssa.MakeClosure:
			other = true
		}
	}
	return res, other
}

// checkFound: what is looked for and not found is an error.
func (s *sc08) checkFound(f *ssa.Function) {
	if !strings.HasPrefix(pkgPathOf(f), dparser) {
		return
	}
	res := f.Signature.Results()
	if res.Len() < 2 || !isErrorType(res.At(res.Len()-1).Type()) {
		return
	}
	ci := cfgOf(f)
	for _, b := range f.Blocks {
		ret, ok := lastInstr(b).(*ssa.Return)
		if !ok || ci.retKind(ret) == retErr {
			continue
		}
		c, ok := ret.Results[len(ret.Results)-1].(*ssa.Const)
		if !ok || !c.IsNil() {
			continue
		}
		if c, ok := ret.Results[0].(*ssa.Const); !ok || !c.IsNil() {
			continue
		}
		s.r.count("empty answers", 1)
		if !positive(ci, b, 0) {
			s.r.failAt(s.w.P.pos(ret.Pos()), fnName(f), "what is not found is passed over instead of making the query refused")
		}
	}
}

// positive: the block is reached only where something is known to be the case.
func positive(ci *cfgInfo, b *ssa.BasicBlock, depth int) bool {
	if depth > 6 {
		return false
	}
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			if len(d.Preds) > 1 {
				all := true
				for _, p := range d.Preds {
					all = all && (positiveEdge(p, d) || !d.Dominates(p) && positive(ci, p, depth+1))
				}
				if all {
					return true
				}
			}
			continue
		}
		if positiveEdge(d.Preds[0], d) {
			return true
		}
	}
	return false
}

func positiveEdge(p, b *ssa.BasicBlock) bool {
	iff, ok := lastInstr(p).(*ssa.If)
	if !ok {
		return false
	}
	c := stripNot(iff.Cond, p.Succs[0] == b)
	switch x := c.v.(type) {
	case *ssa.BinOp:
		if v, _, ok := nilTest(x); ok {
			_ = v
			return false
		}
		return x.Op == token.EQL && c.t || x.Op == token.NEQ && !c.t
	case *ssa.Call:
		return c.t
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && lk.CommaOk {
			return c.t
		}
	}
	return false
}

// decidedAfter: what the loop found decides after it whether the query is refused.
func (s *sc08) decidedAfter(f *ssa.Function, l *Loop, d *derived) bool {
	ci := cfgOf(f)
	var carried func(v ssa.Value, depth int) bool
	carried = func(v ssa.Value, depth int) bool {
		if depth > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.Header || l.Blocks[x.Block()] {
				return true
			}
			for _, e := range x.Edges {
				if carried(e, depth+1) {
					return true
				}
			}
			for _, p := range x.Block().Preds {
				if l.Blocks[p] {
					return true
				}
			}
		case *ssa.BinOp:
			return carried(x.X, depth+1) || carried(x.Y, depth+1)
		case *ssa.UnOp:
			return carried(x.X, depth+1)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return carried(x.Call.Args[0], depth+1)
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		iff, ok := lastInstr(b).(*ssa.If)
		if !ok || l.Blocks[b] || !carried(iff.Cond, 0) {
			continue
		}
		for _, t := range b.Succs {
			if ci.errOnly[t] || s.refuses(t, d) != nil {
				return true
			}
		}
	}
	return false
}
