package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P20", "Every loop over a map (and over a slice whose order comes from one) in the functions the commands use: what it appends stays marked until a sort with a total order, and must not reach a report or a statement; what it selects must be decided by an order; it must not send statements or requests, nor end early with a value of the turn it is in.", checkP20)
}

// ord follows values whose order depends on the iteration order of a map.
type ord struct {
	w       *World
	r       *Report
	fields  map[string]bool // members holding such values
	sums    map[string]*ordSum
	issues  map[string]issue
	final   bool
	n       int
	loops   map[*Loop]bool
	grew    bool
	iter    int
	sortsIn map[*ssa.Function][]sortCall
}

type issue struct {
	pos token.Pos
	fn  *ssa.Function
	msg string
}

// ordSum: what a function does with ordered values, for one set of marked parameters.
type ordSum struct {
	res    map[int]bool // marked results
	sorts  map[int]bool // parameters it sorts
	marked map[ssa.Value]bool
	iter   int
}

func checkP20(w *World, r *Report) {
	o := &ord{w: w, r: r, fields: map[string]bool{}, sums: map[string]*ordSum{}, issues: map[string]issue{}, loops: map[*Loop]bool{}, sortsIn: map[*ssa.Function][]sortCall{}}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fr := range w.A.Frames {
		f := fr.Fn
		if seen[f] || len(f.Blocks) == 0 || !isAppFn(f) {
			continue
		}
		seen[f] = true
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	if len(fns) == 0 {
		r.missing("functions of the commands")
		return
	}
	r.count("functions", len(fns))
	for k := 0; k < 60; k++ {
		o.grew = false
		o.iter = k + 1
		o.issues = map[string]issue{}
		o.loops = map[*Loop]bool{}
		for _, f := range fns {
			o.visit(f, 0, 0)
		}
		if !o.grew {
			break
		}
	}
	r.count("unordered loops", len(o.loops))
	for f := range o.fields {
		_ = f
		r.count("unordered members", 1)
	}
	var keys []string
	for k := range o.issues {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		is := o.issues[k]
		r.failAt(w.P.pos(is.pos), fnName(is.fn), "%s", is.msg)
	}
}

func (o *ord) issue(fn *ssa.Function, pos token.Pos, f string, args ...any) {
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	m := fmt.Sprintf(f, args...)
	o.issues[fmt.Sprint(pos, m)] = issue{pos, fn, m}
}

func (o *ord) markField(k string) {
	if !o.fields[k] {
		o.fields[k] = true
		o.grew = true
	}
}

func fieldKey(x ssa.Value, i int) string {
	return namedOf(deptr(x.Type())) + "." + fieldNameOf(x.Type(), i)
}

// visit analyses the function with the given parameters marked.
func (o *ord) visit(fn *ssa.Function, mask uint64, depth int) *ordSum {
	key := fmt.Sprintf("%s/%x/%p", fnName(fn), mask, fn)
	s := o.sums[key]
	if s == nil {
		s = &ordSum{res: map[int]bool{}, sorts: map[int]bool{}, marked: map[ssa.Value]bool{}, iter: o.iter}
		o.sums[key] = s
	} else if s.iter == o.iter {
		return s
	}
	s.iter = o.iter
	m := s.marked
	for i, p := range fn.Params {
		if mask>>uint(i)&1 == 1 {
			m[p] = true
		}
	}
	for i := range fn.Params {
		if o.sortsParam(fn, i) && !s.sorts[i] {
			s.sorts[i] = true
			o.grew = true
		}
	}
	ci := cfgOf(fn)
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if v != nil && !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				o.step(fn, s, m, in, mark, depth)
			}
		}
		for _, l := range ci.loops {
			if o.unordered(fn, m, l) {
				o.loops[l] = true
				o.loop(fn, m, l, mark)
			}
		}
	}
	return s
}

// is: the value is marked where the instruction uses it.
func (o *ord) is(m map[ssa.Value]bool, v ssa.Value, at ssa.Instruction) bool {
	if v == nil || !m[v] {
		return false
	}
	return !o.sortedBefore(v, at)
}

// stripV: the value below conversions.
func stripV(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.UnOp:
			// a variable set once (captured by a function)
			y := onlyStored(x)
			if y == nil {
				return v
			}
			v = y
		default:
			return v
		}
	}
}

// onlyStored: what a variable holds that is set once only, before the read.
func onlyStored(x *ssa.UnOp) ssa.Value {
	al, ok := x.X.(*ssa.Alloc)
	if x.Op != token.MUL || !ok || al.Referrers() == nil {
		return nil
	}
	var st *ssa.Store
	for _, u := range *al.Referrers() {
		if y, ok := u.(*ssa.Store); ok {
			if st != nil || y.Addr != ssa.Value(al) {
				return nil
			}
			st = y
		}
		if c, ok := u.(*ssa.MakeClosure); ok && storesFree(c, al) {
			return nil
		}
	}
	if st == nil || !instrDominates(st, x) {
		return nil
	}
	return st.Val
}

// storesFree: the function sets the variable it captures.
func storesFree(c *ssa.MakeClosure, al *ssa.Alloc) bool {
	f, ok := c.Fn.(*ssa.Function)
	if !ok {
		return true
	}
	for i, b := range c.Bindings {
		if b != ssa.Value(al) || i >= len(f.FreeVars) || f.FreeVars[i].Referrers() == nil {
			continue
		}
		for _, u := range *f.FreeVars[i].Referrers() {
			if ld, ok := u.(*ssa.UnOp); !ok || ld.Op != token.MUL {
				return true
			}
		}
	}
	return false
}

// samePlace: two reads of one place, or the same value.
func samePlace(a, b ssa.Value, d int) bool {
	a, b = stripV(a), stripV(b)
	if a == b {
		return true
	}
	if d > 4 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && samePlace(x.X, y.X, d+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePlace(x.X, y.X, d+1)
	case *ssa.Slice:
		return x.Low == nil && x.High == nil && samePlace(x.X, b, d+1)
	}
	if y, ok := b.(*ssa.Slice); ok {
		return y.Low == nil && y.High == nil && samePlace(a, y.X, d+1)
	}
	return false
}

// sortedBefore: a total sort of the value dominates the use.
func (o *ord) sortedBefore(v ssa.Value, at ssa.Instruction) bool {
	if at == nil || at.Parent() == nil {
		return false
	}
	for _, sc := range o.sortCalls(at.Parent()) {
		if ssa.Instruction(sc.call) != at && samePlace(sc.val, v, 0) && instrDominates(sc.call, at) {
			return true
		}
	}
	return false
}

type sortCall struct {
	call *ssa.Call
	val  ssa.Value
}

// sortCalls: the sorts a function makes.
func (o *ord) sortCalls(fn *ssa.Function) []sortCall {
	if res, ok := o.sortsIn[fn]; ok {
		return res
	}
	var res []sortCall
	o.sortsIn[fn] = nil
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for i, a := range call.Call.Args {
				if _, ok := stripV(a).Type().Underlying().(*types.Slice); ok && o.sorts(call, i) {
					res = append(res, sortCall{call, a})
				}
			}
		}
	}
	o.sortsIn[fn] = res
	return res
}

// sorts: the call puts its i-th argument into an order that depends on the elements only.
func (o *ord) sorts(call *ssa.Call, i int) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return false
	}
	n := fnName(f)
	switch {
	case strings.HasPrefix(n, "sort.Strings") || strings.HasPrefix(n, "sort.Ints") || strings.HasPrefix(n, "sort.Float64s") || n == "slices.Sort" || strings.HasPrefix(n, "slices.Sort[") || strings.HasSuffix(n, "exp/slices.Sort"):
		return i == 0
	case n == "sort.Slice" || n == "sort.SliceStable" || strings.HasSuffix(n, "slices.SortFunc") || strings.HasSuffix(n, "slices.SortStableFunc"):
		return i == 0 && o.total(call, call.Call.Args[0], call.Call.Args[1])
	case n == "sort.Sort" || n == "sort.Stable":
		return i == 0
	}
	if isAppFn(f) && len(f.Blocks) > 0 {
		return o.sortsParam(f, i) && o.totalThrough(call, f, i)
	}
	return false
}

// sortsParam: every way through the function sorts the parameter.
func (o *ord) sortsParam(fn *ssa.Function, i int) bool {
	if i >= len(fn.Params) || len(fn.Blocks) == 0 || o.n > 6 {
		return false
	}
	o.n++
	defer func() { o.n-- }()
	p := fn.Params[i]
	if _, ok := p.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == fn {
				continue
			}
			for j, a := range call.Call.Args {
				if samePlace(a, p, 0) && o.sorts(call, j) && cfgOf(fn).mustExec(b) {
					return true
				}
			}
		}
	}
	return false
}

// totalThrough: a helper sorting by what a function given at the call yields.
func (o *ord) totalThrough(call *ssa.Call, f *ssa.Function, i int) bool {
	sl, ok := call.Call.Args[i].Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	for j, a := range call.Call.Args {
		if j == i {
			continue
		}
		if _, isF := a.Type().Underlying().(*types.Signature); isF {
			fn := funcOf(a)
			if fn == nil {
				return true
			}
			return o.covers(sl.Elem(), fn)
		}
	}
	return true
}

func funcOf(v ssa.Value) *ssa.Function {
	switch x := stripV(v).(type) {
	case *ssa.Function:
		return x
	case *ssa.MakeClosure:
		f, _ := x.Fn.(*ssa.Function)
		return f
	}
	return nil
}

// total: the comparison looks at everything in which two elements can differ.
func (o *ord) total(call *ssa.Call, coll, less ssa.Value) bool {
	sl, ok := stripV(coll).Type().Underlying().(*types.Slice)
	if !ok {
		return true
	}
	fn := funcOf(less)
	if fn == nil {
		return true
	}
	// a comparison by a function given from outside: decided where it is given
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == nil && !c.Call.IsInvoke() {
				if _, isB := c.Call.Value.(*ssa.Builtin); !isB {
					return true
				}
			}
		}
	}
	return o.covers(sl.Elem(), fn)
}

// covers: the function reads every member of the element that matters.
func (o *ord) covers(elem types.Type, fn *ssa.Function) bool {
	st, ok := deptr(elem).Underlying().(*types.Struct)
	if !ok {
		return true
	}
	reads, looped := map[string]bool{}, map[string]bool{}
	var rec func(f *ssa.Function, inLoop bool, d int)
	rec = func(f *ssa.Function, inLoop bool, d int) {
		if d > 3 {
			return
		}
		for _, b := range f.Blocks {
			lp := inLoop || len(cfgOf(f).loopChain(b)) > 0
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					k := fieldKey(x.X, x.Field)
					reads[k] = true
					if lp {
						looped[k] = true
					}
				case *ssa.Field:
					k := fieldKey(x.X, x.Field)
					reads[k] = true
					if lp {
						looped[k] = true
					}
				case *ssa.Call:
					if c := x.Call.StaticCallee(); c != nil && (isAppFn(c) || c.Parent() != nil) {
						rec(c, lp, d+1)
					}
					for _, a := range x.Call.Args {
						if c := funcOf(a); c != nil {
							rec(c, true, d+1)
						}
					}
				case *ssa.MakeClosure:
					if c, ok := x.Fn.(*ssa.Function); ok {
						rec(c, lp, d+1)
					}
				}
			}
		}
	}
	rec(fn, false, 0)
	name := namedOf(deptr(elem))
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		k := name + "." + f.Name()
		if !reads[k] {
			return false
		}
		// lists are compared as a whole
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if st2, ok := deptr(sl.Elem()).Underlying().(*types.Struct); ok {
				any := false
				for j := 0; j < st2.NumFields(); j++ {
					if looped[namedOf(deptr(sl.Elem()))+"."+st2.Field(j).Name()] {
						any = true
					}
				}
				if !any {
					return false
				}
			}
		}
	}
	return true
}

// step propagates marks over one instruction and looks for places they must not reach.
func (o *ord) step(fn *ssa.Function, s *ordSum, m map[ssa.Value]bool, in ssa.Instruction, mark func(ssa.Value), depth int) {
	is := func(v ssa.Value) bool { return o.is(m, v, in) }
	switch x := in.(type) {
	case *ssa.Phi:
		for i, e := range x.Edges {
			if m[e] && !o.sortedBefore(e, lastInstr(x.Block().Preds[i])) {
				mark(x)
			}
		}
	case *ssa.Slice:
		if is(x.X) {
			if x.Low != nil || x.High != nil {
				if al, ok := x.X.(*ssa.Alloc); !ok || al == nil {
					o.issue(fn, x.Pos(), "part of a list is taken whose order is that of a map")
				}
			}
			mark(x)
		}
	case *ssa.Convert:
		if is(x.X) {
			mark(x)
		}
	case *ssa.ChangeType:
		if is(x.X) {
			mark(x)
		}
	case *ssa.MakeInterface:
		if is(x.X) {
			mark(x)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) && (is(x.X) || is(x.Y)) {
			mark(x)
		}
	case *ssa.Lookup:
		if m[x.X] && holdsLists(x.X) {
			mark(x)
		}
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && m[lk] && x.Index == 0 {
			mark(x)
		}
		if nx, ok := x.Tuple.(*ssa.Next); ok && x.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok && m[rg.X] && holdsLists(rg.X) {
				mark(x)
			}
		}
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && isAppFn(f) && len(f.Blocks) > 0 {
				if o.sumOf(call, f, m, depth).res[x.Index] {
					mark(x)
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok && o.fields[fieldKey(fa.X, fa.Field)] {
				mark(x)
			}
			if m[x.X] {
				mark(x)
			}
		}
	case *ssa.Field:
		if o.fields[fieldKey(x.X, x.Field)] {
			mark(x)
		}
	case *ssa.IndexAddr:
		if _, isC := x.Index.(*ssa.Const); isC && is(x.X) {
			if _, arr := deptr(x.X.Type()).Underlying().(*types.Array); !arr {
				o.issue(fn, x.Pos(), "an element is picked from a list whose order is that of a map")
			}
		}
	case *ssa.Store:
		if is(x.Val) {
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				k := fieldKey(a.X, a.Field)
				o.markField(k)
				if strings.Contains(k, "GravityR/html") {
					o.issue(fn, x.Pos(), "the report shows a list whose order is that of a map")
				}
			case *ssa.Alloc:
				mark(a)
			case *ssa.IndexAddr:
				mark(stripAlloc(a.X))
			}
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if is(v) && !s.res[i] {
				s.res[i] = true
				o.grew = true
			}
		}
	case *ssa.Call:
		o.call(fn, m, x, mark, depth)
	case *ssa.Defer:
	case *ssa.MapUpdate:
	}
}

func holdsLists(v ssa.Value) bool {
	mt, ok := v.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	_, ok = mt.Elem().Underlying().(*types.Slice)
	return ok
}

func stripAlloc(v ssa.Value) ssa.Value {
	if s, ok := v.(*ssa.Slice); ok {
		return s.X
	}
	return v
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (o *ord) sumOf(call *ssa.Call, f *ssa.Function, m map[ssa.Value]bool, depth int) *ordSum {
	mask := uint64(0)
	for i, a := range call.Call.Args {
		if i < 60 && o.is(m, a, call) {
			mask |= 1 << uint(i)
		}
	}
	return o.visit(f, mask, depth+1)
}

func (o *ord) call(fn *ssa.Function, m map[ssa.Value]bool, x *ssa.Call, mark func(ssa.Value), depth int) {
	any := false
	for _, a := range x.Call.Args {
		if o.is(m, a, x) {
			any = true
		}
		// functions given to helpers run for elements; their captured variables are theirs
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && any {
			mark(x)
		}
		return
	}
	f := x.Call.StaticCallee()
	if f == nil {
		if x.Call.IsInvoke() && any && o.effect(x) != "" {
			o.issue(fn, x.Pos(), "%s depends on the order of a map", o.effect(x))
		}
		return
	}
	n := fnName(f)
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	switch {
	case strings.HasPrefix(n, "github.com/samber/lo.") || strings.HasPrefix(n, "golang.org/x/exp/maps.") || strings.HasPrefix(n, "maps.") || strings.HasPrefix(n, "slices."):
		base := n[strings.LastIndex(n, ".")+1:]
		switch base {
		case "Keys", "Values", "MapToSlice", "Entries", "ToPairs", "Collect":
			if _, isMap := argType(x, 0).(*types.Map); isMap {
				mark(x)
			}
		case "Max", "Min", "Sum", "SumBy", "Contains", "ContainsBy", "Every", "Some", "None", "EveryBy", "SomeBy", "NoneBy", "Count", "CountBy", "Sort", "Sorted",
			"SliceToMap", "Associate", "KeyBy", "GroupBy", "Assign", "ForEach", "IsSorted", "SortFunc", "SortStableFunc", "MapKeys", "MapValues", "PickBy", "OmitBy":
		case "UniqBy":
			if any {
				o.issue(fn, x.Pos(), "which of the equal entries is kept depends on the order of a map")
				mark(x)
			}
		case "Find", "FindIndexOf":
			// an entry of a given name is the same one wherever it stands
			if any && !equalityOnly(x) {
				o.issue(fn, x.Pos(), "an element is picked from a list whose order is that of a map")
			}
		case "Last", "Nth", "Sample", "IndexOf", "MaxBy", "MinBy":
			if any {
				o.issue(fn, x.Pos(), "an element is picked from a list whose order is that of a map")
			}
		default:
			if any {
				mark(x)
			}
		}
		return
	case strings.HasPrefix(n, "strings.Join"), strings.HasPrefix(n, "fmt.Sprint"):
		if any {
			mark(x)
		}
		return
	}
	if e := o.effect(x); e != "" && any {
		o.issue(fn, x.Pos(), "%s depends on the order of a map", e)
	}
	if isAppFn(f) && len(f.Blocks) > 0 {
		if any && strings.Contains(pkgPathOf(f), "GravityR/html") {
			o.issue(fn, x.Pos(), "the report shows a list whose order is that of a map")
		}
		sum := o.sumOf(x, f, m, depth)
		if sum.res[0] && f.Signature.Results().Len() == 1 {
			mark(x)
		}
	}
}

func argType(x *ssa.Call, i int) types.Type {
	if i >= len(x.Call.Args) {
		return nil
	}
	return x.Call.Args[i].Type().Underlying()
}

// effect: the call does something outside of the program whose order matters.
func (o *ord) effect(x *ssa.Call) string {
	n := ""
	if x.Call.IsInvoke() {
		n = "(" + namedOf(x.Call.Value.Type()) + ")." + x.Call.Method.Name()
	} else if f := x.Call.StaticCallee(); f != nil {
		n = fnName(f)
	}
	switch {
	case strings.Contains(n, "database/sql") || strings.Contains(n, "jmoiron/sqlx") && !strings.HasSuffix(n, "sqlx.In"):
		return "a statement sent to the database"
	case strings.Contains(n, "net/http.Client)"):
		return "a request"
	case strings.Contains(n, "aws-sdk-go") || strings.Contains(n, "google.golang.org/grpc") || strings.Contains(n, "api_v3"):
		return "a request"
	}
	return ""
}

// unordered: the loop goes over a map, or a list in the order of one.
func (o *ord) unordered(fn *ssa.Function, m map[ssa.Value]bool, l *Loop) bool {
	if l.Coll == nil {
		return false
	}
	switch l.Kind {
	case "map":
		return true
	case "slice", "slice-rev", "slice-tail":
		return o.is(m, l.Coll, lastInstr(l.Header))
	}
	return false
}

// loop: what an unordered loop leaves behind.
func (o *ord) loop(fn *ssa.Function, m map[ssa.Value]bool, l *Loop, mark func(ssa.Value)) {
	turn := turnValues(l)
	ci := cfgOf(fn)
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph == l.Phi {
			continue
		}
		var ins []ssa.Value
		for i, p := range l.Header.Preds {
			if l.Blocks[p] {
				ins = append(ins, ph.Edges[i])
			}
		}
		o.carried(fn, l, ph, ins, turn, mark)
	}
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if grows(x.Val, x.Addr) {
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						if !ownOf(a.X, l) {
							o.markField(fieldKey(a.X, a.Field))
							if strings.Contains(fieldKey(a.X, a.Field), "GravityR/html") {
								o.issue(fn, x.Pos(), "the report shows a list whose order is that of a map")
							}
						}
					case *ssa.Alloc:
						if !l.Blocks[a.Block()] {
							mark(a)
						}
					}
					continue
				}
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && turn[x.Val] && !turn[fa.X] && !madeIn(fa.X, l) {
					o.issue(fn, x.Pos(), "which value is kept depends on the order of a map")
				}
			case *ssa.MapUpdate:
				if growsEntry(x) && !madeIn(x.Map, l) && !ownOf(x.Key, l) {
					o.markMap(x.Map, mark)
					continue
				}
				// the same key is written in every turn
				if turn[x.Value] && !turn[x.Key] && !madeIn(x.Map, l) {
					o.issue(fn, x.Pos(), "which value is kept depends on the order of a map")
				}
			case *ssa.Call:
				if e := o.effectDeep(x, 0, map[*ssa.Function]bool{}); e != "" {
					o.issue(fn, x.Pos(), "%s depends on the order of a map", e)
				}
				o.within(fn, x, turn, 0)
			case *ssa.Return:
			}
		}
		// leaving early with a value of the turn
		for _, s := range b.Succs {
			if l.Blocks[s] || b == l.Header {
				continue
			}
			if ci.errOnly[s] {
				continue
			}
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range s.Preds {
					if p == b && turn[ph.Edges[i]] && !uniqueExit(b, l, turn) {
						o.issue(fn, lastInstr(b).Pos(), "which value is found first depends on the order of a map")
					}
				}
			}
		}
	}
	// returns inside: blocks reached from the loop only
	for _, b := range fn.Blocks {
		ret, ok := lastInstr(b).(*ssa.Return)
		if !ok || ci.retKind(ret) == retErr {
			continue
		}
		from := exitOf(b, l)
		if from == nil {
			continue
		}
		for _, v := range ret.Results {
			if turn[v] && !isErrorType(v.Type()) && !uniqueExit(from, l, turn) {
				o.issue(fn, ret.Pos(), "which value is found first depends on the order of a map")
			}
		}
	}
}

// exitOf: the block of the loop (not its header) from which alone b is reached.
func exitOf(b *ssa.BasicBlock, l *Loop) *ssa.BasicBlock {
	for k := 0; k < 6; k++ {
		if l.Blocks[b] {
			return b
		}
		if len(b.Preds) != 1 {
			return nil
		}
		p := b.Preds[0]
		if l.Blocks[p] {
			if p == l.Header {
				return nil
			}
			return p
		}
		b = p
	}
	return nil
}

// uniqueExit: the loop is left because its key equals something: at most one turn does that.
func uniqueExit(b *ssa.BasicBlock, l *Loop, turn map[ssa.Value]bool) bool {
	for x := b; x != nil && l.Blocks[x]; x = x.Idom() {
		if iff, ok := lastInstr(x).(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && l.Kind == "map" {
				if isKeyOf(bo.X, l) || isKeyOf(bo.Y, l) {
					return true
				}
			}
		}
	}
	return false
}

func isKeyOf(v ssa.Value, l *Loop) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	nx, ok := ex.Tuple.(*ssa.Next)
	return ok && ex.Index == 1 && l.Blocks[nx.Block()]
}

func madeIn(v ssa.Value, l *Loop) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return l.Blocks[in.Block()]
	case *ssa.UnOp:
		return madeIn(x.X, l)
	case *ssa.FieldAddr:
		return madeIn(x.X, l)
	}
	return false
}

// ownOf: the value belongs to one turn of the loop: no other turn has the same.
func ownOf(v ssa.Value, l *Loop) bool {
	for k := 0; k < 10; k++ {
		switch x := stripV(v).(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return madeIn(x, l)
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.IndexAddr:
			return x.Index == l.Idx || l.Idx != nil && stripV(x.Index) == l.Idx
		case *ssa.Index:
			return x.Index == l.Idx
		case *ssa.Lookup:
			return isKeyOf(x.Index, l) || ownKey(x.Index, l)
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.Next:
				return l.Blocks[t.Block()]
			case *ssa.Lookup:
				return isKeyOf(t.Index, l) || ownKey(t.Index, l)
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ownKey: the element of a list of keys.
func ownKey(v ssa.Value, l *Loop) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	return ok && ownOf(ia, l)
}

// growsEntry: something is appended to the entry of a map.
func growsEntry(x *ssa.MapUpdate) bool {
	call, ok := x.Value.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	v := call.Call.Args[0]
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	lk, ok := v.(*ssa.Lookup)
	return ok && samePlace(lk.X, x.Map, 0)
}

// markMap: the lists in the map are in the order of another map.
func (o *ord) markMap(v ssa.Value, mark func(ssa.Value)) {
	if ld, ok := v.(*ssa.UnOp); ok {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			o.markField(fieldKey(fa.X, fa.Field))
			return
		}
	}
	mark(v)
}

// grows: the value is what was at the address with something appended.
func grows(v, addr ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := call.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	ld, ok := call.Call.Args[0].(*ssa.UnOp)
	return ok && ld.Op == token.MUL && samePlace(ld.X, addr, 0)
}

// turnValues: values that differ from turn to turn because of the loop's element.
func turnValues(l *Loop) map[ssa.Value]bool {
	turn := map[ssa.Value]bool{}
	if l.Idx != nil {
		turn[l.Idx] = true
	}
	for changed := true; changed; {
		changed = false
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || turn[v] {
					continue
				}
				if _, ok := in.(*ssa.Next); ok && b == l.Header {
					turn[v] = true
					changed = true
					continue
				}
				if ph, ok := in.(*ssa.Phi); ok && b == l.Header && ph != l.Phi {
					continue
				}
				if al, ok := in.(*ssa.Alloc); ok {
					// made in this turn: holds a value of it?
					for _, u := range *al.Referrers() {
						if st, ok := u.(*ssa.Store); ok && turn[st.Val] {
							turn[v] = true
							changed = true
						}
					}
					continue
				}
				var ops [10]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil && turn[*op] {
						turn[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	return turn
}

// carried: a variable carried from turn to turn.
func (o *ord) carried(fn *ssa.Function, l *Loop, ph *ssa.Phi, ins []ssa.Value, turn map[ssa.Value]bool, mark func(ssa.Value)) {
	_, slice := ph.Type().Underlying().(*types.Slice)
	if slice {
		if appended(ph, ins, l) {
			if pos := o.firstKept(ins, l); pos.IsValid() {
				o.issue(fn, pos, "which of the equal entries is kept depends on the order of a map")
			}
			mark(ph)
			return
		}
	}
	b, basic := ph.Type().Underlying().(*types.Basic)
	if basic && b.Info()&types.IsString != 0 {
		if concatenated(ph, l) {
			mark(ph)
			return
		}
	}
	if basic && b.Info()&types.IsNumeric != 0 && accumulates(ph, l) {
		return
	}
	if isErrorType(ph.Type()) {
		return
	}
	// a value of some turn: chosen by an order?
	chosen := false
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if q, ok := v.(*ssa.Phi); ok && q != ph && l.Blocks[q.Block()] {
			for _, e := range q.Edges {
				rec(e)
			}
			return
		}
		if v != ssa.Value(ph) && turn[v] {
			chosen = true
		}
	}
	for _, v := range ins {
		rec(v)
	}
	if !chosen {
		return
	}
	if !comparedIn(ph, l) {
		o.issue(fn, ph.Pos(), "which value is kept depends on the order of a map")
	}
}

// firstKept: what is appended is left out when a set already has something else of it.
func (o *ord) firstKept(ins []ssa.Value, l *Loop) token.Pos {
	seen := map[ssa.Value]bool{}
	res := token.NoPos
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if l.Blocks[x.Block()] && x.Block() != l.Header {
				for _, e := range x.Edges {
					rec(e)
				}
			}
		case *ssa.Call:
			if len(x.Call.Args) != 2 {
				return
			}
			el := appendedValue(x.Call.Args[1])
			for b := x.Block().Idom(); b != nil && l.Blocks[b]; b = b.Idom() {
				iff, ok := lastInstr(b).(*ssa.If)
				if !ok {
					continue
				}
				key := memberTest(iff.Cond)
				if key == nil || el == nil || stripV(key) == stripV(el) {
					continue
				}
				if o.setGrows(key, l) {
					res = x.Pos()
				}
			}
		}
	}
	for _, v := range ins {
		rec(v)
	}
	return res
}

// appendedValue: the single value appended.
func appendedValue(v ssa.Value) ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var res ssa.Value
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, u2 := range *ia.Referrers() {
			if st, ok := u2.(*ssa.Store); ok {
				if res != nil {
					return nil
				}
				res = st.Val
			}
		}
	}
	return res
}

// memberTest: the key whose presence in a set is asked for.
func memberTest(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		return memberTest(x.X)
	case *ssa.Lookup:
		return x.Index
	case *ssa.Extract:
		if lk, ok := x.Tuple.(*ssa.Lookup); ok {
			return lk.Index
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) == 2 && isAppFn(f) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if lk, ok := in.(*ssa.Lookup); ok && len(f.Params) == 2 && lk.Index == ssa.Value(f.Params[1]) {
						return x.Call.Args[1]
					}
				}
			}
		}
	}
	return nil
}

// setGrows: the loop puts the key into a set.
func (o *ord) setGrows(key ssa.Value, l *Loop) bool {
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Key == key {
					return true
				}
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f == nil || !isAppFn(f) || len(x.Call.Args) != 2 || x.Call.Args[1] != key {
					continue
				}
				for _, fb := range f.Blocks {
					for _, fi := range fb.Instrs {
						if mu, ok := fi.(*ssa.MapUpdate); ok && len(f.Params) == 2 && mu.Key == ssa.Value(f.Params[1]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func appended(ph *ssa.Phi, ins []ssa.Value, l *Loop) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if x == ph || !l.Blocks[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return true
			}
		}
		return false
	}
	for _, v := range ins {
		if rec(v) {
			return true
		}
	}
	return false
}

func concatenated(ph *ssa.Phi, l *Loop) bool {
	if ph.Referrers() == nil {
		return false
	}
	for _, u := range *ph.Referrers() {
		if !l.Blocks[u.Block()] {
			continue
		}
		switch x := u.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD {
				return true
			}
		case *ssa.MakeInterface:
			return true
		}
	}
	return false
}

func accumulates(ph *ssa.Phi, l *Loop) bool {
	for _, u := range *ph.Referrers() {
		if bo, ok := u.(*ssa.BinOp); ok && l.Blocks[u.Block()] && (bo.Op == token.ADD || bo.Op == token.SUB || bo.Op == token.OR || bo.Op == token.MUL) {
			return true
		}
	}
	return false
}

// comparedIn: the variable takes part in a comparison by order in the loop.
func comparedIn(ph *ssa.Phi, l *Loop) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if !l.Blocks[u.Block()] {
				continue
			}
			switch x := u.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ:
					return true
				}
			case *ssa.Call: // a helper deciding
				return true
			case *ssa.Phi, *ssa.UnOp, *ssa.FieldAddr, *ssa.Convert:
				if rec(x.(ssa.Value)) {
					return true
				}
			}
		}
		return false
	}
	return rec(ph)
}

// effectDeep: the call, or something it calls, has an effect outside.
func (o *ord) effectDeep(x *ssa.Call, d int, seen map[*ssa.Function]bool) string {
	if e := o.effect(x); e != "" {
		return e
	}
	f := x.Call.StaticCallee()
	var fs []*ssa.Function
	if f != nil {
		fs = append(fs, f)
	} else if x.Call.IsInvoke() {
		fs = o.implementers(x.Call.Value.Type(), x.Call.Method)
	}
	for _, f := range fs {
		if d > 5 || seen[f] || !isAppFn(f) {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if e := o.effectDeep(c, d+1, seen); e != "" {
						return e
					}
				}
			}
		}
	}
	return ""
}

// within: what a function called in an unordered loop leaves behind.
func (o *ord) within(fn *ssa.Function, x *ssa.Call, turn map[ssa.Value]bool, d int) {
	f := x.Call.StaticCallee()
	if f == nil || d > 3 || !isAppFn(f) || len(f.Blocks) == 0 {
		return
	}
	inner := map[ssa.Value]bool{}
	for i, p := range f.Params {
		if i < len(x.Call.Args) && turn[x.Call.Args[i]] {
			inner[p] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || inner[v] {
					continue
				}
				var ops [10]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if *op != nil && inner[*op] {
						inner[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if fa, ok := y.Addr.(*ssa.FieldAddr); ok && grows(y.Val, y.Addr) && !inner[fa.X] && fromOutside(fa.X) {
					o.markField(fieldKey(fa.X, fa.Field))
				}
			case *ssa.MapUpdate:
				if ld, ok := y.Map.(*ssa.UnOp); ok && growsEntry(y) && fromOutside(y.Map) {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && !inner[fa.X] {
						o.markField(fieldKey(fa.X, fa.Field))
					}
				}
			case *ssa.Call:
				o.within(f, y, inner, d+1)
			}
		}
	}
}

// fromOutside: a parameter or captured variable.
func fromOutside(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
			return true
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func isAppFn(f *ssa.Function) bool {
	p := pkgPathOf(f)
	return isRepoPkg(p) && !isSupportPkg(p)
}

// implementers: the methods of this repository an interface call may run.
func (o *ord) implementers(t types.Type, m *types.Func) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	for _, ct := range o.w.P.concreteTypes() {
		if types.Implements(ct, it) {
			if f := o.w.P.SSA.LookupMethod(ct, m.Pkg(), m.Name()); f != nil {
				res = append(res, f)
			}
		}
	}
	return res
}

// equalityOnly: the predicate handed over compares a member with something given.
func equalityOnly(c *ssa.Call) bool {
	for _, x := range c.Call.Args {
		var fn *ssa.Function
		switch v := x.(type) {
		case *ssa.MakeClosure:
			fn, _ = v.Fn.(*ssa.Function)
		case *ssa.Function:
			fn = v
		}
		if fn == nil || len(fn.Blocks) != 1 {
			continue
		}
		ret, ok := lastInstr(fn.Blocks[0]).(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		if b, ok := ret.Results[0].(*ssa.BinOp); ok && b.Op == token.EQL {
			return true
		}
	}
	return false
}
