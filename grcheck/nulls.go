package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists that never come out empty, whatever the input: the columns of a candidate and the hours of a period. They may
// be built from nothing, as something is always added.
var neverEmpty = map[string]bool{"columns": true, "sqlDbLoads": true, "tokenizedSqlDbLoads": true}

type reqList struct {
	typ, field, path, name string
}

// nullable decides whether a value may be a nil list where it is used.
type nullable struct {
	a    *Analysis
	seen map[string]bool
}

// where v is nil: the instruction leaving it so, or "".
func (k *nullable) may(fr *Frame, v ssa.Value, at *ssa.BasicBlock, depth int) (token.Pos, bool) {
	if depth > 40 || fr == nil {
		return 0, false
	}
	if k.guarded(v, at) {
		return 0, false
	}
	key := fr.String() + "|" + v.Name()
	if k.seen[key] {
		return 0, false
	}
	k.seen[key] = true
	defer delete(k.seen, key)
	switch x := v.(type) {
	case *ssa.Const:
		return 0, x.Value == nil
	case *ssa.MakeSlice, *ssa.Alloc:
		return 0, false
	case *ssa.ChangeType:
		return k.may(fr, x.X, at, depth+1)
	case *ssa.Convert:
		return k.may(fr, x.X, at, depth+1)
	case *ssa.Slice:
		return k.may(fr, x.X, at, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if n := notNilBranch(pred, e); n >= 0 && pred.Succs[n] == x.Block() {
				continue
			}
			if isNilConst(e) && k.turnsOnce(x, pred) {
				continue
			}
			if p, bad := k.may(fr, e, x.Block().Preds[i], depth+1); bad {
				if p == 0 {
					p = x.Pos()
				}
				return p, true
			}
		}
	case *ssa.Parameter:
		if fr.Parent == nil || fr.Site == nil || fr.CBLoop != nil {
			return 0, false
		}
		for i, p := range fr.Fn.Params {
			args := fr.Site.Common().Args
			if p == x && !fr.Site.Common().IsInvoke() && i < len(args) && len(args) == len(fr.Fn.Params) {
				p, bad := k.may(fr.Parent, args[i], fr.Site.Block(), depth+1)
				if bad && p == 0 {
					p = fr.Site.Pos()
				}
				return p, bad
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return k.call(fr, c, x.Index, at, depth)
		}
	case *ssa.Call:
		return k.call(fr, x, 0, at, depth)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return 0, false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			name := fieldNameOf(fa.X.Type(), fa.Field)
			for _, o := range k.a.resolve(fr.eval(fa.X)) {
				if o.Op != "obj" {
					continue
				}
				if p, bad := k.member(o, name, depth+1); bad {
					return p, true
				}
			}
		}
	}
	return 0, false
}

func (k *nullable) call(fr *Frame, c *ssa.Call, idx int, at *ssa.BasicBlock, depth int) (token.Pos, bool) {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() != "append" || len(c.Call.Args) != 2 {
			return 0, false
		}
		if sl, ok := c.Call.Args[1].(*ssa.Slice); ok {
			if _, ok := sl.X.(*ssa.Alloc); ok {
				return 0, false // single elements
			}
		}
		if _, bad := k.may(fr, c.Call.Args[1], at, depth+1); !bad {
			return 0, false
		}
		return k.may(fr, c.Call.Args[0], at, depth+1)
	}
	t := fr.eval(c)
	inls := t.Inls
	if len(inls) == 0 {
		for _, f := range k.a.Frames {
			if f.Parent == fr && f.Site == ssa.CallInstruction(c) && f.CBLoop == nil {
				inls = append(inls, f)
			}
		}
	}
	for _, f := range inls {
		for _, b := range f.Fn.Blocks {
			rt, ok := lastInstr(b).(*ssa.Return)
			if !ok || idx >= len(rt.Results) {
				continue
			}
			// results that accompany a failure are not used
			if n := len(rt.Results); n > 1 && idx < n-1 {
				if e, isC := rt.Results[n-1].(*ssa.Const); !isC || e.Value != nil {
					if isErrType(rt.Results[n-1].Type()) && !isC {
						if cst, isN := rt.Results[idx].(*ssa.Const); isN && cst.Value == nil {
							continue
						}
					}
				}
			}
			if p, bad := k.may(f, rt.Results[idx], b, depth+1); bad {
				if p == 0 {
					p = rt.Pos()
				}
				return p, true
			}
		}
	}
	if len(inls) > 0 {
		return 0, false
	}
	if f := c.Call.StaticCallee(); f != nil && pkgPathOf(f) == "github.com/samber/lo" {
		switch originName(f) {
		case "Reverse", "Shuffle":
			return k.may(fr, c.Call.Args[0], at, depth+1)
		}
	}
	return 0, false
}

func originName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.Name()
	}
	return f.Name()
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// member: the named member of the object may be nil.
func (k *nullable) member(o *Term, name string, depth int) (token.Pos, bool) {
	in := instrOf(o)
	if in == nil {
		return 0, false
	}
	set := false
	for _, s := range k.a.heap[o][name] {
		st, ok := s.In.(*ssa.Store)
		if !ok {
			if s.In != nil && s.In.Block() == in.Block() {
				set = true
			}
			continue
		}
		if s.Zero {
			continue
		}
		if s.Fr == o.Fr && (st.Block() == in.Block() || in.Block().Dominates(st.Block()) && everyExit(in.Block(), st.Block())) {
			set = true
		}
		p, bad := k.may(s.Fr, st.Val, st.Block(), depth+1)
		if bad {
			if p == 0 {
				p = st.Pos()
			}
			return p, true
		}
	}
	if len(k.a.heap[o]["*"]) > 0 {
		return 0, false // copied as a whole
	}
	if !set {
		return in.Pos(), true
	}
	return 0, false
}

// everyExit: every way from a to a return leads through b.
func everyExit(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{b: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if _, ok := lastInstr(x).(*ssa.Return); ok {
			return false
		}
		for _, s := range x.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(a)
}

// guarded: on all ways to the block the value is known not to be nil.
func (k *nullable) guarded(v ssa.Value, at *ssa.BasicBlock) bool {
	for d := at; d != nil && d.Idom() != nil; d = d.Idom() {
		pr := d.Idom()
		if n := notNilBranch(pr, v); n >= 0 && pr.Succs[n] == d && len(d.Preds) == 1 {
			return true
		}
	}
	return false
}

// notNilBranch: the successor of b on which v is known not to be nil, or -1.
func notNilBranch(b *ssa.BasicBlock, v ssa.Value) int {
	iff, ok := lastInstr(b).(*ssa.If)
	if !ok || len(b.Succs) != 2 || b.Succs[0] == b.Succs[1] {
		return -1
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return -1
	}
	x, y, op := c.X, c.Y, c.Op
	isLen := false
	if p := lenOperand(x); p != nil {
		x, isLen = p, true
	}
	k, ok := y.(*ssa.Const)
	if !ok || x != v && !(isNilConst(x) && isNilConst(v)) {
		return -1
	}
	switch {
	case !isLen && k.Value == nil && op == token.NEQ, isLen && isIntConst(y, 0) && (op == token.NEQ || op == token.GTR), isLen && isIntConst(y, 1) && op == token.GEQ:
		return 0
	case !isLen && k.Value == nil && op == token.EQL, isLen && isIntConst(y, 0) && (op == token.EQL || op == token.LEQ), isLen && isIntConst(y, 1) && op == token.LSS:
		return 1
	}
	return -1
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func lenOperand(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}

// turnsOnce: the block heads a loop over a list which is known not to be empty when it is reached from pred, so that
// values of the entry do not come out of the loop.
func (k *nullable) turnsOnce(x *ssa.Phi, pred *ssa.BasicBlock) bool {
	h := x.Block()
	iff, ok := lastInstr(h).(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	p := lenOperand(c.Y)
	if p == nil {
		return false
	}
	back := false
	for i, e := range x.Edges {
		if h.Preds[i] == pred {
			continue
		}
		// leaving turns add something
		ap, ok := e.(*ssa.Call)
		if !ok {
			return false
		}
		if b, ok := ap.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			return false
		}
		if !h.Dominates(h.Preds[i]) {
			return false
		}
		back = true
	}
	return back && (k.guarded(p, pred) || k.guarded(p, h))
}

// checkNulls: lists the client needs are never encoded as null.
func (w *World) checkNulls(r *Report, lists []reqList) {
	a := w.A
	sort.Slice(lists, func(i, j int) bool { return lists[i].path < lists[j].path })
	done := map[string]bool{}
	for _, l := range lists {
		id := l.typ + "." + l.field
		if done[id] || neverEmpty[l.name] {
			continue
		}
		done[id] = true
		var objs []*Term
		for o := range a.heap {
			if o.Op == "obj" && o.Fr != nil && o.T != nil && namedOf(o.T) == l.typ && structOf(o.T) != nil && len(a.heap[o]) > 0 && !strings.HasPrefix(o.T.Underlying().String(), "**") {
				objs = append(objs, o)
			}
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].ID < objs[j].ID })
		for _, o := range objs {
			r.count("lists the client needs", 1)
			k := &nullable{a: a, seen: map[string]bool{}}
			if pos, bad := k.member(o, l.field, 0); bad {
				r.failAt(w.P.pos(pos), o.Fr.String(), "the client needs %s, which is null when nothing is added to it (made at %s)", l.path, w.P.pos(o.Val.Pos()))
			}
		}
	}
}
