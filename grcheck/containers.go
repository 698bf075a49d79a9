package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkContainer: the methods of a heap (as container/heap wants them) or a stack keep all elements, on every way.
func (w *World) checkContainer(r *Report, t types.Type) {
	var pkg *types.Package
	n, ok := deptr(t).(*types.Named)
	if !ok {
		return
	}
	pkg = n.Obj().Pkg()
	if pkg == nil || !isOurs(pkg.Path()) {
		return
	}
	if _, isPtr := t.(*types.Pointer); !isPtr {
		t = types.NewPointer(t)
	}
	for _, name := range []string{"Swap", "Push", "Pop", "Top", "Len", "Size"} {
		sel := w.P.SSA.MethodSets.MethodSet(t).Lookup(pkg, name)
		if sel == nil {
			continue
		}
		fn := w.P.SSA.MethodValue(sel)
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		if fn.Synthetic != "" && fn.Origin() == nil {
			continue // promoted or wrapped: judged at its own type
		}
		r.count("container methods", 1)
		w.checkContainerMethod(r, fn, name)
	}
}

func isOurs(p string) bool {
	return p == modPath || len(p) > len(modPath) && p[:len(modPath)+1] == modPath+"/"
}

// recvSlice: v is the slice kept in a member of the receiver, as it was on entry.
func recvSlice(fn *ssa.Function, v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		f, isF := v.(*ssa.Field)
		return isF && f.X == ssa.Value(fn.Params[0])
	}
	switch x := ld.X.(type) {
	case *ssa.FieldAddr:
		return x.X == ssa.Value(fn.Params[0])
	case *ssa.Parameter:
		return x == fn.Params[0]
	}
	return false
}

func isLenOf(fn *ssa.Function, v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && recvSlice(fn, c.Call.Args[0])
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	k, ok := constant.Int64Val(c.Value)
	return ok && k == n
}

// fromLast: len(slice) - k; ok if the index is understood.
func fromLast(fn *ssa.Function, v ssa.Value) (k int64, ok bool) {
	if isLenOf(fn, v) {
		return 0, true
	}
	b, isB := v.(*ssa.BinOp)
	if !isB || b.Op != token.SUB {
		return 0, false
	}
	base, ok := fromLast(fn, b.X)
	c, isC := b.Y.(*ssa.Const)
	if !ok || !isC || c.Value == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(c.Value)
	return base + n, ok
}

func (w *World) checkContainerMethod(r *Report, fn *ssa.Function, name string) {
	p := fn.Params
	var stores []*ssa.Store
	var rets []*ssa.Return
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch ad := x.Addr.(type) {
				case *ssa.FieldAddr:
					if ad.X == ssa.Value(p[0]) {
						stores = append(stores, x)
					}
				case *ssa.IndexAddr:
					if recvSlice(fn, ad.X) {
						stores = append(stores, x)
					}
				case *ssa.Parameter:
					if ad == p[0] {
						stores = append(stores, x)
					}
				}
			case *ssa.Return:
				rets = append(rets, x)
			}
		}
	}
	// done: the instruction is carried out before every return, but for ways with guard
	done := func(in ssa.Instruction, skip func(*ssa.Return) bool) bool {
		for _, rt := range rets {
			if !in.Block().Dominates(rt.Block()) && !skip(rt) {
				return false
			}
		}
		return true
	}
	never := func(*ssa.Return) bool { return false }
	switch name {
	case "Swap":
		if len(p) != 3 || len(stores) == 0 {
			return
		}
		// ways on which both are the same need no exchange
		same := func(b *ssa.BasicBlock, in *ssa.Store) bool {
			for d := in.Block(); d != nil; d = d.Idom() {
				pr := d.Idom()
				if pr == nil {
					break
				}
				iff, ok := lastInstr(pr).(*ssa.If)
				if !ok || len(pr.Succs) != 2 {
					continue
				}
				c, ok := iff.Cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				ij := c.X == ssa.Value(p[1]) && c.Y == ssa.Value(p[2]) || c.X == ssa.Value(p[2]) && c.Y == ssa.Value(p[1])
				if !ij || !(c.Op == token.NEQ && pr.Succs[0] == d || c.Op == token.EQL && pr.Succs[1] == d) {
					return false
				}
			}
			return true
		}
		to := map[ssa.Value]bool{}
		for _, s := range stores {
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if !done(s, never) && !same(nil, s) {
				r.fail(s.Pos(), "elements are not always exchanged: the order of what is kept is wrong")
				return
			}
			to[ia.Index] = true
			if ld, isLd := s.Val.(*ssa.UnOp); isLd {
				if src, isIA := ld.X.(*ssa.IndexAddr); isIA && recvSlice(fn, src.X) && src.Index == ia.Index {
					r.fail(s.Pos(), "an element is exchanged with itself")
				}
			}
		}
		if len(to) == 1 {
			r.fail(stores[0].Pos(), "one element is overwritten instead of exchanged")
		}
	case "Push":
		if len(p) != 2 {
			return
		}
		app := false
		for _, s := range stores {
			c, ok := s.Val.(*ssa.Call)
			if !ok {
				return
			}
			b, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" {
				return
			}
			if !recvSlice(fn, c.Call.Args[0]) {
				r.fail(s.Pos(), "what was kept before is not kept when an element is added, or not in order")
				return
			}
			if done(s, never) {
				app = true
			}
		}
		if len(stores) > 0 && !app {
			r.fail(stores[0].Pos(), "elements are not always kept")
		}
	case "Pop", "Top":
		for _, rt := range rets {
			if len(rt.Results) != 1 {
				return
			}
			v := rt.Results[0]
			if mi, ok := v.(*ssa.MakeInterface); ok {
				v = mi.X
			}
			ld, ok := v.(*ssa.UnOp)
			if !ok {
				continue
			}
			ia, ok := ld.X.(*ssa.IndexAddr)
			if !ok || !recvSlice(fn, ia.X) {
				continue
			}
			if _, isC := ia.Index.(*ssa.Const); isC {
				r.fail(rt.Pos(), "another element than the last one is given")
			} else if k, ok := fromLast(fn, ia.Index); ok && k != 1 {
				r.fail(rt.Pos(), "another element than the last one is given")
			}
		}
		if name == "Top" {
			for _, s := range stores {
				r.fail(s.Pos(), "looking at the last element changes what is kept")
			}
			return
		}
		empty := func(rt *ssa.Return) bool {
			c, ok := rt.Results[0].(*ssa.Const)
			return ok && c.Value == nil
		}
		cut := false
		for _, s := range stores {
			sl, ok := s.Val.(*ssa.Slice)
			if !ok {
				if _, isIA := s.Addr.(*ssa.IndexAddr); isIA {
					continue // clearing the slot
				}
				return
			}
			if !recvSlice(fn, sl.X) {
				return
			}
			if sl.Low != nil && !isIntConst(sl.Low, 0) {
				r.fail(s.Pos(), "the first element is removed instead of the last one")
				return
			}
			if sl.High != nil {
				if k, ok := fromLast(fn, sl.High); ok && k != 1 {
					r.fail(s.Pos(), "not exactly the last element is removed")
					return
				}
			}
			if done(s, empty) || onlyEmptiness(fn, s.Block()) {
				cut = true
			}
		}
		if len(stores) > 0 && !cut {
			r.fail(stores[0].Pos(), "the last element is not always removed")
		}
	case "Len", "Size":
		for _, rt := range rets {
			if len(rt.Results) == 1 {
				if k, ok := fromLast(fn, rt.Results[0]); ok && k != 0 {
					r.fail(rt.Pos(), "the number of elements is wrong")
				}
			}
		}
	}
}

// onlyEmptiness: whether the block is reached depends on nothing but whether something is kept.
func onlyEmptiness(fn *ssa.Function, b *ssa.BasicBlock) bool {
	for d := b; d.Idom() != nil; d = d.Idom() {
		iff, ok := lastInstr(d.Idom()).(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		x, y := c.X, c.Y
		if !isLenOf(fn, x) {
			x, y = y, x
		}
		if !isLenOf(fn, x) || !isIntConst(y, 0) && !(isIntConst(y, 1) && c.Op != token.EQL && c.Op != token.NEQ) {
			return false
		}
	}
	return true
}

// checkCollections: the helpers for sets and lists treat every element alike, however many there are.
func (w *World) checkCollections(r *Report) {
	seen := map[*ssa.Function]bool{}
	commaOk := map[string]bool{}
	soft := map[string]*ssa.MapUpdate{}
	var fns []*ssa.Function
	for _, fr := range w.A.Frames {
		fn := fr.Fn
		if seen[fn] || fn.Origin() == nil || pkgPathOf(fn) != modPath+"/lib" || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}
		seen[fn] = true
		rc := ""
		if v := fn.Signature.Recv(); v != nil {
			rc = namedOf(v.Type())
			if !strings.HasPrefix(rc, modPath+"/lib.Set") {
				continue
			}
		} else if fn.Origin().Name() != "NewSet" && fn.Origin().Name() != "NewSetS" && fn.Origin().Name() != "UniqBy" && fn.Origin().Name() != "SliceOrEmpty" {
			continue
		}
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Lookup:
					if x.CommaOk && fn.Name() == "Contains" {
						commaOk[rc] = true
					}
				case *ssa.MapUpdate:
					if c, ok := x.Value.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
						soft[rc] = x
					}
				}
			}
		}
	}
	for rc, mu := range soft {
		if commaOk[rc] {
			r.fail(mu.Pos(), "an element removed from a set is still found in it")
		}
	}
	for _, fn := range fns {
		r.count("collection helpers", 1)
		w.checkPlain(r, fn)
	}
}

// checkPlain: no element is treated apart for the number of elements or its place.
func (w *World) checkPlain(r *Report, fn *ssa.Function) {
	ranged := map[ssa.Value]bool{}
	ownMap := func(v ssa.Value) bool { return len(fn.Params) > 0 && recvSlice(fn, v) }
	lenArg := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				ranged[x.X] = true
			case *ssa.IndexAddr:
				ranged[x.X] = true
			}
		}
	}
	effects := func() bool {
		switch fn.Origin().Name() {
		case "Add", "Merge", "Delete":
			return true
		}
		return false
	}()
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
				default:
					continue
				}
				l, c := x.X, x.Y
				if _, ok := l.(*ssa.Const); ok {
					l, c = c, l
				}
				k, isC := c.(*ssa.Const)
				if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
					continue
				}
				arg := lenArg(l)
				switch {
				case !isIntConst(c, 0) && !isIntConst(c, 1):
					r.fail(x.Pos(), "elements are treated differently depending on how many there are")
				case arg != nil && isIntConst(c, 1) && !(x.Op == token.LSS || x.Op == token.GEQ):
					r.fail(x.Pos(), "elements are treated differently depending on how many there are")
				case arg != nil && effects && ownMap(arg):
					r.fail(x.Pos(), "an element is only added or removed depending on what the set holds")
				}
			case *ssa.Slice:
				if x.High != nil || x.Low != nil && !isIntConst(x.Low, 0) {
					if _, isAlloc := x.X.(*ssa.Alloc); !isAlloc {
						r.fail(x.Pos(), "part of the elements is left out")
					}
				}
			}
		}
	}
}

// checkStacks: the stacks in use holding elements of the wanted types.
func (w *World) checkStacks(r *Report, want func(string) bool) {
	seen := map[string]bool{}
	for _, fr := range w.A.Frames {
		rc := fr.Fn.Signature.Recv()
		if rc == nil || !strings.HasPrefix(namedOf(rc.Type()), modPath+"/lib.Stack") || seen[rc.Type().String()] {
			continue
		}
		seen[rc.Type().String()] = true
		if want(rc.Type().String()) {
			w.checkContainer(r, rc.Type())
		}
	}
}
