package main

import (
	"fmt"
	"go/constant"
)

func (a *Analysis) constInt(n int) *Term {
	c := constant.MakeInt64(int64(n))
	t := a.mk("const", c.ExactString(), int(c.Kind()), nil)
	t.C = c
	return t
}

// subst rewrites a value for one known element of a loop.
func (a *Analysis) subst(t *Term, m map[*Term]*Term, depth int) *Term {
	if n, ok := m[t]; ok {
		return n
	}
	if depth > 24 {
		return t
	}
	if rs := a.resolve(t); len(rs) != 1 || rs[0] != t {
		var out []*Term
		for _, x := range rs {
			if x == t {
				return t
			}
			out = append(out, a.subst(x, m, depth+1))
		}
		if len(out) == 1 {
			return out[0]
		}
		return a.alts(out...)
	}
	switch t.Op {
	case "binop", "unop", "field", "res", "index", "conv", "slice", "assert", "load", "addr", "iaddr", "mapget", "elem", "alts":
	case "call":
		if len(t.Inls) > 0 || len(t.CB) > 0 {
			return t
		}
	default:
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, x := range t.Args {
		args[i] = a.subst(x, m, depth+1)
		changed = changed || args[i] != x
	}
	if !changed {
		return t
	}
	var n *Term
	switch t.Op {
	case "call":
		n = a.mk("call", fmt.Sprintf("%s@%d", t.Callee, t.ID), 0, t.Loop, args...)
		n.Callee, n.Val, n.Fr = t.Callee, t.Val, t.Fr
	case "field":
		n = a.field(args[0], t.S)
	default:
		n = a.mk(t.Op, t.S, t.Idx, t.Loop, args...)
	}
	if n.T == nil {
		n.T = t.T
	}
	return n
}

// unroll writes out the turns of loops over literal collections.
func (a *Analysis) unroll(items []*SeqItem) []*SeqItem {
	var res []*SeqItem
	for _, it := range items {
		if len(it.Loops) == 0 || it.Part || it.Loops[0].Part || it.Loops[0].Coll == nil || it.Splat && len(it.Loops) > 0 {
			res = append(res, it)
			continue
		}
		lp := it.Loops[0]
		if lp.L != nil && lp.L.Kind != "slice" || lp.Rev || it.Rev {
			res = append(res, it)
			continue
		}
		els, ok := a.elements(lp.Coll)
		for _, e := range els {
			ok = ok && e != nil
		}
		if !ok || len(els) > 32 {
			res = append(res, it)
			continue
		}
		for k, e := range els {
			m := map[*Term]*Term{
				a.mk("elem", "", 0, lp, lp.Coll): e,
				a.mk("rangeidx", "", 0, lp):      a.constInt(k),
			}
			n := *it
			n.Loops = it.Loops[1:]
			n.Body = a.subst(it.Body, m, 0)
			n.Conds = nil
			for _, c := range it.Conds {
				if c.T != nil {
					c.T = a.subst(c.T, m, 0)
				}
				n.Conds = append(n.Conds, c)
			}
			res = append(res, &n)
		}
	}
	return res
}
