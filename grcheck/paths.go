package main

import (
	"go/constant"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Out is one way through a function (or one turn of a loop): what is known on it and what it returns.
type Out struct {
	Facts []Fact
	Alls  []Quant
	Vals  []*Term // returned values
	Ret   *ssa.Return
	Seen  map[*ssa.BasicBlock]bool
	Env   map[*ssa.Phi]ssa.Value
}

// Quant: every turn of a completed loop went one of these ways.
type Quant struct {
	Loop *LoopCtx
	Alts []Out
}

type pathEnum struct {
	a     *Analysis
	left  int // budget
	over  bool
	depth int
}

func (o Out) with(p Out) (Out, bool) {
	n := Out{Vals: o.Vals, Ret: o.Ret, Seen: o.Seen, Env: o.Env}
	n.Facts = append(append([]Fact{}, o.Facts...), p.Facts...)
	n.Alls = append(append([]Quant{}, o.Alls...), p.Alls...)
	for _, f := range p.Facts {
		for _, g := range o.Facts {
			if f.T == g.T && f.True != g.True && len(f.Loops) == 0 && len(g.Loops) == 0 {
				return n, false
			}
		}
	}
	return n, true
}

func (o Out) known(f func(Fact) bool) bool {
	for _, x := range o.Facts {
		if f(x) {
			return true
		}
	}
	return false
}

// outcomes lists the ways a function can return.
func (a *Analysis) outcomes(fr *Frame) ([]Out, bool) {
	p := &pathEnum{a: a, left: 20000}
	res := p.fn(fr)
	return res, !p.over
}

// turns lists the ways one turn of a loop can go: completed (back at the header) or left early.
func (a *Analysis) turns(lc *LoopCtx) (done, left []Out, ok bool) {
	p := &pathEnum{a: a, left: 20000}
	if lc.L == nil || lc.L.Body == nil {
		return nil, nil, false
	}
	for _, o := range p.from(lc.Fr, lc.L.Body, lc.L.Header, lc.L, Out{}) {
		if o.Ret == nil {
			done = append(done, o)
		} else {
			left = append(left, o)
		}
	}
	// turns that leave the loop
	for _, o := range p.leaving(lc.Fr, lc.L) {
		left = append(left, o)
	}
	return done, left, !p.over
}

func (p *pathEnum) fn(fr *Frame) []Out {
	if p.depth > 10 || len(fr.Fn.Blocks) == 0 {
		p.over = true
		return nil
	}
	p.depth++
	defer func() { p.depth-- }()
	var res []Out
	p.dfs(fr, fr.Fn.Blocks[0], nil, nil, Out{}, func(o Out) {
		if o.Ret != nil {
			res = append(res, o)
		}
	})
	return res
}

// from: ways from block b back to the header of l.
func (p *pathEnum) from(fr *Frame, b, prev *ssa.BasicBlock, l *Loop, o Out) []Out {
	var res []Out
	p.dfs(fr, b, prev, l, o, func(x Out) {
		if x.Ret == nil {
			res = append(res, x)
		}
	})
	return res
}

// leaving: turns that leave l otherwise than by its test (returns are followed, breaks end there).
func (p *pathEnum) leaving(fr *Frame, l *Loop) []Out {
	var res []Out
	p.walk(fr, l.Body, l.Header, l, true, Out{}, func(x Out) {
		res = append(res, x)
	})
	return res
}

func (p *pathEnum) dfs(fr *Frame, b, prev *ssa.BasicBlock, within *Loop, o Out, emit func(Out)) {
	p.walk(fr, b, prev, within, false, o, emit)
}

// walk enumerates paths; within a loop, completed turns are emitted (leave false) or ways out of it (leave true).
func (p *pathEnum) walk(fr *Frame, b, prev *ssa.BasicBlock, within *Loop, leave bool, o Out, emit func(Out)) {
	if p.over {
		return
	}
	if p.left--; p.left < 0 {
		p.over = true
		return
	}
	if within != nil && b == within.Header {
		if !leave {
			n := o
			n.Env = p.phis(fr, b, prev, o.Env)
			emit(n)
		}
		return
	}
	if within != nil && !within.Blocks[b] && leave {
		if _, ok := lastInstr(b).(*ssa.Return); !ok || len(b.Preds) > 1 {
			emit(o)
			return
		}
	}
	if within != nil && !within.Blocks[b] && !leave {
		return
	}
	if o.Seen[b] {
		return
	}
	n := Out{Facts: o.Facts, Alls: o.Alls, Seen: map[*ssa.BasicBlock]bool{b: true}}
	for k := range o.Seen {
		n.Seen[k] = true
	}
	n.Env = p.phis(fr, b, prev, o.Env)
	ci := cfgOf(fr.Fn)
	var loop *Loop
	for _, l := range ci.loops {
		if l.Header == b && l.Done != nil {
			loop = l
		}
	}
	if loop != nil && (prev == nil || !loop.Blocks[prev]) {
		p.loop(fr, b, loop, within, leave, n, emit)
		return
	}
	switch x := lastInstr(b).(type) {
	case *ssa.Return:
		n.Ret = x
		for _, v := range x.Results {
			n.Vals = append(n.Vals, p.value(fr, n.Env, v))
		}
		emit(n)
	case *ssa.If:
		for k, s := range b.Succs {
			for _, c := range p.cond(fr, n.Env, x.Cond, k == 0) {
				if m, ok := n.with(c); ok {
					p.walk(fr, s, b, within, leave, m, emit)
				}
			}
		}
	case *ssa.Panic:
	default:
		for _, s := range b.Succs {
			p.walk(fr, s, b, within, leave, n, emit)
		}
	}
}

func (p *pathEnum) loop(fr *Frame, b *ssa.BasicBlock, l *Loop, within *Loop, leave bool, n Out, emit func(Out)) {
	lc := fr.loopCtx(l)
	// values chosen at the header before the first turn
	turns := p.from(fr, l.Body, b, l, Out{Env: dropPhis(n.Env, b)})
	// (1) all turns completed. A boolean of the header keeps its first value unless a turn changed it.
	var flags []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if c, ok := n.Env[ph].(*ssa.Const); ok && c.Value != nil && basicBool(ph) {
			flags = append(flags, ph)
		}
	}
	// split turns by the outcome of booleans they compute
	for _, f := range flags {
		var split []Out
		for _, t := range turns {
			v := t.Env[f]
			if _, isC := v.(*ssa.Const); isC || v == nil || v == ssa.Value(f) {
				split = append(split, t)
				continue
			}
			for _, pol := range []bool{true, false} {
				for _, c := range p.cond(fr, t.Env, v, pol) {
					if x, ok := t.with(c); ok {
						x.Env = dropPhisExcept(t.Env, nil, nil)
						x.Env[f] = ssa.NewConst(constant.MakeBool(pol), f.Type())
						split = append(split, x)
					}
				}
			}
		}
		turns = split
	}
	first := func(f *ssa.Phi) bool { return constant.BoolVal(n.Env[f].(*ssa.Const).Value) }
	// keeps: 1 unchanged, 0 changed, -1 back to the first value
	keeps := func(t Out, f *ssa.Phi) int {
		v := t.Env[f]
		if v == ssa.Value(f) || v == nil {
			return 1
		}
		if constant.BoolVal(v.(*ssa.Const).Value) != first(f) {
			return 0
		}
		ft := fr.eval(f)
		if t.known(func(x Fact) bool { return x.T == ft && x.True == first(f) }) {
			return 1
		}
		return -1
	}
	later := func(t Out) bool { // possible only after an earlier turn changed something
		for _, f := range flags {
			ft := fr.eval(f)
			if t.known(func(x Fact) bool { return x.T == ft && x.True != first(f) }) {
				return true
			}
		}
		return false
	}
	var same []Out
	back := false
	for _, t := range turns {
		all := !later(t)
		for _, f := range flags {
			k := keeps(t, f)
			all = all && k != 0
			back = back || k < 0
		}
		if all {
			same = append(same, t)
		}
	}
	m := n
	if !back {
		m.Alls = append(append([]Quant{}, n.Alls...), Quant{lc, same})
	} else {
		all := true
		for _, f := range flags {
			for _, t := range turns {
				all = all && keeps(t, f) != 0
			}
		}
		if all {
			m.Alls = append(append([]Quant{}, n.Alls...), Quant{lc, same})
		}
	}
	m.Env = dropPhisExcept(n.Env, b, flags)
	p.walk(fr, l.Done, b, within, leave, m, emit)
	for _, t := range turns {
		if later(t) {
			continue
		}
		changed := false
		for _, f := range flags {
			changed = changed || keeps(t, f) == 0
		}
		if !changed {
			continue
		}
		if x, ok := n.with(Out{Facts: t.Facts, Alls: t.Alls}); ok {
			x.Seen = union(n.Seen, t.Seen)
			x.Env = dropPhisExcept(n.Env, b, nil)
			for _, f := range flags {
				if c, ok := t.Env[f].(*ssa.Const); ok {
					x.Env[f] = c
				}
			}
			p.walk(fr, l.Done, b, within, leave, x, emit)
		}
	}
	// (2) a turn that leaves the loop by itself
	e := n
	e.Env = dropPhis(n.Env, b)
	for _, lo := range p.breaks(fr, l, e) {
		if lo.Ret != nil {
			emit(lo.Out)
			continue
		}
		p.walk(fr, lo.next, lo.last, within, leave, lo.Out, emit)
	}
}

type brk struct {
	Out
	next, last *ssa.BasicBlock
}

// breaks: ways out of a loop from inside a turn.
func (p *pathEnum) breaks(fr *Frame, l *Loop, e Out) []brk {
	var res []brk
	var visit func(b, prev *ssa.BasicBlock, o Out)
	visit = func(b, prev *ssa.BasicBlock, o Out) {
		if p.left--; p.left < 0 {
			p.over = true
		}
		if p.over || b == l.Header || o.Seen[b] {
			return
		}
		if !l.Blocks[b] {
			res = append(res, brk{o, b, prev})
			return
		}
		n := Out{Facts: o.Facts, Alls: o.Alls, Seen: map[*ssa.BasicBlock]bool{b: true}}
		for k := range o.Seen {
			n.Seen[k] = true
		}
		n.Env = p.phis(fr, b, prev, o.Env)
		var inner *Loop
		for _, x := range cfgOf(fr.Fn).loops {
			if x.Header == b && x.Done != nil && x != l {
				inner = x
			}
		}
		if inner != nil && !inner.Blocks[prev] {
			lc := fr.loopCtx(inner)
			turns := p.from(fr, inner.Body, b, inner, Out{Env: dropPhis(n.Env, b)})
			m := n
			m.Alls = append(append([]Quant{}, n.Alls...), Quant{lc, turns})
			m.Env = dropPhis(n.Env, b)
			visit(inner.Done, b, m)
			x := n
			x.Env = dropPhis(n.Env, b)
			for _, br := range p.breaks(fr, inner, x) {
				visit(br.next, br.last, br.Out)
			}
			return
		}
		switch x := lastInstr(b).(type) {
		case *ssa.If:
			for k, s := range b.Succs {
				for _, c := range p.cond(fr, n.Env, x.Cond, k == 0) {
					if m, ok := n.with(c); ok {
						visit(s, b, m)
					}
				}
			}
		case *ssa.Return:
			n.Ret = x
			for _, v := range x.Results {
				n.Vals = append(n.Vals, p.value(fr, n.Env, v))
			}
			res = append(res, brk{n, nil, nil})
		case *ssa.Panic:
		default:
			for _, s := range b.Succs {
				visit(s, b, n)
			}
		}
	}
	visit(l.Body, l.Header, e)
	return res
}

func basicBool(v ssa.Value) bool { return v.Type().Underlying().String() == "bool" }

func dropPhis(env map[*ssa.Phi]ssa.Value, b *ssa.BasicBlock) map[*ssa.Phi]ssa.Value {
	return dropPhisExcept(env, b, nil)
}

func dropPhisExcept(env map[*ssa.Phi]ssa.Value, b *ssa.BasicBlock, keep []*ssa.Phi) map[*ssa.Phi]ssa.Value {
	n := map[*ssa.Phi]ssa.Value{}
	for k, v := range env {
		if k.Block() != b {
			n[k] = v
		}
	}
	for _, k := range keep {
		n[k] = env[k]
	}
	return n
}

// phis: the values variables get when entering b from prev.
func (p *pathEnum) phis(fr *Frame, b, prev *ssa.BasicBlock, env map[*ssa.Phi]ssa.Value) map[*ssa.Phi]ssa.Value {
	n := map[*ssa.Phi]ssa.Value{}
	for k, v := range env {
		n[k] = v
	}
	if prev == nil {
		return n
	}
	idx := -1
	for i, x := range b.Preds {
		if x == prev {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if idx >= 0 {
			v := ph.Edges[idx]
			if q, ok := v.(*ssa.Phi); ok && env[q] != nil {
				v = env[q]
			}
			n[ph] = v
		}
	}
	return n
}

func (p *pathEnum) chosen(env map[*ssa.Phi]ssa.Value, v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		ph, ok := v.(*ssa.Phi)
		if !ok || env[ph] == nil || env[ph] == v {
			return v
		}
		v = env[ph]
	}
	return v
}

func (p *pathEnum) value(fr *Frame, env map[*ssa.Phi]ssa.Value, v ssa.Value) *Term {
	v = p.chosen(env, v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return p.a.mk("unop", "!", 0, nil, p.value(fr, env, u.X))
	}
	return fr.eval(v)
}

// cond: the ways a condition can have the given outcome.
func (p *pathEnum) cond(fr *Frame, env map[*ssa.Phi]ssa.Value, v ssa.Value, pol bool) []Out {
	v = p.chosen(env, v)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return p.cond(fr, env, u.X, !pol)
	}
	return p.lit(fr.eval(v), pol)
}

func (p *pathEnum) lit(t *Term, pol bool) []Out {
	for t.Op == "unop" && t.S == "!" {
		t, pol = t.Args[0], !pol
	}
	if b, ok := t.isConstBool(); ok {
		if b == pol {
			return []Out{{}}
		}
		return nil
	}
	self := Out{Facts: []Fact{{T: t, True: pol}}}
	call, slot := t, 0
	if t.Op == "res" {
		call, slot = t.Args[0], t.Idx
	}
	if call.Op == "call" && len(call.Inls) > 0 && t.T != nil && t.T.Underlying().String() == "bool" {
		var res []Out
		for _, fr := range call.Inls {
			for _, o := range p.fn(fr) {
				if slot >= len(o.Vals) {
					continue
				}
				for _, c := range p.lit(o.Vals[slot], pol) {
					if m, ok := o.with(c); ok {
						if m, ok = m.with(self); ok {
							m.Vals, m.Ret = nil, nil
							res = append(res, m)
						}
					}
				}
			}
		}
		return res
	}
	return []Out{self}
}

func union(x, y map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]bool{}
	for k := range x {
		r[k] = true
	}
	for k := range y {
		r[k] = true
	}
	return r
}
