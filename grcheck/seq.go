package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Cond is a condition under which something executes, in its frame.
type Cond struct {
	T       *Term
	True    bool
	Complex bool // several conditions combined; T is unknown
	In      ssa.Instruction
	Fr      *Frame
	CB      []*Frame // predicate of a collection helper that returned True
}

// chain describes how an instruction executes relative to a home position:
// enclosing loops (outermost first) and conditions.
type chain struct {
	Loops []*LoopCtx
	Conds []Cond
}

func isAncestor(x, y *Frame) bool { // x is y or a caller of y
	for f := y; f != nil; f = f.Parent {
		if f == x {
			return true
		}
	}
	return false
}

// execChain: relative to block home of frame homeFr (nil: the whole call path).
func (a *Analysis) execChain(in ssa.Instruction, fr *Frame, homeFr *Frame, home *ssa.BasicBlock) chain {
	// lift home to an ancestor of fr
	for homeFr != nil && !isAncestor(homeFr, fr) {
		if homeFr.Site != nil {
			home = homeFr.Site.Block()
		}
		homeFr = homeFr.Parent
	}
	var parts []chain
	i := in
	for f := fr; f != nil; f = f.Parent {
		var hb *ssa.BasicBlock
		if f == homeFr {
			hb = home
		}
		parts = append(parts, a.localChain(i.Block(), f, hb))
		if f.CBLoop != nil {
			parts = append(parts, chain{Loops: []*LoopCtx{f.CBLoop}})
		}
		if f == homeFr || f.Site == nil {
			break
		}
		i = f.Site
	}
	var res chain
	for k := len(parts) - 1; k >= 0; k-- {
		res.Loops = append(res.Loops, parts[k].Loops...)
		res.Conds = append(res.Conds, parts[k].Conds...)
	}
	return res
}

func domChain(b *ssa.BasicBlock) []*ssa.BasicBlock {
	var res []*ssa.BasicBlock
	for d := b; d != nil; d = d.Idom() {
		res = append(res, d)
	}
	for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
		res[i], res[j] = res[j], res[i]
	}
	return res
}

// localChain: loops and conditions of block b inside its function, leaving out those that also hold at home.
func (a *Analysis) localChain(b *ssa.BasicBlock, f *Frame, home *ssa.BasicBlock) chain {
	ci := cfgOf(f.Fn)
	var res chain
	inHome := func(l *Loop) bool { return home != nil && l.Blocks[home] }
	homeDom := map[*ssa.BasicBlock]bool{}
	if home != nil {
		for d := home; d != nil; d = d.Idom() {
			homeDom[d] = true
		}
	}
	dc := domChain(b)
	start := dc[0]
	var loop *Loop
	stop := func(l *Loop) func(*ssa.BasicBlock) bool {
		if l == nil {
			return func(x *ssa.BasicBlock) bool {
				r, ok := lastInstr(x).(*ssa.Return)
				return ok && ci.retKind(r) != retErr
			}
		}
		return func(x *ssa.BasicBlock) bool { return x == l.Header }
	}
	avoid := func(to *ssa.BasicBlock) bool {
		if start == to {
			return false
		}
		if loop != nil {
			// within the loop: reaching the header again (or leaving through a break) without executing to
			seen := map[*ssa.BasicBlock]bool{}
			st := []*ssa.BasicBlock{start}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if seen[x] || x == to || ci.errOnly[x] {
					continue
				}
				seen[x] = true
				if x == loop.Header {
					return true
				}
				if !loop.Blocks[x] {
					continue // early exits are reported through LoopCtx.Part
				}
				st = append(st, x.Succs...)
			}
			return false
		}
		return ci.avoidable(start, to, nil, stop(nil))
	}
	skip := func(d *ssa.BasicBlock) bool { return homeDom[d] }
	for k, d := range dc {
		if len(d.Instrs) == 0 {
			continue
		}
		// entering a loop that contains b
		for _, l := range ci.loops {
			if l.Header != d || !l.Blocks[b] || d == b && l.Kind != "other" {
				continue
			}
			if !skip(d) && avoid(d) {
				res.Conds = append(res.Conds, Cond{Complex: true, In: lastInstr(d), Fr: f})
			}
			if !inHome(l) {
				res.Loops = append(res.Loops, f.loopCtx(l))
			}
			if l.Body != nil && d != b {
				start = l.Body
			} else {
				start = d
			}
			loop = l
		}
		if k+1 >= len(dc) {
			break
		}
		n := dc[k+1]
		iff, ok := lastInstr(d).(*ssa.If)
		if !ok || len(n.Preds) != 1 || n.Preds[0] != d || d.Succs[0] == d.Succs[1] {
			continue
		}
		isHeader := false
		for _, l := range ci.loops {
			if l.Header == d && l.Body != nil {
				isHeader = true
			}
		}
		if isHeader {
			if loop == nil || loop.Header != d {
				// leaving a finished loop
				if !skip(n) {
					if avoid(d) {
						res.Conds = append(res.Conds, Cond{Complex: true, In: iff, Fr: f})
					}
				}
				start = n
			}
			continue
		}
		other := d.Succs[0]
		isTrue := false
		if other == n {
			other = d.Succs[1]
			isTrue = true
		}
		if ci.errOnly[other] {
			continue
		}
		if skip(n) {
			start = n
			continue
		}
		if avoid(d) {
			res.Conds = append(res.Conds, Cond{Complex: true, In: iff, Fr: f})
		}
		s := stripNot(iff.Cond, isTrue)
		res.Conds = append(res.Conds, Cond{T: f.eval(s.v), True: s.t, In: iff, Fr: f})
		start = n
	}
	if !skip(b) && avoid(b) {
		res.Conds = append(res.Conds, Cond{Complex: true, In: lastInstr(b), Fr: f})
	}
	return res
}

// SeqItem is one contribution to a collection.
type SeqItem struct {
	Loops []*LoopCtx
	Conds []Cond
	Body  *Term
	Splat bool // every element of Body, in order
	Rev   bool
	Uniq  bool
	Part  bool // a loop around it may end early
	At    ssa.Instruction
	Fr    *Frame
	seq   int
}

type Seq struct {
	Items []*SeqItem
	// Alts: several possible initial collections (chosen by a branch)
	Alts int
}

type terminal struct {
	t  *Term
	fr *Frame
	b  *ssa.BasicBlock
}

// seq describes how a collection is built.
func (a *Analysis) seqOf(t *Term) *Seq {
	var terms []terminal
	var apps []*Term
	var idxStores []*Term
	seen := map[*Term]bool{}
	lost := false // a turn of a loop may replace what earlier ones gathered
	var visit func(t *Term, fr *Frame, b *ssa.BasicBlock)
	visit = func(t *Term, fr *Frame, b *ssa.BasicBlock) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "phi":
			ph := t.Val.(*ssa.Phi)
			_, l := headerPhi(t)
			for i, x := range t.Args {
				visit(x, t.Fr, ph.Block().Preds[i])
				if l != nil && l.Blocks[ph.Block().Preds[i]] && !a.leadsTo(x, t, map[*Term]bool{}) {
					lost = true
				}
			}
			return
		case "alts":
			for _, x := range t.Args {
				visit(x, fr, b)
			}
			return
		case "res", "call":
			c, idx := t, 0
			if t.Op == "res" {
				c, idx = t.Args[0], t.Idx
			}
			if c.Op == "call" && c.Callee == "append" {
				apps = append(apps, c)
				visit(c.Args[0], fr, b)
				return
			}
			if c.Op == "call" && len(c.Inls) > 0 {
				for _, cf := range c.Inls {
					for _, v := range cf.results(idx) {
						visit(v, cf, cf.Fn.Blocks[0])
					}
				}
				return
			}
		case "field", "load", "mapget", "assert":
			alts := a.resolveStep(t)
			if alts != nil {
				hf, hb := fr, b
				for _, bt := range a.resolve(t.Args[0]) {
					if bt.Op == "obj" {
						hf, hb = bt.Fr, bt.Val.(ssa.Instruction).Block()
						terms = append(terms, terminal{a.mk("nil", "", 0, nil), hf, hb})
					}
				}
				for _, x := range alts {
					visit(x, hf, hb)
				}
				return
			}
		case "makeslice":
			idxStores = append(idxStores, t)
			terms = append(terms, terminal{a.mk("nil", "", 0, nil), t.Fr, t.Val.(ssa.Instruction).Block()})
			return
		}
		if t.Op == "field" || t.Op == "load" {
			if rs := a.resolve(t); len(rs) == 1 && rs[0] != t && (rs[0].Op == "zero" || rs[0].Op == "nil") {
				t = a.mk("nil", "", 0, nil)
			}
		}
		terms = append(terms, terminal{t, fr, b})
	}
	visit(t, nil, nil)
	var homeFr *Frame
	var home *ssa.BasicBlock
	for _, x := range terms {
		if x.fr != nil && x.b != nil {
			if homeFr == nil || len(a.framePath(x.fr)) < len(a.framePath(homeFr)) {
				homeFr, home = x.fr, x.b
			}
		}
	}
	s := &Seq{}
	for _, x := range terms {
		if empty := a.addTerminal(s, x.t); !empty {
			s.Alts++
		}
	}
	sort.SliceStable(apps, func(i, j int) bool { return apps[i].ID < apps[j].ID })
	for _, ap := range apps {
		in := ap.Val.(ssa.Instruction)
		hf, hb := homeFr, home
		if hf == nil {
			hf, hb = ap.Fr, in.Block()
		}
		ch := a.execChain(in, ap.Fr, hf, hb)
		part := false
		for _, l := range ch.Loops {
			part = part || l.Part
		}
		for i, rest := range ap.Args[1:] {
			_ = i
			inner := a.seqOf(rest)
			for _, it := range inner.Items {
				n := *it
				n.Loops = append(append([]*LoopCtx{}, ch.Loops...), it.Loops...)
				n.Conds = append(append([]Cond{}, ch.Conds...), it.Conds...)
				n.Part = n.Part || part
				n.At, n.Fr = in, ap.Fr
				s.Items = append(s.Items, &n)
			}
		}
	}
	for _, m := range idxStores {
		for _, r := range a.heap[m]["[]"] {
			it := &SeqItem{Body: r.Val, At: r.In, Fr: r.Fr}
			ch := a.execChain(r.In, r.Fr, m.Fr, m.Val.(ssa.Instruction).Block())
			it.Loops, it.Conds = ch.Loops, ch.Conds
			for _, l := range ch.Loops {
				it.Part = it.Part || l.Part
			}
			if n := len(ch.Loops); n != 1 || r.Key == nil || r.Key.Op != "rangeidx" || r.Key.Loop != ch.Loops[n-1] {
				it.Part = true
			}
			s.Items = append(s.Items, it)
		}
		if mk, ok := m.Val.(*ssa.MakeSlice); ok && !isConstInt(mk.Len, 0) && len(a.heap[m]["[]"]) == 0 {
			// elements that are never set
			s.Items = append(s.Items, &SeqItem{Body: m, Splat: true})
			s.Alts++
		}
	}
	if lost {
		for _, it := range s.Items {
			it.Part = true
		}
	}
	return s
}

// leadsTo: x is made from the collection t (nothing of which gets lost).
func (a *Analysis) leadsTo(x, t *Term, seen map[*Term]bool) bool {
	if x == t || seen[x] {
		return true
	}
	seen[x] = true
	switch x.Op {
	case "phi", "alts":
		for _, y := range x.Args {
			if !a.leadsTo(y, t, seen) {
				return false
			}
		}
		return true
	case "nil", "zero", "const", "obj", "makeslice", "slice":
		return false
	case "field":
		// a member of what a library answered
		b := x
		for b.Op == "field" || b.Op == "load" || b.Op == "res" || b.Op == "elem" {
			b = b.Args[0]
		}
		if b.Op == "call" && len(b.Inls) == 0 {
			return false
		}
	case "res", "call":
		c, idx := x, 0
		if x.Op == "res" {
			c, idx = x.Args[0], x.Idx
		}
		if c.Op == "call" && c.Callee == "append" {
			if a.leadsTo(c.Args[0], t, seen) {
				return true
			}
			for _, y := range c.Args[1:] { // put in front
				if y == t {
					return true
				}
			}
			return false
		}
		if c.Op == "call" && len(c.Inls) > 0 {
			for _, cf := range c.Inls {
				for _, v := range cf.results(idx) {
					if !a.leadsTo(v, t, seen) {
						return false
					}
				}
			}
			return true
		}
		if c.Op == "call" {
			for _, y := range c.Args {
				if a.leadsTo(y, t, map[*Term]bool{}) {
					return true
				}
			}
			return false
		}
	}
	return true
}

func (a *Analysis) framePath(f *Frame) []*Frame {
	var r []*Frame
	for x := f; x != nil; x = x.Parent {
		r = append(r, x)
	}
	return r
}

// resolveStep expands one memory read; nil when unknown.
func (a *Analysis) resolveStep(t *Term) []*Term {
	var res []*Term
	switch t.Op {
	case "field":
		for _, b := range a.resolve(t.Args[0]) {
			recs := a.heap[b][t.S]
			for _, r := range recs {
				res = append(res, r.Val)
			}
			for _, r := range a.heap[b]["*"] {
				res = append(res, a.field(r.Val, t.S))
			}
			if len(recs) == 0 && len(a.heap[b]["*"]) == 0 && b != t.Args[0] {
				res = append(res, a.mk("field", t.S, 0, nil, b))
			}
		}
	case "load":
		for _, b := range a.resolve(t.Args[0]) {
			if b.Op == "addr" {
				res = append(res, a.field(b.Args[0], b.S))
				continue
			}
			for _, r := range a.heap[b]["*"] {
				res = append(res, r.Val)
			}
		}
	case "mapget", "assert":
		for _, x := range a.resolve(t) {
			if x != t {
				res = append(res, x)
			}
		}
	}
	return res
}

// addTerminal adds an initial collection; reports whether it is empty.
func (a *Analysis) addTerminal(s *Seq, t *Term) bool {
	switch t.Op {
	case "nil", "zero":
		return true
	case "slice":
		if els, ok := a.literal(t); ok {
			for _, e := range els {
				if e == nil {
					e = a.mk("zero", "", 0, nil)
				}
				s.Items = append(s.Items, &SeqItem{Body: e})
			}
			return len(els) == 0
		}
		if t.Args[1].Op == "none" && t.Args[2].Op == "none" {
			in := a.seqOf(t.Args[0])
			s.Items = append(s.Items, in.Items...)
			return len(in.Items) == 0
		}
	case "call":
		switch t.Callee {
		case "github.com/samber/lo.Map":
			s.Items = append(s.Items, &SeqItem{Loops: []*LoopCtx{t.Loop}, Body: a.cbResult(t, 0)})
			return false
		case "github.com/samber/lo.Filter":
			s.Items = append(s.Items, &SeqItem{Loops: []*LoopCtx{t.Loop}, Body: a.mk("elem", "", 0, t.Loop, t.Args[0]), Conds: []Cond{{T: a.cbResult(t, 0), True: true, CB: t.CB}}})
			return false
		case "github.com/samber/lo.Reject":
			s.Items = append(s.Items, &SeqItem{Loops: []*LoopCtx{t.Loop}, Body: a.mk("elem", "", 0, t.Loop, t.Args[0]), Conds: []Cond{{T: a.cbResult(t, 0), True: false, CB: t.CB}}})
			return false
		case "github.com/samber/lo.FlatMap":
			in := a.seqOf(a.cbResult(t, 0))
			for _, it := range in.Items {
				n := *it
				n.Loops = append([]*LoopCtx{t.Loop}, it.Loops...)
				s.Items = append(s.Items, &n)
			}
			return false
		case "github.com/samber/lo.Uniq", "github.com/samber/lo.UniqBy", "github.com/samber/lo.Reverse":
			in := a.seqOf(t.Args[0])
			for _, it := range in.Items {
				n := *it
				if t.Callee == "github.com/samber/lo.Reverse" {
					n.Rev = !n.Rev
				} else {
					n.Uniq = true
				}
				s.Items = append(s.Items, &n)
			}
			return false
		case "github.com/samber/lo.Values", "github.com/samber/lo.Keys":
		}
	}
	s.Items = append(s.Items, &SeqItem{Body: t, Splat: true})
	return false
}

func (a *Analysis) alts(ts ...*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return a.mk("alts", "", 0, nil, ts...)
}

// cbResult is what the callback of a collection helper returns.
func (a *Analysis) cbResult(call *Term, i int) *Term {
	var rs []*Term
	for _, f := range call.CB {
		rs = append(rs, f.results(i)...)
	}
	if len(rs) == 0 {
		return a.mk("unknown", "cb", 0, nil)
	}
	return a.alts(rs...)
}

// norm expands a term fully, looking through collections: the set of
// ultimate sources of a value.
func (a *Analysis) norm(t *Term) []*Term {
	out := map[*Term]bool{}
	a.normInto(t, map[*Term]bool{}, out)
	return sortedTerms(out)
}

func (a *Analysis) normInto(t *Term, seen, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, x := range a.resolve(t) {
		if x != t && seen[x] {
			continue
		}
		seen[x] = true
		switch x.Op {
		case "alts":
			for _, y := range x.Args {
				a.normInto(y, seen, out)
			}
			continue
		case "elem":
			coll := x.Args[0]
			if m := a.mapValues(coll); m != nil {
				for _, y := range m {
					a.normInto(y, seen, out)
				}
				continue
			}
			s := a.seqOf(coll)
			for _, it := range s.Items {
				if it.Splat {
					if it.Body == coll && len(s.Items) == 1 {
						out[a.mk("elem", "", 0, nil, coll)] = true
					} else {
						a.normInto(a.mk("elem", "", 0, nil, it.Body), seen, out)
					}
				} else {
					a.normInto(it.Body, seen, out)
				}
			}
			continue
		case "field":
			bases := a.norm(x.Args[0])
			if len(bases) == 1 && bases[0] == x.Args[0] {
				out[x] = true
				continue
			}
			for _, b := range bases {
				f := a.field(b, x.S)
				if f == x {
					out[x] = true
					continue
				}
				a.normInto(f, seen, out)
			}
			continue
		case "index":
			if _, ok := x.Args[1].isConstInt(); !ok {
				if s := a.seqOf(x.Args[0]); len(s.Items) > 0 && !(len(s.Items) == 1 && s.Items[0].Splat && s.Items[0].Body == x.Args[0]) {
					for _, it := range s.Items {
						if it.Splat {
							out[a.mk("elem", "", 0, nil, it.Body)] = true
						} else {
							a.normInto(it.Body, seen, out)
						}
					}
					continue
				}
			}
		case "conv":
			if basicInfo(x.T)&types.IsString != 0 {
				a.normInto(x.Args[0], seen, out)
				continue
			}
		}
		out[x] = true
	}
}

// mapValues: values stored in a known map.
func (a *Analysis) mapValues(t *Term) []*Term {
	var res []*Term
	for _, m := range a.resolve(t) {
		if m.Op != "makemap" {
			return nil
		}
		for _, r := range a.heap[m]["[]"] {
			res = append(res, r.Val)
		}
	}
	return res
}

func sameSet(x, y []*Term) bool {
	if len(x) != len(y) {
		return false
	}
	m := map[*Term]bool{}
	for _, t := range x {
		m[t] = true
	}
	for _, t := range y {
		if !m[t] {
			return false
		}
	}
	return true
}

func subset(x, y []*Term) bool {
	m := map[*Term]bool{}
	for _, t := range y {
		m[t] = true
	}
	for _, t := range x {
		if !m[t] {
			return false
		}
	}
	return true
}
