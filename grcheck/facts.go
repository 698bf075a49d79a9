package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// Fact is a condition known to hold (or not to hold), possibly for every turn of completed loops.
type Fact struct {
	T     *Term
	True  bool
	Loops []*LoopCtx
}

type factCtx struct {
	a     *Analysis
	depth int
	busy  map[*Term]bool
}

// accumulated: a boolean that starts as pol and stays pol only while a condition holds on every turn of a loop.
func (c *factCtx) accumulated(t *Term, ph *ssa.Phi, pol bool) ([]Fact, bool) {
	var l *Loop
	for _, x := range cfgOf(t.Fr.Fn).loops {
		if x.Header == ph.Block() {
			l = x
		}
	}
	if l == nil {
		return nil, false
	}
	if c.busy == nil {
		c.busy = map[*Term]bool{}
	}
	c.busy[t] = true
	defer delete(c.busy, t)
	lc := t.Fr.loopCtx(l)
	var res, common []Fact
	first := true
	for i, x := range t.Args {
		if !l.Blocks[ph.Block().Preds[i]] {
			if _, isC := x.isConstBool(); !isC {
				res = append(res, c.lit(x, pol)...)
			}
			continue
		}
		var fs []Fact
		if x == t {
			// kept: what holds on this way of finishing a turn
			pred := ph.Block().Preds[i]
			for _, g := range guardsOf(pred) {
				if l.Blocks[g.If.Block()] && g.If.Block() != l.Header {
					fs = append(fs, c.lit(t.Fr.eval(g.Cond), g.True)...)
				}
			}
			if iff, ok := lastInstr(pred).(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
				s := stripNot(iff.Cond, pred.Succs[0] == l.Header)
				fs = append(fs, c.lit(t.Fr.eval(s.v), s.t)...)
			}
		} else if b, ok := x.isConstBool(); ok {
			if b == pol {
				return nil, false
			}
			continue
		} else {
			fs = c.lit(x, pol)
			kept := false
			for _, f := range fs {
				kept = kept || f.T == t && f.True == pol
			}
			if !kept {
				return nil, false
			}
		}
		if first {
			common, first = fs, false
		} else {
			common = meet(common, fs)
		}
	}
	for _, f := range common {
		if f.T == t {
			continue
		}
		f.Loops = append([]*LoopCtx{lc}, f.Loops...)
		res = append(res, f)
	}
	return res, true
}

func (a *Analysis) factsAt(fr *Frame, b *ssa.BasicBlock) []Fact {
	return (&factCtx{a: a}).local(fr, b)
}

// factsOnPath: facts at an instruction including those of the callers.
func (a *Analysis) factsOnPath(fr *Frame, b *ssa.BasicBlock, top *Frame) []Fact {
	var res []Fact
	for f := fr; f != nil; f = f.Parent {
		res = append(res, a.factsAt(f, b)...)
		if f == top || f.Site == nil {
			break
		}
		b = f.Site.Block()
	}
	return res
}

// local: facts from the branches dominating b and from loops completed before b.
func (c *factCtx) local(fr *Frame, b *ssa.BasicBlock) []Fact {
	var res []Fact
	for _, g := range guardsOf(b) {
		res = append(res, c.lit(fr.eval(g.Cond), g.True)...)
	}
	for _, l := range cfgOf(fr.Fn).loops {
		if l.Done == nil || l.Blocks[b] || !l.Done.Dominates(b) || len(l.Done.Preds) != 1 {
			continue
		}
		if l.Kind != "slice" && l.Kind != "slice-rev" && l.Kind != "map" {
			continue
		}
		lc := fr.loopCtx(l)
		// facts common to every way of finishing a turn
		var common []Fact
		first := true
		for _, p := range l.Header.Preds {
			if !l.Blocks[p] {
				continue
			}
			var fs []Fact
			for _, g := range guardsOf(p) {
				if l.Blocks[g.If.Block()] && g.If.Block() != l.Header {
					fs = append(fs, c.lit(fr.eval(g.Cond), g.True)...)
				}
			}
			// the edge itself
			if iff, ok := lastInstr(p).(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				s := stripNot(iff.Cond, p.Succs[0] == l.Header)
				fs = append(fs, c.lit(fr.eval(s.v), s.t)...)
			}
			if first {
				common, first = fs, false
			} else {
				common = meet(common, fs)
			}
		}
		for _, f := range common {
			f.Loops = append([]*LoopCtx{lc}, f.Loops...)
			res = append(res, f)
		}
	}
	return res
}

func meet(x, y []Fact) []Fact {
	var res []Fact
	for _, f := range x {
		for _, g := range y {
			if f.T == g.T && f.True == g.True && len(f.Loops) == len(g.Loops) {
				res = append(res, f)
				break
			}
		}
	}
	return res
}

// lit expands a condition into everything it implies.
func (c *factCtx) lit(t *Term, pol bool) []Fact {
	if c.depth > 12 {
		return nil
	}
	c.depth++
	defer func() { c.depth-- }()
	for t.Op == "unop" && t.S == "!" {
		t, pol = t.Args[0], !pol
	}
	res := []Fact{{T: t, True: pol}}
	switch t.Op {
	case "phi":
		ph, ok := t.Val.(*ssa.Phi)
		if !ok || c.busy[t] {
			break
		}
		if fs, ok := c.accumulated(t, ph, pol); ok {
			res = append(res, fs...)
			break
		}
		n := -1
		for i, x := range t.Args {
			if b, ok := x.isConstBool(); ok && b != pol {
				continue
			}
			if n >= 0 {
				n = -2
				break
			}
			n = i
		}
		if n >= 0 {
			pred := ph.Block().Preds[n]
			if _, isC := t.Args[n].isConstBool(); !isC {
				res = append(res, c.lit(t.Args[n], pol)...)
			}
			for _, g := range guardsOf(pred) {
				res = append(res, c.lit(t.Fr.eval(g.Cond), g.True)...)
			}
			if iff, ok := lastInstr(pred).(*ssa.If); ok && pred.Succs[0] != pred.Succs[1] {
				s := stripNot(iff.Cond, pred.Succs[0] == ph.Block())
				res = append(res, c.lit(t.Fr.eval(s.v), s.t)...)
			}
		}
	case "call":
		if t.Val != nil && types.Identical(t.Val.Type().Underlying(), types.Typ[types.Bool]) {
			res = append(res, c.frames(t.Inls, 0, pol)...)
		}
	case "binop":
		// errors of analysed functions compared with nil
		x, y := t.Args[0], t.Args[1]
		if x.Op == "nil" {
			x, y = y, x
		}
		if y.Op == "nil" && (t.S == "==" && pol || t.S == "!=" && !pol) {
			res = append(res, c.errNil(x)...)
		}
		if x := emptyLen(t, pol); x != nil && isErrorSlotT(x) {
			res = append(res, c.errNil(x)...)
		}
	}
	return res
}

// emptyLen: the comparison, being so, says that this has no elements.
func emptyLen(t *Term, pol bool) *Term {
	x, y, op := t.Args[0], t.Args[1], t.S
	if _, ok := x.isConstInt(); ok {
		x, y = y, x
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		if op == "" {
			op = t.S
		}
	}
	n, ok := y.isConstInt()
	if !ok || x.Op != "call" || x.Callee != "len" || len(x.Args) != 1 {
		return nil
	}
	if !pol {
		op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	if n == 0 && (op == "==" || op == "<=") || n == 1 && op == "<" {
		return x.Args[0]
	}
	return nil
}

func isErrorSlotT(t *Term) bool { return t.T != nil && isErrorSlot(t.T) }

// errNil: facts implied by an error value being nil.
func (c *factCtx) errNil(x *Term) []Fact {
	call, idx := x, 0
	if x.Op == "res" {
		call, idx = x.Args[0], x.Idx
	}
	if x.Op == "load" {
		// last value stored in the cell
		if rs := c.a.heap[x.Args[0]]["*"]; len(rs) == 1 {
			return c.errNil(rs[0].Val)
		}
		return nil
	}
	if call.Op != "call" || len(call.Inls) == 0 {
		return nil
	}
	var res []Fact
	for i, fr := range call.Inls {
		var fs []Fact
		first := true
		ci := cfgOf(fr.Fn)
		for _, r := range fr.rets {
			if ci.retKind(r) == retErr || idx >= len(r.Results) {
				continue
			}
			one := c.local(fr, r.Block())
			if ci.retKind(r) == retMaybe {
				one = append(one, c.errNil(fr.eval(r.Results[idx]))...)
			}
			if first {
				fs, first = one, false
			} else {
				fs = meet(fs, one)
			}
		}
		if i == 0 {
			res = fs
		} else {
			res = meet(res, fs)
		}
	}
	return res
}

// frames: facts implied by boolean functions having returned pol.
func (c *factCtx) frames(frs []*Frame, slot int, pol bool) []Fact {
	var res []Fact
	for i, fr := range frs {
		var fs []Fact
		first := true
		for _, r := range fr.rets {
			v := fr.eval(r.Results[slot])
			one := c.local(fr, r.Block())
			if b, ok := v.isConstBool(); ok {
				if b != pol {
					continue
				}
			} else {
				one = append(one, c.lit(v, pol)...)
			}
			if first {
				fs, first = one, false
			} else {
				fs = meet(fs, one)
			}
		}
		if i == 0 {
			res = fs
		} else {
			res = meet(res, fs)
		}
	}
	return res
}

// condFacts expands the conditions of a collection item or call path.
func (a *Analysis) condFacts(cs []Cond) []Fact {
	c := &factCtx{a: a}
	var res []Fact
	for _, x := range cs {
		if x.CB != nil {
			res = append(res, c.frames(x.CB, 0, x.True)...)
			continue
		}
		if x.T != nil {
			res = append(res, c.lit(x.T, x.True)...)
		}
	}
	return res
}

// dropsOnly: what the condition turns away is turned away for an acceptable reason only. ok tells whether a fact is
// acceptable as a condition for keeping.
func (a *Analysis) dropsOnly(cd Cond, ok func(Fact) bool) bool {
	if cd.CB != nil {
		return a.dropsFrames(cd.CB, cd.True, ok, 0)
	}
	if cd.T == nil {
		return !cd.Complex
	}
	return a.dropsLit(cd.T, cd.True, ok, 0)
}

func (a *Analysis) dropsLit(t *Term, keep bool, ok func(Fact) bool, d int) bool {
	for t.Op == "unop" && t.S == "!" {
		t, keep = t.Args[0], !keep
	}
	if ok(Fact{T: t, True: keep}) {
		return true
	}
	if d > 6 {
		return false
	}
	switch t.Op {
	case "phi":
		ph, isPhi := t.Val.(*ssa.Phi)
		if !isPhi {
			return false
		}
		for i, x := range t.Args {
			if b, isC := x.isConstBool(); isC {
				if b == keep {
					continue
				}
				if !a.reasonAt(t.Fr, ph.Block().Preds[i], ph.Block(), ok, d) {
					return false
				}
				continue
			}
			if !a.dropsLit(x, keep, ok, d+1) {
				return false
			}
		}
		return true
	case "call":
		if t.Val != nil && types.Identical(t.Val.Type().Underlying(), types.Typ[types.Bool]) && len(t.Inls) > 0 {
			return a.dropsFrames(t.Inls, keep, ok, d+1)
		}
	}
	return false
}

func (a *Analysis) dropsFrames(frs []*Frame, keep bool, ok func(Fact) bool, d int) bool {
	for _, fr := range frs {
		if len(fr.rets) == 0 {
			return false
		}
		for _, r := range fr.rets {
			v := fr.eval(r.Results[0])
			if b, isC := v.isConstBool(); isC {
				if b != keep && !a.reasonAt(fr, r.Block(), nil, ok, d) {
					return false
				}
				continue
			}
			if !a.dropsLit(v, keep, ok, d) {
				return false
			}
		}
	}
	return true
}

// reasonAt: the block is reached (or left by the edge) only when a condition for keeping does not hold.
func (a *Analysis) reasonAt(fr *Frame, b, to *ssa.BasicBlock, ok func(Fact) bool, d int) bool {
	type lit struct {
		t   *Term
		pol bool
	}
	if d > 6 {
		return false
	}
	var visit func(b, to *ssa.BasicBlock, d int) bool
	visit = func(b, to *ssa.BasicBlock, d int) bool {
		var ls []lit
		if to != nil {
			if iff, isIf := lastInstr(b).(*ssa.If); isIf && b.Succs[0] != b.Succs[1] {
				s := stripNot(iff.Cond, b.Succs[0] == to)
				ls = append(ls, lit{fr.eval(s.v), s.t})
			}
		}
		for _, g := range guardsOf(b) {
			ls = append(ls, lit{fr.eval(g.Cond), g.True})
		}
		for _, l := range ls {
			if a.dropsLit(l.t, !l.pol, ok, d+1) {
				return true
			}
		}
		// several ways to get here
		if d > 6 || len(b.Preds) < 2 {
			return false
		}
		for _, p := range b.Preds {
			if b.Dominates(p) || !visit(p, b, d+1) {
				return false
			}
		}
		return true
	}
	return visit(b, to, d)
}

// ---------------------------------------------------------------- regular expressions

// regexpOf finds the constant pattern a *regexp.Regexp value was compiled from.
func (a *Analysis) regexpOf(t *Term) (string, bool) {
	pat := ""
	for _, x := range a.resolve(t) {
		if x.Op == "res" {
			x = x.Args[0]
		}
		if x.Op != "call" || x.Callee != "regexp.MustCompile" && x.Callee != "regexp.Compile" {
			return "", false
		}
		ts := a.tmpls(x.Args[0])
		if len(ts) != 1 {
			return "", false
		}
		s, ok := ts[0].isConst()
		if !ok || pat != "" && pat != s {
			return "", false
		}
		pat = s
	}
	return pat, pat != ""
}

func isWordRune(r rune) bool {
	return r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

// onlyWord: a match of the whole pattern guarantees that the text consists of word characters (at least one).
func onlyWord(pat string) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	re = re.Simplify()
	if re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpConcat || len(re.Sub) < 3 {
		return false
	}
	n := len(re.Sub)
	if re.Sub[0].Op != syntax.OpBeginText || re.Sub[n-1].Op != syntax.OpEndText || re.Sub[n-1].Flags&syntax.WasDollar != 0 && re.Flags&syntax.OneLine == 0 {
		return false
	}
	some := false
	for _, s := range re.Sub[1 : n-1] {
		ok, nonEmpty := wordExpr(s)
		if !ok {
			return false
		}
		some = some || nonEmpty
	}
	return some
}

func wordExpr(s *syntax.Regexp) (ok, nonEmpty bool) {
	switch s.Op {
	case syntax.OpCapture:
		return wordExpr(s.Sub[0])
	case syntax.OpPlus:
		return wordExpr(s.Sub[0])
	case syntax.OpStar, syntax.OpQuest:
		ok, _ := wordExpr(s.Sub[0])
		return ok, false
	case syntax.OpRepeat:
		ok, ne := wordExpr(s.Sub[0])
		return ok, ne && s.Min > 0
	case syntax.OpConcat:
		all := true
		for _, x := range s.Sub {
			ok, ne := wordExpr(x)
			all = all && ok
			nonEmpty = nonEmpty || ne
		}
		return all, nonEmpty
	case syntax.OpLiteral:
		if s.Flags&syntax.FoldCase != 0 {
			return false, false
		}
		for _, r := range s.Rune {
			if !isWordRune(r) {
				return false, false
			}
		}
		return true, len(s.Rune) > 0
	case syntax.OpCharClass:
		for i := 0; i+1 < len(s.Rune); i += 2 {
			for r := s.Rune[i]; r <= s.Rune[i+1]; r++ {
				if !isWordRune(r) {
					return false, false
				}
			}
		}
		return true, true
	}
	return false, false
}

// classOf: the set of characters matched by a pattern of one character (or a run of them).
func classOf(pat string) (func(rune) bool, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, false
	}
	for re.Op == syntax.OpPlus || re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	switch re.Op {
	case syntax.OpCharClass:
		cl := re.Rune
		return func(r rune) bool {
			for i := 0; i+1 < len(cl); i += 2 {
				if r >= cl[i] && r <= cl[i+1] {
					return true
				}
			}
			return false
		}, true
	case syntax.OpLiteral:
		if len(re.Rune) == 1 && re.Flags&syntax.FoldCase == 0 {
			x := re.Rune[0]
			return func(r rune) bool { return r == x }, true
		}
	}
	return nil, false
}

// removesNonWord / keepsWord describe ReplaceAllString(class, x, "_"): the result has word characters only / word-only
// texts are unchanged.
func replacesExactlyNonWord(pat string) (removes, keeps bool) {
	in, ok := classOf(pat)
	if !ok {
		return false, false
	}
	removes, keeps = true, true
	for r := rune(0); r < 0x250; r++ {
		if isWordRune(r) && in(r) {
			keeps = false
		}
		if !isWordRune(r) && !in(r) {
			removes = false
		}
	}
	for _, r := range []rune{0x3042, 0x4e00, 0xac00, 0x1f600, 0x10ffff, 0xfffd, 0x2028} {
		if !in(r) {
			removes = false
		}
	}
	return
}

var _ = token.ADD
