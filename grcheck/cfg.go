package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- loops

// Loop is a natural loop of a function's control-flow graph.
type Loop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	// Kind: "slice" (ascending over every index of Coll), "slice-rev", "map", "string", "count", "other".
	Kind string
	Coll ssa.Value // ranged collection (slice, array pointer, map, string)
	Idx  ssa.Value // value of the index inside the body
	// Phi is the induction variable; for counting loops From/To are its bounds (inclusive, exclusive) when constant.
	Phi      *ssa.Phi
	From, To constant.Value
	Body     *ssa.BasicBlock // first block of the body (header's in-loop successor)
	Done     *ssa.BasicBlock // header's successor outside of the loop
}

type cfgInfo struct {
	loops  []*Loop
	inner  map[*ssa.BasicBlock]*Loop // innermost loop
	oneway map[*ssa.BasicBlock]bool
	// blocks from which every path ends in an error return or a panic
	errOnly map[*ssa.BasicBlock]bool
	kinds   map[*ssa.Return]retKind
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgCache[fn]; ok {
		return c
	}
	c := &cfgInfo{inner: map[*ssa.BasicBlock]*Loop{}, kinds: map[*ssa.Return]retKind{}}
	cfgCache[fn] = c
	c.findLoops(fn)
	c.findErrOnly(fn)
	return c
}

func (c *cfgInfo) findLoops(fn *ssa.Function) {
	byHeader := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHeader[s]
				if l == nil {
					l = &Loop{Fn: fn, Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					byHeader[s] = l
					c.loops = append(c.loops, l)
				}
				// blocks that reach b without passing the header
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.Blocks[x] {
						continue
					}
					l.Blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range c.loops {
		for b := range l.Blocks {
			if cur := c.inner[b]; cur == nil || len(l.Blocks) < len(cur.Blocks) {
				c.inner[b] = l
			}
		}
	}
	for _, l := range c.loops {
		classifyLoop(l)
	}
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	x, ok := constant.Int64Val(c.Value)
	return ok && x == n
}

// lenOf returns X when v is len(X).
func lenOf(v ssa.Value) ssa.Value {
	if call, ok := v.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return call.Call.Args[0]
		}
	}
	return nil
}

func classifyLoop(l *Loop) {
	l.Kind = "other"
	iff, ok := lastInstr(l.Header).(*ssa.If)
	if !ok {
		return
	}
	t, f := l.Header.Succs[0], l.Header.Succs[1]
	inT, inF := l.Blocks[t], l.Blocks[f]
	if inT == inF {
		return
	}
	neg := false
	l.Body, l.Done = t, f
	if !inT {
		neg = true
		l.Body, l.Done = f, t
	}
	// range over map / string
	if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 && !neg {
		if nx, ok := ex.Tuple.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				l.Coll = r.X
				if nx.IsString {
					l.Kind = "string"
				} else {
					l.Kind = "map"
				}
			}
		}
		return
	}
	cond, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	op, x, y := cond.Op, cond.X, cond.Y
	if neg {
		op = negOp(op)
	}
	// normalise to x < y / x <= y / x > y / x >= y with the induction variable on the left
	phi, plus := inductionOf(l, x)
	if phi == nil {
		if p2, plus2 := inductionOf(l, y); p2 != nil {
			phi, plus = p2, plus2
			x, y = y, x
			op = swapOp(op)
		}
	}
	if phi == nil {
		return
	}
	// init and step of phi
	var init ssa.Value
	step := int64(0)
	for i, e := range phi.Edges {
		if l.Blocks[phi.Block().Preds[i]] {
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == ssa.Value(phi) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
					if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
						if b.Op == token.SUB {
							n = -n
						}
						if step != 0 && step != n {
							return
						}
						step = n
						continue
					}
				}
			}
			return
		}
		if init != nil && init != e {
			return
		}
		init = e
	}
	if init == nil {
		return
	}
	l.Phi = phi
	l.Idx = x
	ci, _ := init.(*ssa.Const)
	if step == 1 && ci != nil && ci.Value != nil && (op == token.LSS || op == token.LEQ || op == token.NEQ) {
		from := constant.ToInt(ci.Value)
		if plus == 1 {
			from = constant.BinaryOp(from, token.ADD, constant.MakeInt64(1))
		}
		if s := lenOf(y); s != nil && (op == token.LSS || op == token.NEQ) {
			if n, ok := constant.Int64Val(from); ok && n == 0 {
				l.Kind, l.Coll = "slice", s
			} else {
				l.Kind = "slice-tail"
				l.Coll, l.From = s, from
			}
			return
		}
		if cy, ok := y.(*ssa.Const); ok && cy.Value != nil {
			l.Kind = "count"
			l.From = from
			l.To = constant.ToInt(cy.Value)
			if op == token.LEQ {
				l.To = constant.BinaryOp(l.To, token.ADD, constant.MakeInt64(1))
			}
			return
		}
		l.Kind = "count"
		l.From = from
		return
	}
	if step == -1 && plus == 0 && (op == token.GEQ && isConstInt(y, 0) || op == token.GTR && isConstInt(y, -1)) {
		if b, ok := init.(*ssa.BinOp); ok && b.Op == token.SUB && isConstInt(b.Y, 1) {
			if s := lenOf(b.X); s != nil {
				l.Kind, l.Coll = "slice-rev", s
				return
			}
		}
	}
	if step == -1 && ci != nil && ci.Value != nil {
		if cy, ok := y.(*ssa.Const); ok && cy.Value != nil && (op == token.GTR || op == token.GEQ) {
			// counting down a constant number of times: same number of turns
			hi, lo := constant.ToInt(ci.Value), constant.ToInt(cy.Value)
			if op == token.GEQ {
				lo = constant.BinaryOp(lo, token.SUB, constant.MakeInt64(1))
			}
			l.Kind = "count"
			l.From = constant.MakeInt64(0)
			l.To = constant.BinaryOp(hi, token.SUB, lo)
		}
	}
}

// inductionOf: v is a phi of the loop header (plus 0) or phi+1 computed in the header (plus 1, go/ssa's range loops).
func inductionOf(l *Loop, v ssa.Value) (*ssa.Phi, int) {
	if p, ok := v.(*ssa.Phi); ok && p.Block() == l.Header {
		return p, 0
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isConstInt(b.Y, 1) && b.Block() == l.Header {
		if p, ok := b.X.(*ssa.Phi); ok && p.Block() == l.Header {
			return p, 1
		}
	}
	return nil, 0
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// loopChain returns the loops containing b, innermost first.
func (c *cfgInfo) loopChain(b *ssa.BasicBlock) []*Loop {
	var res []*Loop
	for _, l := range c.loops {
		if l.Blocks[b] {
			res = append(res, l)
		}
	}
	for i := range res {
		for j := i + 1; j < len(res); j++ {
			if len(res[j].Blocks) < len(res[i].Blocks) {
				res[i], res[j] = res[j], res[i]
			}
		}
	}
	return res
}

// ---------------------------------------------------------------- error returns

type retKind int

const (
	retOK    retKind = iota // error operand is nil (or the function has none)
	retErr                  // error operand is known to be non-nil
	retMaybe                // error operand may be either
)

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil
}

func isErrorSlot(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		return isErrorType(s.Elem())
	}
	return false
}

// errSlot returns the index of the error result of a signature, or -1.
func errSlot(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	if isErrorSlot(sig.Results().At(n - 1).Type()) {
		return n - 1
	}
	return -1
}

func (c *cfgInfo) retKind(r *ssa.Return) retKind {
	if k, ok := c.kinds[r]; ok {
		return k
	}
	fn := r.Parent()
	slot := errSlot(fn.Signature)
	k := retOK
	if slot >= 0 && slot < len(r.Results) {
		k = errValueKind(r.Results[slot], r.Block(), map[ssa.Value]bool{})
	}
	c.kinds[r] = k
	return k
}

// functions whose error result is never nil
var alwaysErr = map[string]bool{
	"errors.New": true, "fmt.Errorf": true,
	"github.com/pkg/errors.New": true, "github.com/pkg/errors.Errorf": true,
}

// functions whose result is nil exactly when their first argument is
var wrapErr = map[string]bool{
	"github.com/pkg/errors.Wrap": true, "github.com/pkg/errors.Wrapf": true,
	"github.com/pkg/errors.WithStack": true, "github.com/pkg/errors.WithMessage": true, "github.com/pkg/errors.WithMessagef": true,
}

func errValueKind(v ssa.Value, at *ssa.BasicBlock, seen map[ssa.Value]bool) retKind {
	if seen[v] {
		return retMaybe
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return retOK
		}
		return retErr
	case *ssa.Parameter:
		if assumed[x] {
			return retErr
		}
	case *ssa.MakeInterface:
		return retErr
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && x.Index == errSlot(f.Signature) {
				if alwaysNonNilErr(f) {
					return retErr
				}
				for _, i := range wrapsParams(f) {
					if i < len(c.Call.Args) && (errValueKind(c.Call.Args[i], c.Block(), seen) == retErr || knownNil(c.Call.Args[i], at) == retErr) {
						return retErr
					}
				}
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			if alwaysErr[f.String()] || alwaysNonNilErr(f) {
				return retErr
			}
			for _, i := range wrapsParams(f) {
				if i >= len(x.Call.Args) {
					continue
				}
				if errValueKind(x.Call.Args[i], x.Block(), seen) == retErr || knownNil(x.Call.Args[i], at) == retErr {
					return retErr
				}
			}
			if wrapErr[f.String()] && len(x.Call.Args) > 0 {
				if errValueKind(x.Call.Args[0], x.Block(), seen) == retErr {
					return retErr
				}
				if knownNil(x.Call.Args[0], at) == retErr {
					return retErr
				}
			}
		}
	case *ssa.Slice: // []error{...}
		if a, ok := x.X.(*ssa.Alloc); ok && isErrorSlot(v.Type()) {
			if p, ok := a.Type().Underlying().(*types.Pointer); ok {
				if arr, ok := p.Elem().Underlying().(*types.Array); ok && arr.Len() > 0 {
					return retErr
				}
			}
		}
	case *ssa.Phi:
		res := retKind(-1)
		for i, e := range x.Edges {
			k := errValueKind(e, x.Block().Preds[i], seen)
			if k == retMaybe {
				if kk := knownNil(e, x.Block().Preds[i]); kk != retMaybe {
					k = kk
				}
			}
			if res == retKind(-1) {
				res = k
			} else if res != k {
				res = retMaybe
			}
		}
		if res == retOK || res == retErr {
			return res
		}
	case *ssa.UnOp:
		// load of a named result or captured variable: look for the dominating check of the same address
		if x.Op == token.MUL {
			if ia, ok := x.X.(*ssa.IndexAddr); ok && isErrorSlot(ia.X.Type()) && !isErrorType(ia.X.Type()) {
				return retErr // members of error lists are errors (P09 decides that no nil is ever put into one)
			}
			if k := knownNilLoad(x, at); k != retMaybe {
				return k
			}
			// the value most recently stored in the same block
			if sv := lastStoreBefore(x); sv != nil {
				return errValueKind(sv, at, seen)
			}
			// deferred calls that replace nil only keep a failure a failure
			if sv := storeBefore(x, true); sv != nil && keepsFailure(x.X) && errValueKind(sv, at, seen) == retErr {
				return retErr
			}
			return retMaybe
		}
	case *ssa.ChangeInterface:
		return errValueKind(x.X, at, seen)
	}
	return knownNil(v, at)
}

// lastStoreBefore finds the store that reaches a load when both are in one block with no call between that could
// change it, or the store is in the single-predecessor chain above it.
func lastStoreBefore(ld *ssa.UnOp) ssa.Value { return storeBefore(ld, false) }

func storeBefore(ld *ssa.UnOp, pastDefers bool) ssa.Value {
	addr := ld.X
	b := ld.Block()
	idx := -1
	for i, in := range b.Instrs {
		if in == ssa.Instruction(ld) {
			idx = i
		}
	}
	for n := 0; n < 20; n++ {
		for i := idx - 1; i >= 0; i-- {
			switch s := b.Instrs[i].(type) {
			case *ssa.Store:
				if s.Addr == addr {
					return s.Val
				}
			case *ssa.RunDefers:
				if !pastDefers && !private(addr) {
					return nil
				}
			}
		}
		if len(b.Preds) != 1 {
			return nil
		}
		b = b.Preds[0]
		idx = len(b.Instrs)
	}
	return nil
}

// keepsFailure: the functions that capture an error variable store into it only errors, or only where it is nil.
func keepsFailure(addr ssa.Value) bool {
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, bd := range x.Bindings {
				if bd != ssa.Value(al) {
					continue
				}
				for _, v := range *fn.FreeVars[i].Referrers() {
					switch y := v.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if y.Addr != ssa.Value(fn.FreeVars[i]) || !onlyWhereNil(y) && errValueKind(y.Val, y.Block(), map[ssa.Value]bool{}) != retErr {
							return false
						}
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// onlyWhereNil: the store is made only when the variable holds nil.
func onlyWhereNil(st *ssa.Store) bool {
	for _, g := range guardsOf(st.Block()) {
		v, nonNil, ok := nilTest(g.Cond)
		if ld, isLd := v.(*ssa.UnOp); ok && isLd && ld.Op == token.MUL && ld.X == st.Addr && nonNil != g.True {
			return true
		}
	}
	return false
}

// private: a variable only its own function reads and writes directly (deferred calls cannot change it).
func private(addr ssa.Value) bool {
	al, ok := addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// assumed holds the parameters taken for errors while wrapsParams looks at their function.
var assumed = map[*ssa.Parameter]bool{}
var wrapsMemo = map[*ssa.Function][]int{}

// wrapsParams: the error parameters which, when not nil, make the (only, error) result of f not nil.
func wrapsParams(f *ssa.Function) []int {
	if got, ok := wrapsMemo[f]; ok {
		return got
	}
	wrapsMemo[f] = nil
	slot := errSlot(f.Signature)
	if f.Blocks == nil || !isRepoPkg(pkgPathOf(f)) || slot < 0 {
		return nil
	}
	var res []int
	for i, p := range f.Params {
		if !isErrorSlot(p.Type()) {
			continue
		}
		assumed[p] = true
		ok := true
		for _, b := range f.Blocks {
			if r, isR := lastInstr(b).(*ssa.Return); isR && knownNil(p, b) != retOK && errValueKind(r.Results[slot], b, map[ssa.Value]bool{}) != retErr {
				ok = false
			}
		}
		delete(assumed, p)
		if ok {
			res = append(res, i)
		}
	}
	wrapsMemo[f] = res
	return res
}

// alwaysNonNilErr: every return of f carries a non-nil error (constructors such as lib.NewUnsupportedError).
func alwaysNonNilErr(f *ssa.Function) bool {
	if got, ok := alwaysMemo[f]; ok {
		return got
	}
	alwaysMemo[f] = false
	slot := errSlot(f.Signature)
	if f.Blocks == nil || slot < 0 || !isRepoPkg(pkgPathOf(f)) && f.Signature.Results().Len() != 1 {
		return false
	}
	any := false
	for _, b := range f.Blocks {
		if r, ok := lastInstr(b).(*ssa.Return); ok {
			any = true
			if errValueKind(r.Results[slot], b, map[ssa.Value]bool{}) != retErr {
				return false
			}
		}
	}
	alwaysMemo[f] = any
	return any
}

var alwaysMemo = map[*ssa.Function]bool{}

// nilTest recognises conditions about v being nil (or, for slices, empty): returns whether true means non-nil.
func nilTest(cond ssa.Value) (v ssa.Value, trueMeansNonNil bool, ok bool) {
	b, isB := cond.(*ssa.BinOp)
	if !isB {
		return nil, false, false
	}
	x, y, op := b.X, b.Y, b.Op
	if c, okc := x.(*ssa.Const); okc && c.IsNil() {
		x, y = y, x
	}
	if c, okc := y.(*ssa.Const); okc && c.IsNil() {
		switch op {
		case token.NEQ:
			return x, true, true
		case token.EQL:
			return x, false, true
		}
		return nil, false, false
	}
	if isConstInt(x, 0) {
		x, y = y, x
		op = swapOp(op)
	}
	if s := lenOf(x); s != nil {
		if isConstInt(y, 0) {
			switch op {
			case token.GTR, token.NEQ:
				return s, true, true
			case token.EQL, token.LEQ:
				return s, false, true
			}
		}
		if isConstInt(y, 1) {
			switch op {
			case token.GEQ:
				return s, true, true
			case token.LSS:
				return s, false, true
			}
		}
	}
	return nil, false, false
}

func knownNil(v ssa.Value, at *ssa.BasicBlock) retKind {
	for _, g := range guardsOf(at) {
		if tv, nn, ok := nilTest(g.Cond); ok && tv == v {
			if nn == g.True {
				return retErr
			}
			return retOK
		}
	}
	return retMaybe
}

func knownNilLoad(ld *ssa.UnOp, at *ssa.BasicBlock) retKind {
	for _, g := range guardsOf(at) {
		if tv, nn, ok := nilTest(g.Cond); ok {
			if l2, ok := tv.(*ssa.UnOp); ok && l2.Op == token.MUL && l2.X == ld.X {
				if storedBetween(ld.X, g.If, ld) {
					continue
				}
				if nn == g.True {
					return retErr
				}
				return retOK
			}
		}
	}
	return retMaybe
}

// storedBetween: the variable may be given another value on the way from one instruction to the other.
func storedBetween(addr ssa.Value, from, to ssa.Instruction) bool {
	refs := addr.Referrers()
	if refs == nil {
		return false
	}
	for _, u := range *refs {
		if st, ok := u.(*ssa.Store); ok && st.Addr == addr && reaches(from, st) && reaches(st, to) {
			return true
		}
	}
	return false
}

// Guard is a branch whose outcome is fixed wherever the guarded block executes.
type Guard struct {
	If   *ssa.If
	Cond ssa.Value
	True bool
}

var guardCache = map[*ssa.BasicBlock][]Guard{}

// guardsOf lists the conditions known to hold at b (branch edges that dominate b), outermost last.
func guardsOf(b *ssa.BasicBlock) []Guard {
	if b == nil {
		return nil
	}
	if g, ok := guardCache[b]; ok {
		return g
	}
	var res []Guard
	for d := b; d != nil; d = d.Idom() {
		// edge idom -> ... : a block with a single predecessor ending in If fixes its condition
		if len(d.Preds) == 1 {
			p := d.Preds[0]
			if iff, ok := lastInstr(p).(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
				res = append(res, Guard{If: iff, Cond: stripNot(iff.Cond, p.Succs[0] == d).v, True: stripNot(iff.Cond, p.Succs[0] == d).t})
			}
		}
	}
	guardCache[b] = res
	return res
}

type posT = token.Pos

type vt struct {
	v ssa.Value
	t bool
}

func stripNot(v ssa.Value, t bool) vt {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return vt{v, t}
		}
		v, t = u.X, !t
	}
}

func (c *cfgInfo) findErrOnly(fn *ssa.Function) {
	// greatest fixpoint: assume all, remove blocks that can reach a non-error return
	c.errOnly = map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		c.errOnly[b] = true
	}
	c.oneway = map[*ssa.BasicBlock]bool{}
	for changed := true; changed; {
		changed = false
		for _, b := range fn.Blocks {
			if !c.errOnly[b] {
				continue
			}
			bad := false
			switch r := lastInstr(b).(type) {
			case *ssa.Return:
				bad = c.retKind(r) != retErr
			case *ssa.Panic:
			default:
				if callsNoReturn(b) {
					break
				}
				for _, s := range b.Succs {
					if !c.errOnly[s] {
						bad = true
					}
				}
			}
			if bad {
				c.errOnly[b] = false
				changed = true
			}
		}
	}
	// a block in an infinite loop would stay errOnly; harmless here
}

func callsNoReturn(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if call, ok := in.(*ssa.Call); ok {
			if f := call.Call.StaticCallee(); f != nil && f.String() == "os.Exit" {
				return true
			}
		}
	}
	return false
}

// partial reports whether the loop can be left before its collection is exhausted other than by failing.
func (c *cfgInfo) partialExit(l *Loop) *ssa.BasicBlock {
	for b := range l.Blocks {
		if b == l.Header {
			if l.Done != nil {
				continue
			}
		}
		if r, ok := lastInstr(b).(*ssa.Return); ok && c.retKind(r) != retErr {
			return b
		}
		for _, s := range b.Succs {
			if !l.Blocks[s] && !c.errOnly[s] && !(b == l.Header && s == l.Done) {
				return b
			}
		}
	}
	return nil
}

// avoidable: starting at block from (before its first instruction), can control reach one of the stop blocks (or a
// non-error return when stops is nil) without executing block b? Error-only blocks are ignored.
func (c *cfgInfo) avoidable(from, b *ssa.BasicBlock, within map[*ssa.BasicBlock]bool, stop func(*ssa.BasicBlock) bool) bool {
	if from == b {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := []*ssa.BasicBlock{from}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] || x == b || c.errOnly[x] {
			continue
		}
		if within != nil && !within[x] {
			continue
		}
		seen[x] = true
		if stop(x) {
			return true
		}
		stack = append(stack, x.Succs...)
	}
	return false
}

// mustExec: b executes on every path of the function that returns without a (known) error.
func (c *cfgInfo) mustExec(b *ssa.BasicBlock) bool {
	fn := b.Parent()
	return !c.avoidable(fn.Blocks[0], b, nil, func(x *ssa.BasicBlock) bool {
		r, ok := lastInstr(x).(*ssa.Return)
		return ok && c.retKind(r) != retErr
	})
}

// everyTurn: b executes on every completed turn of loop l.
func (c *cfgInfo) everyTurn(l *Loop, b *ssa.BasicBlock) bool {
	if l.Body == nil || b == l.Header {
		return b == l.Header
	}
	if l.Body == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := []*ssa.BasicBlock{l.Body}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == l.Header {
			return false
		}
		if seen[x] || x == b || c.errOnly[x] || !l.Blocks[x] {
			continue
		}
		seen[x] = true
		stack = append(stack, x.Succs...)
	}
	return true
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

// instrDominates: a executes before b whenever b executes.
func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// reaches: control can flow from just after a to b.
func reaches(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && instrIndex(a) < instrIndex(b) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	stack := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		stack = append(stack, x.Succs...)
	}
	return false
}
