package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", "For every call context that creates an index, all control-flow paths after a successful creation (returns with and without error) execute the removal of that index before the context is left: deferred unconditionally, or called on each path. Exits that skip deferred calls are forbidden in between, and the removal's failure must reach the result.", checkP01)
}

var examineCmds = []string{"db suggest mysql", "db suggest postgres", "db suggest hasura postgres"}

// step is the instruction executed in one frame of a call path.
type step struct {
	Fr *Frame
	In ssa.Instruction
}

// pathTo lists the call path from frame top down to instruction in of frame fr.
func pathTo(top, fr *Frame, in ssa.Instruction) []step {
	var res []step
	for f := fr; f != nil; f = f.Parent {
		res = append(res, step{f, in})
		if f == top {
			break
		}
		if f.Site == nil {
			break
		}
		in = f.Site
	}
	for i, j := 0, len(res)-1; i < j; i, j = i+1, j-1 {
		res[i], res[j] = res[j], res[i]
	}
	return res
}

func lca(x, y *Frame) *Frame {
	for f := x; f != nil; f = f.Parent {
		if isAncestor(f, y) {
			return f
		}
	}
	return nil
}

// outer keeps the part of an operation's path that lies outside of infrastructure code.
func (o *Op) outer(top *Frame) []step {
	ps := pathTo(top, o.Ev.Fr, o.Ev.In)
	var res []step
	for _, s := range ps {
		res = append(res, s)
		if s.Fr == o.In {
			break
		}
	}
	return res
}

func (w *World) opsKind(c *Command, kind string) []*Op {
	var res []*Op
	for _, o := range w.opsOf(c) {
		if o.Kind == kind {
			res = append(res, o)
		}
	}
	return res
}

func checkP01(w *World, r *Report) {
	for _, name := range examineCmds {
		c := w.Cmds[name]
		if c == nil || c.Run == nil {
			r.missing("command %q", name)
			continue
		}
		creates, drops := w.opsKind(c, "create-index"), w.opsKind(c, "drop-index")
		if len(creates) == 0 {
			r.missing("the creation of indexes examined by %q", name)
			continue
		}
		for _, cr := range creates {
			r.count("index creations", 1)
			var best []string
			var bestPos token.Pos
			bestDepth := -1
			ok := false
			for _, d := range drops {
				r.count("creation/removal pairs", 1)
				f := lca(cr.Ev.Fr, d.Ev.Fr)
				if f == nil {
					continue
				}
				pos, why := w.dropGuaranteed(r, f, cr, d)
				if len(why) == 0 {
					ok = true
					r.fact("%s: index created at %s is removed at %s, guarded in %s", name, w.P.pos(cr.Site.Pos()), w.P.pos(d.Site.Pos()), f.Fn)
					break
				}
				if f.depth > bestDepth {
					bestDepth, best, bestPos = f.depth, why, pos
				}
			}
			if !ok {
				if best == nil {
					r.failAt(w.P.pos(cr.Site.Pos()), cr.Ev.Fr.String(), "index is created but never dropped by %q", name)
					continue
				}
				for _, b := range best {
					r.failAt(w.P.pos(bestPos), cr.Ev.Fr.String(), "%s (index created at %s by %q)", b, w.P.pos(cr.Site.Pos()), name)
				}
			}
		}
		// leaving the process while an index may exist
		for _, e := range c.events {
			if exitsProcess(e.Callee) {
				for _, cr := range creates {
					if f := lca(cr.Ev.Fr, e.Fr); f != nil && f != c.Run {
						top := pathTo(f, cr.Ev.Fr, cr.Ev.In)[0].In
						other := pathTo(f, e.Fr, e.In)[0].In
						if reaches(top, other) {
							r.fail(e.In.Pos(), "process exits here while an examined index may still exist")
						}
					}
				}
			}
		}
	}
}

func exitsProcess(callee string) bool {
	switch callee {
	case "os.Exit", "syscall.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit",
		"github.com/rs/zerolog/log.Fatal", "(*github.com/rs/zerolog.Logger).Fatal":
		return true
	}
	return false
}

func (w *World) dropGuaranteed(r *Report, f *Frame, cr, d *Op) (token.Pos, []string) {
	cp, dp := cr.outer(f), d.outer(f)
	if len(cp) == 0 || len(dp) == 0 {
		return cr.Site.Pos(), []string{"creation and removal of the index share no calling function"}
	}
	ic, id := cp[0].In, dp[0].In
	ci := cfgOf(f.Fn)
	r.count("call path steps", len(cp)+len(dp))
	// no goroutines
	for _, s := range append(append([]step{}, cp...), dp...) {
		if _, ok := s.In.(*ssa.Go); ok {
			return s.In.Pos(), []string{"runs in a goroutine: the index may outlive the examination"}
		}
	}
	_, deferred := id.(*ssa.Defer)
	// loops
	lc, ld := ci.loopChain(ic.Block()), ci.loopChain(id.Block())
	if len(lc) != len(ld) || len(lc) > 0 && lc[0] != ld[0] {
		return id.Pos(), []string{"index is not dropped in the same turn of the loop that creates it"}
	}
	if deferred && len(ld) > 0 {
		return id.Pos(), []string{"deferred inside a loop: the index stays until all candidates are examined"}
	}
	for _, s := range cp[1:] {
		if len(cfgOf(s.Fr.Fn).loopChain(s.In.Block())) > 0 {
			return s.In.Pos(), []string{"several indexes may be created before one is dropped"}
		}
		if pos, bad := lossyError(s); bad {
			return pos, []string{"fails after the index was created, so that the caller believes there is nothing to drop"}
		}
	}
	// removal executes whenever its part of the path is entered
	for _, s := range dp[1:] {
		if exit := avoidStrict(s.Fr.Fn, s.In.Block()); exit != nil {
			return exit.Pos(), []string{"the index is not dropped on this path"}
		}
		if _, ok := s.In.(*ssa.Defer); ok {
			continue
		}
	}
	// after creation
	if deferred && instrDominates(id, ic) {
		return w.dropErr(f, d, dp)
	}
	if exit := w.escape(f, ic, id); exit != nil {
		return exit.Pos(), []string{"function is left here without dropping the index it created"}
	}
	if deferred {
		return w.dropErr(f, d, dp)
	}
	return 0, nil
}

// avoidStrict: a return (or panic) reachable from the entry without executing block b.
func avoidStrict(fn *ssa.Function, b *ssa.BasicBlock) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x == b {
			continue
		}
		seen[x] = true
		switch l := lastInstr(x).(type) {
		case *ssa.Return, *ssa.Panic:
			return l
		}
		st = append(st, x.Succs...)
	}
	return nil
}

// escape finds an exit of f's function reachable after ic succeeded without passing id.
func (w *World) escape(f *Frame, ic, id ssa.Instruction) ssa.Instruction {
	call, _ := ic.(ssa.CallInstruction)
	type node struct {
		b    *ssa.BasicBlock
		from int
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := []node{{ic.Block(), instrIndex(ic) + 1}}
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		stopped := false
		for _, in := range n.b.Instrs[n.from:] {
			if in == id {
				stopped = true
				break
			}
			switch x := in.(type) {
			case *ssa.Return, *ssa.Panic:
				return in
			case *ssa.If:
				s := stripNot(x.Cond, true)
				if v, nonNil, ok := nilTest(s.v); ok && call != nil && errDerives(v, call) {
					// skip the branch of the failed creation
					failed := 0
					if nonNil != s.t {
						failed = 1
					}
					ok := n.b.Succs[1-failed]
					if !seen[ok] {
						seen[ok] = true
						st = append(st, node{ok, 0})
					}
					stopped = true
				}
			}
			if stopped {
				break
			}
		}
		if stopped {
			continue
		}
		for _, s := range n.b.Succs {
			if !seen[s] {
				seen[s] = true
				st = append(st, node{s, 0})
			}
		}
	}
	return nil
}

// errDerives: v is the error of the call (possibly wrapped), whenever that error is not nil.
func errDerives(v ssa.Value, call ssa.CallInstruction) bool {
	return errDerives1(v, call, map[ssa.Value]bool{})
}

func errDerives1(v ssa.Value, call ssa.CallInstruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	cv, _ := call.(*ssa.Call)
	if cv == nil {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		if x == cv {
			return isErrorSlot(x.Type())
		}
		if g := x.Call.StaticCallee(); g != nil && wrapErr[g.String()] && len(x.Call.Args) > 0 {
			return errDerives1(x.Call.Args[0], call, seen)
		}
	case *ssa.Extract:
		return x.Tuple == ssa.Value(cv) && isErrorSlot(x.Type())
	case *ssa.ChangeInterface:
		return errDerives1(x.X, call, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if sv := lastStoreBefore(x); sv != nil {
				return errDerives1(sv, call, seen)
			}
		}
	case *ssa.Phi:
		n := 0
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			if !errDerives1(e, call, seen) {
				return false
			}
			n++
		}
		return n > 0
	}
	return false
}

// lossyError: after the call at s succeeded, its function can return an error of another origin.
func lossyError(s step) (token.Pos, bool) {
	call, ok := s.In.(*ssa.Call)
	if !ok {
		return 0, false
	}
	fn := s.Fr.Fn
	slot := errSlot(fn.Signature)
	for _, b := range fn.Blocks {
		ret, ok := lastInstr(b).(*ssa.Return)
		if !ok || !reaches(call, ret) {
			continue
		}
		if slot < 0 {
			continue
		}
		v := ret.Results[slot]
		if errValueKind(v, b, map[ssa.Value]bool{}) == retOK || errDerives(v, call) {
			continue
		}
		// inside the branch of the failed creation
		failed := false
		for _, g := range guardsOf(b) {
			if tv, nn, ok := nilTest(g.Cond); ok && nn == g.True && errDerives(tv, call) {
				failed = true
			}
		}
		if !failed {
			return ret.Pos(), true
		}
	}
	return 0, false
}

// dropErr: the failure of a deferred removal must reach the error result of the function.
func (w *World) dropErr(f *Frame, d *Op, dp []step) (token.Pos, []string) {
	if len(dp) < 2 {
		return dp[0].In.Pos(), []string{"failure to drop the index is ignored"}
	}
	cl := dp[1]
	call, ok := cl.In.(*ssa.Call)
	if !ok || !strings.Contains(cl.Fr.Fn.Name(), "$") && cl.Fr.Fn.Parent() == nil {
		// a method deferred directly: its error result is lost unless it writes a pointer
		call, _ = cl.In.(*ssa.Call)
	}
	if call == nil {
		return cl.In.Pos(), []string{"failure to drop the index is ignored"}
	}
	// cells of f's error result
	cells := map[*Term]bool{}
	slot := errSlot(f.Fn.Signature)
	for _, ret := range f.rets {
		if slot < 0 {
			break
		}
		if u, ok := ret.Results[slot].(*ssa.UnOp); ok && u.Op == token.MUL {
			cells[f.eval(u.X)] = true
		}
	}
	for _, b := range cl.Fr.Fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || !errDerives(st.Val, call) {
				continue
			}
			hit := false
			for _, t := range w.A.resolve(cl.Fr.eval(st.Addr)) {
				if cells[t] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			// only skipped when an error is reported already or there is nothing to report
			fine := true
			for _, g := range guardsOf(b) {
				v, nonNil, ok := nilTest(g.Cond)
				if !ok {
					fine = false
					continue
				}
				if errDerives(v, call) {
					if nonNil != g.True {
						fine = false
					}
					continue
				}
				u, isLoad := v.(*ssa.UnOp)
				if !isLoad {
					fine = false
					continue
				}
				res := false
				for _, t := range w.A.resolve(cl.Fr.eval(u.X)) {
					res = res || cells[t]
				}
				if !res || nonNil == g.True {
					fine = false
				}
			}
			if fine {
				return 0, nil
			}
		}
	}
	return call.Pos(), []string{"failure to drop the index does not reach the result"}
}
